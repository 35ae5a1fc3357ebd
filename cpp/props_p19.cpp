// P19: messages of randomly generated schemas against the reference implementation
#include "common.hpp"
#include "goog.hpp"
#include "jsonm.hpp"
#include "wire.hpp"
using namespace br;

static void must_equal(Case &c, const Msg &want, const Msg &got, const std::string &what, bool json = false)
{
    EqOpt o;
    o.nan_class = json;
    if (!msg_eq(want, got, o))
        c.fail(what + ": " + diff(want, got));
}
#define OBJ(name, t, m) \
    Obj name(t, m);     \
    if (Msg b_ = name.tree(); !msg_eq(m, b_)) c.fail("the generated struct does not keep the value: " + diff(m, b_))
static void plus_zero(Msg &m)
{
    for (size_t i = 0; i < m.f.size(); i++)
        for (auto &v : m.f[i].v)
        {
            auto k = m.t->f[i].kind;
            if (k == Kind::Double && v.n == 0x8000000000000000ull)
                v.n = 0;
            if (k == Kind::Float && v.n == 0x80000000u)
                v.n = 0;
            if (v.m)
                plus_zero(*v.m);
        }
}
// empty required strings are not written, which the reference implementation's json reader does not accept
static void fill_required(Msg &m)
{
    for (size_t i = 0; i < m.f.size(); i++)
    {
        auto &fi = m.t->f[i];
        for (auto &v : m.f[i].v)
        {
            if (fi.card == Card::Plain && (fi.kind == Kind::String || fi.kind == Kind::Bytes) && v.s.empty())
                v.s = "r";
            if (v.m)
                fill_required(*v.m);
        }
    }
}
static GenOpt opt(Case &c, bool json)
{
    GenOpt o;
    o.json_safe = json;
    o.nodes = c.chance(1, 12) ? 300 : 40;
    o.depth = 5;
    return o;
}
static Msg value(Case &c, const TypeOps &t, bool json, bool fill = false)
{
    c.note(std::string("type: ") + t.name);
    Msg m = gen_msg(c, t.info(), opt(c, json));
    if (fill)
        fill_required(m);
    c.note("value: " + render(m));
    if (set_fields(m) >= 1)
        c.nontrivial(h(render(m) + t.name));
    return m;
}

PBT(P19, pb, 24000, 80000, "at least one field is set")
{
    auto &t = pick_type(c);
    Msg m = value(c, t, false);
    OBJ(a, t, m);
    std::string b = pb_write(a);
    c.note("bytes: " + show(b));
    auto g = pb_read(t, b);
    c.check(g.ok, "own output is refused: " + g.err);
    must_equal(c, m, g.m, "value read back differs");
    // the reference implementation reads it
    Dyn d = goog_new(t.info());
    c.check(goog_parse(d, b), "the reference implementation refuses the output");
    c.check(!goog_has_unknown(d), "the reference implementation finds unknown fields: " + goog_debug(d));
    Msg x = goog_to(d, t.info()), want = m;
    normalise(want);
    normalise(x);
    must_equal(c, want, x, "the reference implementation reads another value");
    // and the other way round
    Dyn e = goog_from(m);
    std::string re = goog_serialize(e);
    auto g2 = pb_read(t, re);
    c.check(g2.ok, "the reference implementation's output is refused: " + g2.err);
    normalise(g2.m);
    must_equal(c, want, g2.m, "value read from the reference implementation's output differs");
}
PBT(P19, encodings, 16000, 50000, "at least one field is set")
{
    auto &t = pick_type(c);
    Msg m = value(c, t, false);
    WireVar v;
    v.order = c.chance(2, 3);
    v.pack = c.chance(2, 3);
    v.pad = c.chance(1, 3);
    v.mapvar = c.chance(1, 2);
    v.unknown = c.chance(1, 2);
    std::string b = wire_encode(m, &c, v);
    c.note("bytes: " + show(b));
    auto g = pb_read(t, b);
    c.check(g.ok, "a valid encoding is refused: " + g.err);
    must_equal(c, m, g.m, "value read differs");
    ChunkReader r{&b};
    r.chunks = gen_chunks(c);
    auto g2 = pb_read_chunks(t, r);
    c.check(g2.ok, "a valid encoding is refused by the reader: " + g2.err);
    must_equal(c, m, g2.m, "value read by a reader differs");
}
PBT(P19, json, 24000, 80000, "at least one field is set")
{
    auto &t = pick_type(c);
    bool fill = c.chance(1, 2);
    Msg m = value(c, t, true, fill);
    OBJ(a, t, m);
    std::string j = js_write(a);
    c.note("json: " + text(j));
    auto g = js_read(t, j);
    c.check(g.ok, "own json is refused: " + g.err);
    must_equal(c, m, g.m, "value read back from json differs", true);
    std::string err;
    JVal jv;
    if (!jparse(j, jv, err, true))
        c.fail("the output is not well-formed json: " + err);
    Dyn d = goog_new(t.info());
    if (!fill)
        fill_required(m);
    if (!goog_json_parse(d, fill ? j : js_write(Obj(t, m)), err))
        c.fail("the reference implementation refuses the json: " + err);
    Msg x = goog_to(d, t.info()), want = m;
    for (auto *q : {&x, &want})
    {
        normalise(*q);
        plus_zero(*q);
        normalise(*q);
    }
    must_equal(c, want, x, "the reference implementation reads another value from the json", true);
    // and the other way round
    JsonMode mode;
    mode.whitespace = c.chance(1, 2);
    mode.enums_as_ints = c.chance(1, 3);
    mode.proto_names = c.chance(1, 2);
    std::string k;
    if (!goog_json_print(goog_from(m), mode, k, err))
        c.fail("harness: the reference implementation does not print: " + err);
    c.note("reference json: " + text(k));
    auto g2 = js_read(t, k);
    c.check(g2.ok, "the reference implementation's json is refused: " + g2.err);
    Msg w = m;
    normalise(w);
    normalise(g2.m);
    must_equal(c, w, g2.m, "the reference implementation's json is read to another value", true);
}
PBT(P19, representations, 16000, 50000, "at least one field is set")
{
    auto &t = pick_type(c);
    Msg m = value(c, t, true);
    JsonVar v;
    v.keys = c.chance(2, 3);
    v.order = c.chance(1, 2);
    v.ws = c.chance(1, 2);
    v.esc = c.chance(1, 2);
    v.numstr = c.chance(1, 2);
    v.enumnum = c.chance(1, 2);
    v.nulls = c.chance(1, 2);
    v.unknown = c.chance(1, 2);
    std::string j = json_encode(m, &c, v);
    c.note("json: " + text(j));
    auto g = js_read(t, j);
    c.check(g.ok, "a valid representation is refused: " + g.err);
    must_equal(c, m, g.m, "a valid representation is read to another value", true);
}
// a fresh object holds what an empty input gives; required fields hold their default
PBT(P19, fresh, 2000, 4000, "every case")
{
    auto &t = pick_type(c);
    c.note(std::string("type: ") + t.name);
    c.nontrivial(h(t.name));
    Obj a(t);
    Msg m = a.tree();
    auto g = pb_read(t, "");
    c.check(g.ok, "empty input is refused: " + g.err);
    must_equal(c, m, g.m, "empty input gives another value than a fresh object");
    auto g2 = js_read(t, "{}");
    c.check(g2.ok, "{} is refused: " + g2.err);
    must_equal(c, m, g2.m, "{} gives another value than a fresh object", true);
    Dyn d = goog_new(t.info());
    Msg x = goog_to(d, t.info());
    for (size_t i = 0; i < m.f.size(); i++)
    {
        auto &fi = t.info().f[i];
        if (fi.card != Card::Plain)
        {
            c.check(m.f[i].v.empty(), std::string("field ") + fi.name + " is set in a fresh object");
            continue;
        }
        if (!fi.has_default)
            continue;
        Msg p(t.info()), q(t.info());
        p.f[i].v = m.f[i].v;
        q.f[i].v = x.f[i].v;
        must_equal(c, q, p, std::string("required field ") + fi.name + " starts with another value than its default", true);
    }
}
