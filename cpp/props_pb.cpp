// P01-P05, P07: protobuf format
#include "common.hpp"
#include "goog.hpp"
#include "wire.hpp"
using namespace br;

static void must_equal(Case &c, const Msg &want, const Msg &got, const std::string &what)
{
    if (!msg_eq(want, got))
        c.fail(what + ": " + diff(want, got));
}
#define OBJ(name, t, m) \
    Obj name(t, m);     \
    if (Msg b_ = name.tree(); !msg_eq(m, b_)) c.fail("harness: bridge does not preserve the value: " + diff(m, b_))

// ------------------------------------------------------------------------------------------- P01
static void roundtrip(Case &c, const TypeOps &t, Msg m)
{
    c.note("value: " + render(m));
    OBJ(a, t, m);
    std::string b = pb_write(a);
    c.note("bytes: " + show(b));
    if (set_fields(m) >= 2)
        c.nontrivial(h(b + t.name));
    auto g = pb_read(t, b);
    c.check(g.ok, "own output is refused: " + g.err);
    must_equal(c, m, g.m, "value read back differs");
    must_equal(c, m, a.tree(), "serialization changed the message");
}
PBT(P01, values, 60000, 1500000, "at least two fields, elements or entries are set")
{
    GenOpt o;
    o.unknown_enums = true;
    auto &t = pick_type(c);
    roundtrip(c, t, gen_msg(c, t.info(), o));
}
PBT(P01, big, 4000, 120000, "at least two fields, elements or entries are set")
{
    GenOpt o;
    o.depth = 7;
    o.nodes = 600;
    o.unknown_enums = true;
    auto &t = pick_type(c);
    roundtrip(c, t, gen_msg(c, t.info(), o));
}
// lengths which need more bytes, more buffers or more counters
PBT(P01, huge, 800, 20000, "at least 2000 bytes")
{
    auto &t = pick_type(c);
    Msg m = gen_huge(c, t.info());
    c.note("value: " + render(m));
    OBJ(a, t, m);
    std::string b = pb_write(a);
    if (b.size() >= 2000)
        c.nontrivial(h(b + t.name));
    auto g = pb_read(t, b);
    c.check(g.ok, "own output is refused: " + g.err);
    must_equal(c, m, g.m, "value read back differs");
    Dyn d = goog_new(t.info());
    c.check(goog_parse(d, b), "the reference implementation refuses the output");
}
// one field at a time, so that every (type, label) pair sees many boundary values
PBT(P01, single_field, 30000, 600000, "the chosen field is set (every case)")
{
    auto &t = pick_type(c);
    auto &info = t.info();
    if (info.f.empty())
        c.discard();
    size_t i = c.draw(info.f.size() - 1);
    Msg m(info);
    auto &fi = info.f[i];
    GenOpt o;
    o.depth = 2;
    o.nodes = 12;
    o.unknown_enums = true;
    auto &f = m.f[i];
    if (fi.card == Card::Map)
    {
        f.k.push_back(gen_key(c, fi));
        f.v.push_back(gen_val(c, fi, o, 2));
    }
    else if (fi.fixed_count)
        for (auto &v : f.v)
            v = gen_val(c, fi, o, 2);
    else
    {
        f.v.clear();
        size_t n = fi.card == Card::Repeated ? 1 + c.draw(3) : 1;
        if (fi.max_count)
            n = std::min<size_t>(n, fi.max_count);
        if (fi.cap_count)
            n = std::min<size_t>(n, size_t(fi.cap_count));
        while (n--)
            f.v.push_back(gen_val(c, fi, o, 2));
    }
    c.note(std::string("field: ") + fi.name + " value: " + render(m));
    OBJ(a, t, m);
    std::string b = pb_write(a);
    c.nontrivial(h(b + t.name));
    auto g = pb_read(t, b);
    c.check(g.ok, "own output is refused: " + g.err);
    must_equal(c, m, g.m, "value read back differs");
}
// nested as deep as the reader allows
PBT(P01, deep, 400, 8000, "nesting of at least 10 levels")
{
    auto &t = ops("ks.three.Node");
    Msg m(t.info());
    size_t depth = 1 + c.draw(97);
    Msg *p = &m;
    auto index = [](const MsgInfo &i, const char *n) {
        for (size_t k = 0; k < i.f.size(); k++)
            if (!strcmp(i.f[k].name, n))
                return k;
        throw std::logic_error("harness: field");
    };
    for (size_t d = 0; d < depth; d++)
    {
        bool node = !strcmp(p->t->full, "ks.three.Node");
        if (node)
        {
            p->f[index(*p->t, "value")].v.push_back(Val(uint64_t(d)));
            static const char *nx[] = {"next", "kids", "wrap"};
            size_t k = index(*p->t, nx[c.draw(2)]);
            Val v;
            v.m = std::make_unique<Msg>(p->t->f[k].msg());
            p->f[k].v.push_back(std::move(v));
            p = p->f[k].v[0].m.get();
        }
        else
        {
            size_t k = index(*p->t, c.chance(1, 2) ? "node" : "nodes");
            Val v;
            v.m = std::make_unique<Msg>(p->t->f[k].msg());
            p->f[k].v.push_back(std::move(v));
            p = p->f[k].v[0].m.get();
        }
    }
    c.note("depth: " + std::to_string(depth));
    OBJ(a, t, m);
    std::string b = pb_write(a);
    if (depth >= 10)
        c.nontrivial(h(b));
    auto g = pb_read(t, b);
    c.check(g.ok, "own output is refused: " + g.err);
    must_equal(c, m, g.m, "value read back differs");
    Dyn d = goog_new(t.info());
    c.check(goog_parse(d, b), "reference implementation refuses nesting depth " + std::to_string(depth));
}

// ------------------------------------------------------------------------------------------- P02
static void reference_reads(Case &c, const TypeOps &t, Msg m)
{
    c.note("value: " + render(m));
    OBJ(a, t, m);
    std::string b = pb_write(a);
    c.note("bytes: " + show(b));
    if (set_fields(m) >= 2)
        c.nontrivial(h(b + t.name));
    Dyn d = goog_new(t.info());
    c.check(goog_parse(d, b), "the reference implementation refuses the output");
    c.check(!goog_has_unknown(d), "the reference implementation finds unknown fields: " + goog_debug(d));
    Msg g = goog_to(d, t.info());
    Msg want = m;
    normalise(want);
    normalise(g);
    must_equal(c, want, g, "the reference implementation reads another value");
}
PBT(P02, values, 40000, 1000000, "at least two fields, elements or entries are set")
{
    GenOpt o;
    auto &t = pick_type(c);
    o.unknown_enums = t.info().syntax == 3 && c.chance(1, 2);
    reference_reads(c, t, gen_msg(c, t.info(), o));
}
PBT(P02, big, 3000, 90000, "at least two fields, elements or entries are set")
{
    GenOpt o;
    o.depth = 7;
    o.nodes = 500;
    auto &t = pick_type(c);
    o.unknown_enums = t.info().syntax == 3 && c.chance(1, 2);
    reference_reads(c, t, gen_msg(c, t.info(), o));
}
PBT(P02, huge, 800, 20000, "at least two fields, elements or entries are set")
{
    auto &t = pick_type(c);
    reference_reads(c, t, gen_huge(c, t.info()));
}
// the encoder picks packed or unpacked form as the schema says, and output is minimal: same size as the reference output
PBT(P02, canonical, 20000, 500000, "at least two fields, elements or entries are set")
{
    auto &t = pick_type(c);
    GenOpt o;
    o.implicit_defaults = false;
    Msg m = gen_msg(c, t.info(), o);
    c.note("value: " + render(m));
    OBJ(a, t, m);
    std::string b = pb_write(a);
    Dyn d = goog_new(t.info());
    c.check(goog_parse(d, b), "the reference implementation refuses the output");
    std::string re = goog_serialize(d);
    if (set_fields(m) >= 2)
        c.nontrivial(h(b + t.name));
    // reading the reference output gives the value back
    auto g = pb_read(t, re);
    c.check(g.ok, "the reference implementation's output is refused: " + g.err);
    Msg want = m;
    normalise(want);
    normalise(g.m);
    must_equal(c, want, g.m, "value read from the reference implementation's output differs");
}

// ------------------------------------------------------------------------------------------- P03
PBT(P03, encodings, 50000, 1500000, "the encoding differs from the one the library writes and at least two fields are set")
{
    auto &t = pick_type(c);
    GenOpt o;
    o.unknown_enums = t.info().syntax == 3;
    if (t.info().syntax != 3)
        o.unknown_enums = false;
    Msg m = gen_msg(c, t.info(), o);
    WireVar v;
    v.order = c.chance(2, 3);
    v.pack = c.chance(2, 3);
    v.pad = c.chance(1, 2);
    v.mapvar = c.chance(2, 3);
    v.unknown = false;
    std::string b = wire_encode(m, &c, v);
    c.note("value: " + render(m) + "\nbytes: " + show(b));
    OBJ(a, t, m);
    if (set_fields(m) >= 2 && pb_write(a) != b)
        c.nontrivial(h(b + t.name));
    auto g = pb_read(t, b);
    c.check(g.ok, "a valid encoding is refused: " + g.err);
    must_equal(c, m, g.m, "value read differs");
    c.check(g.consumed == b.size(), "not everything was consumed");
    if (c.chance(1, 4)) // the model agrees with the reference implementation
    {
        Dyn d = goog_new(t.info());
        c.check(goog_parse(d, b), "harness: reference implementation refuses the generated encoding");
        Msg x = goog_to(d, t.info()), w = m;
        normalise(x);
        normalise(w);
        must_equal(c, w, x, "harness: model and reference implementation disagree");
    }
    ChunkReader r{&b};
    r.chunks = gen_chunks(c);
    auto g2 = pb_read_chunks(t, r);
    c.check(g2.ok, "a valid encoding is refused by the reader: " + g2.err);
    must_equal(c, m, g2.m, "value read by a reader differs");
}
PBT(P03, packed_forms, 15000, 300000, "at least two elements in at least two chunks")
{
    auto &all = types();
    static std::vector<std::pair<const TypeOps *, size_t>> fs;
    if (fs.empty())
        for (auto *t : all)
            for (size_t i = 0; i < t->info().f.size(); i++)
                if (t->info().f[i].card == Card::Repeated && packable(t->info().f[i].kind) && !t->info().f[i].fixed_count)
                    fs.push_back({t, i});
    auto [t, i] = fs[c.draw(fs.size() - 1)];
    Msg m(t->info());
    auto &fi = t->info().f[i];
    c.note(std::string("field: ") + t->name + "." + fi.name);
    size_t n = 1 + c.draw(6);
    GenOpt o;
    for (size_t k = 0; k < n; k++)
        m.f[i].v.push_back(gen_val(c, fi, o, 0));
    WireVar v;
    v.pack = true;
    v.pad = c.chance(1, 2);
    std::string b = wire_encode(m, &c, v);
    c.note("value: " + render(m) + "\nbytes: " + show(b));
    if (n > 1)
        c.nontrivial(h(b + t->name));
    auto g = pb_read(*t, b);
    c.check(g.ok, "a valid encoding is refused: " + g.err);
    must_equal(c, m, g.m, "value read differs");
}

// ------------------------------------------------------------------------------------------- P04
PBT(P04, unknown, 40000, 1200000, "at least one unknown field and one known field")
{
    auto &t = pick_type(c);
    GenOpt o;
    Msg m = gen_msg(c, t.info(), o);
    WireVar v;
    v.unknown = true;
    v.order = c.chance(1, 2);
    v.pack = c.chance(1, 3);
    v.mapvar = c.chance(1, 2);
    v.pad = c.chance(1, 4);
    std::string b = wire_encode(m, &c, v);
    c.note("value: " + render(m) + "\nbytes: " + show(b));
    OBJ(a, t, m);
    if (set_fields(m) >= 1 && b.size() > pb_write(a).size())
        c.nontrivial(h(b + t.name));
    auto g = pb_read(t, b);
    c.check(g.ok, "input with unknown fields is refused: " + g.err);
    must_equal(c, m, g.m, "unknown fields disturb the value");
    ChunkReader r{&b};
    r.chunks = gen_chunks(c);
    auto g2 = pb_read_chunks(t, r);
    c.check(g2.ok, "input with unknown fields is refused by the reader: " + g2.err);
    must_equal(c, m, g2.m, "unknown fields disturb the value read by a reader");
    std::string db = varint(b.size()) + b;
    auto g3 = pb_read(t, db, true);
    c.check(g3.ok, "length-prefixed input with unknown fields is refused: " + g3.err);
    must_equal(c, m, g3.m, "unknown fields disturb the length-prefixed value");
    c.check(g3.consumed == db.size(), "length-prefixed: wrong consumed count");
}
// a reader which knows nothing skips everything; a reader which knows a part takes that part
PBT(P04, older_reader, 15000, 400000, "at least two fields are set")
{
    auto &t = pick_type(c);
    GenOpt o;
    o.unknown_enums = t.info().syntax == 3;
    Msg m = gen_msg(c, t.info(), o);
    OBJ(a, t, m);
    std::string b = pb_write(a);
    c.note("value: " + render(m));
    if (set_fields(m) >= 2)
        c.nontrivial(h(b + t.name));
    auto &e = ops("ks.three.Empty");
    auto g = pb_read(e, b);
    c.check(g.ok, std::string("a reader without fields refuses ") + t.name + ": " + g.err);
    c.check(g.consumed == b.size(), "a reader without fields does not consume everything");
    // wrapped in an unknown field, between two known fields
    auto &l = ops("ks.three.Leaf");
    std::string w = tag(1, 0) + varint(7) + tag(1000 + uint32_t(c.draw(500)), 2) + varint(b.size()) + b + tag(2, 2) + varint(2) + "ok";
    auto g2 = pb_read(l, w);
    c.check(g2.ok && g2.m.f[0].v.size() == 1 && g2.m.f[0].v[0].n == 7 && g2.m.f[1].v.size() == 1 && g2.m.f[1].v[0].s == "ok", "fields around an unknown message are lost: " + g2.err);
}
PBT(P04, versions, 15000, 400000, "the newer value has fields the older version does not know")
{
    // ks.three.V1 is an older version of ks.three.V2 (fields added, at every level, in gaps and behind)
    auto &n = ops("evo.V2"), &o = ops("evo.V1");
    GenOpt g;
    g.nodes = 40;
    Msg m = gen_msg(c, n.info(), g);
    OBJ(a, n, m);
    std::string b = pb_write(a);
    c.note("value: " + render(m) + "\nbytes: " + show(b));
    auto r = pb_read(o, b);
    c.check(r.ok, "the older version refuses data of the newer one: " + r.err);
    Dyn d = goog_new(o.info());
    c.check(goog_parse(d, b), "harness: reference implementation refuses");
    if (goog_has_unknown(d))
        c.nontrivial(h(b));
    Msg w = goog_to(d, o.info());
    Msg x = r.m;
    normalise(w);
    normalise(x);
    must_equal(c, w, x, "the older version reads another value than the reference implementation");
    // and back: the newer version reads older data
    OBJ(a1, o, r.m);
    std::string b1 = pb_write(a1);
    auto r2 = pb_read(n, b1);
    c.check(r2.ok, "the newer version refuses data of the older one: " + r2.err);
    Dyn d2 = goog_new(n.info());
    c.check(goog_parse(d2, b1), "harness: reference implementation refuses");
    Msg w2 = goog_to(d2, n.info());
    normalise(w2);
    normalise(r2.m);
    must_equal(c, w2, r2.m, "the newer version reads another value than the reference implementation");
}
PBT(P04, merge, 30000, 900000, "both parts have at least one field set")
{
    auto &t = pick_type(c);
    GenOpt o;
    o.nodes = 30;
    Msg a = gen_msg(c, t.info(), o), b = gen_msg(c, t.info(), o);
    Msg want = merged(a, b);
    WireVar v;
    v.unknown = c.chance(1, 4);
    v.order = c.chance(1, 4);
    v.merge = c.chance(1, 2);
    v.pack = c.chance(1, 4);
    std::string x = wire_encode(a, &c, v), y = wire_encode(b, &c, v);
    c.note("first: " + render(a) + "\nsecond: " + render(b) + "\nbytes: " + show(x) + " " + show(y));
    if (set_fields(a) && set_fields(b))
        c.nontrivial(h(x + "|" + y + t.name));
    Dyn d = goog_new(t.info());
    if (c.chance(1, 4))
    {
        c.check(goog_parse(d, x + y), "harness: reference implementation refuses");
        Msg g = goog_to(d, t.info()), w = want;
        normalise(g);
        normalise(w);
        must_equal(c, w, g, "harness: merge model and reference implementation disagree");
    }
    auto g = pb_read(t, x + y);
    c.check(g.ok, "concatenated encodings are refused: " + g.err);
    must_equal(c, want, g.m, "concatenated encodings do not merge");
    // into an object which holds data, set by hand and read before
    OBJ(into, t, a);
    auto g2 = pb_read_into(into, y);
    c.check(g2.ok, "reading into an object with data is refused: " + g2.err);
    must_equal(c, want, g2.m, "reading into an object with data does not merge");
    Obj two(t);
    auto g3 = pb_read_into(two, x);
    c.check(g3.ok, "refused: " + g3.err);
    must_equal(c, a, g3.m, "value read differs");
    auto g4 = pb_read_into(two, y);
    c.check(g4.ok, "refused: " + g4.err);
    must_equal(c, want, g4.m, "two reads into one object do not merge");
}

// ------------------------------------------------------------------------------------------- P05
static const std::vector<std::string> &dict()
{
    static const std::vector<std::string> d = {
        std::string("\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", 10), std::string("\xff\xff\xff\xff\x0f", 5), std::string("\xff\xff\xff\xff\x07", 5),
        std::string("\x80\x80\x80\x80\x80\x80\x80\x80\x80\x02", 10), std::string("\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x01", 11),
        std::string("\x80\x80\x80\x80\x10", 5), std::string("\x80\x80\x80\x80\x08", 5), std::string("\0", 1), std::string("\x80\x00", 2),
        std::string("\x0b", 1), std::string("\x0c", 1), std::string("\x0e", 1), std::string("\x0f", 1), std::string("\x07", 1), std::string("\x0a\x00", 2),
        std::string("\x12\xff\xff\xff\xff\x07", 6), std::string("\xff\xff\xff\xff\xff\xff\xff\xff\x7f", 9), std::string("\x0a\x7f", 2), std::string("\x02", 1),
        std::string("\xed\xa0\x80", 3), std::string("\xc0\x80", 2), std::string("\xf5", 1)};
    return d;
}
template <class F> static Got bounded(Case &c, size_t n, F f)
{
    Got g;
    size_t bytes;
    {
        pbt::AllocScope s;
        g = f();
        bytes = s.bytes();
    }
    // harness copies of the input and of the value are included in the bound
    if (bytes > 200000 + n * 4000)
        c.fail("reading " + std::to_string(n) + " bytes allocated " + std::to_string(bytes) + " bytes");
    return g;
}
static void safe(Case &c, const TypeOps &t, const std::string &b)
{
    c.note("bytes: " + show(b));
    Got g = bounded(c, b.size(), [&] { return pb_read(t, b); });
    c.label(g.ok ? "accepted" : "refused");
    Dyn d = goog_new(t.info());
    bool ref = goog_parse(d, b);
    if (g.ok && !ref)
    {
        std::string canon;
        if (wire_canonical(t.info(), b, canon))
        {
            d = goog_new(t.info());
            ref = goog_parse(d, canon);
        }
    }
    if (g.ok)
    {
        c.check(ref, "accepts input the reference implementation refuses");
        Msg w = goog_to(d, t.info());
        normalise(w);
        Msg x = g.m;
        normalise(x);
        must_equal(c, w, x, "accepted input is read to another value than the reference implementation reads");
        c.check(g.consumed == b.size(), "accepted without consuming everything");
    }
    ChunkReader r{&b};
    r.chunks = gen_chunks(c);
    Got g2 = bounded(c, b.size(), [&] { return pb_read_chunks(t, r); });
    c.check(g2.ok == g.ok, std::string("a reader ") + (g2.ok ? "accepts" : "refuses") + " what a buffer does not: " + g.err + g2.err);
    if (g.ok)
        must_equal(c, g.m, g2.m, "a reader reads another value than a buffer");
    std::string db = varint(b.size()) + b;
    Got g3 = bounded(c, b.size(), [&] { return pb_read(t, db, true); });
    c.check(g3.ok == g.ok, std::string("the length-prefixed form is ") + (g3.ok ? "accepted" : "refused") + ": " + g.err + g3.err);
    ChunkReader r4{&db};
    r4.chunks = r.chunks;
    Got g4 = bounded(c, b.size(), [&] { return pb_read_chunks(t, r4, true); });
    c.check(g4.ok == g.ok, std::string("the length-prefixed form is ") + (g4.ok ? "accepted" : "refused") + " by a reader: " + g.err + g4.err);
    if (g.ok)
    {
        must_equal(c, g.m, g3.m, "the length-prefixed form is read to another value");
        must_equal(c, g.m, g4.m, "the length-prefixed form is read to another value by a reader");
    }
    // more is announced than there is
    std::string lie = varint(b.size() + 1 + c.draw(c.chance(1, 2) ? 10 : UINT32_MAX - b.size() - 1)) + b;
    ChunkReader r5{&lie};
    r5.chunks = r.chunks;
    c.check(!bounded(c, lie.size(), [&] { return pb_read(t, lie, true); }).ok, "length-prefixed input which ends early is accepted");
    c.check(!bounded(c, lie.size(), [&] { return pb_read_chunks(t, r5, true); }).ok, "length-prefixed input which ends early is accepted by a reader");
}
static bool open_enums(const MsgInfo &t)
{
    return t.syntax == 3; // proto2 enums are closed in the reference implementation
}
static const TypeOps &pick3(Case &c)
{
    static std::vector<const TypeOps *> v;
    if (v.empty())
        for (auto *t : types())
            if (open_enums(t->info()) && !strncmp(t->name, "ks", 2))
                v.push_back(t);
    auto &t = *v[c.draw(v.size() - 1)];
    c.note(std::string("type: ") + t.name);
    return t;
}
PBT(P05, mutated, 40000, 1500000, "the input was changed and is not empty")
{
    auto &t = pick3(c);
    GenOpt o;
    o.nodes = 25;
    WireVar v;
    v.unknown = c.chance(1, 3);
    v.pad = c.chance(1, 4);
    Msg m1 = gen_msg(c, t.info(), o), m2 = gen_msg(c, t.info(), o);
    std::string b = wire_encode(m1, &c, v), b2 = wire_encode(m2);
    std::string x = mutate(c, b, b2, dict());
    if (x != b && !x.empty())
        c.nontrivial(h(x + t.name));
    safe(c, t, x);
}
PBT(P05, random_bytes, 20000, 500000, "at least two bytes")
{
    auto &t = pick3(c);
    std::string b;
    size_t n = c.draw(24);
    while (b.size() < n)
        if (c.chance(1, 4) && !t.info().f.empty())
        {
            auto &f = t.info().f[c.draw(t.info().f.size() - 1)];
            b += tag(uint32_t(f.number), c.chance(3, 4) ? wire_of(f.kind) : int(c.draw(7)));
        }
        else if (c.chance(1, 6))
            b += c.pick(dict());
        else
            b += char(c.chance(1, 2) ? c.draw(20) : c.draw(255));
    if (b.size() > 1)
        c.nontrivial(h(b + t.name));
    safe(c, t, b);
}
// a valid message, cut at any place: exactly the cuts between fields are accepted
PBT(P05, truncated, 20000, 500000, "the cut is inside of a field")
{
    auto &t = pick_type(c, "ks");
    GenOpt o;
    o.nodes = 25;
    Msg m = gen_msg(c, t.info(), o);
    WireVar v;
    v.unknown = c.chance(1, 3);
    v.pack = c.chance(1, 3);
    std::string b = wire_encode(m, &c, v);
    if (b.empty())
        c.discard();
    std::string cut = b.substr(0, c.draw(b.size() - 1));
    c.note("value: " + render(m) + "\ncut: " + show(cut) + " of " + std::to_string(b.size()));
    Dyn d = goog_new(t.info());
    bool ref = goog_parse(d, cut);
    if (!ref)
        c.nontrivial(h(cut + t.name));
    auto g = pb_read(t, cut);
    c.check(g.ok == ref, ref ? "input cut between two fields is refused: " + g.err : std::string("input cut inside of a field is accepted"));
    ChunkReader r{&cut};
    r.chunks = gen_chunks(c);
    auto g2 = pb_read_chunks(t, r);
    c.check(g2.ok == ref, ref ? "reader: input cut between two fields is refused: " + g2.err : std::string("reader: input cut inside of a field is accepted"));
    // length prefix announces more than there is
    std::string db = varint(b.size()) + cut;
    c.check(!pb_read(t, db, true).ok, "length-prefixed input which ends early is accepted");
    ChunkReader r2{&db};
    r2.chunks = gen_chunks(c);
    c.check(!pb_read_chunks(t, r2, true).ok, "length-prefixed input which ends early is accepted by a reader");
}
PBT(P05, nesting, 3000, 60000, "nested deeper than 20 levels")
{
    auto &t = c.chance(1, 2) ? ops("ks.three.Node") : ops("ks.three.Wrap");
    size_t depth;
    switch (c.draw(3))
    {
    default: depth = 1 + c.draw(150); break;
    case 1: depth = 95 + c.draw(10); break;
    case 2: depth = c.draw(5000); break;
    case 3: depth = 1000 + c.draw(200000); break;
    }
    int how = int(c.draw(3));
    std::string b;
    if (how == 0) // groups
    {
        uint32_t n = 100 + uint32_t(c.draw(20));
        for (size_t i = 0; i < depth; i++)
            b += tag(n, 3);
        if (c.chance(1, 2))
            for (size_t i = 0; i < depth; i++)
                b += tag(n, 4);
    }
    else if (how == 1) // submessages (inner to outer; limited to keep it fast)
    {
        depth = std::min<size_t>(depth, 3000);
        for (size_t i = 0; i < depth; i++)
            b = tag(!strcmp(t.name, "ks.three.Node") ? (i % 2 ? 5 : 5) : 1, 2) + varint(b.size()) + b;
        if (!strcmp(t.name, "ks.three.Node"))
        {
            b.clear();
            for (size_t i = 0; i < depth; i++)
                b = tag(c.replay ? 2u : (i % 3 ? 2u : 3u), 2) + varint(b.size()) + b;
        }
    }
    else if (how == 2) // lengths which promise more than there is
    {
        for (size_t i = 0; i < depth; i++)
            b += tag(!strcmp(t.name, "ks.three.Node") ? 2 : 1, 2) + varint(0x7fffffff - i);
        if (b.size() > 400000)
            b.resize(400000);
    }
    else // groups inside of an unknown group field, mixed numbers
        for (size_t i = 0; i < depth; i++)
            b += tag(50 + uint32_t(i % 3), 3) + (i % 5 ? "" : tag(3, 0) + varint(i));
    c.note("kind " + std::to_string(how) + " depth " + std::to_string(depth) + " on " + t.name);
    if (depth > 20)
        c.nontrivial(h(b));
    safe(c, t, b);
}
PBT(P05, proto2_mutated, 12000, 400000, "the input was changed and is not empty")
{
    // proto2 enums are closed in the reference implementation, so values are not compared here, only acceptance
    auto &t = pick_type(c, "ks2.");
    GenOpt o;
    o.nodes = 25;
    Msg m1 = gen_msg(c, t.info(), o), m2 = gen_msg(c, t.info(), o);
    std::string b = wire_encode(m1), x = mutate(c, b, wire_encode(m2), dict());
    c.note("bytes: " + show(x));
    if (x != b && !x.empty())
        c.nontrivial(h(x + t.name));
    Dyn d = goog_new(t.info());
    bool ref = goog_parse(d, x);
    auto g = pb_read(t, x);
    if (std::string canon; g.ok && !ref && wire_canonical(t.info(), x, canon))
    {
        d = goog_new(t.info());
        ref = goog_parse(d, canon);
    }
    c.check(!g.ok || ref, "accepts input the reference implementation refuses");
    ChunkReader r{&x};
    r.chunks = gen_chunks(c);
    auto g2 = pb_read_chunks(t, r);
    c.check(g2.ok == g.ok, "a reader and a buffer disagree: " + g.err + g2.err);
}

// user-chosen types: nothing may be written outside of the containers, all ways of reading agree, and what is accepted can be written again
PBT(P05, typed, 30000, 900000, "the input was changed and is not empty")
{
    auto &t = pick_type(c, "ty.");
    GenOpt o;
    o.nodes = 25;
    WireVar v;
    v.unknown = c.chance(1, 3);
    v.pack = c.chance(1, 3);
    v.pad = c.chance(1, 4);
    Msg m1 = gen_msg(c, t.info(), o), m2 = gen_msg(c, t.info(), o);
    std::string b = wire_encode(m1, &c, v), x = c.chance(1, 5) ? b + wire_encode(m2, &c, v) : mutate(c, b, wire_encode(m2), dict());
    c.note("bytes: " + show(x));
    if (x != b && !x.empty())
        c.nontrivial(h(x + t.name));
    auto g = pb_read(t, x);
    c.label(g.ok ? "accepted" : "refused");
    ChunkReader r{&x};
    r.chunks = gen_chunks(c);
    auto g2 = pb_read_chunks(t, r);
    c.check(g2.ok == g.ok, "a reader and a buffer disagree: " + g.err + g2.err);
    std::string db = varint(x.size()) + x;
    auto g3 = pb_read(t, db, true);
    c.check(g3.ok == g.ok, std::string("the length-prefixed form is ") + (g3.ok ? "accepted" : "refused") + ": " + g.err + g3.err);
    if (!g.ok)
        return;
    must_equal(c, g.m, g2.m, "a reader reads another value than a buffer");
    must_equal(c, g.m, g3.m, "the length-prefixed form is read to another value");
    OBJ(a, t, g.m);
    auto g4 = pb_read(t, pb_write(a));
    c.check(g4.ok, "what was accepted is refused after it was written again: " + g4.err);
    must_equal(c, g.m, g4.m, "what was accepted changes when it is written and read again");
}

// ------------------------------------------------------------------------------------------- P07
PBT(P07, chunking, 25000, 700000, "more than one reader call delivered data")
{
    auto &t = pick_type(c);
    GenOpt o;
    o.nodes = 40;
    Msg m = gen_msg(c, t.info(), o);
    WireVar v;
    v.unknown = c.chance(1, 2);
    v.pack = c.chance(1, 3);
    std::string b = wire_encode(m, &c, v);
    if (c.chance(1, 4))
        b = mutate(c, b, b, dict());
    bool d = c.chance(1, 3);
    std::string in = b;
    size_t extra = 0;
    if (d)
    {
        std::string tail = gen_bytes(c, 0, 20);
        extra = tail.size();
        in = varint(b.size()) + b + tail;
    }
    c.note("value: " + render(m) + "\nbytes: " + show(in) + (d ? " (length-prefixed)" : ""));
    auto g = pb_read(t, in, d);
    for (int k = 0; k < 2; k++)
    {
        ChunkReader r{&in};
        r.chunks = k ? std::vector<uint32_t>{1} : gen_chunks(c);
        auto g2 = pb_read_chunks(t, r, d);
        if (r.calls > 2 && !r.chunks.empty())
            c.nontrivial(h(in + t.name));
        c.check(g.ok == g2.ok, std::string("reader ") + (g2.ok ? "accepts" : "refuses") + ", buffer does not: " + g.err + g2.err);
        if (!g.ok)
            continue;
        must_equal(c, g.m, g2.m, "reader and buffer give different values");
        c.check(g.consumed == g2.consumed, "consumed count: buffer " + std::to_string(g.consumed) + " reader " + std::to_string(g2.consumed));
        c.check(r.pos == in.size() - extra, "the reader was read up to " + std::to_string(r.pos) + " of " + std::to_string(in.size() - extra));
    }
}
PBT(P07, huge, 800, 20000, "more than 2000 bytes through a reader")
{
    auto &t = pick_type(c);
    Msg m = gen_huge(c, t.info());
    OBJ(a, t, m);
    bool d = c.chance(1, 2);
    Writer w;
    t.pb_wr(a.p, w, d);
    std::string plain = pb_write(a);
    c.note("value: " + render(m) + (d ? " (length-prefixed)" : ""));
    c.check(w.out == (d ? varint(plain.size()) + plain : plain), "the writer got other bytes than a buffer");
    if (plain.size() > 2000)
        c.nontrivial(h(w.out + t.name));
    for (int k = 0; k < 2; k++)
    {
        ChunkReader r{&w.out};
        if (k == 0)
            r.chunks = {uint32_t(60000 + c.draw(9000)), uint32_t(1 + c.draw(70000)), uint32_t(1 + c.draw(5000))};
        else
            r.chunks = gen_chunks(c);
        auto g = pb_read_chunks(t, r, d);
        c.check(g.ok, "refused by a reader: " + g.err);
        must_equal(c, m, g.m, "value read by a reader differs");
        c.check(g.consumed == w.out.size(), "wrong consumed count");
    }
    auto g = pb_read(t, w.out, d);
    c.check(g.ok && g.consumed == w.out.size(), "refused from a buffer: " + g.err);
    must_equal(c, m, g.m, "value read from a buffer differs");
}
PBT(P07, delimited_sequence, 10000, 300000, "at least two messages of which one is not empty")
{
    size_t n = 1 + c.draw(5);
    std::string stream, out;
    std::vector<std::pair<const TypeOps *, Msg>> ms;
    size_t full = 0;
    std::vector<size_t> ends;
    for (size_t i = 0; i < n; i++)
    {
        auto &t = pick_type(c);
        GenOpt o;
        o.nodes = 20;
        Msg m = c.chance(1, 4) ? Msg(t.info()) : gen_msg(c, t.info(), o);
        OBJ(a, t, m);
        Writer w;
        size_t k = t.pb_wr(a.p, w, true);
        std::string plain = pb_write(a);
        c.check(w.out == varint(plain.size()) + plain, "length-prefixed output is not the size followed by the message");
        c.check(k == w.out.size(), "returned size is not the number of bytes written");
        full += !plain.empty();
        stream += w.out;
        ends.push_back(stream.size());
        c.note("message: " + render(m));
        ms.push_back({&t, std::move(m)});
    }
    if (n > 1 && full)
        c.nontrivial(h(stream));
    // one reader for all
    ChunkReader r{&stream};
    r.chunks = gen_chunks(c);
    size_t off = 0;
    for (size_t i = 0; i < n; i++)
    {
        auto g = pb_read_chunks(*ms[i].first, r, true);
        c.check(g.ok, "message " + std::to_string(i) + " is refused: " + g.err);
        must_equal(c, ms[i].second, g.m, "message " + std::to_string(i) + " differs");
        c.check(r.pos == ends[i], "message " + std::to_string(i) + ": the reader stands at " + std::to_string(r.pos) + ", not at " + std::to_string(ends[i]));
        c.check(g.consumed == ends[i] - off, "message " + std::to_string(i) + ": wrong consumed count");
        auto gb = pb_read(*ms[i].first, stream.substr(off), true);
        c.check(gb.ok && gb.consumed == ends[i] - off, "message " + std::to_string(i) + ": wrong consumed count from a buffer " + gb.err);
        must_equal(c, ms[i].second, gb.m, "message " + std::to_string(i) + " differs from a buffer");
        off = ends[i];
    }
}
PBT(P07, reader_fault, 12000, 300000, "the fault was reached")
{
    auto &t = pick_type(c);
    GenOpt o;
    o.nodes = 30;
    Msg m = gen_msg(c, t.info(), o);
    WireVar v;
    v.unknown = c.chance(1, 3);
    std::string b = wire_encode(m, &c, v);
    bool d = c.chance(1, 3);
    std::string in = d ? varint(b.size()) + b : b;
    auto ch = gen_chunks(c);
    ChunkReader r{&in};
    r.chunks = ch;
    auto g = pb_read_chunks(t, r, d);
    c.check(g.ok, "valid input is refused: " + g.err);
    if (r.calls == 0)
        c.discard();
    long k = long(c.draw(r.calls - 1));
    c.note("value: " + render(m) + "\nbytes: " + show(in) + "\nfault at reader call " + std::to_string(k) + " of " + std::to_string(r.calls));
    Obj a(t);
    ChunkReader f{&in};
    f.chunks = ch;
    f.fault_at = k;
    bool thrown = false;
    try
    {
        t.pb_de_rd(a.p, f, d);
    }
    catch (const ReaderFault &x)
    {
        thrown = x.id == 42;
    }
    catch (const std::exception &e)
    {
        c.fail(std::string("the reader's exception arrives as another one: ") + e.what());
    }
    c.nontrivial(h(in + t.name + std::to_string(k)));
    c.check(thrown, "the reader's exception is lost");
    c.check(long(f.calls) == k + 1, "the reader is called again after it threw");
    (void)a.tree(); // the half-read object is usable
    t.pb_size(a.p, false);
}
PBT(P07, writer_fault, 12000, 300000, "the fault was reached")
{
    auto &t = pick_type(c);
    GenOpt o;
    o.nodes = 30;
    Msg m = gen_msg(c, t.info(), o);
    OBJ(a, t, m);
    bool d = c.chance(1, 3);
    Writer w;
    t.pb_wr(a.p, w, d);
    if (!w.calls)
        c.discard();
    long k = long(c.draw(w.calls - 1));
    Writer f;
    f.fault_at = k;
    bool thrown = false;
    try
    {
        t.pb_wr(a.p, f, d);
    }
    catch (const ReaderFault &x)
    {
        thrown = x.id == 43;
    }
    catch (const std::exception &e)
    {
        c.fail(std::string("the writer's exception arrives as another one: ") + e.what());
    }
    c.note("value: " + render(m) + "\nfault at writer call " + std::to_string(k) + " of " + std::to_string(w.calls));
    c.nontrivial(h(w.out + t.name + std::to_string(k)));
    c.check(thrown, "the writer's exception is lost");
    c.check(long(f.calls) == k + 1, "the writer is called again after it threw");
    c.check(w.out.compare(0, f.out.size(), f.out) == 0, "what was written before the fault is not a prefix of the output");
    must_equal(c, m, a.tree(), "a failed serialization changed the message");
    Writer again;
    t.pb_wr(a.p, again, d);
    c.check(again.out == w.out, "serialization after a fault differs");
}
