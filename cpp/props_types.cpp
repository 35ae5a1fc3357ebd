// P15, P16, P18: limits, integer ranges, type mappings
#include "common.hpp"
#include "jsonm.hpp"
#include "wire.hpp"
#include <functional>
#include <map>
#include <regex>
using namespace br;

static void must_equal(Case &c, const Msg &want, const Msg &got, const std::string &what)
{
    EqOpt o;
    o.nan_class = true;
    if (!msg_eq(want, got, o))
        c.fail(what + ": " + diff(want, got));
}
#define OBJ(name, t, m) \
    Obj name(t, m);     \
    if (Msg b_ = name.tree(); !msg_eq(m, b_)) c.fail("harness: bridge does not preserve the value: " + diff(m, b_))
static GenOpt mopt(int nodes, int depth = 4)
{
    GenOpt o;
    o.json_safe = true;
    o.nodes = nodes;
    o.depth = depth;
    return o;
}
// a required string or bytes without content may be left out, and is then read back as empty: trees are equal
// ------------------------------------------------------------------------------------------- P18
struct Twins
{
    const TypeOps *x, *d;
};
static const std::vector<Twins> &twins()
{
    static std::vector<Twins> v;
    if (v.empty())
        for (auto *t : types("ty."))
            if (auto *d = find_ops(std::string(t->name) + "D"))
            {
                v.push_back({t, d});
                auto &a = t->info();
                auto &b = d->info();
                if (a.f.size() != b.f.size())
                    throw std::logic_error("harness: twins differ");
                for (size_t i = 0; i < a.f.size(); i++)
                    if (a.f[i].number != b.f[i].number || a.f[i].kind != b.f[i].kind || a.f[i].card != b.f[i].card || strcmp(a.f[i].name, b.f[i].name))
                        throw std::logic_error("harness: twins differ");
            }
    return v;
}
static Msg relabel(const Msg &m, const MsgInfo &to)
{
    Msg r;
    r.t = &to;
    r.f = m.f;
    for (size_t i = 0; i < r.f.size(); i++)
        for (auto &v : r.f[i].v)
            if (v.m)
                *v.m = relabel(*v.m, to.f[i].msg());
    return r;
}
static void replace_all(std::string &s, const std::string &a, const std::string &b)
{
    for (size_t p = 0; (p = s.find(a, p)) != s.npos; p += b.size())
        s.replace(p, a.size(), b);
}
// names of enum values have a D in the twin
static std::string enum_names(std::string s, bool to_twin)
{
    for (std::string e : {"E8", "EU8", "E16", "EU16", "E32", "E8L", "EU8L", "EU16L"})
        replace_all(s, "\"" + e + (to_twin ? "_" : "D_"), "\"" + e + (to_twin ? "D_" : "_"));
    return s;
}
static bool has_unordered(const MsgInfo &t)
{
    for (auto &f : t.f)
        if (f.unordered)
            return true;
    return false;
}
// json text with the members of objects sorted
static std::string canon(const JVal &v)
{
    switch (v.t)
    {
    case JVal::Null: return "null";
    case JVal::True: return "true";
    case JVal::False: return "false";
    case JVal::Num: return v.s;
    case JVal::Str: return json_string(v.s, nullptr, false);
    case JVal::Arr: {
        std::string s = "[";
        for (auto &x : v.a)
            s += canon(x) + ",";
        return s + "]";
    }
    case JVal::Obj: {
        std::map<std::string, std::string> m;
        for (size_t i = 0; i < v.a.size(); i++)
            m[v.k[i]] = canon(v.a[i]);
        std::string s = "{";
        for (auto &[k, x] : m)
            s += json_string(k, nullptr, false) + ":" + x + ",";
        return s + "}";
    }
    }
    return "";
}
static std::string canon_text(Case &c, const std::string &s, const char *what)
{
    JVal v;
    std::string err;
    if (!jparse(s, v, err))
        c.fail(std::string(what) + " is not json: " + err);
    return canon(v);
}
static bool has_fixed(const MsgInfo &t)
{
    for (auto &f : t.f)
        if (f.fixed_count)
            return true;
    return false;
}
static bool within(const Msg &m); // all limits of m's type are respected
PBT(P18, same_format, 40000, 1200000, "at least two fields, elements or entries are set")
{
    auto &tw = twins()[c.draw(twins().size() - 1)];
    c.note(std::string("type: ") + tw.x->name);
    c.label(std::string("type:") + tw.x->name);
    auto &t = *tw.x;
    auto &d = *tw.d;
    Msg m = gen_msg(c, t.info(), mopt(40));
    c.note("value: " + render(m));
    Msg md = relabel(m, d.info());
    OBJ(a, t, m);
    OBJ(b, d, md);
    if (set_fields(m) >= 2)
        c.nontrivial(h(render(m) + t.name));
    std::string pa = pb_write(a), pb = pb_write(b);
    std::string ja = js_write(a), jb = js_write(b);
    bool un = has_unordered(t.info());
    if (!un)
    {
        if (pa != pb)
            c.fail("protobuf " + show(pa) + " instead of " + show(pb));
        if (std::string x = enum_names(jb, false); ja != x)
            c.fail("json " + text(ja) + " instead of " + text(x));
    }
    else
    {
        if (pa.size() != pb.size())
            c.fail("protobuf " + show(pa) + " instead of " + show(pb));
        auto x = canon_text(c, ja, "json"), y = canon_text(c, enum_names(jb, false), "json of the twin");
        if (x != y)
            c.fail("json " + text(ja) + " instead of " + text(jb));
    }
    auto g = pb_read(t, pb);
    if (!g.ok)
        c.fail("protobuf of the default mapping is refused: " + g.err);
    must_equal(c, m, g.m, "protobuf of the default mapping");
    g = pb_read(d, pa);
    if (!g.ok)
        c.fail("protobuf is refused by the default mapping: " + g.err);
    must_equal(c, md, g.m, "protobuf read by the default mapping");
    g = js_read(t, enum_names(jb, false));
    if (!g.ok)
        c.fail("json of the default mapping is refused: " + g.err);
    must_equal(c, m, g.m, "json of the default mapping");
    g = js_read(d, enum_names(ja, true));
    if (!g.ok)
        c.fail("json is refused by the default mapping: " + g.err);
    must_equal(c, md, g.m, "json read by the default mapping");
}
PBT(P18, same_reading, 30000, 900000, "at least two fields, elements or entries are set")
{
    auto &tw = twins()[c.draw(twins().size() - 1)];
    c.note(std::string("type: ") + tw.x->name);
    c.label(std::string("type:") + tw.x->name);
    auto &t = *tw.x;
    auto &d = *tw.d;
    Msg m = gen_msg(c, t.info(), mopt(40));
    c.note("value: " + render(m));
    Msg md = relabel(m, d.info());
    if (set_fields(m) >= 2)
        c.nontrivial(h(render(m) + t.name));
    WireVar v;
    v.order = v.pad = v.mapvar = v.unknown = v.pack = c.chance(2, 3);
    std::string b = wire_encode(m, &c, v);
    c.note("protobuf: " + show(b));
    auto x = pb_read(t, b), y = pb_read(d, b);
    if (!y.ok)
        c.fail("the default mapping refuses: " + y.err);
    if (!x.ok)
        c.fail("refused, but not by the default mapping: " + x.err);
    must_equal(c, md, y.m, "the default mapping");
    must_equal(c, m, x.m, "protobuf");
    ChunkReader r;
    r.s = &b;
    r.chunks = gen_chunks(c);
    x = pb_read_chunks(t, r);
    if (!x.ok)
        c.fail("refused from a reader: " + x.err);
    must_equal(c, m, x.m, "protobuf from a reader");
    JsonVar jv;
    jv.keys = jv.order = jv.ws = jv.esc = jv.numstr = jv.unknown = jv.floats = c.chance(2, 3);
    std::string j = json_encode(m, &c, jv);
    c.note("json: " + text(j));
    x = js_read(t, j);
    if (!x.ok)
        c.fail("json is refused: " + x.err);
    must_equal(c, m, x.m, "json");
    ChunkReader jr;
    jr.s = &j;
    jr.chunks = gen_chunks(c);
    x = js_read_chunks(t, jr);
    if (!x.ok)
        c.fail("json is refused from a reader: " + x.err);
    must_equal(c, m, x.m, "json from a reader");
    // on top of another value
    if (!has_fixed(t.info()))
    {
        Msg old = gen_msg(c, t.info(), mopt(25));
        Msg want = merged(old, m);
        c.note("on top of: " + render(old));
        OBJ(o, t, old);
        auto q = pb_read_into(o, wire_encode(m));
        bool fits = within(want);
        c.label(fits ? "merge fits" : "merge does not fit");
        if (fits && !q.ok)
            c.fail("merging is refused: " + q.err);
        if (!fits && q.ok)
            c.fail("merging beyond the capacity is accepted: " + render(q.m));
        if (fits)
        {
            must_equal(c, want, q.m, "merged");
            Obj od(d, relabel(old, d.info()));
            auto qd = pb_read_into(od, wire_encode(m));
            if (!qd.ok)
                c.fail("merging is refused by the default mapping: " + qd.err);
            must_equal(c, relabel(want, d.info()), qd.m, "merged by the default mapping");
        }
    }
}

// ------------------------------------------------------------------------------------------- P15
static size_t size_limit(const FieldInfo &f)
{
    if (f.kind != Kind::String && f.kind != Kind::Bytes)
        return 0;
    size_t l = SIZE_MAX;
    for (auto x : {size_t(f.max_size), size_t(f.cap_len), size_t(f.fixed_len)})
        if (x)
            l = std::min(l, x);
    return l == SIZE_MAX ? 0 : l;
}
static size_t count_limit(const FieldInfo &f)
{
    size_t l = SIZE_MAX;
    for (auto x : {size_t(f.max_count), size_t(f.cap_count), size_t(f.fixed_count)})
        if (x)
            l = std::min(l, x);
    return l == SIZE_MAX || (f.card != Card::Repeated && f.card != Card::Map) ? 0 : l;
}
static std::string beyond(const Msg &m)
{
    for (size_t i = 0; i < m.f.size(); i++)
    {
        auto &fi = m.t->f[i];
        if (auto l = count_limit(fi); l && m.f[i].v.size() > l)
            return std::string(m.t->full) + "." + fi.name + " has " + std::to_string(m.f[i].v.size()) + " elements";
        if (auto l = size_limit(fi))
            for (auto &v : m.f[i].v)
                if (v.s.size() > l)
                    return std::string(m.t->full) + "." + fi.name + " has " + std::to_string(v.s.size()) + " bytes";
        for (auto &v : m.f[i].v)
            if (v.m)
                if (auto s = beyond(*v.m); !s.empty())
                    return s;
    }
    return "";
}
static bool within(const Msg &m)
{
    return beyond(m).empty();
}
struct Spot
{
    Msg *m;
    size_t i;
    bool count;
};
static void spots(Msg &m, std::vector<Spot> &out, bool fixed_size)
{
    for (size_t i = 0; i < m.f.size(); i++)
    {
        auto &fi = m.t->f[i];
        if (size_limit(fi) && fi.card != Card::Map && (fixed_size || (!fi.fixed_len && !fi.fixed_count)))
            out.push_back({&m, i, false});
        if (count_limit(fi))
            out.push_back({&m, i, true});
        for (auto &v : m.f[i].v)
            if (v.m)
                spots(*v.m, out, fixed_size);
    }
}
static const std::vector<const TypeOps *> &limited()
{
    static std::vector<const TypeOps *> v;
    if (v.empty())
    {
        for (auto *t : types("lim."))
            v.push_back(t);
        for (auto *t : types("ty."))
            for (auto &f : t->info().f)
                if (size_limit(f) || count_limit(f))
                {
                    v.push_back(t);
                    break;
                }
    }
    return v;
}
// gives the field exactly n elements, or one of its values n bytes
static void blow(Case &c, const Spot &s, size_t n)
{
    auto &fi = s.m->t->f[s.i];
    auto &f = s.m->f[s.i];
    GenOpt o = mopt(8, 1);
    if (s.count)
    {
        while (f.v.size() > n)
        {
            f.v.pop_back();
            if (fi.card == Card::Map)
                f.k.pop_back();
        }
        int tries = 0;
        while (f.v.size() < n)
        {
            if (fi.card == Card::Map)
            {
                Val k = gen_key(c, fi);
                if (tries++ > 8) // enough luck with small keys
                    k.n = uint64_t(1000 + tries);
                bool dup = false;
                for (auto &x : f.k)
                    dup |= val_eq(x, k, fi.key, EqOpt{});
                if (dup)
                    continue;
                f.k.push_back(std::move(k));
            }
            if (n > 30 && f.v.size() > 4)
                f.v.push_back(f.v[f.v.size() % 4]);
            else
                f.v.push_back(gen_val(c, fi, o, 0));
        }
        if (fi.card == Card::Map)
            sort_map(f, fi.key);
        return;
    }
    std::string x = fi.kind == Kind::String ? gen_utf8(c, n, n) : gen_bytes(c, n, n);
    if (fi.card == Card::OneofMember)
        for (size_t j = 0; j < s.m->f.size(); j++)
            if (s.m->t->f[j].card == Card::OneofMember && s.m->t->f[j].oneof == fi.oneof)
                s.m->f[j].v.clear();
    if (f.v.empty())
        f.v.emplace_back();
    f.v[size_t(c.draw(f.v.size() - 1))].s = x;
}
static std::string where(const Spot &s, size_t n, size_t limit)
{
    return std::string(s.m->t->full) + "." + s.m->t->f[s.i].name + (s.count ? " with " : " of ") + std::to_string(n) + (s.count ? " elements" : " bytes") + ", limit " + std::to_string(limit);
}
template <class F> static bool accepts(F f, std::string &err)
{
    try
    {
        f();
        return true;
    }
    catch (const std::bad_alloc &)
    {
        throw pbt::Fail("std::bad_alloc");
    }
    catch (const std::exception &e)
    {
        err = e.what();
        return false;
    }
}
// every way to write a
static void writes(Case &c, const Obj &a, bool ok, const std::string &what)
{
    auto &t = *a.o;
    auto one = [&](const char *n, auto f) {
        std::string err;
        bool r = accepts(f, err);
        if (ok && !r)
            c.fail(std::string(n) + " refuses " + what + ": " + err);
        if (!ok && r)
            c.fail(std::string(n) + " accepts " + what);
    };
    one("protobuf serialization", [&] { std::string s; t.pb_str(a.p, s, false); });
    one("protobuf serialization to a writer", [&] { Writer w; t.pb_wr(a.p, w, false); });
    one("length-prefixed protobuf serialization", [&] { std::string s; t.pb_str(a.p, s, true); });
    one("json serialization", [&] { std::string s; t.js_str(a.p, s); });
    one("json serialization to a writer", [&] { Writer w; t.js_wr(a.p, w); });
}
// every way to read bytes and text
static void reads(Case &c, const TypeOps &t, const std::string &b, const std::string &j, bool ok, const Msg *want, const std::string &what)
{
    auto one = [&](const char *n, auto f) {
        Obj o(t);
        std::string err;
        bool r = accepts([&] { f(o); }, err);
        Msg got = o.tree();
        if (ok && !r)
            c.fail(std::string(n) + " refuses " + what + ": " + err);
        if (!ok && r)
            c.fail(std::string(n) + " accepts " + what);
        if (ok && want)
            must_equal(c, *want, got, n);
        if (auto s = beyond(got); !s.empty())
            c.fail(std::string(n) + " leaves a value beyond its limit: " + s);
    };
    std::unique_ptr<char[]> eb(new char[b.size()]), ej(new char[j.size()]);
    memcpy(eb.get(), b.data(), b.size());
    memcpy(ej.get(), j.data(), j.size());
    one("protobuf deserialization", [&](Obj &o) { t.pb_de_buf(o.p, eb.get(), b.size(), false); });
    ChunkReader r;
    r.s = &b;
    r.chunks = gen_chunks(c);
    one("protobuf deserialization from a reader", [&](Obj &o) { t.pb_de_rd(o.p, r, false); });
    std::string lb = varint(b.size()) + b;
    one("length-prefixed protobuf deserialization", [&](Obj &o) { t.pb_de_str(o.p, lb, true); });
    if (j.empty())
        return;
    one("json deserialization", [&](Obj &o) { t.js_de_buf(o.p, ej.get(), j.size()); });
    ChunkReader q;
    q.s = &j;
    q.chunks = gen_chunks(c);
    one("json deserialization from a reader", [&](Obj &o) { t.js_de_rd(o.p, q); });
}
static size_t excess(Case &c, bool count)
{
    switch (c.draw(5))
    {
    default: return 1;
    case 3: return 1 + c.draw(3);
    case 4: return 1 + c.draw(count ? 12 : 40);
    case 5: return count ? 2 : 200 + c.draw(300);
    }
}
PBT(P15, limits, 60000, 1800000, "every case: a limited field is exactly at its limit, or beyond it")
{
    auto &t = *limited()[c.draw(limited().size() - 1)];
    c.note(std::string("type: ") + t.name);
    c.label(std::string("type:") + t.name);
    Msg m = gen_msg(c, t.info(), mopt(25, 3));
    std::vector<Spot> sp;
    spots(m, sp, true);
    if (sp.empty())
        c.discard();
    auto s = sp[c.draw(sp.size() - 1)];
    auto &fi = s.m->t->f[s.i];
    size_t lim = s.count ? count_limit(fi) : size_limit(fi);
    bool over = c.chance(1, 2);
    size_t n = lim + (over ? excess(c, s.count) : 0);
    if (s.count && fi.card == Card::Map && fi.key == Kind::Bool)
        c.discard();
    blow(c, s, n);
    std::string what = where(s, n, lim);
    c.note(what + "\nvalue: " + render(m));
    bool fixed = s.count ? fi.cap_count || fi.fixed_count : fi.cap_len || fi.fixed_len;
    c.label(std::string(over ? "beyond " : "at ") + (s.count ? "count" : "size") + (fixed ? " of the container" : ""));
    c.nontrivial(h(what + render(m)));
    if (!over || !fixed)
    {
        OBJ(a, t, m);
        writes(c, a, !over, what);
        if (!over)
        {
            auto g = pb_read(t, pb_write(a));
            if (!g.ok)
                c.fail("own protobuf is refused: " + g.err);
            must_equal(c, m, g.m, "protobuf");
            g = js_read(t, js_write(a));
            if (!g.ok)
                c.fail("own json is refused: " + g.err);
            must_equal(c, m, g.m, "json");
        }
    }
    WireVar v;
    v.order = v.pad = v.mapvar = v.unknown = v.pack = v.merge = c.chance(1, 2);
    // a container with a fixed number of elements does not grow: messages are not split there
    v.merge = v.merge && !has_fixed(t.info());
    std::string b = wire_encode(m, &c, v);
    JsonVar jv;
    jv.keys = jv.order = jv.ws = jv.esc = jv.numstr = jv.unknown = c.chance(1, 2);
    std::string j = json_encode(m, &c, jv);
    c.note("protobuf: " + show(b) + "\njson: " + text(j));
    reads(c, t, b, j, !over, &m, what);
}
// several inputs read one after another into the same object
PBT(P15, pieces, 30000, 900000, "the second piece adds to a limited repeated field")
{
    auto &t = *limited()[c.draw(limited().size() - 1)];
    c.note(std::string("type: ") + t.name);
    if (has_fixed(t.info()))
        c.discard();
    Msg want(t.info());
    Obj o(t);
    size_t n = 2 + c.draw(3);
    bool alive = true;
    for (size_t k = 0; k < n && alive; k++)
    {
        Msg m = gen_msg(c, t.info(), mopt(14, 3));
        std::vector<Spot> sp;
        spots(m, sp, false);
        if (!sp.empty() && c.chance(1, 2)) // about as many elements as still fit
        {
            auto s = sp[c.draw(sp.size() - 1)];
            auto &fi = s.m->t->f[s.i];
            size_t lim = s.count ? count_limit(fi) : size_limit(fi);
            if (!(s.count && fi.card == Card::Map && fi.key == Kind::Bool))
            {
                size_t have = s.count && s.m == &m ? want.f[s.i].v.size() : 0;
                blow(c, s, lim > have ? lim - have + c.draw(1) : c.draw(1));
            }
        }
        WireVar v;
        v.order = v.pack = v.unknown = c.chance(1, 2);
        std::string b = wire_encode(m, &c, v);
        c.note("piece: " + render(m));
        Msg next = merged(want, m);
        // a piece whose submessages do not fit is refused on its own
        bool fits = within(next) && within(m);
        std::string err;
        bool ok;
        if (c.chance(1, 2))
            ok = accepts([&] { t.pb_de_str(o.p, b, false); }, err);
        else
        {
            ChunkReader r;
            r.s = &b;
            r.chunks = gen_chunks(c);
            ok = accepts([&] { t.pb_de_rd(o.p, r, false); }, err);
        }
        if (fits && !ok)
            c.fail("a piece which fits is refused: " + err);
        if (!fits && ok)
            c.fail("a piece which does not fit is accepted: " + beyond(next) + beyond(m));
        Msg got = o.tree();
        if (auto x = beyond(got); !x.empty())
            c.fail("a value is beyond its limit after reading: " + x);
        if (fits)
            must_equal(c, next, got, "piece " + std::to_string(k));
        for (size_t i = 0; i < m.f.size(); i++)
            if (k && count_limit(m.t->f[i]) && !m.f[i].v.empty() && !want.f[i].v.empty())
                c.nontrivial(h(render(next) + render(m)));
        want = next;
        alive = fits;
    }
}
// fields without any limit hold more than the limits around them
PBT(P15, unlimited, 12000, 400000, "every case: a field without limit holds more than every limit of its message")
{
    static std::vector<std::pair<const TypeOps *, size_t>> v;
    if (v.empty())
        for (auto *t : types("lim."))
            for (size_t i = 0; i < t->info().f.size(); i++)
            {
                auto &f = t->info().f[i];
                bool text = f.kind == Kind::String || f.kind == Kind::Bytes;
                if (f.card != Card::Map && ((text && !size_limit(f)) || (f.card == Card::Repeated && !count_limit(f))))
                    v.push_back({t, i});
            }
    auto &[t, i] = v[c.draw(v.size() - 1)];
    auto &fi = t->info().f[i];
    Msg m(t->info());
    bool text = (fi.kind == Kind::String || fi.kind == Kind::Bytes) && !size_limit(fi);
    bool count = fi.card == Card::Repeated && !count_limit(fi);
    if (text && count)
        (c.chance(1, 2) ? text : count) = false;
    size_t n = text ? 1 + c.draw(700) : 1 + c.draw(150);
    c.note(std::string(t->name) + "." + fi.name + (text ? " of " : " with ") + std::to_string(n));
    Spot s{&m, i, !text};
    blow(c, s, n);
    c.nontrivial(h(render(m) + t->name));
    OBJ(a, *t, m);
    writes(c, a, true, "a field without limit");
    WireVar wv;
    wv.pack = wv.pad = c.chance(1, 2);
    reads(c, *t, wire_encode(m, &c, wv), json_encode(m), true, &m, "a field without limit");
}

// ------------------------------------------------------------------------------------------- P16
using I = __int128;
static std::string dec(I v)
{
    if (v == 0)
        return "0";
    bool neg = v < 0;
    unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    std::string s;
    while (u)
    {
        s.insert(s.begin(), char('0' + int(u % 10)));
        u /= 10;
    }
    return (neg ? "-" : "") + s;
}
struct IntField
{
    const TypeOps *t;
    size_t i;
    bool key;
    I lo, hi;     // what the storage holds
    Kind kind;
};
static void range_of(int bits, bool sgn, I &lo, I &hi)
{
    lo = sgn ? -(I(1) << (bits - 1)) : 0;
    hi = sgn ? (I(1) << (bits - 1)) - 1 : (I(1) << bits) - 1;
}
static const std::vector<std::vector<IntField>> &int_fields() // by type
{
    static std::vector<std::vector<IntField>> v;
    if (v.empty())
        for (const char *p : {"ty.", "ks.", "lim."})
            for (auto *t : types(p))
            {
                std::vector<IntField> w;
                auto &inf = t->info();
                std::string n = t->name;
                bool twin = n.substr(0, 3) == "ty." && n.back() == 'D';
                for (size_t i = 0; i < inf.f.size() && !twin; i++)
                {
                    auto &f = inf.f[i];
                    if (is_int(f.kind) || f.kind == Kind::Enum)
                    {
                        IntField x{t, i, false, 0, 0, f.kind};
                        range_of(f.bits ? std::min(f.bits, kind_bits(f.kind)) : kind_bits(f.kind), f.sgn, x.lo, x.hi);
                        w.push_back(x);
                    }
                    if (f.card == Card::Map && is_int(f.key))
                    {
                        IntField x{t, i, true, 0, 0, f.key};
                        range_of(kind_bits(f.key), is_signed_kind(f.key), x.lo, x.hi);
                        w.push_back(x);
                    }
                }
                if (!w.empty())
                    v.push_back(w);
            }
    return v;
}
static const IntField &pick_int(Case &c)
{
    auto &v = int_fields();
    // the types made for this property more often
    size_t t = c.draw(v.size() - 1);
    if (c.chance(1, 2))
    {
        static std::vector<size_t> narrow;
        if (narrow.empty())
            for (size_t i = 0; i < v.size(); i++)
            {
                std::string n = v[i][0].t->name;
                if (n == "ty.Narrow" || n == "ty.Bits" || n == "ty.Enums" || n == "ty.EnumsL" || n == "ty.NarrowOneof" || n == "ty.FixedArrays")
                    narrow.push_back(i);
            }
        if (narrow.size() < 3)
            c.fail("harness: no narrow types");
        t = narrow[c.draw(narrow.size() - 1)];
    }
    auto &f = v[t][c.draw(v[t].size() - 1)];
    auto &fi = f.t->info().f[f.i];
    c.note(std::string("field: ") + f.t->name + "." + fi.name + (f.key ? " (key)" : "") + " holds " + dec(f.lo) + " .. " + dec(f.hi));
    c.label(std::string("type:") + f.t->name);
    return f;
}
static I gen_number(Case &c, const IntField &f, bool wide)
{
    I v = 0;
    switch (c.draw(7))
    {
    default: v = f.lo + I(c.draw(3)); break;
    case 1: v = f.hi - I(c.draw(3)); break;
    case 2: v = f.lo - 1 - I(c.draw(2)); break;
    case 3: v = f.hi + 1 + I(c.draw(2)); break;
    case 4: v = I(int64_t(gen_int(c, 64, true))); break;
    case 5: v = I(gen_int(c, 64, false)); break;
    case 6: {
        int k = int(c.draw(wide ? 70 : 64));
        v = (I(1) << k) + I(c.draw(4)) - 2;
        if (c.chance(1, 2))
            v = -v;
        // far numbers whose low bits look harmless
        if (c.chance(1, 3))
            v += f.hi > 5 ? I(c.draw(5)) : 0;
        break;
    }
    case 7: // multiples of the storage's range: wrap to something harmless
        v = (f.hi - f.lo + 1) * I(1 + c.draw(5)) + I(c.draw(3));
        if (c.chance(1, 3))
            v = -v;
        break;
    }
    return v;
}
// adds the number to the message, as reading the field once does
static Msg with_number(const IntField &f, Msg m, uint64_t n)
{
    auto &fi = m.t->f[f.i];
    auto &x = m.f[f.i];
    if (fi.card == Card::Map)
    {
        Val k, v;
        if (f.key)
        {
            k.n = n;
            v = default_val(fi);
        }
        else
        {
            if (fi.key == Kind::String)
                k.s = "k";
            v.n = n;
        }
        Msg one(*m.t);
        for (size_t i = 0; i < one.f.size(); i++)
            one.f[i].v.clear();
        one.f[f.i].k.push_back(k);
        one.f[f.i].v.push_back(v);
        return merged(m, one);
    }
    if (fi.card == Card::OneofMember)
        for (size_t j = 0; j < m.f.size(); j++)
            if (m.t->f[j].card == Card::OneofMember && m.t->f[j].oneof == fi.oneof)
                m.f[j].v.clear();
    if (fi.card == Card::Repeated)
    {
        if (fi.fixed_count)
        {
            for (auto &v : x.v)
                v.n = 0;
            x.v.back().n = n;
        }
        else
            x.v.emplace_back(n);
    }
    else
    {
        x.v.clear();
        x.v.emplace_back(n);
    }
    return m;
}
static std::string le(uint64_t v, int n)
{
    std::string s;
    for (int i = 0; i < n; i++)
        s += char(v >> (8 * i));
    return s;
}
static bool is_zigzag(Kind k)
{
    return k == Kind::SInt32 || k == Kind::SInt64;
}
static bool is_signed_num(Kind k)
{
    return is_signed_kind(k);
}
// the bytes of the field around an encoded number
static std::string wrap(Case &c, const IntField &f, const std::string &num, bool packed)
{
    auto &fi = f.t->info().f[f.i];
    int w = wire_of(f.kind);
    if (fi.card == Card::Map)
    {
        std::string e;
        if (f.key)
            e = tag(1, w) + num;
        else
        {
            std::string k = fi.key == Kind::String ? tag(1, 2) + varint(1) + "k" : "";
            e = c.chance(1, 4) ? tag(2, w) + num + k : k + tag(2, w) + num;
        }
        return tag(uint32_t(fi.number), 2) + varint(e.size()) + e;
    }
    if (fi.fixed_count)
    {
        std::string b;
        for (int i = 0; i + 1 < fi.fixed_count; i++)
            b += w == 0 ? std::string(1, '\0') : std::string(w == 5 ? 4 : 8, '\0');
        b += num;
        return tag(uint32_t(fi.number), 2) + varint(b.size()) + b;
    }
    if (fi.card == Card::Repeated && packed)
        return tag(uint32_t(fi.number), 2) + varint(num.size()) + num;
    return tag(uint32_t(fi.number), w) + num;
}
static Msg base_value(Case &c, const IntField &f)
{
    Msg m(f.t->info());
    if (c.chance(2, 3))
        m = gen_msg(c, f.t->info(), mopt(20, 2));
    auto &fi = m.t->f[f.i];
    // room for one more
    if (auto l = count_limit(fi); l && !fi.fixed_count)
        while (m.f[f.i].v.size() >= l)
        {
            m.f[f.i].v.pop_back();
            if (fi.card == Card::Map)
                m.f[f.i].k.pop_back();
        }
    return m;
}
static void expect(Case &c, Obj &o, bool fits, const Msg &want, bool ok, const std::string &err, const std::string &what)
{
    if (fits && !ok)
        c.fail(what + " refuses a number the field can hold: " + err);
    if (!fits && ok)
        c.fail(what + " accepts a number the field cannot hold; the field is now " + diff(want, o.tree()));
    if (fits)
        must_equal(c, want, o.tree(), what);
}
PBT(P16, protobuf, 120000, 4000000, "the number is within 3 of a limit of the storage, or outside of it")
{
    auto &f = pick_int(c);
    auto &fi = f.t->info().f[f.i];
    I n = gen_number(c, f, false);
    int w = wire_of(f.kind);
    // what the wire type can carry
    I wlo, whi;
    if (w == 0)
        range_of(64, is_signed_num(f.kind), wlo, whi);
    else
        range_of(w == 5 ? 32 : 64, is_signed_num(f.kind), wlo, whi);
    if (n < wlo || n > whi)
        n = n < wlo ? wlo + I(c.draw(1)) : whi - I(c.draw(1));
    uint64_t raw = is_zigzag(f.kind) ? (uint64_t(int64_t(n)) << 1) ^ (n < 0 ? ~0ull : 0) : uint64_t(n);
    std::string num;
    if (w == 0)
        num = varint(raw, c.chance(1, 5) ? int(1 + c.draw(9)) : 0);
    else
        num = le(raw, w == 5 ? 4 : 8);
    bool fits = n >= f.lo && n <= f.hi;
    // int32 and enum: a varint of 32 bits is the two's complement of a negative number (as the reference implementation reads it)
    if ((f.kind == Kind::Int32 || f.kind == Kind::Enum) && n >= (I(1) << 31) && n < (I(1) << 32))
    {
        c.label("32-bit negative");
        I k = n - (I(1) << 32);
        if (k < f.lo)
            fits = false;
        else
        {
            n = k;
            fits = true;
        }
    }
    c.note("number: " + dec(n));
    c.label(fits ? "fits" : "does not fit");
    if (!fits || n - f.lo < 3 || f.hi - n < 3)
        c.nontrivial(h(dec(n) + f.t->name + fi.name + (f.key ? "k" : "")));
    Msg base = base_value(c, f);
    Msg want = fits ? with_number(f, base, uint64_t(n)) : base;
    std::string b = wrap(c, f, num, c.chance(1, 2));
    c.note("bytes: " + show(b));
    OBJ(o, *f.t, base);
    std::string err;
    bool ok = accepts([&] { f.t->pb_de_str(o.p, b, false); }, err);
    expect(c, o, fits, want, ok, err, "protobuf");
    OBJ(q, *f.t, base);
    ChunkReader r;
    r.s = &b;
    r.chunks = gen_chunks(c);
    ok = accepts([&] { f.t->pb_de_rd(q.p, r, false); }, err);
    expect(c, q, fits, want, ok, err, "protobuf from a reader");
}
PBT(P16, overlong_varint, 20000, 600000, "every case")
{
    auto &f = pick_int(c);
    if (wire_of(f.kind) != 0)
        c.discard();
    // more than 64 bits
    std::string num;
    uint64_t low = c.draw(UINT64_MAX >> 1);
    if (c.chance(1, 2))
        low = c.draw(3);
    for (int i = 0; i < 9; i++)
        num += char(0x80 | ((low >> (7 * i)) & 0x7f));
    if (c.chance(1, 2))
        num += char(2 + c.draw(125)); // the tenth byte holds one bit
    else
    {
        size_t more = 1 + c.draw(4);
        num += char(0x80 | c.draw(1));
        while (--more)
            num += char(0x80);
        num += char(c.draw(1));
    }
    c.note("varint: " + hex(num));
    c.nontrivial(h(num + f.t->name + f.t->info().f[f.i].name));
    std::string b = wrap(c, f, num, c.chance(1, 2));
    auto g = pb_read(*f.t, b);
    if (g.ok)
        c.fail("a varint of more than 64 bits is accepted: " + render(g.m));
    ChunkReader r;
    r.s = &b;
    r.chunks = gen_chunks(c);
    g = pb_read_chunks(*f.t, r);
    if (g.ok)
        c.fail("a varint of more than 64 bits is accepted from a reader: " + render(g.m));
}
static std::string json_of(const IntField &f, const std::string &lit)
{
    auto &fi = f.t->info().f[f.i];
    std::string k = std::string("\"") + (fi.json_explicit ? fi.json_name : fi.name) + "\":";
    if (fi.card == Card::Map)
    {
        if (f.key)
        {
            std::string v;
            switch (fi.kind)
            {
            case Kind::String: case Kind::Bytes: v = "\"\""; break;
            case Kind::Message: v = "{}"; break;
            case Kind::Bool: v = "false"; break;
            case Kind::Enum: v = std::string("\"") + fi.en().values[0].first + "\""; break;
            default: v = "0";
            }
            return "{" + k + "{" + lit + ":" + v + "}}";
        }
        std::string key = fi.key == Kind::String ? "k" : fi.key == Kind::Bool ? "false" : "0";
        return "{" + k + "{\"" + key + "\":" + lit + "}}";
    }
    if (fi.fixed_count)
    {
        std::string v;
        for (int i = 0; i + 1 < fi.fixed_count; i++)
            v += "0,";
        return "{" + k + "[" + v + lit + "]}";
    }
    if (fi.card == Card::Repeated)
        return "{" + k + "[" + lit + "]}";
    return "{" + k + lit + "}";
}
// a value with a number in the field, an enum key's value being the first of the enum
static Msg json_want(const IntField &f, Msg base, uint64_t n)
{
    Msg m = with_number(f, base, n);
    auto &fi = m.t->f[f.i];
    if (f.key && fi.kind == Kind::Enum)
        for (size_t i = 0; i < m.f[f.i].k.size(); i++)
            if (m.f[f.i].k[i].n == n)
                m.f[f.i].v[i].n = uint64_t(int64_t(fi.en().values[0].second));
    return m;
}
PBT(P16, json, 120000, 4000000, "the number is within 3 of a limit of the storage, or outside of it")
{
    auto &f = pick_int(c);
    auto &fi = f.t->info().f[f.i];
    I n = gen_number(c, f, true);
    bool fits = n >= f.lo && n <= f.hi;
    if (f.kind == Kind::Enum)
    {
        auto &e = fi.en();
        if (c.chance(1, 2))
            n = e.values[c.draw(e.values.size() - 1)].second;
        fits = false;
        for (auto &[name, x] : e.values)
            fits |= I(x) == n;
    }
    std::string d = dec(n);
    bool quoted = f.key || c.chance(1, 2);
    if (f.kind == Kind::Enum)
        quoted = false;
    std::string lit = quoted ? "\"" + d + "\"" : d;
    c.note("number: " + lit);
    c.label(fits ? "fits" : "does not fit");
    if (!fits || n - f.lo < 3 || f.hi - n < 3)
        c.nontrivial(h(d + f.t->name + fi.name + (f.key ? "k" : "")));
    Msg base(*&f.t->info());
    if (fi.card == Card::Plain || fi.card == Card::Optional || fi.card == Card::OneofMember)
        base = base_value(c, f);
    Msg want = fits ? json_want(f, base, uint64_t(n)) : base;
    std::string j = json_of(f, lit);
    c.note("json: " + text(j));
    OBJ(o, *f.t, base);
    std::string err;
    bool ok = accepts([&] { f.t->js_de_str(o.p, j); }, err);
    expect(c, o, fits, want, ok, err, "json");
    OBJ(q, *f.t, base);
    ChunkReader r;
    r.s = &j;
    r.chunks = gen_chunks(c);
    ok = accepts([&] { f.t->js_de_rd(q.p, r); }, err);
    expect(c, q, fits, want, ok, err, "json from a reader");
}
// text which is not an integer is refused; another spelling of one is refused or means that integer
PBT(P16, json_spelling, 40000, 1200000, "every case")
{
    auto &f = pick_int(c);
    auto &fi = f.t->info().f[f.i];
    if (f.kind == Kind::Enum)
        c.discard();
    I n = f.lo + I(c.draw(2)) + (c.chance(1, 2) ? (f.hi - f.lo) / 2 : 0);
    std::string d = dec(n), neg = n < 0 ? "-" : "", abs = n < 0 ? d.substr(1) : d;
    bool quoted = f.key || c.chance(1, 2);
    bool same = false; // another spelling of n
    std::string s;
    switch (c.draw(20))
    {
    default: s = d + ".5"; break;
    case 1: s = d + ".0"; same = true; break;
    case 2: s = d + "e0"; same = true; break;
    case 3: s = neg + "0" + abs; same = true; // not in the grammar, but means nothing else break;
    case 4: s = "+" + d; same = quoted && n >= 0; break;
    case 5: s = quoted ? "" : "null1"; break;
    case 6: s = quoted ? d + " " : d + "x"; same = quoted; break; // surrounding white space does no harm
    case 7: s = quoted ? " " + d : "'" + d + "'"; same = quoted; break;
    case 8: s = d + "-"; break;
    case 9: s = "-"; break;
    case 10: s = "--" + abs; break;
    case 11: s = "0x10"; break;
    case 12: s = d + "e"; break;
    case 13: s = d + "."; break;
    case 14: s = "." + abs; break;
    case 15: s = quoted ? "NaN" : "NaN"; break;
    case 16: s = quoted ? "Infinity" : "-Infinity"; break;
    case 17: s = quoted ? "true" : "true"; break;
    case 18: s = d + (quoted ? "," : ",,"); break;
    case 19: s = d + "_0"; break;
    case 20: s = quoted ? d + "\\u0000" : d + std::string(1, '\0'); break;
    }
    if (f.hi == 1 && s == "true")
        c.discard();
    std::string lit = quoted ? "\"" + s + "\"" : s;
    c.note("literal: " + text(lit));
    c.nontrivial(h(lit + f.t->name + fi.name));
    Msg base(f.t->info());
    std::string j = json_of(f, lit);
    for (int k = 0; k < 2; k++)
    {
        Obj o(*f.t);
        std::string err;
        ChunkReader r;
        r.s = &j;
        r.chunks = gen_chunks(c);
        bool ok = k == 0 ? accepts([&] { f.t->js_de_str(o.p, j); }, err) : accepts([&] { f.t->js_de_rd(o.p, r); }, err);
        if (ok && !same)
            c.fail("accepted: " + text(j) + " as " + render(o.tree()));
        if (ok)
            must_equal(c, json_want(f, base, uint64_t(n)), o.tree(), "another spelling");
    }
}
