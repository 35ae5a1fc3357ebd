// P08-P12: JSON format
#include "common.hpp"
#include "goog.hpp"
#include "jsonm.hpp"
#include "wire.hpp"
#include <cmath>
using namespace br;

static void must_equal(Case &c, const Msg &want, const Msg &got, const std::string &what, bool nan = true)
{
    EqOpt o;
    o.nan_class = nan;
    if (!msg_eq(want, got, o))
        c.fail(what + ": " + diff(want, got));
}
#define OBJ(name, t, m) \
    Obj name(t, m);     \
    if (Msg b_ = name.tree(); !msg_eq(m, b_)) c.fail("harness: bridge does not preserve the value: " + diff(m, b_))
// the reference implementation's JSON reader loses the sign of zero
static void plus_zero(Msg &m)
{
    for (size_t i = 0; i < m.f.size(); i++)
        for (auto &v : m.f[i].v)
        {
            auto k = m.t->f[i].kind;
            if (k == Kind::Double && v.n == 0x8000000000000000ull)
                v.n = 0;
            if (k == Kind::Float && v.n == 0x80000000u)
                v.n = 0;
            if (v.m)
                plus_zero(*v.m);
        }
}
// an empty required string is not written (see the statement), which the reference implementation does not accept
static void fill_required(Msg &m)
{
    for (size_t i = 0; i < m.f.size(); i++)
    {
        auto &fi = m.t->f[i];
        for (auto &v : m.f[i].v)
        {
            if (fi.card == Card::Plain && (fi.kind == Kind::String || fi.kind == Kind::Bytes) && v.s.empty())
                v.s = "r";
            if (v.m)
                fill_required(*v.m);
        }
    }
}
static GenOpt jopt(int nodes = 60, int depth = 4)
{
    GenOpt o;
    o.json_safe = true;
    o.nodes = nodes;
    o.depth = depth;
    return o;
}

// ------------------------------------------------------------------------------------------- P08
static void roundtrip(Case &c, const TypeOps &t, const Msg &m)
{
    c.note("value: " + render(m));
    OBJ(a, t, m);
    std::string j = js_write(a);
    c.note("json: " + text(j));
    auto g = js_read(t, j);
    c.check(g.ok, "own output is refused: " + g.err);
    must_equal(c, m, g.m, "value read back differs");
    must_equal(c, m, a.tree(), "serialization changed the message", false);
    ChunkReader r{&j};
    r.chunks = gen_chunks(c);
    auto g2 = js_read_chunks(t, r);
    c.check(g2.ok, "own output is refused by the reader: " + g2.err);
    must_equal(c, m, g2.m, "value read back by a reader differs");
}
PBT(P08, values, 60000, 1500000, "at least two fields, elements or entries are set")
{
    auto &t = pick_type(c);
    Msg m = gen_msg(c, t.info(), jopt());
    if (set_fields(m) >= 2)
        c.nontrivial(h(render(m) + t.name));
    roundtrip(c, t, m);
}
PBT(P08, big, 4000, 120000, "at least two fields, elements or entries are set")
{
    auto &t = pick_type(c);
    Msg m = gen_msg(c, t.info(), jopt(600, 7));
    if (set_fields(m) >= 2)
        c.nontrivial(h(render(m) + t.name));
    roundtrip(c, t, m);
}
PBT(P08, huge, 600, 15000, "at least 2000 bytes")
{
    auto &t = pick_type(c);
    Msg m = gen_huge(c, t.info());
    c.note("value: " + render(m));
    OBJ(a, t, m);
    std::string j = js_write(a);
    if (j.size() >= 2000)
        c.nontrivial(h(j + t.name));
    auto g = js_read(t, j);
    c.check(g.ok, "own output is refused: " + g.err);
    must_equal(c, m, g.m, "value read back differs");
    ChunkReader r{&j};
    r.chunks = gen_chunks(c);
    auto g2 = js_read_chunks(t, r);
    c.check(g2.ok, "own output is refused by the reader: " + g2.err);
    must_equal(c, m, g2.m, "value read back by a reader differs");
}
PBT(P08, single_field, 40000, 900000, "the chosen field is set (every case)")
{
    auto &t = pick_type(c);
    auto &info = t.info();
    if (info.f.empty())
        c.discard();
    size_t i = c.draw(info.f.size() - 1);
    Msg m(info);
    auto &fi = info.f[i];
    GenOpt o = jopt(12, 2);
    auto &f = m.f[i];
    if (fi.card == Card::Map)
    {
        f.k.push_back(gen_key(c, fi));
        f.v.push_back(gen_val(c, fi, o, 2));
    }
    else if (fi.fixed_count)
        for (auto &v : f.v)
            v = gen_val(c, fi, o, 2);
    else
    {
        f.v.clear();
        size_t n = fi.card == Card::Repeated ? 1 + c.draw(3) : 1;
        if (fi.max_count)
            n = std::min<size_t>(n, fi.max_count);
        if (fi.cap_count)
            n = std::min<size_t>(n, size_t(fi.cap_count));
        while (n--)
            f.v.push_back(gen_val(c, fi, o, 2));
    }
    c.nontrivial(h(render(m) + t.name));
    roundtrip(c, t, m);
}
// floating point: random bit patterns in bulk
PBT(P08, floats, 30000, 900000, "neither zero, infinite nor NaN")
{
    auto &t = ops("ks.three.Scalars");
    Msg m(t.info());
    uint64_t d, f;
    switch (c.draw(2))
    {
    default: d = c.draw(UINT64_MAX); f = c.draw(UINT32_MAX); break;
    case 1: // subnormal
        d = c.draw((1ull << 52) - 1) | (c.draw(1) << 63);
        f = c.draw((1u << 23) - 1) | (c.draw(1) << 31);
        break;
    case 2: // short decimals
    {
        double x = double(c.range(-100000, 100000)) / std::pow(10.0, double(c.draw(12)));
        float y = float(x);
        uint32_t u;
        memcpy(&d, &x, 8);
        memcpy(&u, &y, 4);
        f = u;
    }
    }
    m.f[0].v.push_back(Val(d));
    m.f[1].v.push_back(Val(f));
    double x;
    memcpy(&x, &d, 8);
    if (std::isfinite(x) && x != 0)
        c.nontrivial(d ^ (f << 7));
    roundtrip(c, t, m);
}

// ------------------------------------------------------------------------------------------- P09
static void valid_output(Case &c, const TypeOps &t, Msg m)
{
    fill_required(m);
    c.note("value: " + render(m));
    OBJ(a, t, m);
    std::string j = js_write(a);
    c.note("json: " + text(j));
    if (set_fields(m) >= 2)
        c.nontrivial(h(j + t.name));
    JVal v;
    std::string err;
    if (!jparse(j, v, err, true))
        c.fail("the output is not well-formed json: " + err);
    c.check(v.t == JVal::Obj, "the output is not an object");
    c.check(utf8_valid(j), "the output is not UTF-8");
    Dyn d = goog_new(t.info());
    if (!goog_json_parse(d, j, err))
        c.fail("the reference implementation refuses the output: " + err);
    Msg g = goog_to(d, t.info()), want = m;
    normalise(g);
    normalise(want);
    plus_zero(g);
    plus_zero(want);
    // -0 is the default value for the reference implementation's reader
    normalise(g);
    normalise(want);
    must_equal(c, want, g, "the reference implementation reads another value");
}
PBT(P09, values, 25000, 700000, "at least two fields, elements or entries are set")
{
    auto &t = pick_type(c);
    valid_output(c, t, gen_msg(c, t.info(), jopt()));
}
PBT(P09, big, 1500, 50000, "at least two fields, elements or entries are set")
{
    auto &t = pick_type(c);
    valid_output(c, t, gen_msg(c, t.info(), jopt(500, 7)));
}

// ------------------------------------------------------------------------------------------- P10
PBT(P10, reference_output, 20000, 600000, "at least two fields, elements or entries are set")
{
    auto &t = pick_type(c);
    Msg m = gen_msg(c, t.info(), jopt());
    JsonMode mode;
    mode.whitespace = c.chance(1, 2);
    mode.always_print = c.chance(1, 2);
    mode.enums_as_ints = c.chance(1, 2);
    mode.proto_names = c.chance(1, 2);
    Dyn d = goog_from(m);
    std::string j, err;
    if (!goog_json_print(d, mode, j, err))
        c.fail("harness: the reference implementation does not print: " + err);
    c.note("value: " + render(m) + "\njson: " + text(j));
    if (set_fields(m) >= 2)
        c.nontrivial(h(j + t.name));
    auto g = js_read(t, j);
    c.check(g.ok, "the reference implementation's json is refused: " + g.err);
    Msg want = m;
    if (mode.always_print)
    {
        Dyn e = goog_new(t.info());
        c.check(goog_json_parse(e, j, err), "harness: the reference implementation refuses its own json " + err);
        want = goog_to(e, t.info());
        plus_zero(want);
        plus_zero(g.m);
    }
    normalise(want);
    normalise(g.m);
    must_equal(c, want, g.m, "the reference implementation's json is read to another value");
    ChunkReader r{&j};
    r.chunks = gen_chunks(c);
    auto g2 = js_read_chunks(t, r);
    c.check(g2.ok, "the reference implementation's json is refused by a reader: " + g2.err);
    if (mode.always_print)
        plus_zero(g2.m);
    normalise(g2.m);
    must_equal(c, want, g2.m, "the reference implementation's json is read to another value by a reader");
}
static JsonVar gen_var(Case &c)
{
    JsonVar v;
    v.keys = c.chance(1, 2);
    v.order = c.chance(1, 2);
    v.ws = c.chance(1, 2);
    v.esc = c.chance(1, 2);
    v.numstr = c.chance(1, 2);
    v.enumnum = c.chance(1, 2);
    v.nulls = c.chance(1, 2);
    v.unknown = c.chance(1, 2);
    v.floats = c.chance(1, 2);
    return v;
}
static void representation(Case &c, const TypeOps &t, const Msg &m, JsonVar v)
{
    std::string j = json_encode(m, &c, v);
    if (v.ws)
        j = gen_ws(&c, true) + j + gen_ws(&c, true);
    c.note("value: " + render(m) + "\njson: " + text(j));
    OBJ(a, t, m);
    if (set_fields(m) >= 1 && j != js_write(a))
        c.nontrivial(h(j + t.name));
    JVal jv;
    std::string err;
    if (!jparse(j, jv, err, false))
        c.fail("harness: the generated json is not well-formed: " + err);
    auto g = js_read(t, j);
    c.check(g.ok, "a valid representation is refused: " + g.err);
    must_equal(c, m, g.m, "a valid representation is read to another value");
    ChunkReader r{&j};
    r.chunks = gen_chunks(c);
    auto g2 = js_read_chunks(t, r);
    c.check(g2.ok, "a valid representation is refused by a reader: " + g2.err);
    must_equal(c, m, g2.m, "a valid representation is read to another value by a reader");
}
PBT(P10, representations, 60000, 1800000, "the text differs from the one the library writes and at least one field is set")
{
    auto &t = pick_type(c);
    Msg m = gen_msg(c, t.info(), jopt(30));
    representation(c, t, m, gen_var(c));
}
// one kind of freedom at a time, used as often as possible
PBT(P10, one_freedom, 30000, 800000, "the text differs from the one the library writes and at least one field is set")
{
    auto &t = pick_type(c);
    Msg m = gen_msg(c, t.info(), jopt(12, 3));
    JsonVar v;
    bool *b[] = {&v.keys, &v.order, &v.ws, &v.esc, &v.numstr, &v.enumnum, &v.nulls, &v.unknown, &v.floats};
    static const char *n[] = {"keys", "order", "ws", "esc", "numstr", "enumnum", "nulls", "unknown", "floats"};
    size_t i = c.draw(std::size(b) - 1);
    *b[i] = true;
    c.label(n[i]);
    representation(c, t, m, v);
}
// unknown keys in every message of a value, with deep and long values
PBT(P10, unknown_keys, 15000, 400000, "at least one unknown key and one known field")
{
    auto &t = pick_type(c);
    Msg m = gen_msg(c, t.info(), jopt(10, 3));
    std::string j = json_encode(m);
    // insert at the front, in the middle of the top level object, or at the end
    bool ws = c.chance(1, 2);
    std::string item = json_string(gen_unknown_key(c, t.info()), &c, true) + gen_ws(&c, ws) + ":" + gen_ws(&c, ws) + gen_json_value(c, 6, ws);
    bool empty = j == "{}";
    if (c.chance(1, 2))
        j = "{" + item + (empty ? "" : ",") + j.substr(1);
    else
        j = j.substr(0, j.size() - 1) + (empty ? "" : ",") + item + "}";
    c.note("value: " + render(m) + "\njson: " + text(j));
    if (!empty)
        c.nontrivial(h(j + t.name));
    auto g = js_read(t, j);
    c.check(g.ok, "unknown key: refused: " + g.err);
    must_equal(c, m, g.m, "unknown key: read to another value");
    ChunkReader r{&j};
    r.chunks = gen_chunks(c);
    auto g2 = js_read_chunks(t, r);
    c.check(g2.ok, "unknown key: refused by a reader: " + g2.err);
    must_equal(c, m, g2.m, "unknown key: read to another value by a reader");
}

// ------------------------------------------------------------------------------------------- P11
static const std::vector<std::string> &dict()
{
    static const std::vector<std::string> d = {
        "{", "}", "[", "]", ",", ":", "\"", "\\", "null", "true", "false", "nul", "tru", "{}", "[]", "\"\"", "\"\":", "0", "-", "-0", "01", "1e", "1.", ".5", "1e5", "1e999", "-1e-999",
        "99999999999999999999", "-9223372036854775809", "18446744073709551616", "4294967296", "2147483648", "-2147483649", "\\u", "\\u00", "\\ud800", "\\udc00", "\\ud83d\\ude00", "\\x",
        "\\\"", "NaN", "\"NaN\"", "\"Infinity\"", "\"-Infinity\"", "inf", "\xff", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe2\x82", "=", "==", "A===", "//", "/*", " ", "\n", "\t", std::string(1, '\0'),
        "\"id\":", "\"value\":", "\"label\":", "{\"a\":", "[[[[", "]]]]", "}}", "\"1\":", "\"true\":", "+1", "0x1", "1_000", "1 "};
    return d;
}
// the reference implementation's reader gets confused by unknown empty keys
static bool empty_key(const JVal &v)
{
    for (auto &k : v.k)
        if (k.empty())
            return true;
    for (auto &x : v.a)
        if (empty_key(x))
            return true;
    return false;
}
// whatever is accepted has to be a document: brackets, commas, colons, quotes and literals are in their places
static void structured(Case &c, const Got &g, const std::string &j)
{
    std::string err;
    if (!jstructure(j.substr(0, g.consumed), err))
        c.fail("text which is no document is accepted (" + std::to_string(g.consumed) + " characters consumed): " + err);
}
static void safe(Case &c, const TypeOps &t, const std::string &j)
{
    c.note("json: " + text(j));
    Got g;
    size_t bytes;
    {
        pbt::AllocScope s;
        g = js_read(t, j);
        bytes = s.bytes();
    }
    if (bytes > 200000 + j.size() * 4000)
        c.fail("reading " + std::to_string(j.size()) + " characters allocated " + std::to_string(bytes) + " bytes");
    c.label(g.ok ? "accepted" : "refused");
    ChunkReader r{&j};
    r.chunks = gen_chunks(c);
    Got g2;
    {
        pbt::AllocScope s;
        g2 = js_read_chunks(t, r);
        bytes = s.bytes();
    }
    if (bytes > 200000 + j.size() * 4000)
        c.fail("reading " + std::to_string(j.size()) + " characters with a reader allocated " + std::to_string(bytes) + " bytes");
    c.check(g2.ok == g.ok, std::string("a reader ") + (g2.ok ? "accepts" : "refuses") + " what memory does not: " + g.err + g2.err);
    if (!g.ok)
        return;
    must_equal(c, g.m, g2.m, "a reader reads another value than memory");
    structured(c, g, j);
    // where the reference implementation accepts the well-formed document, it reads the same
    JVal v;
    std::string err;
    if (!jparse(j, v, err, true) || empty_key(v))
        return;
    Dyn d = goog_new(t.info());
    if (!goog_json_parse(d, j, err, true))
        return;
    c.label("compared");
    Msg w = goog_to(d, t.info()), x = g.m;
    for (auto *q : {&w, &x})
    {
        plus_zero(*q);
        normalise(*q);
    }
    must_equal(c, w, x, "accepted input is read to another value than the reference implementation reads");
}
PBT(P11, mutated, 40000, 1500000, "the text was changed and is not empty")
{
    auto &t = pick_type(c, "ks");
    GenOpt o = jopt(25);
    Msg m1 = gen_msg(c, t.info(), o), m2 = gen_msg(c, t.info(), o);
    JsonVar v = gen_var(c);
    std::string a = json_encode(m1, &c, v), b = json_encode(m2);
    std::string x = mutate(c, a, b, dict());
    if (x != a && !x.empty())
        c.nontrivial(h(x + t.name));
    safe(c, t, x);
}
// one structural character or literal of a valid document is damaged, with unknown members everywhere
PBT(P11, structure, 40000, 1200000, "every case: the text is no document any more")
{
    auto &t = pick_type(c);
    Msg m = gen_msg(c, t.info(), jopt(12, 4));
    JsonVar v = gen_var(c);
    v.unknown = true;
    std::string j = json_encode(m, &c, v);
    // positions of structural characters outside of strings
    std::vector<size_t> at;
    bool in = false;
    for (size_t i = 0; i < j.size(); i++)
    {
        if (in && j[i] == '\\')
            i++;
        else if (j[i] == '"')
        {
            in = !in;
            at.push_back(i);
        }
        else if (!in && (strchr("{}[],:", j[i]) || (j[i] >= 'a' && j[i] <= 'z')))
            at.push_back(i);
    }
    size_t p = at[c.draw(at.size() - 1)];
    std::string x = j;
    static const std::string S = "{}[],:\"";
    switch (c.draw(4))
    {
    default: x.erase(p, 1); break;
    case 1: x[p] = S[c.draw(S.size() - 1)]; break;
    case 2: x.insert(p, 1, S[c.draw(S.size() - 1)]); break;
    case 3: x.insert(p, c.pick(dict())); break;
    case 4: std::swap(x[p], x[at[c.draw(at.size() - 1)]]); break;
    }
    c.note("type: " + std::string(t.name) + "\njson: " + text(x));
    auto g = js_read(t, x);
    c.label(g.ok ? "accepted" : "refused");
    std::string err;
    if (!jstructure(x, err))
        c.nontrivial(h(x + t.name));
    if (g.ok)
        structured(c, g, x);
    ChunkReader r{&x};
    r.chunks = gen_chunks(c);
    auto g2 = js_read_chunks(t, r);
    c.check(g2.ok == g.ok, std::string("a reader ") + (g2.ok ? "accepts" : "refuses") + " what memory does not: " + g.err + g2.err);
}
PBT(P11, tokens, 20000, 600000, "at least four tokens")
{
    auto &t = pick_type(c, "ks");
    std::string j = c.chance(1, 8) ? "" : "{";
    size_t n = c.draw(16), k = 0;
    while (k < n)
    {
        k++;
        if (c.chance(1, 3) && !t.info().f.empty())
        {
            auto &f = t.info().f[c.draw(t.info().f.size() - 1)];
            j += (j.size() > 1 && c.chance(2, 3) ? "," : "");
            j += std::string("\"") + f.name + "\":";
        }
        else
            j += c.pick(dict());
    }
    if (c.chance(1, 2))
        j += "}";
    if (n > 3)
        c.nontrivial(h(j + t.name));
    safe(c, t, j);
}
PBT(P11, truncated, 25000, 700000, "at least three characters")
{
    auto &t = pick_type(c);
    Msg m = gen_msg(c, t.info(), jopt(20));
    std::string j = json_encode(m, &c, gen_var(c));
    std::string cut = j.substr(0, c.draw(j.size() - 1));
    c.note("json: " + text(j) + "\ncut: " + text(cut));
    if (cut.size() > 2)
        c.nontrivial(h(cut + t.name));
    auto g = js_read(t, cut);
    c.check(!g.ok, "a truncated document is accepted");
    ChunkReader r{&cut};
    r.chunks = gen_chunks(c);
    c.check(!js_read_chunks(t, r).ok, "a truncated document is accepted by a reader");
}
// documents which are truncated where the closing brackets are missing only
PBT(P11, nesting, 3000, 60000, "nested deeper than 20 levels")
{
    auto &t = c.chance(1, 2) ? ops("ks.three.Node") : ops("ks.three.Wrap");
    bool node = !strcmp(t.name, "ks.three.Node");
    size_t depth;
    switch (c.draw(3))
    {
    default: depth = 1 + c.draw(150); break;
    case 1: depth = 95 + c.draw(10); break;
    case 2: depth = c.draw(5000); break;
    case 3: depth = 1000 + c.draw(200000); break;
    }
    std::string open, close;
    int how = int(c.draw(4));
    bool close_it = c.chance(1, 2);
    bool known = false;
    for (size_t i = 0; i < depth; i++)
        switch (how)
        {
        case 0: // known messages
            known = true;
            open += node ? "{\"next\":" : (i % 2 ? "{\"wrap\":" : "{\"node\":");
            close += "}";
            break;
        case 1: // unknown objects
            open += "{\"zz\":";
            close += "}";
            break;
        case 2: // unknown arrays
            open += i ? "[" : "{\"zz\":";
            close += i ? "]" : "}";
            break;
        case 3:
            open += i == 0 || i % 2 ? "{\"q\":" : "[";
            close += i == 0 || i % 2 ? "}" : "]";
            break;
        case 4: // arrays of known messages
            known = true;
            open += node || i ? "{\"kids\":[" : "{\"nodes\":[";
            close += "]}";
            break;
        }
    // in case 3 the closing order has to be mirrored
    std::string j = open;
    j += how == 0 ? "{}" : how == 4 ? "" : "1";
    if (close_it)
    {
        if (how == 3)
        {
            std::string r;
            for (size_t i = depth; i-- > 0;)
                r += i == 0 || i % 2 ? "}" : "]";
            j += r;
        }
        else if (how == 2)
            j += std::string(depth - 1, ']') + "}";
        else
            j += close;
    }
    c.note("kind " + std::to_string(how) + " depth " + std::to_string(depth) + " on " + t.name);
    if (depth > 20)
        c.nontrivial(h(j));
    (void)known;
    safe(c, t, j);
    if (!close_it)
        c.check(!js_read(t, j).ok, "an unclosed document is accepted");
    else if (depth <= 90)
    {
        auto g = js_read(t, j);
        c.check(g.ok, "a document nested " + std::to_string(depth) + " levels is refused: " + g.err);
    }
}
// exactly one value of an otherwise valid document is replaced by one which does not fit the field
static std::string bad_value(Case &c, const FieldInfo &fi, bool whole)
{
    auto any = [&](std::vector<std::string> v) { return v[c.draw(v.size() - 1)]; };
    if (whole && fi.card == Card::Map)
    {
        std::string v = fi.kind == Kind::Message ? "{}" : fi.kind == Kind::String || fi.kind == Kind::Bytes ? "\"\"" : fi.kind == Kind::Bool ? "true" : fi.kind == Kind::Enum ? std::string("\"") + fi.en().values[0].first + "\"" : "0";
        std::string bk;
        if (fi.key == Kind::String)
            bk = any({"\"\xff\"", "1", "true", "\"\\q\"", "\"\\udc00\""});
        else if (fi.key == Kind::Bool)
            bk = any({"\"1\"", "\"yes\"", "\"\"", "\"truex\"", "true"});
        else
        {
            std::vector<std::string> v2 = {"\"x\"", "\"\"", "\"1x\"", "\"1.5\"", "\"99999999999999999999999\"", "\"-99999999999999999999999\"", "1", "\"true\"", "null"};
            if (kind_bits(fi.key) == 32)
                v2.push_back(is_signed_kind(fi.key) ? "\"2147483648\"" : "\"4294967296\"");
            if (!is_signed_kind(fi.key))
                v2.push_back("\"-1\"");
            bk = any(v2);
        }
        return any({"[]", "1", "\"x\"", "true", "[{}]", "{" + bk + ":" + v + "}", "{" + bk + ":" + v + "}", "{" + bk + ":" + v + "}", "{" + bk + "}"});
    }
    if (whole && fi.card == Card::Repeated)
        return any({"{}", "1", "\"x\"", "true", "[,]", "[[]]", "{\"0\":1}"});
    switch (fi.kind)
    {
    case Kind::Message: return any({"1", "\"x\"", "[]", "true", "\"\"", "[{}]", "-1.5"});
    case Kind::Bool: return any({"1", "0", "\"x\"", "[]", "{}", "tru", "truee", "falsee", "TRUE", "\"\""});
    case Kind::String:
        return any({"1", "true", "[]", "{}", "\"\xff\"", "\"a\xc0\x80\"", "\"\xed\xa0\x80\"", "\"\xf4\x90\x80\x80\"", "\"\xe2\x82\"", "\"\x80\"", "\"\\q\"", "\"\\u12\"", "\"\\u12g4\"", "\"\\ud800\"", "\"\\udc00\"",
                    "\"\\ud800\\u0041\"", "\"\\ud800x\"", "\"\\ud83d\\ud83d\"", "\"\\U0041\"", "\"\\'\"", "-1.5e3"});
    case Kind::Bytes: return any({"\"A\"", "\"AB\"", "\"ABC\"", "\"A===\"", "\"A=BC\"", "\"AB=C\"", "\"==\"", "\"AB$=\"", "\"====\"", "\"AAAA====\"", "\"AA==AAAA\"", "1", "{}", "[]", "true", "\"AA A\"", "\"\xff" "AAA\""});
    case Kind::Enum: return any({"\"NOPE\"", "\"\"", "true", "[]", "{}", "99999999999", "-99999999999", "1.5", "\"\xff\"", std::string("\"") + fi.en().values[0].first + "x\"", std::string("\"") + std::string(fi.en().values[0].first).substr(1) + "\""});
    case Kind::Float: return any({"true", "[]", "{}", "\"abc\"", "\"\"", "1e999", "-1e999", "1e39", "\"1x\"", "\"1e99999\"", "- 1", "\"-\""});
    case Kind::Double: return any({"true", "[]", "{}", "\"abc\"", "\"\"", "1e999", "-1e999", "\"1x\"", "\"1e99999\"", "- 1", "\"-\""});
    default: break;
    }
    bool s = is_signed_kind(fi.kind);
    bool w = kind_bits(fi.kind) == 64;
    std::string lo = s ? w ? "-9223372036854775809" : "-2147483649" : "-1", hi = s ? w ? "9223372036854775808" : "2147483648" : w ? "18446744073709551616" : "4294967296";
    return any({lo, hi, "\"" + lo + "\"", "\"" + hi + "\"", "99999999999999999999999999", "-99999999999999999999999999", "true", "[]", "{}", "\"abc\"", "\"\"", "1.5", "\"1x\"", "\"x1\"", "\"1.5\"", "- 1", "0x10", "\"0x10\""});
}
PBT(P11, bad_value, 40000, 1200000, "every case: one field of a valid document has a value which does not fit")
{
    auto &t = pick_type(c, "ks");
    auto &info = t.info();
    if (info.f.empty())
        c.discard();
    size_t i = c.draw(info.f.size() - 1);
    auto &fi = info.f[i];
    Msg m = gen_msg(c, info, jopt(10, 3));
    m.f[i].v.clear();
    m.f[i].k.clear();
    std::string rest = json_encode(m, &c, JsonVar{});
    bool whole = c.chance(1, 3);
    std::string bad = bad_value(c, fi, whole);
    if (!whole && fi.card == Card::Repeated)
        bad = "[" + bad + "]";
    if (!whole && fi.card == Card::Map)
    {
        std::string key = fi.key == Kind::Bool ? "true" : "1";
        bad = "{\"" + key + "\":" + bad + "}";
    }
    std::string key = c.chance(1, 2) ? fi.name : fi.json_name;
    std::string item = "\"" + key + "\":" + bad, j;
    if (c.chance(1, 2))
        j = "{" + item + (rest == "{}" ? "" : ",") + rest.substr(1);
    else
        j = rest.substr(0, rest.size() - 1) + (rest == "{}" ? "" : ",") + item + "}";
    c.label(std::string("kind") + std::to_string(int(fi.kind)));
    c.note("field: " + std::string(fi.name) + "\njson: " + text(j));
    c.nontrivial(h(j + t.name));
    auto g = js_read(t, j);
    c.check(!g.ok, "a value which does not fit the field is accepted");
    ChunkReader r{&j};
    r.chunks = gen_chunks(c);
    c.check(!js_read_chunks(t, r).ok, "a value which does not fit the field is accepted by a reader");
}

// user-chosen types: nothing may be written outside of the containers, memory and reader agree, and what is accepted can be written again
static bool no_unknown_enum(const Msg &m)
{
    for (size_t i = 0; i < m.f.size(); i++)
        for (auto &v : m.f[i].v)
        {
            if (v.m && !no_unknown_enum(*v.m))
                return false;
            if (m.t->f[i].kind == Kind::Enum)
            {
                bool in = false;
                for (auto &e : m.t->f[i].en().values)
                    in |= uint64_t(int64_t(e.second)) == v.n;
                if (!in)
                    return false;
            }
        }
    return true;
}
PBT(P11, typed, 30000, 900000, "the text was changed and is not empty")
{
    auto &t = pick_type(c, "ty.");
    GenOpt o = jopt(25);
    Msg m1 = gen_msg(c, t.info(), o), m2 = gen_msg(c, t.info(), o);
    std::string a = json_encode(m1, &c, gen_var(c)), b = json_encode(m2);
    std::string x = mutate(c, a, b, dict());
    c.note("json: " + text(x));
    if (x != a && !x.empty())
        c.nontrivial(h(x + t.name));
    auto g = js_read(t, x);
    c.label(g.ok ? "accepted" : "refused");
    ChunkReader r{&x};
    r.chunks = gen_chunks(c);
    auto g2 = js_read_chunks(t, r);
    c.check(g2.ok == g.ok, std::string("a reader ") + (g2.ok ? "accepts" : "refuses") + " what memory does not: " + g.err + g2.err);
    if (!g.ok)
        return;
    must_equal(c, g.m, g2.m, "a reader reads another value than memory");
    structured(c, g, x);
    if (!no_unknown_enum(g.m))
        return;
    OBJ(w, t, g.m);
    auto g3 = js_read(t, js_write(w));
    c.check(g3.ok, "what was accepted is refused after it was written again: " + g3.err);
    must_equal(c, g.m, g3.m, "what was accepted changes when it is written and read again");
}

// ------------------------------------------------------------------------------------------- P12
PBT(P12, chunking, 30000, 900000, "more than one reader call delivered data")
{
    auto &t = pick_type(c);
    GenOpt o = jopt(30);
    o.long_strings = 2;
    Msg m = gen_msg(c, t.info(), o);
    std::string j = json_encode(m, &c, gen_var(c));
    if (c.chance(1, 3))
        j = std::string(c.draw(520), ' ') + j;
    if (c.chance(1, 4))
        j = mutate(c, j, j, dict());
    c.note("json: " + text(j));
    auto g = js_read(t, j);
    for (int k = 0; k < 3; k++)
    {
        ChunkReader r{&j};
        r.chunks = k == 0 ? gen_chunks(c) : k == 1 ? std::vector<uint32_t>{1} : std::vector<uint32_t>{uint32_t(1 + c.draw(300)), uint32_t(1 + c.draw(3))};
        auto g2 = js_read_chunks(t, r);
        if (r.calls > 2)
            c.nontrivial(h(j + t.name));
        c.check(g.ok == g2.ok, std::string("reader ") + (g2.ok ? "accepts" : "refuses") + ", memory does not: " + g.err + g2.err);
        if (!g.ok)
            continue;
        must_equal(c, g.m, g2.m, "reader and memory give different values");
        c.check(g.consumed == g2.consumed, "consumed count: memory " + std::to_string(g.consumed) + " reader " + std::to_string(g2.consumed));
    }
}
PBT(P12, huge, 600, 15000, "at least 2000 characters through a reader")
{
    auto &t = pick_type(c);
    Msg m = gen_huge(c, t.info());
    std::string j = json_encode(m, &c, gen_var(c));
    c.note("value: " + render(m));
    if (j.size() >= 2000)
        c.nontrivial(h(j + t.name));
    auto g = js_read(t, j);
    c.check(g.ok, "valid json is refused: " + g.err);
    must_equal(c, m, g.m, "value differs");
    for (int k = 0; k < 2; k++)
    {
        ChunkReader r{&j};
        r.chunks = k ? gen_chunks(c) : std::vector<uint32_t>{uint32_t(60000 + c.draw(9000)), uint32_t(1 + c.draw(70000)), uint32_t(1 + c.draw(700))};
        auto g2 = js_read_chunks(t, r);
        c.check(g2.ok, "valid json is refused by a reader: " + g2.err);
        must_equal(c, m, g2.m, "value read by a reader differs");
        c.check(g.consumed == g2.consumed, "consumed count: memory " + std::to_string(g.consumed) + " reader " + std::to_string(g2.consumed));
    }
    OBJ(a, t, m);
    Writer w;
    t.js_wr(a.p, w);
    c.check(w.out == js_write(a), "the writer got another document than a buffer");
}
// every token of a small document is moved over the boundary of the internal buffer
PBT(P12, boundary, 20000, 600000, "every case: the document crosses offset 256 or 512 of the stream")
{
    auto &t = pick_type(c);
    Msg m = gen_msg(c, t.info(), jopt(8, 3));
    JsonVar v = gen_var(c);
    v.ws = false;
    std::string j = json_encode(m, &c, v);
    if (j.size() > 200 && c.chance(3, 4))
        c.discard();
    size_t edge = c.chance(2, 3) ? 256 : 512;
    size_t pos = c.draw(std::min<size_t>(j.size(), 250)); // this character stands at the edge
    std::string pad;
    if (c.chance(1, 2))
        pad = std::string(edge - pos, " \n\t\r"[c.draw(3)]);
    std::string s = pad.empty() ? "{\"~pad\":\"" + std::string(edge - std::min(edge, pos + 11), 'p') + "\"," + j.substr(1) : pad + j;
    if (pad.empty() && j == "{}")
        s = j;
    c.note("json: " + text(s));
    c.nontrivial(h(s + t.name));
    auto g = js_read(t, s);
    c.check(g.ok, "valid json is refused: " + g.err);
    must_equal(c, m, g.m, "value differs");
    for (int k = 0; k < 2; k++)
    {
        ChunkReader r{&s};
        r.chunks = k ? gen_chunks(c) : std::vector<uint32_t>{};
        auto g2 = js_read_chunks(t, r);
        c.check(g2.ok, "valid json is refused by a reader: " + g2.err);
        must_equal(c, m, g2.m, "value read by a reader differs");
    }
    // and a document cut or damaged at the boundary
    std::string cut = s.substr(0, std::min(s.size() - 1, edge + size_t(c.range(-3, 3))));
    ChunkReader r{&cut};
    c.check(!js_read_chunks(t, r).ok, "a document cut at the buffer boundary is accepted by a reader");
}
PBT(P12, reader_fault, 12000, 300000, "the fault was reached")
{
    auto &t = pick_type(c);
    Msg m = gen_msg(c, t.info(), jopt(25));
    std::string j = json_encode(m, &c, gen_var(c));
    if (c.chance(1, 3))
        j = std::string(c.draw(300), ' ') + j + std::string(c.draw(300), '\n');
    auto ch = gen_chunks(c);
    ChunkReader r{&j};
    r.chunks = ch;
    auto g = js_read_chunks(t, r);
    c.check(g.ok, "valid input is refused: " + g.err);
    if (r.calls == 0)
        c.fail("the reader is never called");
    long k = long(c.draw(r.calls - 1));
    c.note("json: " + text(j) + "\nfault at reader call " + std::to_string(k) + " of " + std::to_string(r.calls));
    Obj a(t);
    ChunkReader f{&j};
    f.chunks = ch;
    f.fault_at = k;
    bool thrown = false;
    try
    {
        t.js_de_rd(a.p, f);
    }
    catch (const ReaderFault &x)
    {
        thrown = x.id == 42;
    }
    catch (const std::exception &e)
    {
        c.fail(std::string("the reader's exception arrives as another one: ") + e.what());
    }
    c.nontrivial(h(j + t.name + std::to_string(k)));
    c.check(thrown, "the reader's exception is lost");
    c.check(long(f.calls) == k + 1, "the reader is called again after it threw");
    (void)a.tree(); // the half-read object is usable
    try
    {
        t.js_size(a.p);
    }
    catch (const std::exception &) // half of a character
    {
    }
}
PBT(P12, writer_fault, 12000, 300000, "the fault was reached")
{
    auto &t = pick_type(c);
    Msg m = gen_msg(c, t.info(), jopt(30));
    OBJ(a, t, m);
    Writer w;
    t.js_wr(a.p, w);
    if (!w.calls)
        c.fail("the writer is never called");
    long k = long(c.draw(w.calls - 1));
    c.note("value: " + render(m) + "\nfault at writer call " + std::to_string(k) + " of " + std::to_string(w.calls));
    Writer f;
    f.fault_at = k;
    // the writer is used through a reference: the library keeps no copy
    bool thrown = false;
    try
    {
        t.js_wr(a.p, f);
    }
    catch (const ReaderFault &x)
    {
        thrown = x.id == 43;
    }
    catch (const std::exception &e)
    {
        c.fail(std::string("the writer's exception arrives as another one: ") + e.what());
    }
    c.nontrivial(h(w.out + t.name + std::to_string(k)));
    c.check(thrown, "the writer's exception is lost");
    c.check(long(f.calls) == k + 1, "the writer is called again after it threw");
    c.check(w.out.compare(0, f.out.size(), f.out) == 0, "what was written before the fault is not a prefix of the output");
    must_equal(c, m, a.tree(), "a failed serialization changed the message", false);
    Writer again;
    t.js_wr(a.p, again);
    c.check(again.out == w.out, "serialization after a fault differs");
}
