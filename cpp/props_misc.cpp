// P06, P13, P14, P17: entry points, text, base64, allocations
#include "common.hpp"
#include "track_types.hpp"
#include "goog.hpp"
#include "jsonm.hpp"
#include "wire.hpp"
#include <cmath>
#include <set>
using namespace br;

static void must_equal(Case &c, const Msg &want, const Msg &got, const std::string &what)
{
    EqOpt o;
    o.nan_class = true;
    if (!msg_eq(want, got, o))
        c.fail(what + ": " + diff(want, got));
}
static void same(Case &c, const std::string &want, const std::string &got, const std::string &what)
{
    if (want != got)
        c.fail(what + " differs: " + show(got) + " instead of " + show(want));
}
#define OBJ(name, t, m) \
    Obj name(t, m);     \
    if (Msg b_ = name.tree(); !msg_eq(m, b_)) c.fail("harness: bridge does not preserve the value: " + diff(m, b_))

// ------------------------------------------------------------------------------------------- P06
// writes into a heap block of exactly n bytes
template <class F> static std::string into_exact(Case &c, size_t n, F f, const char *what)
{
    std::unique_ptr<char[]> p(new char[n]);
    memset(p.get(), 0x5a, n);
    size_t r = f(p.get());
    c.check(r == n, std::string(what) + ": returned size " + std::to_string(r) + ", announced " + std::to_string(n));
    return std::string(p.get(), n);
}
static std::string str(const std::vector<std::byte> &v)
{
    return std::string((const char *)v.data(), v.size());
}
static void entry_points(Case &c, const TypeOps &t, const Msg &m)
{
    c.note("value: " + render(m));
    OBJ(a, t, m);
    if (set_fields(m) >= 2)
        c.nontrivial(h(render(m) + t.name));
    std::string plain;
    for (bool d : {false, true})
    {
        std::string n = d ? "length-prefixed protobuf" : "protobuf";
        size_t size = t.pb_size(a.p, d);
        std::string b = into_exact(c, size, [&](void *p) { return t.pb_buf(a.p, p, d); }, n.c_str());
        if (!d)
            plain = b;
        else
            same(c, varint(plain.size()) + plain, b, "length-prefixed output");
        for (int k = 0; k < 3; k++) // empty, shorter and longer containers
        {
            std::string s(k == 0 ? 0 : k == 1 ? size / 2 : size + 100, 'Q');
            size_t r = t.pb_str(a.p, s, d);
            c.check(r == size, n + ": size returned for a string");
            same(c, b, s, n + " written to a string");
            std::vector<std::byte> v(k == 0 ? 0 : k == 1 ? size / 2 : size + 100, std::byte(7));
            r = t.pb_vec(a.p, v, d);
            c.check(r == size, n + ": size returned for a vector");
            same(c, b, str(v), n + " written to a vector");
        }
        same(c, b, t.pb_ret(a.p, d), n + " returned");
        Writer w;
        size_t r = t.pb_wr(a.p, w, d);
        c.check(r == size, n + ": size returned for a writer");
        same(c, b, w.out, n + " given to a writer");
        same(c, b, into_exact(c, t.pb_size(a.p, d), [&](void *p) { return t.pb_buf(a.p, p, d); }, n.c_str()), n + " written a second time");
    }
    {
        size_t size = t.js_size(a.p);
        std::string b = into_exact(c, size, [&](void *p) { return t.js_buf(a.p, p); }, "json");
        for (int k = 0; k < 3; k++)
        {
            std::string s(k == 0 ? 0 : k == 1 ? size / 2 : size + 100, 'Q');
            size_t r = t.js_str(a.p, s);
            c.check(r == size, "json: size returned for a string");
            same(c, b, s, "json written to a string");
            std::vector<std::byte> v(k == 0 ? 0 : k == 1 ? size / 2 : size + 100, std::byte(7));
            r = t.js_vec(a.p, v);
            c.check(r == size, "json: size returned for a vector");
            same(c, b, str(v), "json written to a vector");
        }
        same(c, b, t.js_ret(a.p), "json returned");
        Writer w;
        size_t r = t.js_wr(a.p, w);
        c.check(r == size, "json: size returned for a writer");
        same(c, b, w.out, "json given to a writer");
        same(c, b, t.js_ret(a.p), "json written a second time");
    }
    Msg after = a.tree();
    if (!msg_eq(m, after))
        c.fail("serialization changed the message: " + diff(m, after));
    // an equal message has the same bytes, however it was made (unordered maps have no order)
    bool unordered = false;
    for (auto &f : t.info().f)
        unordered |= f.unordered;
    if (!unordered)
    {
        OBJ(e, t, m);
        same(c, plain, pb_write(e), "protobuf of an equal message");
        auto g = pb_read(t, plain);
        c.check(g.ok, "own output is refused: " + g.err);
        Obj x(t, g.m);
        same(c, plain, pb_write(x), "protobuf of the message read back");
    }
}
static GenOpt mopt(int nodes, int depth = 4)
{
    GenOpt o;
    o.json_safe = true;
    o.nodes = nodes;
    o.depth = depth;
    return o;
}
PBT(P06, values, 25000, 700000, "at least two fields, elements or entries are set")
{
    auto &t = pick_type(c);
    entry_points(c, t, gen_msg(c, t.info(), mopt(50)));
}
PBT(P06, big, 2000, 60000, "at least two fields, elements or entries are set")
{
    auto &t = pick_type(c);
    entry_points(c, t, gen_msg(c, t.info(), mopt(500, 7)));
}
PBT(P06, huge, 400, 10000, "at least two fields, elements or entries are set")
{
    auto &t = pick_type(c);
    entry_points(c, t, gen_huge(c, t.info()));
}
// sizes around the places where the length of a length prefix changes, at several nesting levels
PBT(P06, lengths, 8000, 200000, "every case")
{
    auto &t = ops("ks.three.Node");
    Msg m(t.info());
    Msg *p = &m;
    size_t depth = c.draw(4);
    auto &inf = t.info();
    size_t nx = 0, nm = 0;
    for (size_t i = 0; i < inf.f.size(); i++)
    {
        if (!strcmp(inf.f[i].name, "next"))
            nx = i;
        if (!strcmp(inf.f[i].name, "name"))
            nm = i;
    }
    size_t len = c.pick(std::vector<size_t>{100, 127, 128, 129, 16383, 16384, 16385}) - c.draw(12);
    p->f[nm].v.push_back(Val(std::string(c.draw(3), 'o')));
    for (size_t i = 0; i < depth; i++)
    {
        Val v;
        v.m = std::make_unique<Msg>(t.info());
        p->f[nx].v.push_back(std::move(v));
        p = p->f[nx].v[0].m.get();
    }
    p->f[nm].v.clear();
    p->f[nm].v.push_back(Val(std::string(len, 'x')));
    c.nontrivial(len * 8 + depth);
    c.note("text of " + std::to_string(len) + " at depth " + std::to_string(depth));
    entry_points(c, t, m);
    auto g = pb_read(t, t.pb_ret(Obj(t, m).p, true), true);
    c.check(g.ok, "own length-prefixed output is refused: " + g.err);
    must_equal(c, m, g.m, "value read back");
}

// ------------------------------------------------------------------------------------------- P13
struct Place
{
    const TypeOps *t;
    size_t i;
    bool key;
};
static const std::vector<Place> &places(Kind k)
{
    static std::map<Kind, std::vector<Place>> all;
    auto &v = all[k];
    if (v.empty())
        for (auto *t : types())
            for (size_t i = 0; i < t->info().f.size(); i++)
            {
                auto &f = t->info().f[i];
                if (f.kind == k)
                    v.push_back({t, i, false});
                if (f.card == Card::Map && f.key == k)
                    v.push_back({t, i, true});
            }
    return v;
}
static Val plain_val(const FieldInfo &f)
{
    Val v;
    if (f.kind == Kind::Message)
        v.m = std::make_unique<Msg>(f.msg());
    if (f.fixed_len)
        v.s.assign(size_t(f.fixed_len), 'f');
    return v;
}
// a message with s at the place
static Msg message_with(Case &c, const Place &p, const std::string &s, size_t &at)
{
    Msg m(p.t->info());
    auto &fi = p.t->info().f[p.i];
    auto &f = m.f[p.i];
    at = 0;
    if (fi.card == Card::Plain)
        f.v[0].s = s;
    else if (p.key)
    {
        f.k.push_back(Val(s));
        f.v.push_back(plain_val(fi));
    }
    else if (fi.card == Card::Map)
    {
        Val k;
        if (fi.key == Kind::String)
            k.s = "k";
        f.k.push_back(k);
        f.v.push_back(Val(s));
    }
    else if (fi.card == Card::Repeated)
    {
        size_t hi = fi.cap_count ? size_t(fi.cap_count) : 3;
        size_t n = 1 + c.draw(std::min<size_t>(hi, 3) - 1);
        at = c.draw(n - 1);
        for (size_t i = 0; i < n; i++)
        {
            Val v = plain_val(fi);
            if (i == at)
                v.s = s;
            f.v.push_back(v);
        }
    }
    else
        f.v.push_back(Val(s));
    return m;
}
static size_t room(const Place &p)
{
    auto &f = p.t->info().f[p.i];
    if (p.key)
        return f.key_cap ? size_t(f.key_cap) : 5000;
    size_t n = 5000;
    if (f.cap_len)
        n = size_t(f.cap_len);
    if (f.max_size)
        n = std::min<size_t>(n, f.max_size);
    return n;
}
static std::string gen_text_bytes(Case &c)
{
    static const unsigned char edge[] = {0x00, 0x22, 0x41, 0x5c, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfc, 0xff};
    std::string s;
    switch (c.draw(5))
    {
    default: { // combinations of interesting bytes
        size_t n = 1 + c.draw(4);
        for (size_t i = 0; i < n; i++)
            s += char(edge[c.draw(sizeof edge - 1)]);
        break;
    }
    case 1: { // lead byte and continuation bytes, any values
        size_t n = 1 + c.draw(3);
        s += char(0xc0 + c.draw(0x3f));
        for (size_t i = 0; i < n; i++)
            s += char(c.chance(5, 6) ? 0x80 + c.draw(0x3f) : c.draw(255));
        break;
    }
    case 2: // well-formed
        s = gen_utf8(c, 0, 40);
        break;
    case 3: // one byte of well-formed text changed, lost or added
    {
        s = gen_utf8(c, 1, 40);
        if (s.empty())
            break;
        size_t at = c.draw(s.size() - 1);
        switch (c.draw(2))
        {
        default: s[at] = char(s[at] ^ (1 << c.draw(7))); break;
        case 1: s.erase(at, 1); break;
        case 2: s.insert(s.begin() + long(at), char(0x80 + c.draw(0x7f))); break;
        }
        break;
    }
    case 4: { // any code point, surrogates and too large ones included, in its bit pattern
        uint32_t cp = uint32_t(c.chance(1, 2) ? c.draw(0x1fffff) : 0xd700 + c.draw(0x900));
        if (cp < 0x10000)
            put_utf8(s, cp);
        else
        {
            s += char(0xf0 | (cp >> 18));
            s += char(0x80 | ((cp >> 12) & 63));
            s += char(0x80 | ((cp >> 6) & 63));
            s += char(0x80 | (cp & 63));
        }
        break;
    }
    case 5: { // overlong forms
        uint32_t cp = uint32_t(c.draw(0xffff));
        if (c.chance(1, 2) && cp < 0x800)
            s += std::string{char(0xe0 | (cp >> 12)), char(0x80 | ((cp >> 6) & 63)), char(0x80 | (cp & 63))};
        else if (cp < 0x80)
            s += std::string{char(0xc0 | (cp >> 6)), char(0x80 | (cp & 63))};
        else
            s += std::string{char(0xf0), char(0x80 | (cp >> 12)), char(0x80 | ((cp >> 6) & 63)), char(0x80 | (cp & 63))};
        break;
    }
    }
    if (c.chance(1, 2))
        s = std::string(c.chance(1, 8) ? 240 + c.draw(20) : c.draw(20), 'p') + s;
    if (c.chance(1, 2))
        s += std::string(c.draw(20), 's');
    return s;
}
static std::string raw_json_string(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char x : s)
        if (x < 0x20 || x == '"' || x == '\\')
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", x);
            o += b;
        }
        else
            o += char(x);
    return o + "\"";
}
static std::string raw_json(const Msg &m, const Place &p, size_t at)
{
    auto &fi = p.t->info().f[p.i];
    auto &f = m.f[p.i];
    auto val = [&](size_t j) -> std::string {
        if (fi.kind == Kind::String)
            return raw_json_string(f.v[j].s);
        Msg one(p.t->info());
        // through the printer of the model
        JsonVar v;
        Msg tmp = m;
        (void)v;
        return std::string();
    };
    std::string o = std::string("{\"") + (fi.json_explicit ? fi.json_name : fi.name) + "\":";
    (void)at;
    if (fi.card == Card::Map)
    {
        std::string v;
        switch (fi.kind)
        {
        case Kind::String: v = val(0); break;
        case Kind::Bytes: v = "\"\""; break;
        case Kind::Message: v = "{}"; break;
        case Kind::Bool: v = "false"; break;
        case Kind::Enum: v = std::string("\"") + fi.en().values[0].first + "\""; break;
        default: v = "0";
        }
        std::string k = fi.key == Kind::String ? raw_json_string(f.k[0].s) : fi.key == Kind::Bool ? "\"false\"" : "\"0\"";
        return o + "{" + k + ":" + v + "}}";
    }
    if (fi.card == Card::Repeated)
    {
        o += "[";
        for (size_t j = 0; j < f.v.size(); j++)
            o += (j ? "," : "") + val(j);
        return o + "]}";
    }
    return o + val(0) + "}";
}
PBT(P13, crossing, 60000, 1800000, "every case with a byte outside of ASCII")
{
    auto &p = c.pick(places(Kind::String));
    auto &fi = p.t->info().f[p.i];
    std::string s = gen_text_bytes(c);
    if (fi.fixed_len && !p.key)
    {
        size_t n = size_t(fi.fixed_len);
        if (s.size() > n)
            s.resize(n);
        else
            s = std::string(n - s.size(), 'p') + s;
    }
    else if (s.size() > room(p))
        s = s.substr(s.size() - room(p));
    bool valid = utf8_valid(s);
    size_t at;
    Msg m = message_with(c, p, s, at);
    c.note(std::string("field: ") + p.t->name + "." + fi.name + (p.key ? " (key)" : "") + "\ntext: " + hex(s) + (valid ? " (valid)" : " (not UTF-8)"));
    c.label(valid ? "valid" : "invalid");
    bool ascii = true;
    for (unsigned char x : s)
        ascii &= x < 0x80;
    if (!ascii)
        c.nontrivial(h(s + p.t->name + fi.name));
    const char *say = valid ? " refuses well-formed UTF-8" : " accepts text which is not UTF-8";
    auto &t = *p.t;
    OBJ(a, t, m);
    // out
    auto out = [&](const char *what, auto f) {
        bool ok = true;
        std::string err;
        try
        {
            f();
        }
        catch (const std::exception &e)
        {
            ok = false;
            err = e.what();
        }
        c.check(ok == valid, std::string(what) + say + " " + err);
    };
    out("protobuf serialization", [&] { std::string o; t.pb_str(a.p, o, false); });
    out("protobuf serialization to a writer", [&] { Writer w; t.pb_wr(a.p, w, false); });
    out("json serialization", [&] { std::string o; t.js_str(a.p, o); });
    out("json serialization to a writer", [&] { Writer w; t.js_wr(a.p, w); });
    // in
    std::string b = wire_encode(m);
    std::string j = raw_json(m, p, at);
    c.note("json: " + text(j));
    auto g = pb_read(t, b);
    c.check(g.ok == valid, std::string("protobuf deserialization") + say + " " + g.err);
    ChunkReader r{&b};
    r.chunks = gen_chunks(c);
    auto g2 = pb_read_chunks(t, r);
    c.check(g2.ok == valid, std::string("protobuf deserialization from a reader") + say + " " + g2.err);
    auto g3 = js_read(t, j);
    c.check(g3.ok == valid, std::string("json deserialization") + say + " " + g3.err);
    ChunkReader r4{&j};
    r4.chunks = gen_chunks(c);
    auto g4 = js_read_chunks(t, r4);
    c.check(g4.ok == valid, std::string("json deserialization from a reader") + say + " " + g4.err);
    if (valid)
    {
        auto val = [&](const Msg &x) { return x.f[p.i].v.empty() ? std::string("(none)") : p.key ? x.f[p.i].k[0].s : x.f[p.i].v[at].s; };
        same(c, s, val(g.m), "text read from protobuf");
        same(c, s, val(g2.m), "text read from protobuf by a reader");
        same(c, s, val(g3.m), "text read from json");
        same(c, s, val(g4.m), "text read from json by a reader");
        auto g5 = js_read(t, js_write(a));
        c.check(g5.ok, "own json is refused: " + g5.err);
        if (!(fi.card == Card::Plain && s.empty()))
            same(c, s, val(g5.m), "text after a json round trip");
    }
}
// escape sequences, paired and unpaired
PBT(P13, escapes, 40000, 1200000, "at least one \\u escape")
{
    std::string js, want;
    bool valid = true;
    size_t n = 1 + c.draw(4), esc = 0;
    auto unit = [&](uint32_t u) {
        char b[8];
        static const char *fm[] = {"\\u%04x", "\\u%04X"};
        snprintf(b, sizeof b, fm[c.draw(1)], u);
        js += b;
        esc++;
    };
    for (size_t i = 0; i < n; i++)
        switch (c.draw(6))
        {
        default: {
            std::string s = gen_utf8(c, 1, 8);
            for (auto &x : s)
                if ((unsigned char)x < 0x20 || x == '"' || x == '\\')
                    x = '_';
            js += s;
            want += s;
            break;
        }
        case 1:
        case 2: { // one unit outside of the surrogates
            uint32_t u;
            switch (c.draw(3))
            {
            default: u = uint32_t(c.draw(0xff)); break;
            case 1: u = uint32_t(c.draw(0xd7ff)); break;
            case 2: u = 0xe000 + uint32_t(c.draw(0x1fff)); break;
            case 3: u = c.pick(std::vector<uint32_t>{0, 0x22, 0x5c, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffe, 0xffff, 0x2028}); break;
            }
            unit(u);
            put_utf8(want, u);
            break;
        }
        case 3:
        case 4: { // pair
            uint32_t cp = c.chance(1, 3) ? c.pick(std::vector<uint32_t>{0x10000, 0x10ffff, 0x103ff, 0x10400, 0x1f600, 0xfffff, 0x100000}) : 0x10000 + uint32_t(c.draw(0xfffff));
            unit(0xd800 + ((cp - 0x10000) >> 10));
            unit(0xdc00 + ((cp - 0x10000) & 0x3ff));
            put_utf8(want, cp);
            break;
        }
        case 5: { // broken pairs
            valid = false;
            switch (c.draw(4))
            {
            default: // high without low
                unit(0xd800 + uint32_t(c.draw(0x3ff)));
                js += c.pick(std::vector<std::string>{"x", "\\n", "", "\\\\", "dc00", "\\/u"});
                // a following low surrogate would complete it
                js += "|";
                break;
            case 1:
                js += "|"; // keeps a preceding high surrogate away
                unit(0xdc00 + uint32_t(c.draw(0x3ff)));
                break;
            case 2: // high, high
                unit(0xd800 + uint32_t(c.draw(0x3ff)));
                unit(0xd800 + uint32_t(c.draw(0x3ff)));
                js += "|";
                break;
            case 3: // high, other
                unit(0xd800 + uint32_t(c.draw(0x3ff)));
                unit(c.chance(1, 2) ? uint32_t(c.draw(0xd7ff)) : 0xe000 + uint32_t(c.draw(0x1fff)));
                break;
            case 4: // low, high
                js += "|";
                unit(0xdc00 + uint32_t(c.draw(0x3ff)));
                unit(0xd800 + uint32_t(c.draw(0x3ff)));
                js += "|";
                break;
            }
            break;
        }
        case 6: { // not an escape at all
            if (c.chance(2, 3))
                break;
            valid = false;
            js += c.pick(std::vector<std::string>{"\\u", "\\u0", "\\u12", "\\u123", "\\u12g4", "\\u 123", "\\u+123", "\\u-123", "\\U0041", "\\x41", "\\a", "\\0", "\\u00 0", "\\v", "\\'", "\\u0x41", "\\ud83d\\u", "\\ud83d\\ude0", "\\ud83d\\ude0g", "\\ud83d\\"});
            js += "|";
            break;
        }
        }
    auto &p = c.pick(places(Kind::String));
    auto &fi = p.t->info().f[p.i];
    if (fi.fixed_len && !p.key)
    {
        if (want.size() > size_t(fi.fixed_len))
            c.discard();
        std::string pad(size_t(fi.fixed_len) - want.size(), 'p');
        want = pad + want;
        js = pad + js;
    }
    else if (want.size() > room(p))
        c.discard();
    size_t at;
    Msg m = message_with(c, p, "@", at);
    std::string doc = raw_json(m, p, at);
    auto pos = doc.find("\"@\"");
    if (pos == std::string::npos)
        c.fail("harness: placeholder");
    doc = doc.substr(0, pos + 1) + js + doc.substr(pos + 2);
    if (c.chance(1, 4))
        doc = std::string(230 + c.draw(40), ' ') + doc;
    c.note(std::string("field: ") + p.t->name + "." + fi.name + (p.key ? " (key)" : "") + "\njson: " + text(doc) + (valid ? " (valid)" : " (not valid)"));
    if (esc)
        c.nontrivial(h(doc + p.t->name + fi.name));
    auto see = [&](const Got &g, const char *what) {
        c.check(g.ok == valid, std::string(what) + (valid ? ": valid escapes are refused: " : ": invalid escapes are accepted ") + g.err);
        if (valid)
            same(c, want, p.key ? g.m.f[p.i].k[0].s : g.m.f[p.i].v[at].s, std::string(what) + ": text");
    };
    see(js_read(*p.t, doc), "memory");
    ChunkReader r{&doc};
    r.chunks = gen_chunks(c);
    see(js_read_chunks(*p.t, r), "reader");
}

// ------------------------------------------------------------------------------------------- P14
static Msg bytes_message(Case &c, const Place &p, const std::string &s, size_t &at)
{
    return message_with(c, p, s, at);
}
static std::string fit(Case &c, const Place &p, std::string s)
{
    auto &fi = p.t->info().f[p.i];
    if (fi.fixed_len)
        return gen_bytes(c, size_t(fi.fixed_len), size_t(fi.fixed_len));
    if (s.size() > room(p))
        s.resize(room(p));
    return s;
}
static std::string b64_json(const Msg &m, const Place &p, const std::string &literal, size_t at)
{
    auto &fi = p.t->info().f[p.i];
    std::string o = std::string("{\"") + (fi.json_explicit ? fi.json_name : fi.name) + "\":";
    if (fi.card == Card::Map)
        return o + "{" + (fi.key == Kind::String ? "\"k\"" : fi.key == Kind::Bool ? "\"false\"" : "\"0\"") + ":\"" + literal + "\"}}";
    if (fi.card == Card::Repeated)
    {
        o += "[";
        for (size_t j = 0; j < m.f[p.i].v.size(); j++)
            o += (j ? "," : "") + ("\"" + (j == at ? literal : b64(m.f[p.i].v[j].s)) + "\"");
        return o + "]}";
    }
    return o + "\"" + literal + "\"}";
}
PBT(P14, encode, 30000, 900000, "at least one byte")
{
    auto &p = c.pick(places(Kind::Bytes));
    auto &fi = p.t->info().f[p.i];
    std::string s = fit(c, p, gen_bytes(c, 0, 900));
    size_t at;
    Msg m = bytes_message(c, p, s, at);
    c.note(std::string("field: ") + p.t->name + "." + fi.name + "\nbytes: " + show(s));
    if (!s.empty())
        c.nontrivial(h(s + p.t->name + fi.name));
    OBJ(a, *p.t, m);
    std::string j = js_write(a);
    JVal v;
    std::string err;
    if (!jparse(j, v, err))
        c.fail("output is not json: " + err);
    if (fi.card == Card::Plain && s.empty())
        return;
    const JVal *x = nullptr;
    for (size_t i = 0; i < v.k.size(); i++)
        if (v.k[i] == fi.name || v.k[i] == fi.json_name)
            x = &v.a[i];
    c.check(x != nullptr, "the field is missing in " + j);
    if (x->t == JVal::Arr)
        x = &x->a.at(at);
    else if (x->t == JVal::Obj)
        x = &x->a.at(0);
    c.check(x->t == JVal::Str, "the field is not a string in " + j);
    same(c, b64(s), x->s, "base64 text");
    auto g = js_read(*p.t, j);
    c.check(g.ok, "own json is refused: " + g.err);
    must_equal(c, m, g.m, "value read back");
}
PBT(P14, decode, 40000, 1200000, "at least one byte")
{
    auto &p = c.pick(places(Kind::Bytes));
    auto &fi = p.t->info().f[p.i];
    std::string s = fit(c, p, gen_bytes(c, 0, 900));
    size_t at;
    Msg m = bytes_message(c, p, s, at);
    std::string doc = b64_json(m, p, b64(s), at);
    if (c.chance(1, 2))
        doc = std::string(c.draw(300), ' ') + doc;
    c.note(std::string("field: ") + p.t->name + "." + fi.name + "\njson: " + text(doc));
    if (!s.empty())
        c.nontrivial(h(doc + p.t->name + fi.name));
    auto g = js_read(*p.t, doc);
    c.check(g.ok, "valid base64 is refused: " + g.err);
    same(c, s, g.m.f[p.i].v.at(at).s, "decoded bytes");
    ChunkReader r{&doc};
    r.chunks = gen_chunks(c);
    auto g2 = js_read_chunks(*p.t, r);
    c.check(g2.ok, "valid base64 is refused from a reader: " + g2.err);
    same(c, s, g2.m.f[p.i].v.at(at).s, "bytes decoded from a reader");
    must_equal(c, g.m, g2.m, "reader and memory");
}
PBT(P14, damaged, 60000, 1800000, "the text is not base64 of any contents")
{
    auto &p = c.pick(places(Kind::Bytes));
    auto &fi = p.t->info().f[p.i];
    std::string s = fit(c, p, gen_bytes(c, 0, c.chance(1, 8) ? 900 : 30));
    size_t at;
    Msg m = bytes_message(c, p, s, at);
    std::string e = b64(s);
    size_t edits = 1 + c.draw(1);
    for (size_t k = 0; k < edits; k++)
    {
        size_t i = c.draw(e.size());
        auto ch = [&]() -> char {
            char x = c.chance(1, 2) ? c.pick(std::string("=-_+/ .,:@[`{&~A9z\x7f")) : char(c.draw(255));
            return x == '"' || x == '\\' || (unsigned char)x < 0x20 ? '=' : x;
        };
        switch (c.draw(5))
        {
        default:
            if (i < e.size())
                e[i] = ch();
            break;
        case 1: e.insert(e.begin() + long(i), ch()); break;
        case 2:
            if (i < e.size())
                e.erase(i, 1);
            break;
        case 3: e += "="; break;
        case 4: // padding in front of the end
            i = i / 4 * 4;
            if (i >= 4)
            {
                e[i - 1] = '=';
                if (c.chance(1, 2))
                    e[i - 2] = '=';
            }
            break;
        case 5: e.resize(e.size() - std::min<size_t>(e.size(), 1 + c.draw(4))); break;
        }
    }
    std::string dec;
    bool ok = b64_decode(e, dec);
    bool canon = ok && b64(dec) == e; // bits behind the last byte may be anything or refused
    bool fits = fi.fixed_len ? dec.size() == size_t(fi.fixed_len) : dec.size() <= room(p);
    if (ok && !fits)
        ok = canon = false;
    if (fi.fixed_len && e.empty())
        c.discard();
    std::string doc = b64_json(m, p, e, at);
    if (c.chance(1, 4))
        doc = std::string(c.draw(300), ' ') + doc;
    c.note(std::string("field: ") + p.t->name + "." + fi.name + "\njson: " + text(doc) + (ok ? " (valid)" : " (not valid)"));
    c.label(ok ? "valid" : "invalid");
    if (!ok)
        c.nontrivial(h(doc + p.t->name + fi.name));
    auto see = [&](const Got &g, const char *what) {
        if (!ok)
            c.check(!g.ok, std::string(what) + ": text which is not base64 is accepted");
        if (canon)
            c.check(g.ok, std::string(what) + ": base64 is refused: " + g.err);
        if (g.ok)
            same(c, dec, g.m.f[p.i].v.at(at).s, std::string(what) + ": decoded bytes");
    };
    see(js_read(*p.t, doc), "memory");
    ChunkReader r{&doc};
    r.chunks = gen_chunks(c);
    see(js_read_chunks(*p.t, r), "reader");
}

// ------------------------------------------------------------------------------------------- P17
struct NullWriter
{
    char buf[64];
    size_t n = 0;
    void operator()(const void *p, size_t k)
    {
        if (k)
            memcpy(buf, p, std::min(k, sizeof buf));
        n += k;
    }
};
template <class F> static void no_alloc(Case &c, const char *what, F f)
{
    size_t n, b;
    {
        pbt::AllocScope s;
        f();
        n = s.count();
        b = s.bytes();
    }
    c.check(n == 0, std::string(what) + " allocated " + std::to_string(n) + " times, " + std::to_string(b) + " bytes");
}
static void serialize_free(Case &c, const TypeOps &t, const Msg &m)
{
    c.note("value: " + render(m));
    OBJ(a, t, m);
    if (set_fields(m) >= 2)
        c.nontrivial(h(render(m) + t.name));
    size_t size = t.pb_size(a.p, true), js = t.js_size(a.p);
    std::unique_ptr<char[]> buf(new char[size + 16]), jb(new char[js]);
    NullWriter w;
    for (bool d : {false, true})
    {
        no_alloc(c, "computing the protobuf size", [&] { t.pb_size(a.p, d); });
        no_alloc(c, "protobuf serialization to a buffer", [&] { t.pb_buf(a.p, buf.get(), d); });
        no_alloc(c, "protobuf serialization to a writer", [&] { t.pb_wr(a.p, w, d); });
    }
    no_alloc(c, "computing the json size", [&] { t.js_size(a.p); });
    no_alloc(c, "json serialization to a buffer", [&] { t.js_buf(a.p, jb.get()); });
    no_alloc(c, "json serialization to a writer", [&] { t.js_wr(a.p, w); });
    // into a string which is large enough
    std::string s, j;
    s.reserve(size + 16);
    j.reserve(js + 16);
    no_alloc(c, "protobuf serialization to a reserved string", [&] { t.pb_str(a.p, s, false); });
    no_alloc(c, "json serialization to a reserved string", [&] { t.js_str(a.p, j); });
}
PBT(P17, serialize, 25000, 700000, "at least two fields, elements or entries are set")
{
    auto &t = pick_type(c);
    serialize_free(c, t, gen_msg(c, t.info(), mopt(60)));
}
PBT(P17, serialize_big, 1500, 50000, "at least two fields, elements or entries are set")
{
    auto &t = pick_type(c);
    serialize_free(c, t, gen_msg(c, t.info(), mopt(600, 7)));
}
PBT(P17, serialize_huge, 400, 10000, "at least two fields, elements or entries are set")
{
    auto &t = pick_type(c);
    serialize_free(c, t, gen_huge(c, t.info()));
}
// the message and everything inside of it have a fixed size (short: std::string with few characters counts as well)
static bool fixed_size(const MsgInfo &t, bool shrt, std::set<const MsgInfo *> &path)
{
    if (!path.insert(&t).second)
        return false; // recursive messages are allocated
    bool ok = true;
    for (auto &f : t.f)
    {
        if (f.card == Card::Map && !f.cap_count)
            ok = false;
        if (f.card == Card::Map && f.key == Kind::String)
            ok = false;
        if (f.card == Card::Repeated && !f.cap_count && !f.fixed_count)
            ok = false;
        if (f.kind == Kind::String && !f.cap_len && !f.fixed_len && !shrt)
            ok = false;
        if (f.kind == Kind::Bytes && !f.cap_len && !f.fixed_len)
            ok = false;
        if (f.kind == Kind::Message && ok)
            ok = fixed_size(f.msg(), shrt, path);
        if (!ok)
            break;
    }
    path.erase(&t);
    return ok;
}
static void shorten(Msg &m)
{
    for (size_t i = 0; i < m.f.size(); i++)
        for (auto &v : m.f[i].v)
        {
            auto &fi = m.t->f[i];
            if (fi.kind == Kind::String && !fi.cap_len && !fi.fixed_len && v.s.size() > 15)
                v.s = "short";
            if (v.m)
                shorten(*v.m);
        }
}
static void deserialize_free(Case &c, const TypeOps &t, const Msg &m, const std::string &b, const std::string &j)
{
    Obj o1(t), o2(t), o3(t), o4(t), o5(t);
    ChunkReader r{&b}, r2{&j};
    r.chunks = gen_chunks(c);
    r2.chunks = gen_chunks(c);
    std::string d = varint(b.size()) + b;
    no_alloc(c, "protobuf deserialization", [&] { t.pb_de_buf(o1.p, b.data(), b.size(), false); });
    no_alloc(c, "protobuf deserialization from a reader", [&] { t.pb_de_rd(o2.p, r, false); });
    no_alloc(c, "length-prefixed protobuf deserialization", [&] { t.pb_de_buf(o5.p, d.data(), d.size(), true); });
    no_alloc(c, "json deserialization", [&] { t.js_de_buf(o3.p, j.data(), j.size()); });
    no_alloc(c, "json deserialization from a reader", [&] { t.js_de_rd(o4.p, r2); });
    must_equal(c, m, o1.tree(), "value");
    must_equal(c, m, o2.tree(), "value from a reader");
    must_equal(c, m, o3.tree(), "value from json");
    must_equal(c, m, o4.tree(), "value from json by a reader");
}
static const std::vector<const TypeOps *> &fixed_types(bool shrt)
{
    static std::vector<const TypeOps *> v[2];
    auto &x = v[shrt];
    if (x.empty())
        for (auto *t : types())
        {
            std::set<const MsgInfo *> path;
            if (strncmp(t->name, "ty.User", 7) && !t->info().f.empty() && fixed_size(t->info(), shrt, path))
                x.push_back(t);
        }
    if (x.size() < 5)
        throw std::logic_error("harness: fixed size types");
    return x;
}
PBT(P17, deserialize, 25000, 700000, "at least two fields, elements or entries are set")
{
    bool shrt = c.chance(1, 2);
    auto &t = *c.pick(fixed_types(shrt));
    c.label(std::string("type:") + t.name);
    Msg m = gen_msg(c, t.info(), mopt(60));
    shorten(m);
    WireVar v;
    v.order = c.chance(1, 2);
    v.pad = c.chance(1, 2);
    v.unknown = c.chance(1, 2);
    JsonVar jv;
    jv.order = c.chance(1, 2);
    jv.ws = c.chance(1, 2);
    jv.esc = c.chance(1, 2);
    jv.numstr = c.chance(1, 2);
    jv.enumnum = c.chance(1, 2);
    jv.unknown = c.chance(1, 2);
    jv.floats = c.chance(1, 2);
    std::string b = wire_encode(m, &c, v), j = json_encode(m, &c, jv);
    c.note(std::string("type: ") + t.name + "\nvalue: " + render(m) + "\nbytes: " + show(b) + "\njson: " + text(j));
    if (set_fields(m) >= 2)
        c.nontrivial(h(b + j + t.name));
    deserialize_free(c, t, m, b, j);
}
// containers which count their allocations: nothing else allocates
template <class F> static void only_own(Case &c, const char *what, F f)
{
    size_t n, b, own = tk::allocations;
    {
        pbt::AllocScope s;
        f();
        n = s.count();
        b = s.bytes();
    }
    own = tk::allocations - own;
    c.check(n == own, std::string(what) + " allocated " + std::to_string(n) + " times (" + std::to_string(b) + " bytes), the containers only " + std::to_string(own) + " times");
}
static void short_keys(Msg &m)
{
    for (size_t i = 0; i < m.f.size(); i++)
    {
        for (size_t k = 0; k < m.f[i].k.size(); k++)
            if (m.f[i].k[k].s.size() > 15)
                m.f[i].k[k].s = "k" + std::to_string(k);
        if (m.t->f[i].card == Card::Map)
            sort_map(m.f[i], m.t->f[i].key);
        for (auto &v : m.f[i].v)
            if (v.m)
                short_keys(*v.m);
    }
}
PBT(P17, tracked, 10000, 600000, "at least two fields, elements or entries are set")
{
    auto &t = c.chance(4, 5) ? ops("ty.Track") : ops("ty.TrackItem");
    Msg m = c.chance(1, 50) ? gen_huge(c, t.info()) : gen_msg(c, t.info(), mopt(60));
    short_keys(m); // a key is a std::string
    WireVar v;
    v.order = c.chance(1, 2);
    v.pad = c.chance(1, 2);
    v.unknown = c.chance(1, 2);
    v.pack = c.chance(1, 2);
    std::string b = wire_encode(m, &c, v), j;
    JsonVar jv;
    jv.order = c.chance(1, 2);
    jv.ws = c.chance(1, 2);
    jv.esc = c.chance(1, 2);
    jv.numstr = c.chance(1, 2);
    jv.enumnum = c.chance(1, 2);
    jv.unknown = c.chance(1, 2);
    jv.floats = c.chance(1, 2);
    j = json_encode(m, &c, jv);
    c.note("value: " + render(m) + "\nbytes: " + show(b) + "\njson: " + text(j));
    if (set_fields(m) >= 2)
        c.nontrivial(h(b + j + t.name));
    Obj o1(t), o2(t), o3(t), o4(t), o5(t);
    ChunkReader r{&b}, r2{&j};
    r.chunks = gen_chunks(c);
    r2.chunks = gen_chunks(c);
    std::string d = varint(b.size()) + b;
    only_own(c, "protobuf deserialization", [&] { t.pb_de_buf(o1.p, b.data(), b.size(), false); });
    only_own(c, "protobuf deserialization from a reader", [&] { t.pb_de_rd(o2.p, r, false); });
    only_own(c, "length-prefixed protobuf deserialization", [&] { t.pb_de_buf(o5.p, d.data(), d.size(), true); });
    only_own(c, "json deserialization", [&] { t.js_de_buf(o3.p, j.data(), j.size()); });
    only_own(c, "json deserialization from a reader", [&] { t.js_de_rd(o4.p, r2); });
    must_equal(c, m, o1.tree(), "value");
    must_equal(c, m, o2.tree(), "value from a reader");
    must_equal(c, m, o3.tree(), "value from json");
    must_equal(c, m, o4.tree(), "value from json by a reader");
    must_equal(c, m, o5.tree(), "length-prefixed value");
    // once more into an object with data
    only_own(c, "protobuf deserialization into an object with data", [&] { t.pb_de_buf(o1.p, b.data(), b.size(), false); });
    serialize_free(c, t, m);
}
PBT(P17, skip_unknown, 12000, 300000, "at least 100 bytes of unknown data")
{
    auto &t = c.chance(1, 2) ? ops("ks.three.Empty") : ops("ks.three.Leaf");
    Msg m(t.info());
    std::string b, j = "{";
    WireVar v;
    v.unknown = true;
    size_t n = 1 + c.draw(3);
    bool big = c.chance(1, 4);
    for (size_t i = 0; i < n; i++)
    {
        b += gen_unknown_field(c, t.info(), v, 6);
        j += (i ? "," : "") + json_string("u" + std::to_string(i) + gen_utf8(c, 0, 300), &c, true) + ":" + gen_json_value(c, 6, true);
        if (big)
        {
            size_t k = 1000 + c.draw(60000);
            b += tag(900, 2) + varint(k) + std::string(k, 'b');
            j += ",\"big" + std::to_string(i) + "\":\"" + std::string(k, 'j') + "\"";
        }
    }
    size_t deep = c.draw(80);
    b += std::string();
    for (size_t i = 0; i < deep; i++)
        b += tag(77, 3);
    for (size_t i = 0; i < deep; i++)
        b += tag(77, 4);
    j += ",\"deep\":" + std::string(deep, '[') + "1" + std::string(deep, ']') + "}";
    if (!deep)
        ;
    c.note("bytes: " + show(b) + "\njson: " + text(j));
    if (b.size() >= 100)
        c.nontrivial(h(b + j));
    deserialize_free(c, t, m, b, j);
}
