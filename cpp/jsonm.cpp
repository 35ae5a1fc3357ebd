#include "jsonm.hpp"
#include "gen.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
namespace br
{
using pbt::Case;
namespace
{
struct P
{
    const std::string &t;
    size_t i = 0;
    std::string err;
    bool dup;
    bool lax = false; // only the structure counts: numbers and the content of strings may be anything that can be told apart
    int depth = 0;
    explicit P(const std::string &x, bool d) : t(x), dup(d) {}
    bool bad(const char *m)
    {
        if (err.empty())
            err = std::string(m) + " at offset " + std::to_string(i);
        return false;
    }
    void ws()
    {
        while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\r' || (lax && (t[i] == '\v' || t[i] == '\f'))))
            i++;
    }
    bool lit(const char *l)
    {
        size_t n = strlen(l);
        if (t.compare(i, n, l) != 0)
            return bad("bad literal");
        i += n;
        return true;
    }
    static bool dig(char c) { return c >= '0' && c <= '9'; }
    char at(size_t k) const { return k < t.size() ? t[k] : '\0'; }
    bool num(std::string &s)
    {
        size_t b = i;
        if (lax)
        {
            if (at(i) == '-')
                i++;
            size_t digits = 0;
            for (bool dot = false; dig(at(i)) || (at(i) == '.' && !dot); i++)
                if (at(i) == '.')
                    dot = true;
                else
                    digits++;
            if (!digits)
                return bad("bad number");
            if (at(i) == 'e' || at(i) == 'E')
            {
                i++;
                if (at(i) == '+' || at(i) == '-')
                    i++;
                if (!dig(at(i)))
                    return bad("bad exponent");
                while (dig(at(i)))
                    i++;
            }
            return true;
        }
        if (at(i) == '-')
            i++;
        if (at(i) == '0')
            i++;
        else if (dig(at(i)))
            while (dig(at(i)))
                i++;
        else
            return bad("bad number");
        if (at(i) == '.')
        {
            i++;
            if (!dig(at(i)))
                return bad("bad fraction");
            while (dig(at(i)))
                i++;
        }
        if (at(i) == 'e' || at(i) == 'E')
        {
            i++;
            if (at(i) == '+' || at(i) == '-')
                i++;
            if (!dig(at(i)))
                return bad("bad exponent");
            while (dig(at(i)))
                i++;
        }
        s = t.substr(b, i - b);
        return true;
    }
    bool hex4(uint32_t &v)
    {
        v = 0;
        for (int k = 0; k < 4; k++, i++)
        {
            char c = at(i);
            int d = dig(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
            if (d < 0)
                return bad("bad \\u escape");
            v = v * 16 + uint32_t(d);
        }
        return true;
    }
    bool str(std::string &s)
    {
        if (at(i) != '"' || i >= t.size())
            return bad("string expected");
        i++;
        for (;;)
        {
            if (i >= t.size())
                return bad("unterminated string");
            unsigned char c = (unsigned char)t[i++];
            if (c == '"')
                break;
            if (c < 0x20 && !lax)
                return bad("control character in string");
            if (c != '\\')
            {
                s += char(c);
                continue;
            }
            switch (i < t.size() ? t[i++] : '\0')
            {
            case '"': s += '"'; break;
            case '\\': s += '\\'; break;
            case '/': s += '/'; break;
            case 'b': s += '\b'; break;
            case 'f': s += '\f'; break;
            case 'n': s += '\n'; break;
            case 'r': s += '\r'; break;
            case 't': s += '\t'; break;
            case 'u': {
                uint32_t v, w;
                if (!hex4(v))
                    return false;
                if (v >= 0xdc00 && v <= 0xdfff)
                    return bad("lone low surrogate");
                if (v >= 0xd800 && v <= 0xdbff)
                {
                    if (at(i) != '\\' || at(i + 1) != 'u')
                        return bad("lone high surrogate");
                    i += 2;
                    if (!hex4(w))
                        return false;
                    if (w < 0xdc00 || w > 0xdfff)
                        return bad("bad surrogate pair");
                    v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
                }
                put_utf8(s, v);
                break;
            }
            default: return bad("bad escape");
            }
        }
        if (!lax && !utf8_valid(s))
            return bad("string is not utf-8");
        return true;
    }
    bool val(JVal &v)
    {
        if (++depth > 5000)
            return bad("too deep");
        bool r = val2(v);
        depth--;
        return r;
    }
    bool val2(JVal &v)
    {
        ws();
        switch (at(i))
        {
        case 'n': v.t = JVal::Null; return lit("null");
        case 't': v.t = JVal::True; return lit("true");
        case 'f': v.t = JVal::False; return lit("false");
        case '"': v.t = JVal::Str; return str(v.s);
        case '[':
            v.t = JVal::Arr;
            i++;
            ws();
            if (at(i) == ']')
            {
                i++;
                return true;
            }
            for (;;)
            {
                if (!val(v.a.emplace_back()))
                    return false;
                ws();
                if (at(i) == ',')
                {
                    i++;
                    continue;
                }
                if (at(i) == ']')
                {
                    i++;
                    return true;
                }
                return bad("',' or ']' expected");
            }
        case '{':
            v.t = JVal::Obj;
            i++;
            ws();
            if (at(i) == '}')
            {
                i++;
                return true;
            }
            for (;;)
            {
                ws();
                std::string k;
                if (!str(k))
                    return false;
                if (dup)
                    for (auto &x : v.k)
                        if (x == k)
                            return bad("duplicate key");
                v.k.push_back(k);
                ws();
                if (at(i) != ':')
                    return bad("':' expected");
                i++;
                if (!val(v.a.emplace_back()))
                    return false;
                ws();
                if (at(i) == ',')
                {
                    i++;
                    continue;
                }
                if (at(i) == '}')
                {
                    i++;
                    return true;
                }
                return bad("',' or '}' expected");
            }
        default: v.t = JVal::Num; return num(v.s);
        }
    }
};
} // namespace
bool jparse(const std::string &text, JVal &out, std::string &err, bool dup)
{
    P p(text, dup);
    bool ok = p.val(out);
    if (ok)
    {
        p.ws();
        if (p.i != text.size())
            ok = p.bad("text behind the document");
    }
    err = p.err;
    return ok;
}
bool jstructure(const std::string &text, std::string &err)
{
    P p(text, false);
    p.lax = true;
    JVal v;
    bool ok = p.val(v);
    if (ok)
    {
        p.ws();
        if (p.i != text.size())
            ok = p.bad("text behind the document");
    }
    err = p.err;
    return ok;
}
std::string b64(const std::string &s)
{
    static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o;
    for (size_t i = 0; i < s.size(); i += 3)
    {
        size_t n = std::min<size_t>(3, s.size() - i);
        uint32_t v = 0;
        for (size_t k = 0; k < 3; k++)
            v = (v << 8) | (k < n ? (unsigned char)s[i + k] : 0u);
        for (size_t k = 0; k < 4; k++)
            o += k <= n ? A[(v >> (18 - 6 * k)) & 63] : '=';
    }
    return o;
}
bool b64_decode(const std::string &s, std::string &out)
{
    out.clear();
    if (s.size() % 4)
        return false;
    for (size_t i = 0; i < s.size(); i += 4)
    {
        uint32_t v = 0;
        int pad = 0;
        for (size_t k = 0; k < 4; k++)
        {
            char c = s[i + k];
            int d = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1;
            if (c == '=' && i + 4 == s.size() && k >= 2)
            {
                pad++;
                d = 0;
            }
            else if (d < 0 || pad)
                return false;
            v = (v << 6) | uint32_t(d);
        }
        for (int k = 0; k < 3 - pad; k++)
            out += char(v >> (16 - 8 * k));
    }
    return true;
}
std::string gen_ws(Case *c, bool on)
{
    std::string s;
    if (!c || !on || !c->chance(1, 3))
        return s;
    if (c->chance(1, 50))
        return std::string(200 + c->draw(200), ' ');
    size_t n = 1 + c->draw(3);
    while (n--)
        s += " \n\t\r"[c->draw(3)];
    return s;
}
static std::string u16(uint32_t v, Case *c)
{
    char b[8];
    snprintf(b, sizeof b, c && c->chance(1, 2) ? "\\u%04X" : "\\u%04x", v);
    return b;
}
std::string json_string(const std::string &s, Case *c, bool esc)
{
    std::string o = "\"";
    bool all = c && esc && c->chance(1, 8);
    bool some = c && esc && (all || c->chance(1, 2));
    for (size_t i = 0; i < s.size();)
    {
        unsigned char b = (unsigned char)s[i];
        size_t len = b < 0x80 ? 1 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : 4;
        uint32_t cp = len == 1 ? b : b & (0x7fu >> len);
        for (size_t k = 1; k < len && i + k < s.size(); k++)
            cp = (cp << 6) | ((unsigned char)s[i + k] & 0x3f);
        bool must = cp < 0x20 || cp == '"' || cp == '\\';
        bool want = must || (some && s.size() < 200 && (all || c->chance(1, 5)));
        if (!want)
            o.append(s, i, len);
        else
        {
            const char *sp = "\"\\/\b\f\n\r\t", *q = "\"\\/bfnrt";
            const char *f = cp && cp < 0x80 ? strchr(sp, int(cp)) : nullptr;
            bool shrt = f && !(some && c->chance(1, 3));
            if (shrt)
            {
                o += '\\';
                o += q[f - sp];
            }
            else if (cp >= 0x10000)
            {
                o += u16(0xd800 + ((cp - 0x10000) >> 10), some ? c : nullptr);
                o += u16(0xdc00 + ((cp - 0x10000) & 0x3ff), some ? c : nullptr);
            }
            else
                o += u16(cp, some ? c : nullptr);
        }
        i += len;
    }
    return o + "\"";
}
std::string lower_camel(const std::string &s)
{
    std::string o;
    bool up = false;
    for (char c : s)
    {
        if (c == '_')
            up = true;
        else
        {
            o += up && c >= 'a' && c <= 'z' ? char(c - 32) : c;
            up = false;
        }
    }
    return o;
}
std::string gen_unknown_key(Case &c, const MsgInfo &t)
{
    std::string k;
    switch (c.draw(5))
    {
    default: k = gen_utf8(c, 0, 12); break;
    case 1:
        if (!t.f.empty())
            k = t.f[c.draw(t.f.size() - 1)].name;
        if (c.chance(1, 2))
            k += char('a' + c.draw(25));
        else if (!k.empty())
            k.pop_back();
        break;
    case 2: // the same 33-hash as a known name
    case 3:
        if (!t.f.empty())
            k = t.f[c.draw(t.f.size() - 1)].name;
        if (k.size() >= 2)
        {
            size_t i = c.draw(k.size() - 2);
            int d = c.chance(1, 2) ? 1 : -1;
            int a = (unsigned char)k[i] + d, b = (unsigned char)k[i + 1] - 33 * d;
            if (a > 0x20 && a < 0x7f && b > 0x20 && b < 0x7f)
            {
                k[i] = char(a);
                k[i + 1] = char(b);
            }
        }
        break;
    case 4: k = std::string(c.draw(300), 'k'); break;
    case 5:
        if (!t.f.empty())
            k = t.f[c.draw(t.f.size() - 1)].name;
        for (auto &x : k)
            if (x >= 'a' && x <= 'z')
                x = char(x - 32);
        break;
    }
    for (auto &f : t.f)
        if (k == f.name || k == f.json_name || k == lower_camel(f.name) || (f.card == Card::OneofMember && k == f.oneof_name))
        {
            k += "~";
            break;
        }
    return k;
}
std::string gen_json_value(Case &c, int depth, bool ws)
{
    auto W = [&] { return gen_ws(&c, ws); };
    switch (c.draw(depth > 0 ? 7 : 5))
    {
    default: return "null";
    case 1: return c.chance(1, 2) ? "true" : "false";
    case 2: {
        static const char *n[] = {"0", "-0", "1", "-17", "123456789012345678901234567890", "0.5", "-1.25e10", "1E-7", "6e+23", "99999999999", "0e0", "0.0000001", "1e999", "-1E-999", "0.0e+0"};
        if (!c.chance(1, 12))
            return n[c.draw(std::size(n) - 1)];
        // any number of digits
        auto digits = [&] { return std::string(1 + (c.chance(1, 2) ? c.draw(8) : 200 + c.draw(400)), char('0' + c.draw(9))); };
        std::string x = c.chance(1, 2) ? "-" : "";
        x += c.chance(1, 3) ? "0" : "1" + digits();
        if (c.chance(1, 2))
            x += "." + digits();
        if (c.chance(1, 2))
            x += std::string(c.chance(1, 2) ? "e" : "E") + (c.chance(1, 2) ? "-" : c.chance(1, 2) ? "+" : "") + digits();
        return x;
    }
    case 3: return json_string(gen_utf8(c, 0, 600), &c, true);
    case 4: return "\"\"";
    case 5: return c.chance(1, 2) ? "{}" : "[]";
    case 6: {
        std::string o = "[" + W();
        size_t n = c.draw(4);
        for (size_t i = 0; i < n; i++)
            o += (i ? "," + W() : "") + gen_json_value(c, depth - 1, ws) + W();
        return o + "]";
    }
    case 7: {
        std::string o = "{" + W();
        size_t n = c.draw(4);
        for (size_t i = 0; i < n; i++)
            o += (i ? "," + W() : "") + json_string(gen_utf8(c, 0, 300), &c, true) + W() + ":" + W() + gen_json_value(c, depth - 1, ws) + W();
        return o + "}";
    }
    }
}
static std::string jfloat(uint64_t n, bool dbl, Case *c, const JsonVar &v)
{
    double d;
    if (dbl)
        memcpy(&d, &n, 8);
    else
    {
        float f;
        uint32_t u = uint32_t(n);
        memcpy(&f, &u, 4);
        d = double(f);
    }
    if (d != d)
        return "\"NaN\"";
    if (std::isinf(d))
        return d > 0 ? "\"Infinity\"" : "\"-Infinity\"";
    char b[512];
    snprintf(b, sizeof b, dbl ? "%.17g" : "%.9g", d);
    std::string s = b;
    // %g writes 1e+05; all of this is valid json
    if (c && v.floats)
    {
        switch (c->draw(5))
        {
        default: break;
        case 1: snprintf(b, sizeof b, "%.20e", d); s = b; break;
        case 2: snprintf(b, sizeof b, "%.25E", d); s = b; break;
        case 3:
            if (std::fabs(d) < 1e25 && (std::fabs(d) > 1e-5 || d == 0))
            {
                snprintf(b, sizeof b, "%.40f", d);
                s = b;
            }
            break;
        case 4: snprintf(b, sizeof b, "%.60e", d); s = b; break; // exact digits and more
        case 5: {
            auto e = s.find("e+");
            if (e != std::string::npos)
                s.erase(e + 1, 1);
            break;
        }
        }
    }
    if (c && v.numstr && c->chance(1, 4))
        s = "\"" + s + "\"";
    return s;
}
static std::string jval(const FieldInfo &fi, const Val &v, Case *c, const JsonVar &o)
{
    switch (fi.kind)
    {
    case Kind::Message: return json_encode(*v.m, c, o);
    case Kind::String: return json_string(v.s, c, o.esc);
    case Kind::Bytes: return "\"" + b64(v.s) + "\"";
    case Kind::Bool: return v.n ? "true" : "false";
    case Kind::Float: return jfloat(v.n, false, c, o);
    case Kind::Double: return jfloat(v.n, true, c, o);
    case Kind::Enum: {
        std::vector<std::string> names;
        for (auto &[n, x] : fi.en().values)
            if (int64_t(x) == int64_t(v.n))
                names.push_back(n);
        if (names.empty() || (c && o.enumnum && c->chance(1, 3)))
            return std::to_string(int64_t(v.n));
        return json_string(names[c && o.enumnum ? c->draw(names.size() - 1) : 0], c, o.esc);
    }
    default: {
        std::string s = is_signed_kind(fi.kind) ? std::to_string(int64_t(v.n)) : std::to_string(v.n);
        bool w64 = kind_bits(fi.kind) == 64;
        bool q = w64;
        if (c && o.numstr)
            q = c->chance(1, 2);
        if (q)
            return c && o.esc && c->chance(1, 8) ? json_string(s, c, true) : "\"" + s + "\"";
        return s;
    }
    }
}
static std::string jkey(const FieldInfo &fi, const Val &k, Case *c, const JsonVar &o)
{
    if (fi.key == Kind::String)
        return json_string(k.s, c, o.esc);
    std::string s = fi.key == Kind::Bool ? (k.n ? "true" : "false") : is_signed_kind(fi.key) ? std::to_string(int64_t(k.n)) : std::to_string(k.n);
    return c && o.esc && c->chance(1, 10) ? json_string(s, c, true) : "\"" + s + "\"";
}
std::string json_encode(const Msg &m, Case *c, const JsonVar &o)
{
    auto W = [&] { return gen_ws(c, o.ws); };
    std::vector<std::string> items;
    for (size_t i = 0; i < m.f.size(); i++)
    {
        auto &fi = m.t->f[i];
        auto &f = m.f[i];
        std::string key = fi.json_explicit ? fi.json_name : fi.name;
        if (c && o.keys)
            switch (c->draw(2))
            {
            default: key = fi.name; break;
            case 1: key = fi.json_name; break;
            case 2: key = fi.json_explicit ? fi.json_name : lower_camel(fi.name); break;
            }
        std::string val;
        if (f.v.empty())
        {
            if (!(c && o.nulls && c->chance(1, 12)))
            {
                if (c && o.nulls && c->chance(1, 30) && (fi.card == Card::Repeated))
                    val = "[" + W() + "]";
                else if (c && o.nulls && c->chance(1, 30) && (fi.card == Card::Map))
                    val = "{" + W() + "}";
                else
                    continue;
            }
            else
                val = "null";
        }
        else if (fi.card == Card::Repeated)
        {
            val = "[" + W();
            for (size_t j = 0; j < f.v.size(); j++)
                val += (j ? "," + W() : "") + jval(fi, f.v[j], c, o) + W();
            val += "]";
        }
        else if (fi.card == Card::Map)
        {
            val = "{" + W();
            for (size_t j = 0; j < f.v.size(); j++)
                val += (j ? "," + W() : "") + jkey(fi, f.k[j], c, o) + W() + ":" + W() + jval(fi, f.v[j], c, o) + W();
            val += "}";
        }
        else
            val = jval(fi, f.v[0], c, o);
        items.push_back(json_string(key, c, o.esc && c && c->chance(1, 6)) + W() + ":" + W() + val + W());
    }
    if (c && o.order)
        for (size_t i = items.size(); i > 1; i--)
            std::swap(items[i - 1], items[i - 1 - c->draw(i - 1)]);
    std::string out = "{" + W();
    bool first = true;
    std::vector<std::string> used;
    auto unk = [&] {
        while (c && o.unknown && c->chance(1, 6))
        {
            auto k = gen_unknown_key(*c, *m.t);
            bool dup = false;
            for (auto &u : used)
                dup |= u == k;
            if (dup)
                break;
            used.push_back(k);
            out += (first ? "" : "," + W()) + json_string(k, c, o.esc) + W() + ":" + W() + gen_json_value(*c, 3, o.ws) + W();
            first = false;
        }
    };
    unk();
    for (auto &x : items)
    {
        out += (first ? "" : "," + W()) + x;
        first = false;
        unk();
    }
    return out + "}";
}
} // namespace br
