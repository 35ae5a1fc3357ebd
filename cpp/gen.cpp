#include "gen.hpp"
#include <algorithm>
namespace br
{
using pbt::Case;
void put_utf8(std::string &s, uint32_t cp)
{
    if (cp < 0x80)
        s += char(cp);
    else if (cp < 0x800)
    {
        s += char(0xc0 | (cp >> 6));
        s += char(0x80 | (cp & 63));
    }
    else if (cp < 0x10000)
    {
        s += char(0xe0 | (cp >> 12));
        s += char(0x80 | ((cp >> 6) & 63));
        s += char(0x80 | (cp & 63));
    }
    else
    {
        s += char(0xf0 | (cp >> 18));
        s += char(0x80 | ((cp >> 12) & 63));
        s += char(0x80 | ((cp >> 6) & 63));
        s += char(0x80 | (cp & 63));
    }
}
bool utf8_valid(const std::string &s)
{
    size_t i = 0, n = s.size();
    auto at = [&](size_t k) { return (unsigned char)s[k]; };
    while (i < n)
    {
        unsigned c = at(i);
        unsigned len = c < 0x80 ? 1 : c >= 0xc2 && c <= 0xdf ? 2 : c >= 0xe0 && c <= 0xef ? 3 : c >= 0xf0 && c <= 0xf4 ? 4 : 0;
        if (!len || i + len > n)
            return false;
        uint32_t cp = len == 1 ? c : c & (0x7fu >> len);
        for (unsigned k = 1; k < len; k++)
        {
            if ((at(i + k) & 0xc0) != 0x80)
                return false;
            cp = (cp << 6) | (at(i + k) & 0x3f);
        }
        if ((len == 3 && cp < 0x800) || (len == 4 && (cp < 0x10000 || cp > 0x10ffff)) || (cp >= 0xd800 && cp <= 0xdfff))
            return false;
        i += len;
    }
    return true;
}
static uint32_t gen_cp(Case &c, size_t room)
{
    uint32_t cp;
    switch (c.draw(9))
    {
    default: cp = uint32_t('a' + c.draw(25)); break;
    case 4: cp = uint32_t(c.draw(0x7f)); break;
    case 5: {
        static const char sp[] = "\"\\/ \n\t\r\b\f{}[],:'<&\x01\x1f\x7f";
        cp = (unsigned char)sp[c.draw(sizeof sp - 2)];
        break;
    }
    case 6: cp = 0x80 + uint32_t(c.draw(0x7ff - 0x80)); break;
    case 7: cp = 0x800 + uint32_t(c.draw(0xffff - 0x800)); break;
    case 8: cp = 0x10000 + uint32_t(c.draw(0xfffff)); break;
    case 9: {
        static const uint32_t edge[] = {0, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0xfffd, 0xfeff, 0xd7ff, 0xe000, 0x10000, 0x10ffff, 0x2028, 0x2029, 0xff, 0x1f600, 0xfffe, 0xffff, 0xffc, 0x1000};
        cp = edge[c.draw(std::size(edge) - 1)];
        break;
    }
    }
    if (cp >= 0xd800 && cp <= 0xdfff)
        cp = 0xe000 + (cp - 0xd800);
    size_t need = cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4;
    if (need > room)
        cp = room == 1 ? uint32_t('a' + cp % 26) : room == 2 ? 0x80 + cp % 0x780 : 0x800 + cp % 0xc000;
    return cp;
}
static size_t gen_len(Case &c, size_t lo, size_t hi, int longs)
{
    if (lo >= hi)
        return lo;
    size_t n;
    switch (c.draw(11))
    {
    default: n = lo + size_t(c.draw(std::min<size_t>(hi - lo, 6))); break;
    case 6: n = lo; break;
    case 7: n = hi <= 300 ? hi : lo + size_t(c.draw(std::min<size_t>(hi - lo, 20))); break;
    case 8: n = lo + size_t(c.draw(std::min<size_t>(hi - lo, 40))); break;
    case 9: n = 120 + size_t(c.draw(16)); break;
    case 10: n = longs ? 240 + size_t(c.draw(60)) : 30; break;
    case 11:
        if (!longs)
            n = 10;
        else if (c.chance(1, 40))
            n = 16370 + size_t(c.draw(30));
        else
            n = 500 + size_t(c.draw(60));
        break;
    }
    return std::clamp(n, lo, hi);
}
std::string gen_utf8(Case &c, size_t lo, size_t hi)
{
    size_t n = gen_len(c, lo, hi, 1);
    std::string s;
    if (n > 60) // long strings: a pattern with a few special places
    {
        std::string unit;
        size_t u = 1 + c.draw(4);
        for (size_t i = 0; i < u; i++)
            put_utf8(unit, gen_cp(c, 4));
        size_t pre = c.draw(20);
        for (size_t i = 0; i < pre; i++)
            s += 'p';
        while (s.size() + unit.size() <= n)
            s += unit;
        while (s.size() < n)
            s += 'x';
        return s;
    }
    while (s.size() < n)
        put_utf8(s, gen_cp(c, n - s.size()));
    return s;
}
std::string gen_bytes(Case &c, size_t lo, size_t hi)
{
    size_t n = gen_len(c, lo, hi, 1);
    std::string s;
    if (n > 60)
    {
        uint64_t x = c.draw(UINT32_MAX);
        for (size_t i = 0; i < n; i++)
        {
            s += char(x >> 24);
            x = x * 6364136223846793005ull + 1442695040888963407ull;
        }
        return s;
    }
    while (s.size() < n)
        s += char(c.draw(255));
    return s;
}
uint64_t gen_int(Case &c, int bits, bool sgn)
{
    uint64_t mask = bits >= 64 ? ~0ull : ((1ull << bits) - 1);
    uint64_t v;
    switch (c.draw(7))
    {
    default: v = c.draw(std::min<uint64_t>(mask, 3)); break;
    case 2: v = c.draw(std::min<uint64_t>(mask, 300)); break;
    case 3: { // around powers of two
        int k = int(c.draw(uint64_t(bits)));
        v = (k >= 64 ? 0 : 1ull << k) + c.draw(2) - 1;
        break;
    }
    case 4: v = c.draw(mask); break;
    case 5: v = mask - c.draw(std::min<uint64_t>(mask, 3)); break; // -1 .. or max ..
    case 6: v = (mask >> 1) + c.draw(3) - 1; break;                // max / min of signed
    case 7: v = ~(c.draw(mask)) ; break;
    }
    v &= mask;
    if (sgn && bits < 64 && (v >> (bits - 1)))
        v |= ~mask;
    return v;
}
uint64_t gen_double(Case &c, bool nan)
{
    static const uint64_t sp[] = {0, 0x8000000000000000ull, 0x3ff0000000000000ull, 0xbff0000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 1, 0x8000000000000001ull,
                                  0x000fffffffffffffull, 0x0010000000000000ull, 0x7fefffffffffffffull, 0xffefffffffffffffull, 0x3fb999999999999aull, 0x4340000000000000ull,
                                  0x433fffffffffffffull, 0x43e0000000000000ull, 0x47efffffe0000000ull, 0x3ff0000000000001ull, 0x36a0000000000000ull, 0x44b52d02c7e14af6ull, 0x3eb0c6f7a0b5ed8dull};
    double d = 0;
    uint64_t u;
    switch (c.draw(5))
    {
    default: return sp[c.draw(std::size(sp) - 1)];
    case 1: d = double(c.range(-1000000, 1000000)); break;
    case 2: d = double(c.range(-1000000000, 1000000000)) / 1000.0; break;
    case 3: u = c.draw(UINT64_MAX); memcpy(&d, &u, 8); break;
    case 4: u = c.draw(0x000fffffffffffffull); memcpy(&d, &u, 8); break; // subnormal
    case 5:
        if (!nan)
            return 0x7ff8000000000000ull;
        return 0x7ff0000000000000ull | (c.draw(1) << 63) | (1 + c.draw(0x000ffffffffffffeull));
    }
    memcpy(&u, &d, 8);
    if (d != d && !nan)
        u = 0x7ff8000000000000ull;
    return u;
}
uint64_t gen_float(Case &c, bool nan)
{
    static const uint32_t sp[] = {0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 1, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x3dcccccd, 0x4b800000, 0x4b7fffff, 0x5f000000, 0x3f800001};
    float d = 0;
    uint32_t u;
    switch (c.draw(5))
    {
    default: return sp[c.draw(std::size(sp) - 1)];
    case 1: d = float(c.range(-100000, 100000)); break;
    case 2: d = float(double(c.range(-100000000, 100000000)) / 1000.0); break;
    case 3: u = uint32_t(c.draw(UINT32_MAX)); memcpy(&d, &u, 4); break;
    case 4: u = uint32_t(c.draw(0x007fffff)); memcpy(&d, &u, 4); break;
    case 5:
        if (!nan)
            return 0x7fc00000;
        // quiet NaNs only: a signalling NaN may be quieted by being passed around as a float
        return 0x7fc00000 | (uint32_t(c.draw(1)) << 31) | uint32_t(c.draw(0x3fffff));
    }
    memcpy(&u, &d, 4);
    if (d != d)
        u = nan ? (u | 0x00400000) : 0x7fc00000;
    return u;
}
static size_t max_len(const FieldInfo &f)
{
    size_t m = 100000;
    if (f.max_size)
        m = std::min<size_t>(m, f.max_size);
    if (f.cap_len)
        m = std::min<size_t>(m, size_t(f.cap_len));
    return m;
}
static uint64_t gen_enum(Case &c, const FieldInfo &f, bool unknown)
{
    auto &e = f.en();
    if (unknown && c.chance(1, 4))
        return gen_int(c, std::min(32, e.bits), e.sgn);
    return uint64_t(int64_t(e.values[c.draw(e.values.size() - 1)].second));
}
Val gen_val(Case &c, const FieldInfo &f, GenOpt &o, int depth)
{
    Val v;
    o.nodes--;
    switch (f.kind)
    {
    case Kind::Double: v.n = gen_double(c, o.any_nan); break;
    case Kind::Float: v.n = gen_float(c, o.any_nan); break;
    case Kind::Bool: v.n = c.draw(1); break;
    case Kind::String:
        v.s = f.fixed_len ? gen_utf8(c, size_t(f.fixed_len), size_t(f.fixed_len)) : gen_utf8(c, 0, max_len(f));
        break;
    case Kind::Bytes:
        v.s = f.fixed_len ? gen_bytes(c, size_t(f.fixed_len), size_t(f.fixed_len)) : gen_bytes(c, 0, max_len(f));
        break;
    case Kind::Enum: v.n = gen_enum(c, f, o.unknown_enums); break;
    case Kind::Message: v.m = std::make_unique<Msg>(gen_msg_b(c, f.msg(), o, depth - 1)); break;
    default: v.n = gen_int(c, f.bits ? std::min(f.bits, kind_bits(f.kind)) : kind_bits(f.kind), f.sgn); break;
    }
    return v;
}
Val gen_key(Case &c, const FieldInfo &f)
{
    Val k;
    if (f.key == Kind::String)
        k.s = gen_utf8(c, 0, f.key_cap ? size_t(f.key_cap) : 200);
    else if (f.key == Kind::Bool)
        k.n = c.draw(1);
    else
        k.n = gen_int(c, kind_bits(f.key), is_signed_kind(f.key));
    return k;
}
static bool is_default(const FieldInfo &f, const Val &v)
{
    if (f.kind == Kind::String || f.kind == Kind::Bytes)
        return v.s.empty();
    return v.n == 0;
}
// the initial zero may not be a value of the enum
static void initial(const FieldInfo &fi, Fld &f)
{
    if (fi.card != Card::Plain || f.v.empty())
        return;
    if (fi.kind == Kind::Enum)
    {
        bool zero = false;
        for (auto &e : fi.en().values)
            zero = zero || e.second == 0;
        if (!zero)
            f.v[0].n = uint64_t(int64_t(fi.en().values[0].second));
    }
    if (f.v[0].m)
        for (size_t i = 0; i < f.v[0].m->f.size(); i++)
            initial(f.v[0].m->t->f[i], f.v[0].m->f[i]);
}
Msg gen_msg_b(Case &c, const MsgInfo &t, GenOpt &o, int depth)
{
    Msg m(t);
    size_t n = t.f.size();
    // how many fields are set: few fields out of many, or a share of all fields
    unsigned dens = 1 + unsigned(c.draw(3));
    std::vector<bool> chosen(n, false);
    size_t few = size_t(c.draw(3));
    bool share = c.chance(1, 3);
    for (size_t i = 0; i < n; i++)
        if (t.f[i].card == Card::Plain || t.f[i].fixed_count)
            chosen[i] = share ? !c.chance(1, 4) : c.chance(1, 2);
        else if (share)
            chosen[i] = c.draw(3) >= dens;
    if (!share && n)
        for (size_t k = 0; k < few + 1; k++)
            chosen[size_t(c.draw(n - 1))] = true;
    for (size_t i = 0; i < n; i++)
    {
        auto &fi = t.f[i];
        auto &f = m.f[i];
        bool msg = fi.kind == Kind::Message;
        if (msg && depth <= 0 && fi.card != Card::Plain)
            continue;
        if (fi.card == Card::Plain && !chosen[i])
            initial(fi, f);
        if (!chosen[i] || (o.nodes <= 0 && fi.card != Card::Plain && !fi.fixed_count))
            continue;
        switch (fi.card)
        {
        case Card::Plain: f.v[0] = gen_val(c, fi, o, depth); break;
        case Card::OneofMember: {
            for (size_t j = 0; j < n; j++)
                if (t.f[j].card == Card::OneofMember && t.f[j].oneof == fi.oneof)
                    m.f[j].v.clear();
            f.v.push_back(gen_val(c, fi, o, depth));
            break;
        }
        case Card::Optional: {
            Val v = gen_val(c, fi, o, depth);
            if (!o.implicit_defaults && fi.implicit && is_default(fi, v))
                break;
            f.v.push_back(std::move(v));
            break;
        }
        case Card::Repeated: {
            if (fi.fixed_count)
            {
                for (auto &v : f.v)
                    v = gen_val(c, fi, o, depth);
                break;
            }
            size_t hi = msg ? 4 : 2000;
            if (fi.max_count)
                hi = std::min<size_t>(hi, fi.max_count);
            if (fi.cap_count)
                hi = std::min<size_t>(hi, size_t(fi.cap_count));
            size_t cnt;
            switch (c.draw(7))
            {
            default: cnt = 1 + c.draw(2); break;
            case 5: cnt = c.draw(12); break;
            case 6: cnt = hi < 200 ? hi : 20; break;
            case 7: cnt = msg ? 2 : c.chance(1, 6) ? 120 + c.draw(20) : 5; break;
            }
            cnt = std::min(cnt, hi);
            if (cnt > 24) // long: repeat a few values
            {
                std::vector<Val> u;
                for (int k = 0; k < 3; k++)
                {
                    Val v = gen_val(c, fi, o, depth);
                    if (v.s.size() > 40)
                        v.s = fi.fixed_len ? v.s : std::string();
                    u.push_back(v);
                }
                for (size_t k = 0; k < cnt; k++)
                    f.v.push_back(u[k % u.size()]);
            }
            else
                for (size_t k = 0; k < cnt; k++)
                    f.v.push_back(gen_val(c, fi, o, depth));
            break;
        }
        case Card::Map: {
            size_t hi = 6;
            if (fi.cap_count)
                hi = std::min<size_t>(hi, size_t(fi.cap_count));
            size_t cnt = std::min(hi, size_t(1 + c.draw(3)));
            for (size_t k = 0; k < cnt; k++)
            {
                Val key = gen_key(c, fi);
                Val v = gen_val(c, fi, o, depth);
                bool dup = false;
                for (auto &x : f.k)
                    dup |= val_eq(x, key, fi.key, EqOpt{});
                if (dup)
                    continue;
                f.k.push_back(std::move(key));
                f.v.push_back(std::move(v));
            }
            sort_map(f, fi.key);
            break;
        }
        }
    }
    return m;
}
Msg gen_msg(Case &c, const MsgInfo &t, GenOpt o)
{
    return gen_msg_b(c, t, o, o.depth);
}
// sizes at which a length or a buffer may need another representation
static size_t huge_len(Case &c, bool huge = true)
{
    static const size_t at[] = {2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 2097152};
    size_t n = at[c.draw(huge ? c.chance(1, 12) ? 8 : 7 : 5)];
    return n - 12 + c.draw(24);
}
static std::string pattern(Case &c, size_t n, bool text)
{
    std::string unit, s;
    size_t u = 1 + c.draw(4);
    for (size_t i = 0; i < u; i++)
        if (text)
            put_utf8(unit, c.chance(1, 2) ? uint32_t('a' + c.draw(25)) : gen_cp(c, 4));
        else
            unit += char(c.draw(255));
    s.assign(size_t(c.draw(5)), 'p');
    while (s.size() + unit.size() <= n)
        s += unit;
    s.resize(std::max(n, s.size()), 'x');
    return s;
}
Msg gen_huge(Case &c, const MsgInfo &t, int depth)
{
    Msg m(t);
    std::vector<size_t> can;
    for (size_t i = 0; i < t.f.size(); i++)
    {
        auto &f = t.f[i];
        if (f.fixed_count || f.fixed_len || f.cap_count || f.max_count)
            continue;
        bool str = f.kind == Kind::String || f.kind == Kind::Bytes;
        if (f.kind == Kind::Message && depth == 0)
            continue;
        if (f.card != Card::Repeated && f.card != Card::Map && f.kind != Kind::Message && (!str || max_len(f) < 100000))
            continue;
        can.push_back(i);
    }
    if (can.empty())
        return m;
    size_t i = can[c.draw(can.size() - 1)];
    auto &fi = t.f[i];
    auto &f = m.f[i];
    bool str = fi.kind == Kind::String || fi.kind == Kind::Bytes, text = fi.kind == Kind::String;
    GenOpt o;
    o.depth = 1;
    o.long_strings = 0;
    auto one = [&] {
        Val v;
        if (fi.kind == Kind::Message)
            v.m = std::make_unique<Msg>(gen_huge(c, fi.msg(), depth - 1));
        else if (str)
            v.s = pattern(c, std::min(max_len(fi), huge_len(c)), text);
        else
        {
            o.nodes = 5;
            v = gen_val(c, fi, o, 0);
        }
        return v;
    };
    if (fi.card == Card::Repeated && (c.chance(1, 2) || !(str || fi.kind == Kind::Message))) // many elements
    {
        size_t n = huge_len(c, false);
        if (fi.kind == Kind::Message)
            n = std::min<size_t>(n, 5000);
        std::vector<Val> u;
        for (int k = 0; k < 5; k++)
        {
            Val v;
            o.nodes = 3;
            if (fi.kind == Kind::Message)
                v.m = std::make_unique<Msg>(fi.msg());
            else
                v = gen_val(c, fi, o, 0);
            if (v.s.size() > 8)
                v.s.clear();
            u.push_back(std::move(v));
        }
        for (size_t k = 0; k < n; k++)
            f.v.push_back(u[k % u.size()]);
    }
    else if (fi.card == Card::Map)
    {
        if (fi.key == Kind::Bool || c.chance(1, 3)) // one long entry
        {
            Val k;
            if (fi.key == Kind::String)
                k.s = pattern(c, std::min<size_t>(fi.key_cap ? size_t(fi.key_cap) : 100000, huge_len(c, false)), true);
            f.k.push_back(std::move(k));
            f.v.push_back(one());
        }
        else
        {
            size_t n = 100 + c.draw(4000);
            for (size_t j = 0; j < n; j++)
            {
                Val k, v;
                k.n = j;
                if (fi.key == Kind::String)
                    k = Val("key" + std::to_string(j)).s.size() > size_t(fi.key_cap ? fi.key_cap : 100) ? Val(std::to_string(j)) : Val("key" + std::to_string(j));
                if (fi.kind == Kind::Message)
                    v.m = std::make_unique<Msg>(fi.msg());
                else if (!str)
                {
                    o.nodes = 3;
                    v = fi.kind == Kind::Enum ? gen_val(c, fi, o, 0) : Val(uint64_t(j % 2));
                }
                f.k.push_back(std::move(k));
                f.v.push_back(std::move(v));
            }
            sort_map(f, fi.key);
        }
    }
    else
    {
        f.v.clear();
        f.v.push_back(one());
        if (fi.card == Card::Repeated && c.chance(1, 2))
            f.v.push_back(f.v[0]);
    }
    return m;
}
void normalise(Msg &m)
{
    for (size_t i = 0; i < m.f.size(); i++)
    {
        auto &fi = m.t->f[i];
        auto &f = m.f[i];
        if (fi.implicit && !f.v.empty() && is_default(fi, f.v[0]))
            f.v.clear();
        for (auto &v : f.v)
            if (v.m)
                normalise(*v.m);
    }
}
} // namespace br
