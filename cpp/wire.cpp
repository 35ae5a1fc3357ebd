#include "wire.hpp"
#include "gen.hpp"
namespace br
{
using pbt::Case;
std::string varint(uint64_t v, int pad_to)
{
    std::string s;
    while (v >= 0x80)
    {
        s += char((v & 0x7f) | 0x80);
        v >>= 7;
    }
    s += char(v);
    while (int(s.size()) < pad_to)
    {
        s.back() = char(s.back() | 0x80);
        s += '\0';
    }
    return s;
}
static std::string vi(uint64_t v, Case *c, const WireVar &o, int max)
{
    int pad = 0;
    if (c && o.pad && c->chance(1, 4))
        pad = 1 + int(c->draw(uint64_t(max - 1)));
    return varint(v, pad);
}
std::string tag(uint32_t number, int wire)
{
    return varint((uint64_t(number) << 3) | uint64_t(wire));
}
static std::string tg(int number, int wire, Case *c, const WireVar &o)
{
    return vi((uint64_t(uint32_t(number)) << 3) | uint64_t(wire), c, o, 5);
}
static std::string fixed(uint64_t v, int n)
{
    std::string s;
    for (int i = 0; i < n; i++)
        s += char(v >> (8 * i));
    return s;
}
std::string wire_val(const Val &v, Kind k, Case *c, const WireVar &o)
{
    switch (k)
    {
    case Kind::Double: case Kind::Fixed64: case Kind::SFixed64: return fixed(v.n, 8);
    case Kind::Float: case Kind::Fixed32: case Kind::SFixed32: return fixed(v.n, 4);
    case Kind::SInt32: { auto x = int32_t(v.n); return vi((uint32_t(x) << 1) ^ uint32_t(x >> 31), c, o, 10); }
    case Kind::SInt64: { auto x = int64_t(v.n); return vi((uint64_t(x) << 1) ^ uint64_t(x >> 63), c, o, 10); }
    case Kind::String: case Kind::Bytes: return vi(v.s.size(), c, o, 5) + v.s;
    case Kind::Message: {
        auto b = wire_encode(*v.m, c, o);
        return vi(b.size(), c, o, 5) + b;
    }
    case Kind::Int32: case Kind::Enum: return vi(uint64_t(int64_t(int32_t(v.n))), c, o, 10);
    case Kind::UInt32: return vi(uint32_t(v.n), c, o, 10);
    case Kind::Bool: return vi(v.n != 0, c, o, 10);
    default: return vi(v.n, c, o, 10);
    }
}
static bool has_defaults(const Msg &m)
{
    for (size_t i = 0; i < m.f.size(); i++)
    {
        if (m.t->f[i].has_default)
            return true;
        for (auto &v : m.f[i].v)
            if (v.m && has_defaults(*v.m))
                return true;
    }
    return false;
}
static bool zero(const Val &v, Kind k)
{
    if (k == Kind::Message)
        return v.m && set_fields(*v.m) == 0 && !has_defaults(*v.m);
    return (k == Kind::String || k == Kind::Bytes) ? v.s.empty() : v.n == 0;
}
std::string gen_unknown_field(Case &c, const MsgInfo &t, const WireVar &v, int depth)
{
    uint32_t num;
    for (;;)
    {
        switch (c.draw(4))
        {
        default: num = 1 + uint32_t(c.draw(40)); break;
        case 1: num = 1 + uint32_t(c.draw(5000)); break;
        case 2: num = t.f.empty() ? 5 : uint32_t(t.f[c.draw(t.f.size() - 1)].number) + uint32_t(c.draw(2)) - 1; break;
        case 3: num = 1 + uint32_t(c.draw(536870910)); break;
        case 4: num = (t.f.empty() ? 5u : uint32_t(t.f[c.draw(t.f.size() - 1)].number)) ^ (1u << c.draw(28)); break;
        }
        if (num == 0 || num > 536870911u)
            num = 100;
        bool used = false;
        for (auto &f : t.f)
            used |= uint32_t(f.number) == num;
        if (!used)
            break;
        if (c.replay) // a shrunk tape may run out of fresh numbers
        {
            for (num = 1;; num++)
            {
                used = false;
                for (auto &f : t.f)
                    used |= uint32_t(f.number) == num;
                if (!used)
                    break;
            }
            break;
        }
    }
    auto T = [&](int w) { return tg(int(num), w, &c, v); };
    switch (c.draw(v.groups && depth > 0 ? 4 : 3))
    {
    default: return T(0) + vi(gen_int(c, 64, false), &c, v, 10);
    case 1: return T(5) + fixed(c.draw(UINT32_MAX), 4);
    case 2: return T(1) + fixed(c.draw(UINT64_MAX), 8);
    case 3: {
        std::string b;
        if (v.unknown_big && c.chance(1, 12))
            b = std::string(500 + c.draw(6000), char(c.draw(255)));
        else
            b = gen_bytes(c, 0, 40);
        return T(2) + vi(b.size(), &c, v, 5) + b;
    }
    case 4: {
        std::string b = T(3);
        size_t n = c.draw(3);
        static const MsgInfo none;
        for (size_t i = 0; i < n; i++)
            b += gen_unknown_field(c, none, v, depth - 1);
        return b + T(4);
    }
    }
}
static Msg split_off(Msg &m, Case &c); // moves a part of m's content into the result, so that merging result and m gives m
static void records(std::vector<std::vector<std::string>> &streams, const Msg &m, Case *c, const WireVar &o)
{
    size_t n = m.f.size();
    for (size_t i = 0; i < n; i++)
    {
        auto &fi = m.t->f[i];
        auto &f = m.f[i];
        std::vector<std::string> s;
        auto one = [&](const Val &v) { return tg(fi.number, wire_of(fi.kind), c, o) + wire_val(v, fi.kind, c, o); };
        if (fi.card == Card::Map)
        {
            for (size_t j = 0; j < f.k.size(); j++)
            {
                auto key = [&](const Val &k) { return tg(1, wire_of(fi.key), c, o) + wire_val(k, fi.key, c, o); };
                auto val = [&](const Val &v) { return tg(2, wire_of(fi.kind), c, o) + wire_val(v, fi.kind, c, o); };
                std::string e;
                if (c && o.mapvar)
                {
                    static const MsgInfo entry = [] {
                        MsgInfo r;
                        FieldInfo a;
                        a.number = 1;
                        r.f.push_back(a);
                        a.number = 2;
                        r.f.push_back(a);
                        return r;
                    }();
                    std::vector<std::string> parts;
                    bool drop_k = zero(f.k[j], fi.key) && c->chance(1, 2), drop_v = zero(f.v[j], fi.kind) && c->chance(1, 2);
                    std::string ks = drop_k ? "" : key(f.k[j]), vs = drop_v ? "" : val(f.v[j]);
                    if (!drop_k && c->chance(1, 8))
                        ks = key(gen_key(*c, fi)) + ks; // repeated key field: the last one counts
                    if (!drop_v && fi.kind != Kind::Message && c->chance(1, 8))
                    {
                        GenOpt go;
                        vs = val(gen_val(*c, fi, go, 0)) + vs;
                    }
                    if (c->chance(1, 3))
                        parts = {vs, ks};
                    else
                        parts = {ks, vs};
                    for (int x = 0; x < 3; x++)
                    {
                        if (x)
                            e += parts[size_t(x - 1)];
                        if (o.unknown && c->chance(1, 6))
                            e += gen_unknown_field(*c, entry, o, 2);
                    }
                    // a replaced entry with the same key before it
                    if (fi.kind != Kind::Message && c->chance(1, 8))
                    {
                        GenOpt go;
                        std::string old = key(f.k[j]) + val(gen_val(*c, fi, go, 0));
                        s.push_back(tg(fi.number, 2, c, o) + vi(old.size(), c, o, 5) + old);
                    }
                }
                else
                    e = key(f.k[j]) + val(f.v[j]);
                s.push_back(tg(fi.number, 2, c, o) + vi(e.size(), c, o, 5) + e);
            }
        }
        else if (fi.card == Card::Repeated)
        {
            bool can_pack = packable(fi.kind);
            bool pk = fi.packed;
            if (c && o.pack && can_pack && !fi.fixed_count)
            {
                size_t j = 0;
                while (j < f.v.size())
                {
                    bool p = c->chance(1, 2);
                    size_t cnt = p ? 1 + c->draw(f.v.size() - j - 1) : 1;
                    if (c->chance(1, 10))
                        s.push_back(tg(fi.number, 2, c, o) + vi(0, c, o, 5)); // empty chunk
                    if (p)
                    {
                        std::string b;
                        for (size_t q = 0; q < cnt; q++)
                            b += wire_val(f.v[j + q], fi.kind, c, o);
                        s.push_back(tg(fi.number, 2, c, o) + vi(b.size(), c, o, 5) + b);
                    }
                    else
                        s.push_back(one(f.v[j]));
                    j += cnt;
                }
            }
            else if (pk && can_pack)
            {
                if (!f.v.empty())
                {
                    std::string b;
                    for (auto &v : f.v)
                        b += wire_val(v, fi.kind, c, o);
                    s.push_back(tg(fi.number, 2, c, o) + vi(b.size(), c, o, 5) + b);
                }
            }
            else
                for (auto &v : f.v)
                    s.push_back(one(v));
        }
        else
            for (auto &v : f.v)
            {
                if (c && o.merge && fi.kind == Kind::Message && c->chance(1, 3))
                {
                    Val rest = v;
                    Val part;
                    part.m = std::make_unique<Msg>(split_off(*rest.m, *c));
                    s.push_back(one(part));
                    s.push_back(one(rest));
                }
                else
                {
                    if (c && o.merge && fi.kind != Kind::Message && c->chance(1, 5))
                    {
                        GenOpt go;
                        s.push_back(one(gen_val(*c, fi, go, 0)));
                    }
                    s.push_back(one(v));
                }
            }
        // members of one oneof share a stream
        if (c && o.merge && fi.card == Card::OneofMember && fi.kind != Kind::Message && !f.v.empty() && c->chance(1, 4))
        {
            std::vector<size_t> others;
            for (size_t j = 0; j < n; j++)
                if (j != i && m.t->f[j].card == Card::OneofMember && m.t->f[j].oneof == fi.oneof && m.t->f[j].kind != Kind::Message)
                    others.push_back(j);
            if (!others.empty())
            {
                auto &of = m.t->f[others[c->draw(others.size() - 1)]];
                GenOpt go;
                Val v = gen_val(*c, of, go, 0);
                s.insert(s.begin(), tg(of.number, wire_of(of.kind), c, o) + wire_val(v, of.kind, c, o));
            }
        }
        if (!s.empty())
            streams.push_back(std::move(s));
    }
}
static Msg split_off(Msg &m, Case &c)
{
    // Plain fields stay in both parts (a required field has to be there); parts of the rest move
    Msg a(*m.t);
    for (size_t i = 0; i < m.f.size(); i++)
    {
        auto &fi = m.t->f[i];
        auto &f = m.f[i];
        if (f.v.empty() || fi.card == Card::Plain || fi.fixed_count)
            continue;
        if (!c.chance(1, 2))
            continue;
        if (fi.card == Card::Repeated || fi.card == Card::Map)
        {
            size_t k = size_t(c.draw(f.v.size()));
            for (size_t j = 0; j < k; j++)
            {
                a.f[i].v.push_back(f.v[j]);
                if (fi.card == Card::Map)
                    a.f[i].k.push_back(f.k[j]);
            }
            f.v.erase(f.v.begin(), f.v.begin() + long(k));
            if (fi.card == Card::Map)
                f.k.erase(f.k.begin(), f.k.begin() + long(k));
        }
        else if (fi.kind == Kind::Message && fi.card != Card::OneofMember)
        {
            // split the submessage again: both parts carry it
            Msg inner = split_off(*f.v[0].m, c);
            Val v;
            v.m = std::make_unique<Msg>(std::move(inner));
            a.f[i].v.push_back(std::move(v));
        }
        else
        {
            a.f[i].v = std::move(f.v);
            f.v.clear();
        }
    }
    return a;
}
std::string wire_encode(const Msg &m, Case *c, const WireVar &o)
{
    std::vector<std::vector<std::string>> st;
    records(st, m, c, o);
    std::string out;
    auto unk = [&] {
        if (c && o.unknown)
            while (c->chance(1, 6))
                out += gen_unknown_field(*c, *m.t, o);
    };
    unk();
    if (c && o.order && c->chance(3, 4))
    {
        std::vector<size_t> pos(st.size(), 0);
        std::vector<size_t> left;
        for (size_t i = 0; i < st.size(); i++)
            left.push_back(i);
        while (!left.empty())
        {
            size_t x = size_t(c->draw(left.size() - 1));
            size_t s = left[x];
            size_t run = c->chance(1, 2) ? st[s].size() - pos[s] : 1;
            while (run--)
                out += st[s][pos[s]++];
            if (pos[s] == st[s].size())
                left.erase(left.begin() + long(x));
            unk();
        }
    }
    else
        for (auto &s : st)
            for (auto &r : s)
            {
                out += r;
                unk();
            }
    return out;
}
namespace
{
struct Canon
{
    const std::string &s;
    size_t i, end;
    bool vi(uint64_t &v, bool &over)
    {
        v = 0;
        over = false;
        for (unsigned k = 0; k < 10; k++)
        {
            if (i >= end)
                return false;
            unsigned char b = (unsigned char)s[i++];
            if (k == 9 && (b & 0x7f) > 1)
                over = true;
            v |= uint64_t(b & 0x7f) << (7 * k);
            if (!(b & 0x80))
                return true;
        }
        return false;
    }
    bool run(const MsgInfo *t, const FieldInfo *map, std::string &out, uint32_t group, int depth)
    {
        if (depth > 20000)
            return false;
        while (i < end)
        {
            uint64_t tg, v;
            bool over;
            if (!vi(tg, over) || over || tg > 0xffffffffu || (tg >> 3) == 0)
                return false;
            uint32_t num = uint32_t(tg >> 3);
            switch (tg & 7)
            {
            case 0: {
                size_t b = i;
                if (!vi(v, over) || over)
                    return false;
                out += varint(tg) + s.substr(b, i - b);
                break;
            }
            case 1:
            case 5: {
                size_t n = (tg & 7) == 1 ? 8 : 4;
                if (end - i < n)
                    return false;
                out += varint(tg) + s.substr(i, n);
                i += n;
                break;
            }
            case 2: {
                if (!vi(v, over) || over || v > end - i)
                    return false;
                const FieldInfo *f = nullptr;
                if (t)
                    for (auto &x : t->f)
                        if (uint32_t(x.number) == num)
                            f = &x;
                std::string in;
                Canon c{s, i, i + size_t(v)};
                if (map && num == 2 && map->kind == Kind::Message)
                {
                    if (!c.run(&map->msg(), nullptr, in, 0, depth + 1))
                        return false;
                }
                else if (f && f->card == Card::Map)
                {
                    if (!c.run(nullptr, f, in, 0, depth + 1))
                        return false;
                }
                else if (f && f->kind == Kind::Message)
                {
                    if (!c.run(&f->msg(), nullptr, in, 0, depth + 1))
                        return false;
                }
                else
                    in = s.substr(i, size_t(v));
                out += varint(tg) + varint(in.size()) + in;
                i += size_t(v);
                break;
            }
            case 3:
                out += varint(tg);
                if (!run(nullptr, nullptr, out, num, depth + 1))
                    return false;
                break;
            case 4:
                if (group != num)
                    return false;
                out += varint(tg);
                return true;
            default: return false;
            }
        }
        return group == 0;
    }
};
} // namespace
bool wire_canonical(const MsgInfo &t, const std::string &b, std::string &out)
{
    Canon c{b, 0, b.size()};
    out.clear();
    return c.run(&t, nullptr, out, 0, 0);
}
Msg merged(const Msg &a, const Msg &b)
{
    Msg r = a;
    for (size_t i = 0; i < r.f.size(); i++)
    {
        auto &fi = r.t->f[i];
        auto &x = r.f[i];
        auto &y = b.f[i];
        switch (fi.card)
        {
        case Card::Map:
            for (size_t j = 0; j < y.k.size(); j++)
            {
                bool done = false;
                for (size_t q = 0; q < x.k.size(); q++)
                    if (val_eq(x.k[q], y.k[j], fi.key, EqOpt{}))
                    {
                        x.v[q] = y.v[j];
                        done = true;
                    }
                if (!done)
                {
                    x.k.push_back(y.k[j]);
                    x.v.push_back(y.v[j]);
                }
            }
            sort_map(x, fi.key);
            break;
        case Card::Repeated:
            if (fi.fixed_count)
                x = y;
            else
                for (auto &v : y.v)
                    x.v.push_back(v);
            break;
        default:
            if (y.v.empty())
                break;
            if (fi.card == Card::OneofMember)
                for (size_t j = 0; j < r.f.size(); j++)
                    if (j != i && r.t->f[j].card == Card::OneofMember && r.t->f[j].oneof == fi.oneof)
                        r.f[j].v.clear();
            if (fi.kind == Kind::Message && !x.v.empty())
                *x.v[0].m = merged(*x.v[0].m, *y.v[0].m);
            else
                x = y;
            break;
        }
    }
    return r;
}
} // namespace br
