#include "tree.hpp"
#include "ops.hpp"
#include <cstdio>
#include <stdexcept>
namespace br
{
std::string hex(const std::string &s)
{
    std::string o;
    char b[4];
    for (unsigned char c : s)
    {
        snprintf(b, sizeof b, "%02x", c);
        o += b;
    }
    return o;
}
static std::string quote(const std::string &s)
{
    std::string o = "\"";
    size_t n = 0;
    for (unsigned char c : s)
    {
        if (++n > 200)
        {
            o += "...(" + std::to_string(s.size()) + " bytes)";
            break;
        }
        if (c >= 0x20 && c < 0x7f && c != '"' && c != '\\')
            o += char(c);
        else
        {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        }
    }
    return o + "\"";
}
static std::string rv(const Val &v, Kind k)
{
    char b[64];
    switch (k)
    {
    case Kind::Message: return v.m ? render(*v.m) : "<null>";
    case Kind::String: return quote(v.s);
    case Kind::Bytes: return "b" + quote(v.s);
    case Kind::Bool: return v.n ? "true" : "false";
    case Kind::Float: {
        float f;
        uint32_t u = uint32_t(v.n);
        memcpy(&f, &u, 4);
        snprintf(b, sizeof b, "%.9g(0x%08x)", double(f), u);
        return b;
    }
    case Kind::Double: {
        double f;
        memcpy(&f, &v.n, 8);
        snprintf(b, sizeof b, "%.17g(0x%016llx)", f, (unsigned long long)v.n);
        return b;
    }
    default: return is_signed_kind(k) ? std::to_string(int64_t(v.n)) : std::to_string(v.n);
    }
}
std::string render(const Msg &m)
{
    std::string o = "{";
    for (size_t i = 0; i < m.f.size(); i++)
    {
        auto &fi = m.t->f[i];
        auto &f = m.f[i];
        if (f.v.empty())
            continue;
        o += std::string(o.size() > 1 ? ", " : "") + fi.name + ": ";
        if (fi.card == Card::Repeated || fi.card == Card::Map)
        {
            o += "[";
            for (size_t j = 0; j < f.v.size(); j++)
            {
                if (j)
                    o += ", ";
                if (j >= 40)
                {
                    o += "...(" + std::to_string(f.v.size()) + ")";
                    break;
                }
                if (fi.card == Card::Map)
                    o += rv(f.k[j], fi.key) + "=>";
                o += rv(f.v[j], fi.kind);
            }
            o += "]";
        }
        else
            o += rv(f.v[0], fi.kind);
    }
    return o + "}";
}
static bool dv(const Val &a, const Val &b, Kind k, const std::string &path, std::string &out);
static bool dm(const Msg &a, const Msg &b, const std::string &path, std::string &out)
{
    for (size_t i = 0; i < a.f.size() && i < b.f.size(); i++)
    {
        auto &fi = a.t->f[i];
        auto &x = a.f[i], &y = b.f[i];
        std::string p = path + "." + fi.name;
        if (x.v.size() != y.v.size())
        {
            out = p + ": " + std::to_string(x.v.size()) + " value(s) against " + std::to_string(y.v.size());
            return true;
        }
        for (size_t j = 0; j < x.k.size() && j < y.k.size(); j++)
            if (dv(x.k[j], y.k[j], fi.key, p + "[key " + std::to_string(j) + "]", out))
                return true;
        for (size_t j = 0; j < x.v.size(); j++)
            if (dv(x.v[j], y.v[j], fi.kind, p + (fi.card == Card::Repeated || fi.card == Card::Map ? "[" + std::to_string(j) + "]" : ""), out))
                return true;
    }
    return false;
}
static bool dv(const Val &a, const Val &b, Kind k, const std::string &path, std::string &out)
{
    if (k == Kind::Message && a.m && b.m)
        return dm(*a.m, *b.m, path, out);
    if (val_eq(a, b, k, EqOpt{}))
        return false;
    out = path + ": " + rv(a, k) + " against " + rv(b, k);
    return true;
}
std::string diff(const Msg &a, const Msg &b)
{
    std::string o;
    if (a.t != b.t)
        return "different types";
    if (dm(a, b, a.t->full, o))
        return o;
    return "no difference";
}
uint64_t hash_bytes(const void *p, size_t n, uint64_t h)
{
    auto *b = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; i++)
        h = (h ^ b[i]) * 1099511628211ull;
    return h;
}
size_t set_fields(const Msg &m)
{
    size_t n = 0;
    for (size_t i = 0; i < m.f.size(); i++)
        if (!m.f[i].v.empty() && m.t->f[i].card != Card::Plain && !m.t->f[i].fixed_count)
            n += m.f[i].v.size();
        else if (m.t->f[i].card == Card::Plain && (m.f[i].v[0].n || !m.f[i].v[0].s.empty()))
            n++;
    for (auto &f : m.f)
        for (auto &v : f.v)
            if (v.m)
                n += set_fields(*v.m);
    return n;
}
bool is_trivial(const Msg &m)
{
    return set_fields(m) == 0;
}
std::vector<TypeOps> &registry()
{
    static std::vector<TypeOps> r;
    return r;
}
const TypeOps *find_ops(const std::string &name)
{
    for (auto &o : registry())
        if (name == o.name)
            return &o;
    return nullptr;
}
const TypeOps &ops(const std::string &name)
{
    auto *o = find_ops(name);
    if (!o)
        throw std::logic_error("harness: no such message type: " + name);
    return *o;
}
} // namespace br
