#include "common.hpp"
#include <map>
namespace br
{
const std::vector<const TypeOps *> &types(const char *prefix)
{
    static std::map<std::string, std::vector<const TypeOps *>> m;
    auto &v = m[prefix];
    if (v.empty())
    {
        for (auto &t : registry())
            if (!strncmp(t.name, prefix, strlen(prefix)))
                v.push_back(&t);
        std::sort(v.begin(), v.end(), [](auto *a, auto *b) { return strcmp(a->name, b->name) < 0; });
        if (v.empty())
            throw std::logic_error(std::string("harness: no types called ") + prefix);
    }
    return v;
}
const TypeOps &pick_type(Case &c, const char *prefix)
{
    auto &v = types(prefix);
    auto &t = *v[c.draw(v.size() - 1)];
    c.note(std::string("type: ") + t.name);
    c.label(std::string("type:") + t.name);
    return t;
}
size_t ChunkReader::operator()(void *p, size_t n)
{
    if (long(calls) == fault_at)
    {
        calls++;
        throw ReaderFault{42};
    }
    max_request = std::max(max_request, n);
    size_t k = n;
    if (!chunks.empty())
        k = std::min<size_t>(k, std::max<uint32_t>(1, chunks[calls % chunks.size()]));
    calls++;
    k = std::min(k, s->size() - pos);
    if (k == 0)
        after_eof++;
    if (k)
        memcpy(p, s->data() + pos, k);
    pos += k;
    return k;
}
std::vector<uint32_t> gen_chunks(Case &c)
{
    switch (c.draw(5))
    {
    default: return {};
    case 1: return {1};
    case 2: return {uint32_t(1 + c.draw(8))};
    case 3: {
        std::vector<uint32_t> v;
        size_t n = 1 + c.draw(5);
        while (n--)
            v.push_back(uint32_t(1 + c.draw(20)));
        return v;
    }
    case 4: {
        std::vector<uint32_t> v;
        size_t n = 1 + c.draw(3);
        while (n--)
            v.push_back(uint32_t(1 + c.draw(400)));
        return v;
    }
    case 5: return {uint32_t(250 + c.draw(10)), 1};
    }
}
void Writer::operator()(const void *p, size_t n)
{
    if (long(calls) == fault_at)
    {
        calls++;
        throw ReaderFault{43};
    }
    calls++;
    out.append((const char *)p, n);
}
template <class F> static Got guarded(const TypeOps &t, F f)
{
    Got g;
    Obj o(t);
    try
    {
        g.consumed = f(o);
        g.ok = true;
    }
    catch (const pbt::Fail &)
    {
        throw;
    }
    catch (const std::bad_alloc &)
    {
        throw pbt::Fail("std::bad_alloc while reading");
    }
    catch (const std::exception &e)
    {
        g.err = e.what();
    }
    if (g.ok)
        g.m = o.tree();
    return g;
}
// the input is kept in an exactly sized heap block, so that any read behind it is seen by the sanitizer
struct Exact
{
    std::unique_ptr<char[]> p;
    explicit Exact(const std::string &s) : p(new char[s.size()])
    {
        if (!s.empty())
            memcpy(p.get(), s.data(), s.size());
    }
};
Got pb_read(const TypeOps &t, const std::string &b, bool d)
{
    Exact e(b);
    return guarded(t, [&](Obj &o) { return t.pb_de_buf(o.p, e.p.get(), b.size(), d); });
}
Got pb_read_chunks(const TypeOps &t, ChunkReader &r, bool d)
{
    return guarded(t, [&](Obj &o) { return t.pb_de_rd(o.p, r, d); });
}
Got pb_read_into(Obj &o, const std::string &b)
{
    Got g;
    Exact e(b);
    try
    {
        g.consumed = o.o->pb_de_buf(o.p, e.p.get(), b.size(), false);
        g.ok = true;
    }
    catch (const std::exception &x)
    {
        g.err = x.what();
    }
    g.m = o.tree();
    return g;
}
Got js_read(const TypeOps &t, const std::string &b)
{
    Exact e(b);
    return guarded(t, [&](Obj &o) { return t.js_de_buf(o.p, e.p.get(), b.size()); });
}
Got js_read_chunks(const TypeOps &t, ChunkReader &r)
{
    return guarded(t, [&](Obj &o) { return t.js_de_rd(o.p, r); });
}
std::string pb_write(const Obj &o)
{
    std::string s;
    o.o->pb_str(o.p, s, false);
    return s;
}
std::string js_write(const Obj &o)
{
    std::string s;
    o.o->js_str(o.p, s);
    return s;
}
std::string show(const std::string &b)
{
    return b.size() > 160 ? hex(b.substr(0, 120)) + "..(" + std::to_string(b.size()) + ")" : hex(b);
}
std::string text(const std::string &s)
{
    std::string o;
    size_t n = 0;
    for (unsigned char c : s)
    {
        if (++n > 2500)
            return o + "...(" + std::to_string(s.size()) + ")";
        if (c >= 0x20 && c < 0x7f && c != '\\')
            o += char(c);
        else
        {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        }
    }
    return o;
}
uint64_t h(const std::string &s)
{
    return hash_bytes(s.data(), s.size());
}
std::string mutate(Case &c, std::string s, const std::string &other, const std::vector<std::string> &dict)
{
    size_t n = 1 + c.draw(3);
    for (size_t i = 0; i < n; i++)
    {
        size_t at = s.empty() ? 0 : size_t(c.draw(s.size()));
        switch (c.draw(9))
        {
        case 0: s.resize(at); break;                        // truncate
        case 1:                                             // flip
            if (at < s.size())
                s[at] = char(s[at] ^ (1 << c.draw(7)));
            break;
        case 2:
            if (at < s.size())
                s[at] = char(c.draw(255));
            break;
        case 3: s.insert(s.begin() + long(at), char(c.draw(255))); break;
        case 4: { // delete a run
            size_t k = std::min<size_t>(s.size() - at, 1 + size_t(c.draw(8)));
            s.erase(at, k);
            break;
        }
        case 5: { // duplicate a run
            size_t k = std::min<size_t>(s.size() - at, 1 + size_t(c.draw(16)));
            s.insert(at, s.substr(at, k));
            break;
        }
        case 6: { // splice
            size_t q = other.empty() ? 0 : size_t(c.draw(other.size()));
            s = s.substr(0, at) + other.substr(q);
            break;
        }
        case 7:
        case 8:
            if (!dict.empty())
            {
                auto &d = dict[c.draw(dict.size() - 1)];
                if (c.chance(1, 2))
                    s.insert(at, d);
                else
                    s.replace(at, std::min(d.size(), s.size() - at), d);
            }
            break;
        case 9:
            if (at < s.size())
                s[at] = char(s[at] + (c.chance(1, 2) ? 1 : -1));
            break;
        }
    }
    return s;
}
} // namespace br
