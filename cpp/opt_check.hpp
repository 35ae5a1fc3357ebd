// Runtime part of the option checks: limits, packing, defaults and names of generated messages.
#pragma once
#include <cstdio>
#include <functional>
#include <string>
#include <vector>
#include <array>
#include <ot_types.hpp>
#include <spb/json.hpp>
#include <spb/pb.hpp>

namespace oc
{
struct Ctx
{
    std::string project;
    int failures = 0, cases = 0;
    void check(bool ok, const std::string &what)
    {
        cases++;
        if (!ok) { failures++; std::printf("FAIL %s: %s\n", project.c_str(), what.c_str()); }
    }
};
struct Reg { Reg(const char *name, void (*fn)(Ctx &)); };

template <class T> T &put(std::optional<T> &o) { return o.emplace(); }
template <class T, int N> T &put(ot::opt<T, N> &o) { return o.emplace(); }
template <class S> void fill(S &s, std::size_t n) { s.clear(); s.resize(n, typename S::value_type('x')); }

inline std::string varint(unsigned long long v)
{
    std::string s;
    while (v >= 0x80) { s += char(v | 0x80); v >>= 7; }
    return s + char(v);
}
inline std::string base64(std::size_t n)
{
    std::string s;
    for (std::size_t i = 0; i + 3 <= n; i += 3) s += "eHh4";
    if (n % 3 == 1) s += "eA==";
    if (n % 3 == 2) s += "eHg=";
    return s;
}
template <class F> bool works(F &&f, std::string &why)
{
    try { f(); return true; }
    catch (const std::exception &e) { why = e.what(); return false; }
}
// kind: 's' string, 'b' bytes; limit < 0: no limit
template <class M, class Set>
void size_limit(Ctx &c, const std::string &what, long limit, unsigned number, const std::string &name, char kind, bool array, Set set)
{
    for (std::size_t n : limit < 0 ? std::vector<std::size_t>{1, 3000} : std::vector<std::size_t>{std::size_t(limit), std::size_t(limit) + 1, std::size_t(limit) + 7})
    {
        const bool ok = limit < 0 || n <= std::size_t(limit);
        const auto exp = std::string(ok ? " is refused: " : " is accepted") + " (" + std::to_string(n) + " of " + (limit < 0 ? std::string("unlimited") : std::to_string(limit)) + " bytes) ";
        std::string why;
        M m{};
        set(m, n);
        c.check(works([&] { (void)spb::pb::serialize(m); }, why) == ok, what + ": pb serialize" + exp + why);
        why.clear();
        c.check(works([&] { (void)spb::json::serialize(m); }, why) == ok, what + ": json serialize" + exp + why);
        why.clear();
        const auto pb = varint(number << 3 | 2) + varint(n) + std::string(n, 'x');
        c.check(works([&] { (void)spb::pb::deserialize<M>(pb); }, why) == ok, what + ": pb deserialize" + exp + why);
        why.clear();
        auto v = '"' + (kind == 's' ? std::string(n, 'x') : base64(n)) + '"';
        if (array) v = '[' + v + ']';
        c.check(works([&] { (void)spb::json::deserialize<M>("{\"" + name + "\":" + v + "}"); }, why) == ok, what + ": json deserialize" + exp + why);
    }
}
// item: one encoded element including its tag; json: one element
template <class M, class Set>
void count_limit(Ctx &c, const std::string &what, long limit, const std::string &name, const std::string &item, const std::string &json, Set set)
{
    for (std::size_t n : limit < 0 ? std::vector<std::size_t>{2, 300} : std::vector<std::size_t>{std::size_t(limit), std::size_t(limit) + 1, std::size_t(limit) + 5})
    {
        const bool ok = limit < 0 || n <= std::size_t(limit);
        const auto exp = std::string(ok ? " is refused: " : " is accepted") + " (" + std::to_string(n) + " of " + (limit < 0 ? std::string("unlimited") : std::to_string(limit)) + " elements) ";
        std::string why;
        M m{};
        for (std::size_t i = 0; i < n; i++) set(m);
        c.check(works([&] { (void)spb::pb::serialize(m); }, why) == ok, what + ": pb serialize" + exp + why);
        why.clear();
        c.check(works([&] { (void)spb::json::serialize(m); }, why) == ok, what + ": json serialize" + exp + why);
        why.clear();
        std::string pb, js;
        for (std::size_t i = 0; i < n; i++) { pb += item; js += (i ? "," : "") + json; }
        c.check(works([&] { (void)spb::pb::deserialize<M>(pb); }, why) == ok, what + ": pb deserialize" + exp + why);
        why.clear();
        c.check(works([&] { (void)spb::json::deserialize<M>("{\"" + name + "\":[" + js + "]}"); }, why) == ok, what + ": json deserialize" + exp + why);
    }
}
template <class M> void key(Ctx &c, const std::string &what, const M &m, const std::string &name)
{
    const auto j = spb::json::serialize(m);
    c.check(j.find('"' + name + "\":") != j.npos, what + ": json key " + name + " is missing: " + j);
}
// m has at least two elements in this field
template <class M> void packed(Ctx &c, const std::string &what, const M &m, unsigned number, bool expected)
{
    const auto s = spb::pb::serialize(m);
    std::size_t i = 0;
    const auto read = [&] {
        unsigned long long v = 0;
        for (int k = 0; i < s.size(); k += 7)
        {
            const auto b = (unsigned char)(s[i++]);
            v |= (unsigned long long)(b & 127) << k;
            if (b < 128) break;
        }
        return v;
    };
    while (i < s.size())
    {
        const auto tag = read();
        if (tag >> 3 == number)
        {
            c.check(((tag & 7) == 2) == expected, what + (expected ? ": is not packed" : ": is packed"));
            return;
        }
        const auto w = tag & 7;
        if (w == 0) (void)read();
        else if (w == 1) i += 8;
        else if (w == 5) i += 4;
        else i += read();
    }
    c.check(false, what + ": is missing in the output");
}
} // namespace oc
