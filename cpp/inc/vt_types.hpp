// User-defined containers which offer no more than the documented concepts (include/spb/concepts.h) ask for.
#pragma once
#include <cstddef>
#include <memory>
#include <new>
#include <utility>
#include <deque>
#include <vector>
#include <string>
namespace vt
{
template <class T> class opt
{
    std::unique_ptr<T> p;

  public:
    using value_type = T;
    opt() = default;
    opt(opt &&) = default;
    opt &operator=(opt &&) = default;
    bool has_value() const { return p != nullptr; }
    void reset() { p.reset(); }
    T &operator*() { return *p; }
    const T &operator*() const { return *p; }
    T &emplace(T &&v)
    {
        p = std::make_unique<T>(std::move(v));
        return *p;
    }
};
template <class T> class vec
{
    std::deque<T> v;

  public:
    using value_type = T;
    T &emplace_back() { return v.emplace_back(); }
    template <class U> T &emplace_back(U &&u) { return v.emplace_back(std::forward<U>(u)); }
    void push_back(const T &t) { v.push_back(t); }
    T &back() { return v.back(); }
    auto begin() { return v.begin(); }
    auto end() { return v.end(); }
    auto begin() const { return v.begin(); }
    auto end() const { return v.end(); }
    std::size_t size() const { return v.size(); }
    bool empty() const { return v.empty(); }
    void clear() { v.clear(); }
};
class str
{
    std::string s;

  public:
    using value_type = char;
    char *data() { return s.data(); }
    const char *data() const { return s.data(); }
    std::size_t size() const { return s.size(); }
    bool empty() const { return s.empty(); }
    auto begin() { return s.begin(); }
    auto end() { return s.end(); }
    auto begin() const { return s.begin(); }
    auto end() const { return s.end(); }
    void append(const char *p, std::size_t n) { s.append(p, n); }
    void resize(std::size_t n) { s.resize(n); }
    void clear() { s.clear(); }
};
class blob
{
    std::vector<std::byte> s;

  public:
    using value_type = std::byte;
    std::byte *data() { return s.data(); }
    const std::byte *data() const { return s.data(); }
    std::size_t size() const { return s.size(); }
    bool empty() const { return s.empty(); }
    auto begin() { return s.begin(); }
    auto end() { return s.end(); }
    auto begin() const { return s.begin(); }
    auto end() const { return s.end(); }
    void resize(std::size_t n) { s.resize(n); }
    void clear() { s.clear(); }
};
} // namespace vt
