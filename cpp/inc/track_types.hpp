// Containers which count their own allocations, so that any other allocation is the library's.
#pragma once
#include <cstddef>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace tk
{
inline thread_local std::size_t allocations = 0;
template <class T> struct al
{
    using value_type = T;
    al() = default;
    template <class U> al(const al<U> &) {}
    T *allocate(std::size_t n)
    {
        ++allocations;
        return std::allocator<T>().allocate(n);
    }
    void deallocate(T *p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
    bool operator==(const al &) const { return true; }
};
template <class C> using str = std::basic_string<C, std::char_traits<C>, al<C>>;
template <class T> using vec = std::vector<T, al<T>>;
template <class K, class V> using map = std::map<K, V, std::less<K>, al<std::pair<const K, V>>>;
template <class T> struct box
{
    using value_type = T;
    std::unique_ptr<T> p;
    bool has_value() const { return p != nullptr; }
    void reset() { p.reset(); }
    T &operator*() { return *p; }
    const T &operator*() const { return *p; }
    T &emplace(T v)
    {
        ++allocations;
        p = std::make_unique<T>(std::move(v));
        return *p;
    }
};
} // namespace tk
