// Containers which differ from the default ones by their type only; the number tells the assignments apart.
#pragma once
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include <cstddef>
#include <utility>
namespace ot
{
template <class C, int N> struct str : std::basic_string<C> { using std::basic_string<C>::basic_string; };
template <class B, int N> struct blob : std::vector<B> { using std::vector<B>::vector; };
template <class T, int N> struct opt : std::optional<T> { using std::optional<T>::optional; };
// moved by a growing std::vector, as its elements need not be copyable
template <class T, int N> struct vec : std::deque<T>
{
    using std::deque<T>::deque;
    vec() = default;
    vec(const vec &) = default;
    vec(vec &&o) noexcept : std::deque<T>(std::move(o)) {}
    vec &operator=(const vec &) = default;
    vec &operator=(vec &&) = default;
};
template <class K, class V, int N> struct map : std::map<K, V> { using std::map<K, V>::map; };
// what breaks a cycle: allocated, with the interface of an optional
template <class T, int N> struct ptr
{
    using value_type = T;
    std::unique_ptr<T> p;
    bool has_value() const { return p != nullptr; }
    void reset() { p.reset(); }
    T &operator*() { return *p; }
    const T &operator*() const { return *p; }
    T &emplace(T v) { p = std::make_unique<T>(std::move(v)); return *p; }
};
} // namespace ot
