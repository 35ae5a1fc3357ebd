// struct <-> tree conversion, instantiated by the generated bridge files.
#pragma once
#include "tree.hpp"
#include "ops.hpp"
#include <bit>
#include <concepts>
#include <cstddef>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <type_traits>
#include <variant>

namespace br
{
template <class T> concept BNum = std::is_arithmetic_v<T> || std::is_enum_v<T>;
template <class T> concept BStr = requires(T t) {
    t.data();
    t.size();
    typename T::value_type;
} && (std::is_same_v<typename T::value_type, char> || std::is_same_v<typename T::value_type, std::byte>);
template <class T> concept BStrR = BStr<T> && requires(T t) { t.resize(1); };
template <class T> concept BMap = requires(T t) {
    typename T::key_type;
    typename T::mapped_type;
};
template <class T> concept BRep = requires(T t) { t.emplace_back(); t.clear(); } && !BStr<T>;
template <class T> concept BOpt = requires(T t) { t.has_value(); t.reset(); };
template <class T> concept BPtr = requires(T t) { t.reset(); t.get(); } && !BOpt<T>;
template <class T> concept BFix = requires(T t) { t.size(); t[0]; typename T::value_type; } && !BStr<T> && !BRep<T> && !BMap<T>;

template <BNum T> void vget(const T &v, Val &o)
{
    if constexpr (std::is_same_v<T, float>)
        o.n = std::bit_cast<uint32_t>(v);
    else if constexpr (std::is_same_v<T, double>)
        o.n = std::bit_cast<uint64_t>(v);
    else if constexpr (std::is_enum_v<T>)
        o.n = uint64_t(int64_t(std::underlying_type_t<T>(v)));
    else if constexpr (std::is_signed_v<T>)
        o.n = uint64_t(int64_t(v));
    else
        o.n = uint64_t(v);
}
template <BNum T> void vset(T &v, const Val &i)
{
    if constexpr (std::is_same_v<T, float>)
        v = std::bit_cast<float>(uint32_t(i.n));
    else if constexpr (std::is_same_v<T, double>)
        v = std::bit_cast<double>(i.n);
    else if constexpr (std::is_same_v<T, bool>)
        v = i.n != 0;
    else
        v = T(int64_t(i.n));
}
template <BStr T> void vget(const T &v, Val &o)
{
    o.s.assign((const char *)v.data(), v.size());
}
template <BStr T> void vset(T &v, const Val &i)
{
    if constexpr (BStrR<T>)
        v.resize(i.s.size());
    else if (v.size() != i.s.size())
        throw std::logic_error("bridge: fixed size mismatch");
    if (!i.s.empty())
        memcpy((void *)v.data(), i.s.data(), i.s.size());
}
// messages: get_msg / set_msg are found by argument dependent lookup on Msg
template <class T> requires(!BNum<T> && !BStr<T>) void vget(const T &v, Val &o)
{
    o.m = std::make_unique<Msg>();
    get_msg(v, *o.m);
}
template <class T> requires(!BNum<T> && !BStr<T>) void vset(T &v, const Val &i)
{
    set_msg(v, *i.m);
}

// fields
template <class T> void fget(const T &v, Fld &o)
{
    if constexpr (BStr<T>)
        vget(v, o.v.emplace_back());
    else if constexpr (BMap<T>)
    {
        for (auto &[k, x] : v)
        {
            vget(k, o.k.emplace_back());
            vget(x, o.v.emplace_back());
        }
    }
    else if constexpr (BRep<T>)
    {
        for (auto it = v.begin(); it != v.end(); ++it)
        {
            const typename T::value_type &e = *it;
            vget(e, o.v.emplace_back());
        }
    }
    else if constexpr (BOpt<T>)
    {
        if (v.has_value())
            vget(*v, o.v.emplace_back());
    }
    else if constexpr (BPtr<T>)
    {
        if (v)
            vget(*v, o.v.emplace_back());
    }
    else if constexpr (BFix<T>)
    {
        for (size_t i = 0; i < v.size(); i++)
        {
            typename T::value_type e = v[i];
            vget(e, o.v.emplace_back());
        }
    }
    else
        vget(v, o.v.emplace_back());
}
template <class T> void fset(T &v, const Fld &i)
{
    if constexpr (BStr<T>)
        vset(v, i.v.at(0));
    else if constexpr (BMap<T>)
    {
        v.clear();
        for (size_t x = 0; x < i.k.size(); x++)
        {
            typename T::key_type k{};
            vset(k, i.k[x]);
            auto &slot = v[std::move(k)];
            vset(slot, i.v[x]);
        }
    }
    else if constexpr (BRep<T>)
    {
        v.clear();
        for (auto &x : i.v)
        {
            if constexpr (std::is_same_v<typename T::value_type, bool>)
                v.push_back(x.n != 0);
            else
            {
                v.emplace_back();
                vset(v.back(), x);
            }
        }
    }
    else if constexpr (BOpt<T>)
    {
        if (i.v.empty())
            v.reset();
        else
        {
            v.emplace(typename T::value_type());
            vset(*v, i.v[0]);
        }
    }
    else if constexpr (BPtr<T>)
    {
        if (i.v.empty())
            v.reset();
        else
        {
            v = T(new typename T::element_type());
            vset(*v, i.v[0]);
        }
    }
    else if constexpr (BFix<T>)
    {
        if (i.v.size() != v.size())
            throw std::logic_error("bridge: fixed count mismatch");
        for (size_t x = 0; x < v.size(); x++)
        {
            typename T::value_type e{};
            vset(e, i.v[x]);
            v[x] = e;
        }
    }
    else
        vset(v, i.v.at(0));
}
template <class T> TypeOps make_ops(const char *name, const MsgInfo &(*info)());
} // namespace br
