// Descriptor-driven value model shared by all runtime properties.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

namespace br
{
enum class Kind : uint8_t
{
    Double, Float, Int32, Int64, UInt32, UInt64, SInt32, SInt64, Fixed32, Fixed64, SFixed32, SFixed64, Bool, String, Bytes, Enum, Message
};
enum class Card : uint8_t
{
    Plain,    // proto2 required: always a value
    Optional, // std::optional or pointer
    Repeated,
    Map,
    OneofMember
};

struct EnumInfo
{
    const char *full;
    std::vector<std::pair<const char *, int>> values;
    int bits = 32;
    bool sgn = true;
};
struct MsgInfo;
struct FieldInfo
{
    int number = 0;
    const char *name = "";
    const char *json_name = "";   // explicit or derived lowerCamelCase
    bool json_explicit = false;
    Kind kind = Kind::Int32;
    Card card = Card::Optional;
    bool packed = false;
    Kind key = Kind::Int32;
    const EnumInfo &(*en)() = nullptr;
    const MsgInfo &(*msg)() = nullptr;
    int bits = 0; // storage width for integers
    bool sgn = true;
    uint32_t max_size = 0, max_count = 0;
    int fixed_len = 0;   // fixed-size string/bytes
    int fixed_count = 0; // fixed-size repeated
    int cap_len = 0;     // capacity of string/bytes container (0: unbounded)
    int cap_count = 0;   // capacity of repeated/map container
    int key_cap = 0;
    bool unordered = false;
    int oneof = -1;
    const char *oneof_name = "";
    bool bitfield = false;
    bool has_default = false; // explicit default value
    bool implicit = false; // proto3 field without presence: unset == default for the reference implementation
};
struct MsgInfo
{
    const char *full = "";
    int syntax = 3;
    int oneofs = 0;
    std::vector<FieldInfo> f;
};

struct Msg;
struct Val
{
    uint64_t n = 0;
    std::string s;
    std::unique_ptr<Msg> m;
    Val() = default;
    explicit Val(uint64_t x) : n(x) {}
    explicit Val(std::string x) : s(std::move(x)) {}
    Val(const Val &o);
    Val(Val &&) noexcept = default;
    Val &operator=(const Val &o);
    Val &operator=(Val &&) noexcept = default;
};
struct Fld
{
    std::vector<Val> v;
    std::vector<Val> k; // map keys
};
struct Msg
{
    const MsgInfo *t = nullptr;
    std::vector<Fld> f;
    Msg() = default;
    explicit Msg(const MsgInfo &i);
};
inline Val::Val(const Val &o) : n(o.n), s(o.s), m(o.m ? std::make_unique<Msg>(*o.m) : nullptr) {}
inline Val &Val::operator=(const Val &o)
{
    if (this != &o)
    {
        n = o.n;
        s = o.s;
        m = o.m ? std::make_unique<Msg>(*o.m) : nullptr;
    }
    return *this;
}

inline bool is_int(Kind k)
{
    return k >= Kind::Int32 && k <= Kind::SFixed64;
}
inline bool is_signed_kind(Kind k)
{
    switch (k)
    {
    case Kind::Int32: case Kind::Int64: case Kind::SInt32: case Kind::SInt64: case Kind::SFixed32: case Kind::SFixed64: case Kind::Enum: return true;
    default: return false;
    }
}
inline int kind_bits(Kind k)
{
    switch (k)
    {
    case Kind::Int64: case Kind::UInt64: case Kind::SInt64: case Kind::Fixed64: case Kind::SFixed64: case Kind::Double: return 64;
    case Kind::Bool: return 1;
    default: return 32;
    }
}
// 0 varint, 1 fixed64, 2 length delimited, 5 fixed32
inline int wire_of(Kind k)
{
    switch (k)
    {
    case Kind::Double: case Kind::Fixed64: case Kind::SFixed64: return 1;
    case Kind::Float: case Kind::Fixed32: case Kind::SFixed32: return 5;
    case Kind::String: case Kind::Bytes: case Kind::Message: return 2;
    default: return 0;
    }
}
inline bool packable(Kind k)
{
    return wire_of(k) != 2;
}

Val default_val(const FieldInfo &f);     // value of an unset Plain field
inline Msg::Msg(const MsgInfo &i) : t(&i), f(i.f.size())
{
    for (size_t x = 0; x < f.size(); x++)
        if (i.f[x].card == Card::Plain)
            f[x].v.push_back(default_val(i.f[x]));
        else if (i.f[x].fixed_count)
            for (int c = 0; c < i.f[x].fixed_count; c++)
                f[x].v.push_back(default_val(i.f[x]));
}
inline Val default_val(const FieldInfo &f)
{
    Val v;
    if (f.kind == Kind::Message)
        v.m = std::make_unique<Msg>(f.msg());
    else if (f.fixed_len)
        v.s.assign(size_t(f.fixed_len), '\0');
    return v;
}

struct EqOpt
{
    bool nan_class = false; // all NaNs equal (JSON)
};
bool val_eq(const Val &a, const Val &b, Kind k, const EqOpt &o);
inline bool msg_eq(const Msg &a, const Msg &b, const EqOpt &o = {})
{
    if (a.t != b.t)
        return false;
    for (size_t i = 0; i < a.f.size(); i++)
    {
        auto &fi = a.t->f[i];
        auto &x = a.f[i];
        auto &y = b.f[i];
        if (x.v.size() != y.v.size() || x.k.size() != y.k.size())
            return false;
        for (size_t j = 0; j < x.k.size(); j++)
            if (!val_eq(x.k[j], y.k[j], fi.key, o))
                return false;
        for (size_t j = 0; j < x.v.size(); j++)
            if (!val_eq(x.v[j], y.v[j], fi.kind, o))
                return false;
    }
    return true;
}
inline bool val_eq(const Val &a, const Val &b, Kind k, const EqOpt &o)
{
    if (k == Kind::Message)
        return a.m && b.m && msg_eq(*a.m, *b.m, o);
    if (k == Kind::String || k == Kind::Bytes)
        return a.s == b.s;
    if (a.n == b.n)
        return true;
    if (o.nan_class && k == Kind::Float)
    {
        float x, y;
        uint32_t p = uint32_t(a.n), q = uint32_t(b.n);
        memcpy(&x, &p, 4);
        memcpy(&y, &q, 4);
        return x != x && y != y;
    }
    if (o.nan_class && k == Kind::Double)
    {
        double x, y;
        memcpy(&x, &a.n, 8);
        memcpy(&y, &b.n, 8);
        return x != x && y != y;
    }
    return false;
}
// order of map keys: by kind
inline bool key_less(const Val &a, const Val &b, Kind k)
{
    if (k == Kind::String)
        return a.s < b.s;
    if (is_signed_kind(k))
        return int64_t(a.n) < int64_t(b.n);
    return a.n < b.n;
}
inline void sort_map(Fld &f, Kind k)
{
    std::vector<size_t> ix(f.k.size());
    for (size_t i = 0; i < ix.size(); i++)
        ix[i] = i;
    std::stable_sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return key_less(f.k[a], f.k[b], k); });
    Fld o;
    for (auto i : ix)
    {
        o.k.push_back(std::move(f.k[i]));
        o.v.push_back(std::move(f.v[i]));
    }
    f = std::move(o);
}

std::string render(const Msg &m);
std::string diff(const Msg &a, const Msg &b);
std::string hex(const std::string &s);
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
bool is_trivial(const Msg &m); // nothing set
size_t set_fields(const Msg &m);
} // namespace br
