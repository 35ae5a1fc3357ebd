#pragma once
#include "conv.hpp"
#include <spb/json.hpp>
#include <spb/pb.hpp>
namespace br
{
template <class T> TypeOps make_ops(const char *name, const MsgInfo &(*info)())
{
    TypeOps o;
    o.name = name;
    o.info = info;
    o.make = []() -> void * { return new T(); };
    o.drop = [](void *p) { delete static_cast<T *>(p); };
    o.get = [](const void *p, Msg &m) { get_msg(*static_cast<const T *>(p), m); };
    o.set = [](void *p, const Msg &m) { set_msg(*static_cast<T *>(p), m); };
#define C(p) (*static_cast<const T *>(p))
#define M(p) (*static_cast<T *>(p))
    o.pb_size = [](const void *p, bool d) { return d ? spb::pb::serialize_size(C(p), {.delimited = true}) : spb::pb::serialize_size(C(p)); };
    o.pb_buf = [](const void *p, void *b, bool d) { return d ? spb::pb::serialize(C(p), b, {.delimited = true}) : spb::pb::serialize(C(p), b); };
    o.pb_str = [](const void *p, std::string &s, bool d) { return d ? spb::pb::serialize(C(p), s, {.delimited = true}) : spb::pb::serialize(C(p), s); };
    o.pb_vec = [](const void *p, std::vector<std::byte> &s, bool d) { return d ? spb::pb::serialize(C(p), s, {.delimited = true}) : spb::pb::serialize(C(p), s); };
    o.pb_ret = [](const void *p, bool d) { return d ? spb::pb::serialize<std::string>(C(p), {.delimited = true}) : spb::pb::serialize(C(p)); };
    o.pb_wr = [](const void *p, spb::io::writer w, bool d) { return d ? spb::pb::serialize(C(p), w, {.delimited = true}) : spb::pb::serialize(C(p), w); };
    o.pb_de_buf = [](void *p, const void *b, size_t n, bool d) { return d ? spb::pb::deserialize(M(p), b, n, {.delimited = true}) : spb::pb::deserialize(M(p), b, n); };
    o.pb_de_str = [](void *p, const std::string &s, bool d) { return d ? spb::pb::deserialize(M(p), s, {.delimited = true}) : spb::pb::deserialize(M(p), s); };
    o.pb_de_rd = [](void *p, spb::io::reader r, bool d) { return d ? spb::pb::deserialize(M(p), r, {.delimited = true}) : spb::pb::deserialize(M(p), r); };
    o.pb_de_new = [](const std::string &s, bool d) -> void * { return new T(d ? spb::pb::deserialize<T>(s, {.delimited = true}) : spb::pb::deserialize<T>(s)); };
    o.pb_de_new_rd = [](spb::io::reader r, bool d) -> void * { return new T(d ? spb::pb::deserialize<T>(r, {.delimited = true}) : spb::pb::deserialize<T>(r)); };
    o.js_size = [](const void *p) { return spb::json::serialize_size(C(p)); };
    o.js_buf = [](const void *p, void *b) { return spb::json::serialize(C(p), b); };
    o.js_str = [](const void *p, std::string &s) { return spb::json::serialize(C(p), s); };
    o.js_vec = [](const void *p, std::vector<std::byte> &s) { return spb::json::serialize(C(p), s); };
    o.js_ret = [](const void *p) { return spb::json::serialize<std::string>(C(p)); };
    o.js_wr = [](const void *p, spb::io::writer w) { return spb::json::serialize(C(p), w); };
    o.js_de_buf = [](void *p, const void *b, size_t n) { return spb::json::deserialize(M(p), b, n); };
    o.js_de_str = [](void *p, const std::string &s) { return spb::json::deserialize(M(p), s); };
    o.js_de_rd = [](void *p, spb::io::reader r) { return spb::json::deserialize(M(p), r); };
    o.js_de_new = [](const std::string &s) -> void * { return new T(spb::json::deserialize<T>(s)); };
    o.js_de_new_rd = [](spb::io::reader r) -> void * { return new T(spb::json::deserialize<T>(r)); };
#undef C
#undef M
    return o;
}
struct Registrar
{
    explicit Registrar(TypeOps o) { registry().push_back(o); }
};
} // namespace br
