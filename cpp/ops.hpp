// Type-erased access to generated messages through the public API only.
#pragma once
#include "tree.hpp"
#include <cstddef>
#include <spb/io/io.hpp>
#include <string>
#include <vector>

namespace br
{
struct TypeOps
{
    const char *name = "";
    const MsgInfo &(*info)() = nullptr;
    void *(*make)() = nullptr;
    void (*drop)(void *) = nullptr;
    void (*get)(const void *, Msg &) = nullptr;
    void (*set)(void *, const Msg &) = nullptr;
    size_t (*pb_size)(const void *, bool delim) = nullptr;
    size_t (*pb_buf)(const void *, void *, bool delim) = nullptr;
    size_t (*pb_str)(const void *, std::string &, bool delim) = nullptr;
    size_t (*pb_vec)(const void *, std::vector<std::byte> &, bool delim) = nullptr;
    std::string (*pb_ret)(const void *, bool delim) = nullptr;
    size_t (*pb_wr)(const void *, spb::io::writer, bool delim) = nullptr;
    size_t (*pb_de_buf)(void *, const void *, size_t, bool delim) = nullptr;
    size_t (*pb_de_str)(void *, const std::string &, bool delim) = nullptr;
    size_t (*pb_de_rd)(void *, spb::io::reader, bool delim) = nullptr;
    void *(*pb_de_new)(const std::string &, bool delim) = nullptr;
    void *(*pb_de_new_rd)(spb::io::reader, bool delim) = nullptr;
    size_t (*js_size)(const void *) = nullptr;
    size_t (*js_buf)(const void *, void *) = nullptr;
    size_t (*js_str)(const void *, std::string &) = nullptr;
    size_t (*js_vec)(const void *, std::vector<std::byte> &) = nullptr;
    std::string (*js_ret)(const void *) = nullptr;
    size_t (*js_wr)(const void *, spb::io::writer) = nullptr;
    size_t (*js_de_buf)(void *, const void *, size_t) = nullptr;
    size_t (*js_de_str)(void *, const std::string &) = nullptr;
    size_t (*js_de_rd)(void *, spb::io::reader) = nullptr;
    void *(*js_de_new)(const std::string &) = nullptr;
    void *(*js_de_new_rd)(spb::io::reader) = nullptr;
};
std::vector<TypeOps> &registry();
const TypeOps &ops(const std::string &name); // by proto full name
const TypeOps *find_ops(const std::string &name);

// RAII object of a generated type
struct Obj
{
    const TypeOps *o;
    void *p;
    explicit Obj(const TypeOps &ops) : o(&ops), p(ops.make()) {}
    Obj(const TypeOps &ops, void *q) : o(&ops), p(q) {}
    Obj(const TypeOps &ops, const Msg &m) : o(&ops), p(ops.make()) { o->set(p, m); }
    Obj(const Obj &) = delete;
    Obj &operator=(const Obj &) = delete;
    ~Obj() { o->drop(p); }
    Msg tree() const
    {
        Msg m;
        o->get(p, m);
        return m;
    }
};
} // namespace br
