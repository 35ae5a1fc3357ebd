// Helpers shared by the property files.
#pragma once
#include "gen.hpp"
#include "ops.hpp"
#include "pbt.hpp"
#include "tree.hpp"
#include <stdexcept>
namespace br
{
using pbt::Case;
// ---- types under test ----
const std::vector<const TypeOps *> &types(const char *prefix = ""); // all types whose full name starts with prefix
const TypeOps &pick_type(Case &c, const char *prefix = "");
// ---- readers and writers ----
struct ReaderFault
{
    int id;
};
struct ChunkReader
{
    const std::string *s;
    size_t pos = 0, calls = 0, max_request = 0, after_eof = 0;
    std::vector<uint32_t> chunks; // sizes of the answers, cyclic; empty: everything asked for
    long fault_at = -1;           // throw at this call
    size_t operator()(void *p, size_t n);
};
std::vector<uint32_t> gen_chunks(Case &c);
struct Writer
{
    std::string out;
    size_t calls = 0;
    long fault_at = -1;
    void operator()(const void *p, size_t n);
};
// result of a deserialization
struct Got
{
    bool ok = false;
    std::string err; // text of the exception
    Msg m;
    size_t consumed = 0;
};
Got pb_read(const TypeOps &t, const std::string &bytes, bool delim = false);
Got pb_read_into(Obj &o, const std::string &bytes);
Got pb_read_chunks(const TypeOps &t, ChunkReader &r, bool delim = false);
Got js_read(const TypeOps &t, const std::string &text);
Got js_read_chunks(const TypeOps &t, ChunkReader &r);
std::string pb_write(const Obj &o);
std::string js_write(const Obj &o);
std::string show(const std::string &bytes); // short hex
std::string text(const std::string &s);     // printable
uint64_t h(const std::string &s);
std::string mutate(Case &c, std::string s, const std::string &other, const std::vector<std::string> &dict);
} // namespace br
