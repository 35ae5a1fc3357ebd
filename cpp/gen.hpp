// Generators of message values.
#pragma once
#include "pbt.hpp"
#include "tree.hpp"
namespace br
{
struct GenOpt
{
    int depth = 4;             // nesting of messages
    int nodes = 60;            // budget of values
    bool unknown_enums = false; // numbers outside of the enum (open enums)
    bool any_nan = true;       // NaN payloads and signs
    bool json_safe = false;    // only values json can carry exactly
    bool nonempty = false;     // at least one field set, if possible
    int long_strings = 1;      // 0: short only, 1: sometimes long, 2: often long
    bool implicit_defaults = true; // present-but-default values in proto3 fields without presence
};
std::string gen_utf8(pbt::Case &c, size_t min_bytes, size_t max_bytes);
std::string gen_bytes(pbt::Case &c, size_t min_bytes, size_t max_bytes);
uint64_t gen_int(pbt::Case &c, int bits, bool sgn);
uint64_t gen_float(pbt::Case &c, bool nan);
uint64_t gen_double(pbt::Case &c, bool nan);
Val gen_val(pbt::Case &c, const FieldInfo &f, GenOpt &o, int depth);
Val gen_key(pbt::Case &c, const FieldInfo &f);
Msg gen_msg(pbt::Case &c, const MsgInfo &t, GenOpt o);
Msg gen_msg_b(pbt::Case &c, const MsgInfo &t, GenOpt &o, int depth);
// one field, possibly deep inside, is long: a string, many elements, many entries, many messages; an empty message if none can be
Msg gen_huge(pbt::Case &c, const MsgInfo &t, int depth = 3);
// the fields without presence hold no defaults (what a reference implementation can represent)
void normalise(Msg &m);
bool utf8_valid(const std::string &s); // independent RFC 3629 check
void put_utf8(std::string &s, uint32_t cp);
std::string join(const std::vector<std::string> &v);
} // namespace br
