// Independent protobuf wire encoder with the variations a conforming peer may choose.
#pragma once
#include "pbt.hpp"
#include "tree.hpp"
namespace br
{
struct WireVar
{
    bool order = false;   // shuffle fields, interleave repeated fields
    bool pack = false;    // packed / unpacked / mixed chunks
    bool pad = false;     // non-minimal varints
    bool mapvar = false;  // map entry variations
    bool unknown = false; // unknown fields everywhere
    bool groups = true;   // unknown groups, too
    bool merge = false;   // split singular messages, repeat singular scalars and oneof members
    int unknown_big = 1;
    bool split_limits = false; // respect nothing
};
std::string varint(uint64_t v, int pad_to = 0);
std::string tag(uint32_t number, int wire);
std::string wire_encode(const Msg &m, pbt::Case *c, const WireVar &v);
inline std::string wire_encode(const Msg &m) { return wire_encode(m, nullptr, WireVar{}); }
std::string gen_unknown_field(pbt::Case &c, const MsgInfo &t, const WireVar &v, int depth = 3);
std::string wire_val(const Val &v, Kind k, pbt::Case *c, const WireVar &o); // without tag, messages and strings with length
// checks the framing and writes tags and lengths in their shortest form (longer ones are valid, but the reference
// implementation limits them to 5 bytes)
bool wire_canonical(const MsgInfo &t, const std::string &bytes, std::string &out);
Msg merged(const Msg &a, const Msg &b); // what decoding b on top of a gives
} // namespace br
