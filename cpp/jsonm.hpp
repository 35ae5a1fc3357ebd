// Independent JSON model: strict RFC 8259 parser, printer with the freedom proto3 JSON leaves, base64.
#pragma once
#include "pbt.hpp"
#include "tree.hpp"
namespace br
{
struct JVal
{
    enum T { Null, True, False, Num, Str, Arr, Obj } t = Null;
    std::string s;                // decoded string, or the number's text
    std::vector<JVal> a;
    std::vector<std::string> k;   // keys of an object
};
// returns false and a reason if the text is not exactly one well-formed document
bool jparse(const std::string &text, JVal &out, std::string &err, bool forbid_dup_keys = true);
// the same with what the library is generous about: the spelling of numbers, control characters and UTF-8 in strings, \v and \f
bool jstructure(const std::string &text, std::string &err);
struct JsonVar
{
    bool keys = false;    // original / camelCase / json_name
    bool order = false;
    bool ws = false;
    bool esc = false;
    bool numstr = false;
    bool enumnum = false;
    bool nulls = false;
    bool unknown = false;
    bool floats = false;  // other spellings of floating point numbers
};
std::string json_encode(const Msg &m, pbt::Case *c, const JsonVar &v);
inline std::string json_encode(const Msg &m) { return json_encode(m, nullptr, JsonVar{}); }
std::string json_string(const std::string &utf8, pbt::Case *c, bool esc);
std::string gen_json_value(pbt::Case &c, int depth, bool ws);
std::string b64(const std::string &s);
bool b64_decode(const std::string &s, std::string &out);
std::string gen_ws(pbt::Case *c, bool on);
std::string gen_unknown_key(pbt::Case &c, const MsgInfo &t);
std::string lower_camel(const std::string &s);
} // namespace br
