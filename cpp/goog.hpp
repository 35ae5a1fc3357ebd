// Reference implementation: libprotobuf through dynamic messages.
#pragma once
#include "tree.hpp"
#include <memory>
#include <string>
namespace google::protobuf
{
class Message;
}
namespace br
{
struct Dyn
{
    std::shared_ptr<google::protobuf::Message> m;
    Dyn() = default;
};
void goog_init(const std::string &descriptor_set_file);
Dyn goog_new(const MsgInfo &t);
Dyn goog_from(const Msg &m);            // value -> dynamic message
Msg goog_to(const Dyn &d, const MsgInfo &t); // dynamic message -> value
bool goog_parse(Dyn &d, const std::string &bytes); // partial: missing required fields are allowed
std::string goog_serialize(const Dyn &d);
bool goog_has_unknown(const Dyn &d);
struct JsonMode
{
    bool whitespace = false, always_print = false, enums_as_ints = false, proto_names = false;
};
bool goog_json_print(const Dyn &d, const JsonMode &m, std::string &out, std::string &err);
bool goog_json_parse(Dyn &d, const std::string &json, std::string &err, bool ignore_unknown = false);
std::string goog_debug(const Dyn &d);
} // namespace br
