#include "goog.hpp"
#include "pbt.hpp"
#include <fstream>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/util/json_util.h>
#include <google/protobuf/stubs/logging.h>
#include <google/protobuf/util/type_resolver_util.h>
#include <sstream>
#include <stdexcept>
namespace br
{
namespace gp = google::protobuf;
static gp::DescriptorPool *pool = nullptr;
static gp::DynamicMessageFactory *factory = nullptr;
static gp::util::TypeResolver *resolver = nullptr;
static pbt::Init init([] { goog_init(getenv("PBT_DESC") ? getenv("PBT_DESC") : ""); });
void goog_init(const std::string &file)
{
    gp::SetLogHandler(nullptr);
    std::ifstream in(file, std::ios::binary);
    gp::FileDescriptorSet set;
    if (!set.ParseFromIstream(&in))
        throw std::logic_error("harness: cannot read descriptor set " + file);
    pool = new gp::DescriptorPool();
    for (auto &f : set.file())
        if (!pool->BuildFile(f))
            throw std::logic_error("harness: cannot build descriptor of " + f.name());
    factory = new gp::DynamicMessageFactory(pool);
    resolver = gp::util::NewTypeResolverForDescriptorPool("t", pool);
}
static const gp::Descriptor *desc(const MsgInfo &t)
{
    auto *d = pool ? pool->FindMessageTypeByName(t.full) : nullptr;
    if (!d)
        throw std::logic_error(std::string("harness: no descriptor of ") + t.full);
    return d;
}
Dyn goog_new(const MsgInfo &t)
{
    Dyn d;
    d.m.reset(factory->GetPrototype(desc(t))->New());
    return d;
}
static float fl(uint64_t n)
{
    uint32_t u = uint32_t(n);
    float f;
    memcpy(&f, &u, 4);
    return f;
}
static double db(uint64_t n)
{
    double f;
    memcpy(&f, &n, 8);
    return f;
}
static void fill(gp::Message &d, const Msg &m);
static void set1(gp::Message &d, const gp::FieldDescriptor *f, const Val &v, Kind k, bool add)
{
    auto *r = d.GetReflection();
    using F = gp::FieldDescriptor;
    switch (f->cpp_type())
    {
    case F::CPPTYPE_INT32: add ? r->AddInt32(&d, f, int32_t(v.n)) : r->SetInt32(&d, f, int32_t(v.n)); break;
    case F::CPPTYPE_INT64: add ? r->AddInt64(&d, f, int64_t(v.n)) : r->SetInt64(&d, f, int64_t(v.n)); break;
    case F::CPPTYPE_UINT32: add ? r->AddUInt32(&d, f, uint32_t(v.n)) : r->SetUInt32(&d, f, uint32_t(v.n)); break;
    case F::CPPTYPE_UINT64: add ? r->AddUInt64(&d, f, v.n) : r->SetUInt64(&d, f, v.n); break;
    case F::CPPTYPE_DOUBLE: add ? r->AddDouble(&d, f, db(v.n)) : r->SetDouble(&d, f, db(v.n)); break;
    case F::CPPTYPE_FLOAT: add ? r->AddFloat(&d, f, fl(v.n)) : r->SetFloat(&d, f, fl(v.n)); break;
    case F::CPPTYPE_BOOL: add ? r->AddBool(&d, f, v.n != 0) : r->SetBool(&d, f, v.n != 0); break;
    case F::CPPTYPE_ENUM: add ? r->AddEnumValue(&d, f, int(int64_t(v.n))) : r->SetEnumValue(&d, f, int(int64_t(v.n))); break;
    case F::CPPTYPE_STRING: add ? r->AddString(&d, f, v.s) : r->SetString(&d, f, v.s); break;
    case F::CPPTYPE_MESSAGE: fill(add ? *r->AddMessage(&d, f, factory) : *r->MutableMessage(&d, f, factory), *v.m); break;
    }
    (void)k;
}
static void fill(gp::Message &d, const Msg &m)
{
    auto *de = d.GetDescriptor();
    auto *r = d.GetReflection();
    for (size_t i = 0; i < m.f.size(); i++)
    {
        auto &fi = m.t->f[i];
        auto *f = de->FindFieldByNumber(fi.number);
        if (!f)
            throw std::logic_error("harness: descriptor mismatch");
        if (fi.card == Card::Map)
        {
            auto *e = f->message_type();
            for (size_t j = 0; j < m.f[i].k.size(); j++)
            {
                auto *x = r->AddMessage(&d, f, factory);
                set1(*x, e->FindFieldByNumber(1), m.f[i].k[j], fi.key, false);
                set1(*x, e->FindFieldByNumber(2), m.f[i].v[j], fi.kind, false);
            }
        }
        else
            for (auto &v : m.f[i].v)
                set1(d, f, v, fi.kind, f->is_repeated());
    }
}
Dyn goog_from(const Msg &m)
{
    Dyn d = goog_new(*m.t);
    fill(*d.m, m);
    return d;
}
static Msg take(const gp::Message &d, const MsgInfo &t);
static Val get1(const gp::Message &d, const gp::FieldDescriptor *f, const FieldInfo &fi, Kind k, int ix)
{
    auto *r = d.GetReflection();
    using F = gp::FieldDescriptor;
    Val v;
    bool rep = ix >= 0;
    switch (f->cpp_type())
    {
    case F::CPPTYPE_INT32: v.n = uint64_t(int64_t(rep ? r->GetRepeatedInt32(d, f, ix) : r->GetInt32(d, f))); break;
    case F::CPPTYPE_INT64: v.n = uint64_t(rep ? r->GetRepeatedInt64(d, f, ix) : r->GetInt64(d, f)); break;
    case F::CPPTYPE_UINT32: v.n = rep ? r->GetRepeatedUInt32(d, f, ix) : r->GetUInt32(d, f); break;
    case F::CPPTYPE_UINT64: v.n = rep ? r->GetRepeatedUInt64(d, f, ix) : r->GetUInt64(d, f); break;
    case F::CPPTYPE_DOUBLE: {
        double x = rep ? r->GetRepeatedDouble(d, f, ix) : r->GetDouble(d, f);
        memcpy(&v.n, &x, 8);
        break;
    }
    case F::CPPTYPE_FLOAT: {
        float x = rep ? r->GetRepeatedFloat(d, f, ix) : r->GetFloat(d, f);
        uint32_t u;
        memcpy(&u, &x, 4);
        v.n = u;
        break;
    }
    case F::CPPTYPE_BOOL: v.n = rep ? r->GetRepeatedBool(d, f, ix) : r->GetBool(d, f); break;
    case F::CPPTYPE_ENUM: v.n = uint64_t(int64_t(rep ? r->GetRepeatedEnumValue(d, f, ix) : r->GetEnumValue(d, f))); break;
    case F::CPPTYPE_STRING: v.s = rep ? r->GetRepeatedString(d, f, ix) : r->GetString(d, f); break;
    case F::CPPTYPE_MESSAGE: v.m = std::make_unique<Msg>(take(rep ? r->GetRepeatedMessage(d, f, ix) : r->GetMessage(d, f), fi.msg())); break;
    }
    (void)k;
    return v;
}
static Msg take(const gp::Message &d, const MsgInfo &t)
{
    Msg m(t);
    auto *de = d.GetDescriptor();
    auto *r = d.GetReflection();
    for (size_t i = 0; i < t.f.size(); i++)
    {
        auto &fi = t.f[i];
        auto *f = de->FindFieldByNumber(fi.number);
        if (!f)
            throw std::logic_error("harness: descriptor mismatch");
        auto &o = m.f[i];
        if (fi.card == Card::Map)
        {
            auto *e = f->message_type();
            std::vector<std::pair<Val, Val>> kv;
            for (int j = 0; j < r->FieldSize(d, f); j++)
            {
                auto &x = r->GetRepeatedMessage(d, f, j);
                Val k = get1(x, e->FindFieldByNumber(1), fi, fi.key, -1), v = get1(x, e->FindFieldByNumber(2), fi, fi.kind, -1);
                bool dup = false;
                for (size_t q = 0; q < o.k.size(); q++)
                    if (val_eq(o.k[q], k, fi.key, EqOpt{}))
                    {
                        o.v[q] = v;
                        dup = true;
                    }
                if (!dup)
                {
                    o.k.push_back(std::move(k));
                    o.v.push_back(std::move(v));
                }
            }
            sort_map(o, fi.key);
        }
        else if (f->is_repeated())
        {
            o.v.clear();
            for (int j = 0; j < r->FieldSize(d, f); j++)
                o.v.push_back(get1(d, f, fi, fi.kind, j));
        }
        else if (r->HasField(d, f) || (fi.card == Card::Plain && fi.has_default))
        {
            o.v.clear();
            o.v.push_back(get1(d, f, fi, fi.kind, -1));
        }
    }
    return m;
}
Msg goog_to(const Dyn &d, const MsgInfo &t)
{
    return take(*d.m, t);
}
bool goog_parse(Dyn &d, const std::string &b)
{
    return d.m->ParsePartialFromString(b);
}
std::string goog_serialize(const Dyn &d)
{
    return d.m->SerializePartialAsString();
}
static bool unk(const gp::Message &m)
{
    auto *r = m.GetReflection();
    if (!r->GetUnknownFields(m).empty())
        return true;
    std::vector<const gp::FieldDescriptor *> fs;
    r->ListFields(m, &fs);
    for (auto *f : fs)
        if (f->cpp_type() == gp::FieldDescriptor::CPPTYPE_MESSAGE)
        {
            if (f->is_repeated())
            {
                for (int i = 0; i < r->FieldSize(m, f); i++)
                    if (unk(r->GetRepeatedMessage(m, f, i)))
                        return true;
            }
            else if (unk(r->GetMessage(m, f)))
                return true;
        }
    return false;
}
bool goog_has_unknown(const Dyn &d)
{
    return unk(*d.m);
}
bool goog_json_print(const Dyn &d, const JsonMode &m, std::string &out, std::string &err)
{
    gp::util::JsonPrintOptions o;
    o.add_whitespace = m.whitespace;
    o.always_print_primitive_fields = m.always_print;
    o.always_print_enums_as_ints = m.enums_as_ints;
    o.preserve_proto_field_names = m.proto_names;
    auto st = gp::util::BinaryToJsonString(resolver, "t/" + d.m->GetDescriptor()->full_name(), d.m->SerializePartialAsString(), &out, o);
    err = st.ToString();
    return st.ok();
}
bool goog_json_parse(Dyn &d, const std::string &json, std::string &err, bool ignore)
{
    gp::util::JsonParseOptions o;
    o.ignore_unknown_fields = ignore;
    std::string bin;
    auto st = gp::util::JsonToBinaryString(resolver, "t/" + d.m->GetDescriptor()->full_name(), json, &bin, o);
    err = st.ToString();
    if (!st.ok())
        return false;
    if (!d.m->ParsePartialFromString(bin))
    {
        err = "binary form of the json does not parse";
        return false;
    }
    return true;
}
std::string goog_debug(const Dyn &d)
{
    return d.m->ShortDebugString();
}
} // namespace br
