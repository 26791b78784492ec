// instantiates the serializers for values of any type, so that their members can be analysed
#include <dots/serialization/CborSerializer.h>
#include <dots/serialization/StringSerializer.h>
#include <dots/serialization/JsonSerializer.h>
#include <dots/serialization/RapidJsonSerializer.h>
#include <dots/type/DynamicStruct.h>
#include <dots/type/AnyStruct.h>
#include <DotsClient.dots.h>
#include <DotsHeader.dots.h>
template struct dots::serialization::TextReader<dots::serialization::StringFormat>;
template struct dots::serialization::TextReader<dots::serialization::JsonFormat>;
template <typename S>
void instSerializer(S& s, const typename S::data_t& data, dots::type::Struct& any, DotsHeader& header)
{
    s.setInput(data);
    s.deserialize(any);
    s.deserialize(header);
    s.serialize(any);
    s.serialize(header);
}
template <typename R>
void instReader(R& r)
{
    r.template read<bool>(); r.template read<int8_t>(); r.template read<uint8_t>(); r.template read<int16_t>(); r.template read<uint16_t>();
    r.template read<int32_t>(); r.template read<uint32_t>(); r.template read<int64_t>(); r.template read<uint64_t>();
    r.template read<float>(); r.template read<double>(); r.skip();
}
void instSerial(dots::serialization::CborSerializer& c, dots::serialization::StringSerializer& s, dots::serialization::JsonSerializer& j,
                const std::vector<uint8_t>& bytes, const std::string& text, dots::type::Struct& any, DotsHeader& header)
{
    instSerializer(c, bytes, any, header);
    instSerializer(s, text, any, header);
    instSerializer(j, text, any, header);
    instReader(c.reader()); instReader(s.reader()); instReader(j.reader());
}
void instJson(dots::serialization::RapidJsonReader& r) { instReader(r); r.read<std::string>(); }
