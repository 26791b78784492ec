// instantiates the serializers and their readers and writers completely
#include "inst_serial.cpp"
#include <dots/serialization/ExperimentalCborSerializer.h>
template struct dots::serialization::TextWriter<dots::serialization::StringFormat>;
template struct dots::serialization::TextWriter<dots::serialization::JsonFormat>;
template struct dots::serialization::RapidJsonWriter<>;
template <typename S>
void instState(S& s, const dots::type::Struct& any, const DotsHeader& header, dots::type::Struct& out)
{
    s.serialize(any, dots::property_set_t::All);
    s.serialize(any);
    s.serialize(header);
    s.deserialize(out);
    s.deserialize(out, dots::property_set_t::All);
    s.template deserialize<DotsHeader>();
}
void instStates(dots::serialization::CborSerializer& c, dots::serialization::StringSerializer& s, dots::serialization::JsonSerializer& j, dots::serialization::RapidJsonSerializer<>& r,
                dots::serialization::ExperimentalCborSerializer& e, const dots::type::Struct& any, const DotsHeader& header, dots::type::Struct& out)
{
    instState(c, any, header, out); instState(s, any, header, out); instState(j, any, header, out); instState(r, any, header, out); instState(e, any, header, out);
}
