import runpy
P=[s for s in runpy.run_path('/tmp/s/i.py')['S']][0]['demo']; P=P[:P.index('int main')]
SE='lib/include/dots/serialization/Serializer.h'; TV='lib/include/dots/type/TypeVisitor.h'; RD='lib/include/dots/serialization/formats/Reader.h'; RJ='lib/include/dots/serialization/formats/RapidJsonReader.h'
UU='lib/src/type/Uuid.cpp'; CP='lib/src/ContainerPool.cpp'; GT='lib/src/GuestTransceiver.cpp'
S=[
dict(id='c31-uuid', prop='C31', edits=[(UU,'boost::uuids::string_generator{}(value.begin(), value.end())','boost::uuids::string_generator{}(value.data())')],
 needs='an uuid that is part of a longer text', breaks='the rest of the text is read as part of the uuid',
 demo=P+'''#include <dots/type/Uuid.h>
int main(){ std::string t="01234567-89ab-cdef-0123-456789abcdef0123"; REQ(!throws([&]{ type::Uuid::FromString(std::string_view{t}.substr(0,36)); })); return 0; }'''),
dict(id='c31-pool', prop='C31', edits=[(CP,'auto it = m_nameCache.find(name);','auto it = m_nameCache.find(name.data());')],
 needs='a type name that is part of a longer text', breaks='the container of the type is not found',
 demo=P+'''#include <dots/ContainerPool.h>
#include <DotsMember.dots.h>
int main(){ ContainerPool p; p.get(DotsMember::_Descriptor()); std::string t="DotsMember,DotsClient"; REQ(p.find(std::string_view{t}.substr(0,10))!=nullptr); return 0; }'''),
dict(id='c31-group', prop='C31', edits=[(GT,'m_joinedGroups.erase(std::string(name));','m_joinedGroups.erase(name.data());'),(GT,'if (m_joinedGroups.count(std::string(name)))','if (m_joinedGroups.count(name.data()))')],
 needs='a group name that is part of a longer text', breaks='the group is never left',
 extra='-fno-access-control', demo=P+'''#include <dots/GuestTransceiver.h>
int main(){ GuestTransceiver g{"g"}; g.m_joinedGroups.insert("Alpha"); std::string t="AlphaBeta"; REQ(throws([&]{ g.leaveGroup(std::string_view{t}.substr(0,5)); })); return 0; }'''),
dict(id='c24-level-shared', prop='C24', edits=[(TV,'return ++m_nonConstVisitingLevel;','return ++m_constVisitingLevel;'),(TV,'return --m_nonConstVisitingLevel;','return --m_constVisitingLevel;')],
 needs='a deserialization that fails, followed by a serialization with the same serializer', breaks='the serialization is taken for a nested one',
 demo=P+'''#include <DotsMember.dots.h>
int main(){ CborSerializer s; std::vector<uint8_t> bad{0xA1,0x01,0xFF,0xFF}; s.setInput(bad); throws([&]{ s.deserialize<DotsMember>(); }); s.output().clear(); s.serialize(DotsMember{.groupName="x"}); size_t a=s.serialize(DotsMember{.groupName="y"}); CborSerializer f; REQ(a==f.serialize(DotsMember{.groupName="y"})); return 0; }'''),
dict(id='c24-offset', prop='C24', edits=[(SE,'                m_serializeOffset = m_writer.output().size();','                if (m_writer.output().size() > m_serializeOffset)\n                {\n                    m_serializeOffset = m_writer.output().size();\n                }')],
 needs='an output that was taken from the serializer, followed by another serialization', breaks='the size of the output and the extent that is taken back after a failure are those of an earlier output',
 demo=P+'''#include <DotsMember.dots.h>
int main(){ CborSerializer s; for(int i=0;i<5;++i) s.serialize(DotsMember{.groupName="x"}); s.output().clear(); size_t a=s.serialize(DotsMember{.groupName="y"}); REQ(a==s.output().size()); return 0; }'''),
dict(id='c24-begin', prop='C24', edits=[(RD,'            m_inputDataBegin = m_inputData;\n        }','            if (m_inputDataBegin == nullptr || m_inputDataBegin > m_inputDataEnd)\n            {\n                m_inputDataBegin = m_inputData;\n            }\n        }')],
 needs='a reader that gets a second input behind the first one', breaks='offsets refer to the previous input',
 demo=P+'''int main(){ std::vector<uint8_t> d{1,2,3,4}; CborReader r; r.setInput(d.data(),2); r.setInput(d.data()+2,2); REQ(r.inputOffset()==0); return 0; }'''),
dict(id='c24-rapidjson-nesting', prop='C24', edits=[(RJ,'            m_input = &inputValue;\n            m_nesting = {};','            m_input = &inputValue;')],
 needs='a JSON document whose reading fails within an array, followed by another document', breaks='the reader continues in the array of the previous document',
 demo=P+'''#include <dots/serialization/formats/RapidJsonReader.h>
int main(){ RapidJsonReader r; r.setInput(std::string_view{"[1,2]"}); r.readArrayBegin(); throws([&]{ r.read<std::string>(); }); r.setInput(std::string_view{"[3]"}); REQ(r.nestingLevel()==0); return 0; }'''),
dict(id='c24-increment', prop='C24', edits=[(TV,'            if (decrementVisitingLevel<Const>() == 0)\n            {\n                derived().template visitEndDerived<Const>();\n            }','            if (const size_t& level = Const ? m_constVisitingLevel : m_nonConstVisitingLevel; level > 1)\n            {\n                decrementVisitingLevel<Const>();\n            }\n            else\n            {\n                derived().template visitEndDerived<Const>();\n\n                if (!m_keepLevel)\n                {\n                    decrementVisitingLevel<Const>();\n                }\n            }'),(TV,'size_t m_constVisitingLevel','bool m_keepLevel = false;\n        size_t m_constVisitingLevel')],
 needs='', breaks='', demo='int main(){}'),
]
S=[s for s in S if s['breaks']]
