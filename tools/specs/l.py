import runpy
P=[s for s in runpy.run_path('/tmp/s/i.py')['S']][0]['demo']; P=P[:P.index('int main')]
RG='lib/src/type/Registry.cpp'; DM='lib/src/type/DescriptorMap.cpp'; CP='lib/src/ContainerPool.cpp'
Q=P+'''#include <dots/type/Registry.h>
#include <dots/type/DescriptorMap.h>
#include <dots/type/EnumDescriptor.h>
#include <dots/type/StructDescriptor.h>
#include <dots/type/DynamicStruct.h>
#include <dots/ContainerPool.h>
#include <DotsMember.dots.h>
#include <DotsAuthentication.dots.h>
using namespace dots; using namespace dots::type;
static auto mk(const char* n){ return make_descriptor<Descriptor<DynamicStruct>>(n, uint8_t(0), property_descriptor_container_t{}, size_t(sizeof(DynamicStruct))); }
'''
S=[
dict(id='c20-kind', prop='C20', edits=[(RG,'if (descriptor != nullptr && descriptor->type() != Type::Enum)','if (descriptor != nullptr && descriptor->type() == Type::Struct)')],
 needs='a name that denotes a fundamental or vector type', breaks='a descriptor of another kind is returned as enum descriptor',
 demo=Q+'''int main(){ Registry r; REQ(r.findEnumType("uint32")==nullptr); return 0; }'''),
dict(id='c20-get-null', prop='C20', edits=[(RG,'return *findStructType(name, true);','return *findStructType(name, hasType(name));')],
 needs='an unknown name', breaks='null is dereferenced instead of an error', asan=['lib/src/type/Registry.cpp'],
 demo=Q+'''int main(){ Registry r; REQ(throws([&]{ r.getStructType("Nope"); })); return 0; }'''),
dict(id='c20-nested-vector', prop='C20', edits=[(RG,'                registerType(propertyDescriptor.valueDescriptor(), false);','                if (propertyDescriptor.valueDescriptor().as<VectorDescriptor>() == nullptr) registerType(propertyDescriptor.valueDescriptor(), false);')],
 needs='a structure with a vector of a type that nothing else refers to', breaks='the type of the elements is unknown', demo=Q+'''#include <DotsTestVectorStruct.dots.h>
int main(){ Registry r{std::nullopt, Registry::StaticTypePolicy::FundamentalOnly}; r.registerType(DotsTestVectorStruct::_Descriptor()); REQ(r.hasType("vector<DotsTestSubStruct>")); return 0; }'''),
dict(id='c20-notify-early', prop='C20', edits=[(RG,'''        m_types.emplace(descriptor);

        if (auto vectorDescriptor''','''        if (m_newTypeHandler != std::nullopt && descriptor.type() != Type::Struct)
        {
            (*m_newTypeHandler)(descriptor);
        }

        m_types.emplace(descriptor);

        if (auto vectorDescriptor'''),(RG,'''        if (m_newTypeHandler != std::nullopt)
        {
            (*m_newTypeHandler)(descriptor);
        }

        return descriptor;''','''        if (m_newTypeHandler != std::nullopt && descriptor.type() == Type::Struct)
        {
            (*m_newTypeHandler)(descriptor);
        }

        return descriptor;''')],
 needs='a handler that looks up the enum type it is told about', breaks='the announced type is not known yet',
 demo=Q+'''#include <DotsMemberEvent.dots.h>
int main(){ Registry* rp=nullptr; bool ok=true; int n=0; Registry r{Registry::new_type_handler_t{[&](const Descriptor<>& d){ ++n; if(rp && !rp->hasType(d.name())) ok=false; }}, Registry::StaticTypePolicy::FundamentalOnly}; rp=&r; r.registerType(DotsMember::_Descriptor()); REQ(n>=2); REQ(ok); return 0; }'''),
dict(id='c20-existing', prop='C20', edits=[(RG,'                return *descriptor_;\n','                return descriptor;\n')],
 needs='a second description of a registered type', breaks='lookups and the result of the registration refer to different types',
 demo=Q+'''int main(){ Registry r; auto a=mk("A"), b=mk("A"); r.registerType(*a); Descriptor<>& x=r.registerType(static_cast<Descriptor<>&>(*b), false); REQ(&x==r.findType("A")); return 0; }'''),
dict(id='c20-emplace', prop='C20', edits=[(DM,'m_underlyingMap.try_emplace(descriptor.name(), descriptor.shared_from_this())','m_underlyingMap.insert_or_assign(descriptor.name(), descriptor.shared_from_this())')],
 needs='a second type of the same name in a descriptor map', breaks='the first type is replaced and destroyed while its name is still the key',
 demo=Q+'''int main(){ DescriptorMap m; auto a=mk("A"), b=mk("A"); m.emplace(static_cast<Descriptor<>&>(*a)); auto r=m.tryEmplace(static_cast<Descriptor<>&>(*b)); REQ(!r.second && r.first==a.get()); return 0; }'''),
dict(id='c20-pool-name', prop='C20', edits=[(CP,'''            if (emplaced)
            {''','''            if (emplaced && !descriptorPtr->internal())
            {''')],
 needs='a container of an internal type', breaks='the container is not found by name',
 demo=Q+'''int main(){ ContainerPool p; p.get(DotsMember::_Descriptor()); REQ(p.find(std::string_view{"DotsMember"})!=nullptr); return 0; }'''),
dict(id='c20-deregister', prop='C20', edits=[(DM,'''            m_underlyingMap.erase(it);
        }''','''            m_underlyingMap.erase(assertContainedType ? it : m_underlyingMap.lower_bound(name.substr(0, name.find('<'))));
        }''')],
 needs='removal of a vector type without requiring that it is contained', breaks='another type is removed',
 demo=Q+'''int main(){ Registry r; REQ(r.hasType("vector<uint8>")); size_t n=r.size(); r.deregisterType("vector<uint8>", false); REQ(!r.hasType("vector<uint8>")); REQ(r.size()==n-1); return 0; }'''),
dict(id='c20-policy', prop='C20', edits=[(RG,'            return IsUserType(vectorDescriptor->valueDescriptor());','            return vectorDescriptor->valueDescriptor().type() == Type::Struct;')],
 needs='a vector of an internal structure', breaks='the vector type is missing in a registry of internal types',
 demo=Q+'''int main(){ bool any=false; Registry all; Registry in{std::nullopt, Registry::StaticTypePolicy::InternalOnly}; for(auto& [n,d]: all){ auto* v=d->as<VectorDescriptor>(); if(!v) continue; auto* s=v->valueDescriptor().as<StructDescriptor>(); if(!s||!s->internal()) continue; any=true; REQ(in.hasType(n)); } REQ(any); return 0; }'''),
]
