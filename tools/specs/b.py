INC='''#include "h.h"
#define REQ(x) do { if(!(x)) { std::cerr << "FAILED: " #x "\\n"; return 1; } } while(0)
'''
CT='lib/src/Container.cpp'
HDR='DotsHeader h{.typeName="DotsContinuousRecorderStatus",.sentTime=timepoint_t::Now(),.attributes=%s,.sender=%s,.removeObj=false}'
S=[
dict(id='c12-clear', prop='C12', edits=[(CT,'        property_set_t updateSet = (lhs._validProperties() + rhs._validProperties()) ^ includedSet;','        property_set_t updateSet = rhs._validProperties() ^ includedSet;')],
 needs='an update that names a property it does not set (clearing it)', breaks='properties are never cleared in caches',
 demo=INC+'''#include <DotsDaemonStatus.dots.h>
int main(){ Container<DotsDaemonStatus> c; DotsDaemonStatus a{.serverName="s",.startTime=timepoint_t::Now()}; 
 DotsHeader h{.typeName="DotsDaemonStatus",.sentTime=timepoint_t::Now(),.attributes=a._validProperties(),.sender=1u,.removeObj=false};
 c.insert(h,a); DotsDaemonStatus b{.serverName="s"}; c.insert(h,b); REQ(!static_cast<const DotsDaemonStatus&>(static_cast<const type::Struct&>(c.begin()->first)).startTime.isValid()); return 0; }'''),
dict(id='c12-sender-create', prop='C12', edits=[(CT,'''            cloneInfo.lastOperation = DotsMt::update;
            cloneInfo.lastUpdateFrom = header.sender;
''','''            cloneInfo.lastOperation = DotsMt::update;

            if (!cloneInfo.lastUpdateFrom.isValid())
            {
                cloneInfo.lastUpdateFrom = header.sender;
            }

''')],
 needs='an instance that is updated by another client than the one that created it', breaks='the last writer of an instance is never updated',
 demo=INC+'''#include <DotsDaemonStatus.dots.h>
int main(){ Container<DotsDaemonStatus> c; DotsDaemonStatus a{.serverName="s"}; 
 DotsHeader h{.typeName="DotsDaemonStatus",.sentTime=timepoint_t::Now(),.attributes=a._validProperties(),.sender=1u,.removeObj=false};
 c.insert(h,a); h.sender=2u; c.insert(h,a); REQ(c.begin()->second.lastUpdateFrom==2u); return 0; }'''),
dict(id='c12-compare', prop='C12', edits=[(CT,'''            if (valueDescriptor.less(lhsValue, rhsValue))
            {
                return true;
            }
            else if (valueDescriptor.less(rhsValue, lhsValue))
            {
                return false;
            }
''','''            if (valueDescriptor.less(lhsValue, rhsValue))
            {
                return true;
            }
''')],
 needs='a type with several key properties whose instances differ in opposite directions', breaks='the order of instances is inconsistent, so instances are not found or stored twice',
 demo=INC+'''#include <DotsAuthentication.dots.h>
DotsAuthentication mk(const char* n,int p){ DotsAuthentication r; r.nameSpace=n; r.network=DotsNetwork{.network="a",.prefix=8}; r.priority=p; r.clientName="c"; return r; }
int main(){ auto& d=DotsAuthentication::_Descriptor(); Container<type::Struct>::key_compare k{d}; int cyc=0;
 std::vector<DotsAuthentication> v; for(auto n:{"a","b"}) for(int p:{1,2}) for(auto c:{"x","y"}) for(auto w:{"m","n"}) { auto r=mk(n,p); r.clientName=c; r.network=DotsNetwork{.network=w,.prefix=8}; v.push_back(r);} 
 for(auto& a:v) for(auto& b:v) if(k(static_cast<const type::Struct&>(a),b) && k(static_cast<const type::Struct&>(b),a)) ++cyc; REQ(cyc==0); return 0; }'''),
dict(id='c12-valid-flag', prop='C12', edits=[(CT,'''                        valueDescriptor.constructInPlace(lhsValue, rhsValue);
                        lhsValidSet += propertySet;''','''                        valueDescriptor.constructInPlace(lhsValue, rhsValue);
                        lhsValidSet += propertySet ^ lhs._validProperties();''')],
 needs='an update that sets a property which the stored instance does not have', breaks='the property is stored but never becomes visible',
 demo=INC+'''#include <DotsDaemonStatus.dots.h>
int main(){ Container<DotsDaemonStatus> c; DotsDaemonStatus a{.serverName="s"}; 
 DotsHeader h{.typeName="DotsDaemonStatus",.sentTime=timepoint_t::Now(),.attributes=a._validProperties(),.sender=1u,.removeObj=false};
 c.insert(h,a); a.startTime=timepoint_t::Now(); h.attributes=a._validProperties(); c.insert(h,a); REQ(static_cast<const DotsDaemonStatus&>(static_cast<const type::Struct&>(c.begin()->first)).startTime.isValid()); return 0; }'''),
dict(id='c12-included', prop='C12', edits=[(CT,'                if (propertySet <= rhsValidSet)\n','                if (propertySet <= lhsValidSet + rhsValidSet && propertySet <= rhsValidSet + includedSet && propertySet <= rhsValidSet)\n'),(CT,'        property_set_t updateSet = (lhs._validProperties() + rhs._validProperties()) ^ includedSet;','        property_set_t updateSet = rhs._validProperties() + (lhs._validProperties() ^ includedSet);')],
 needs='an update whose instance has more properties set than the event names', breaks='properties the event does not name are changed',
 demo=INC+'''#include <DotsDaemonStatus.dots.h>
int main(){ Container<DotsDaemonStatus> c; DotsDaemonStatus a{.serverName="s"}; 
 DotsHeader h{.typeName="DotsDaemonStatus",.sentTime=timepoint_t::Now(),.attributes=a._validProperties(),.sender=1u,.removeObj=false};
 c.insert(h,a); a.startTime=timepoint_t::Now(); c.insert(h,a); REQ(!static_cast<const DotsDaemonStatus&>(static_cast<const type::Struct&>(c.begin()->first)).startTime.isValid()); return 0; }'''),
]
