INC='''#include "h.h"
#define REQ(x) do { if(!(x)) { std::cerr << "FAILED: " #x "\\n"; return 1; } } while(0)
'''
HT='lib/src/HostTransceiver.cpp'; CO='lib/src/Connection.cpp'; LA='lib/src/io/auth/LegacyAuthManager.cpp'
S=[
dict(id='c07-sender-skipped', prop='C07', edits=[(HT,'            if (destinationConnection->state() != DotsConnectionState::closed)','            if (destinationConnection->state() == DotsConnectionState::connected)')],
 needs='a guest that joined during early subscription (preload) while another guest publishes', breaks='members of a group that are still preloading do not receive events of other guests, so their caches miss them',
 demo=INC+'''int main(){ Host H; auto a=H.guest("a");
  auto ch=io::make_channel<TC>(); auto b=std::static_pointer_cast<TC>(ch); H.l->acc(ch); ch.reset();
  b->rxs(DotsMsgConnect{.clientName="b",.preloadCache=true}); join<Rec>(*b); size_t n=b->count("DotsContinuousRecorderStatus");
  a->rxs(Rec{.recorderId="1"});
  REQ(b->count("DotsContinuousRecorderStatus")==n+1); return 0; }'''),
dict(id='c08-marker-empty', prop='C08', edits=[(HT,'''                    transmitContainer(connection, *container);
                }

                connection.transmit(DotsCacheInfo{
                    .typeName = member.groupName,
                    .endTransmission = true
                });''','''                    transmitContainer(connection, *container);

                    connection.transmit(DotsCacheInfo{
                        .typeName = member.groupName,
                        .endTransmission = true
                    });
                }''')],
 needs='joining a cached type for which the host never stored an instance', breaks='the guest never learns that the (empty) cache is complete',
 demo=INC+'''int main(){ Host H; auto a=H.guest("a"); Rec::_Descriptor(); join<Rec>(*a); REQ(a->count("DotsCacheInfo")==1); return 0; }'''),
dict(id='c08-attributes', prop='C08', edits=[(HT,'            header.attributes = instance->_validProperties();\n','            header.attributes = container.descriptor().properties();\n')] ,
 needs='joining a type with a cached instance that does not have all properties set', breaks='cached instances announce properties they do not contain',
 demo=INC+'''int main(){ Host H; auto a=H.guest("a"), b=H.guest("b"); a->rxs(Rec{.recorderId="1"}); join<Rec>(*b);
  for(auto& [h,n]:b->sent) if(n=="DotsContinuousRecorderStatus") { REQ(*h.attributes==Rec{.recorderId="1"}._validProperties()); } return 0; }'''),
dict(id='c09-creator', prop='C09', edits=[(HT,'if (connection.peerId() == cloneInfo.lastUpdateFrom)','if (connection.peerId() == cloneInfo.createdFrom)')],
 needs='an instance created by one guest and later updated by another, then one of them disconnects', breaks='cleanup removes instances of guests that are still connected and keeps those of the guest that left',
 demo=INC+'''int main(){ Host H; auto a=H.guest("a"), b=H.guest("b"), c=H.guest("c"); join<Rec>(*c);
  a->rxs(Rec{.recorderId="1"}); b->rxs(Rec{.recorderId="1"}); size_t n=c->sent.size();
  a->err(std::make_exception_ptr(std::runtime_error{"x"}));
  for(size_t i=n;i<c->sent.size();++i) REQ(!(c->sent[i].second=="DotsContinuousRecorderStatus" && c->sent[i].first.removeObj==true)); return 0; }'''),
dict(id='c09-firstgroup', prop='C09', edits=[(HT,'                    group.erase(&connection);\n','                    if (group.erase(&connection) != 0)\n                    {\n                        break;\n                    }\n')],
 needs='a guest that joined two groups disconnects, then an event of the second type is published', breaks='a dead connection stays in a group; delivering to it uses freed memory', asan=['lib/src/HostTransceiver.cpp','lib/src/Connection.cpp'],
 demo=INC+'''#include <DotsDaemonStatus.dots.h>
int main(){ Host H; auto a=H.guest("a"), b=H.guest("b"); join<Rec>(*b); join<DotsDaemonStatus>(*b); 
  b->err(std::make_exception_ptr(std::runtime_error{"x"})); b.reset();
  a->rxs(Rec{.recorderId="1"}); a->rxs(DotsDaemonStatus{.serverName="x"}); return 0; }'''),
dict(id='c06-senttime', prop='C06', edits=[(CO,'''                    header.serverSentTime = timepoint_t::Now();

                    if''','''                    if (!header.serverSentTime.isValid())
                    {
                        header.serverSentTime = timepoint_t::Now();
                    }

                    if''')],
 needs='a guest that writes a serverSentTime into the header of its own message', breaks='the forwarded event carries a host send time chosen by the guest',
 demo=INC+'''int main(){ Host H; auto a=H.guest("a"), b=H.guest("b"); join<Rec>(*b);
  Rec r{.recorderId="1"}; a->rx(io::Transmission{DotsHeader{.typeName=r._descriptor().name(), .serverSentTime=timepoint_t{}, .attributes=r._validProperties(), .removeObj=false}, type::AnyStruct{r}});
  int seen=0; for(auto& [h,n]:b->sent) if(n=="DotsContinuousRecorderStatus") { ++seen; { bool ok = h.serverSentTime->time_since_epoch() != timepoint_t{}.time_since_epoch(); REQ(ok); } } REQ(seen==1); return 0; }'''),
dict(id='c04-error-callback-none', prop='C04', edits=[(CO,'''                catch (...)
                {
                    /* do nothing */
                }

            }''','''                catch (const std::exception&)
                {
                    return;
                }

            }''')],
 needs='an error on a connection whose channel also fails to send the final error message', breaks='the connection stays connected and its owner is never told',
 demo=INC+'''int main(){ Host H; auto a=H.guest("a"), b=H.guest("b"); join<Rec>(*b); b->fail=true; a->rxs(Rec{.recorderId="1"}); b->fail=false; size_t n=b->sent.size();
  a->rxs(Rec{.recorderId="2"}); REQ(b->sent.size()==n); return 0; }'''),
dict(id='c05-unknown-code', prop='C05', edits=[(CO,'if (error.errorCode == 0)\n','if (error.errorCode == 0 || !error.errorText.isValid())\n')],
 needs='the peer sends an error message with a code but without text', breaks='the connection ends without the error being reported as cause',
 demo=INC+'''int main(){ auto ch=io::make_channel<TC>(); auto p=std::static_pointer_cast<TC>(ch); type::Registry reg; std::exception_ptr cause; bool closed=false;
  Connection c{ch,true}; ch.reset();
  c.asyncReceive(reg,nullptr,"h",{[](Connection&,io::Transmission){return true;}},{[&](Connection& k,std::exception_ptr e){ if(k.closed()){closed=true;cause=e;} }});
  p->rxs(DotsMsgConnect{.clientName="g",.preloadCache=false}); p->rxs(DotsMsgError{.errorCode=7}); REQ(closed); REQ(cause!=nullptr); return 0; }'''),
dict(id='c01-preload-finish', prop='C01', edits=[(CO,'''        if (connect.preloadClientFinished == false)
        {
            throw std::logic_error{ "expected preload client finished to be true" };
        }

        setConnectionState(DotsConnectionState::connected);
''','''        if (connect.preloadClientFinished == false && connect.clientName.isValid())
        {
            throw std::logic_error{ "expected preload client finished to be true" };
        }

        setConnectionState(DotsConnectionState::connected);
''')],
 needs='a guest that sends preloadClientFinished=false while preloading', breaks='a message that does not finish the preload stage advances the handshake',
 demo=INC+'''int main(){ auto ch=io::make_channel<TC>(); auto p=std::static_pointer_cast<TC>(ch); type::Registry reg; 
  Connection c{ch,true}; ch.reset();
  c.asyncReceive(reg,nullptr,"h",{[](Connection&,io::Transmission){return true;}},{[&](Connection&,std::exception_ptr){ }});
  p->rxs(DotsMsgConnect{.clientName="g",.preloadCache=true}); p->rxs(DotsMsgConnect{.preloadClientFinished=false}); REQ(!c.connected()); return 0; }'''),
dict(id='c03-priority-find', prop='C03', edits=[(LA,'''                    if (response.value() == expected.value())
                    {
                        if (rule.accept.isValid())
                        {
                            accept = *rule.accept;
                            break;
                        }
                    }''','''                    if (response.value() == expected.value())
                    {
                        if (rule.accept.isValid())
                        {
                            accept = *rule.accept;
                            break;
                        }
                    }
                    else if (rule.accept == true)
                    {
                        break;
                    }''')],
 needs='a rule with a secret the guest cannot prove is followed by another matching rule', breaks='later rules are not consulted; the default policy decides instead',
 demo=INC+'''#include <dots/io/auth/LegacyAuthManager.h>
#include "digest.h"
#include <DotsAuthentication.dots.h>
int main(){ Host H; io::LegacyAuthManager m{H.h};
  { DotsAuthentication r; r.nameSpace="n"; r.network=DotsNetwork{.network="10.0.0.0",.prefix=8}; r.priority=1; r.clientName=""; r.accept=true; r.secret="s"; H.h.publish(r); }
  { DotsAuthentication r; r.nameSpace="n"; r.network=DotsNetwork{.network="10.0.0.0",.prefix=8}; r.priority=2; r.clientName=""; r.accept=false; H.h.publish(r); }
  io::Nonce n{5}; REQ(!m.verifyAuthentication(io::Endpoint{"tcp://10.0.0.1"},"g",n,io::Nonce{6},io::Digest{n,io::Nonce{6},"g","wrong"})); return 0; }'''),
]
