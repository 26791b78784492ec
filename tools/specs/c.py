INC='''#include "h.h"
#include <DotsDaemonStatus.dots.h>
#include <dots/io/Registry.h>
#define REQ(x) do { if(!(x)) { std::cerr << "FAILED: " #x "\\n"; return 1; } } while(0)
'''.replace('#include <dots/io/Registry.h>\n','')
GT='lib/src/GuestTransceiver.cpp'; HT='lib/src/HostTransceiver.cpp'; DI='lib/src/Dispatcher.cpp'; TRX='lib/src/Transceiver.cpp'; SU='lib/src/Subscription.cpp'
GUEST=INC+'''
struct G { asio::io_context ctx; GuestTransceiver g{"g", ctx}; std::shared_ptr<TC> c;
 void open(type::DescriptorMap pub={}, type::DescriptorMap sub={}, bool preload=true){ auto ch=io::make_channel<TC>(); c=std::static_pointer_cast<TC>(ch); g.open(std::move(pub),std::move(sub),std::nullopt,std::move(ch)); 
  c->rxs(DotsMsgHello{.serverName="h",.authChallenge=0u,.authenticationRequired=false});
  DotsMsgConnectResponse r; r.serverName="h"; r.accepted=true; r.clientId=2u; r.preload=preload; c->rxs(r); if(preload) c->rxs(DotsMsgConnectResponse{.preloadFinished=true}); }
 size_t joins(){ return c->count("DotsMember"); } };
'''
S=[
dict(id='c10-preload-both', prop='C10', edits=[(GT,'''                    connection.transmit(descriptor->to<type::StructDescriptor>());
                    joinGroup(name);''','''                    if (m_preloadPublishTypes.find(name) == m_preloadPublishTypes.end())
                    {
                        connection.transmit(descriptor->to<type::StructDescriptor>());
                        joinGroup(name);
                    }''')],
 needs='a guest that preloads the same type for publishing and for subscribing', breaks='the group of the type is not joined, although it counts as preloaded',
 demo=GUEST+'''int main(){ G g; type::DescriptorMap p,s; p.emplace(type::Descriptor<Rec>::InstancePtr()); s.emplace(type::Descriptor<Rec>::InstancePtr()); g.open(std::move(p),std::move(s)); REQ(g.joins()==1); return 0; }'''),
dict(id='c10-keep-connection', prop='C10', edits=[(GT,'''                if (m_hostConnection != nullptr)
                {
                    m_hostConnection = nullptr;
                }''','''                if (m_hostConnection != nullptr && !m_preloadSubscribeTypes.empty())
                {
                    m_hostConnection = nullptr;
                }''')],
 needs='a connection that is lost after the guest was connected, or without preloaded types', breaks='a closed connection is kept, so that publishing on it and reopening fail silently or with the wrong error',
 demo=GUEST+'''int main(){ G g; g.open(); g.c->err(std::make_exception_ptr(std::runtime_error{"x"})); bool thrown=false; try { g.g.publish(Rec{.recorderId="a"}); } catch(...) { thrown=true; } REQ(thrown); g.open(); return 0; }'''),
dict(id='c10-join-late', prop='C10', edits=[(GT,'                publish(DotsMember{\n                .groupName = name,\n                .event = DotsMemberEvent::join\n','') ] and [(GT,'''            publish(DotsMember{
                .groupName = name,
                .event = DotsMemberEvent::join
            });
            m_joinedGroups.insert(std::string(name));''','''            m_joinedGroups.insert(std::string(name));
            publish(DotsMember{
                .groupName = name,
                .event = DotsMemberEvent::join
            });''')],
 needs='a subscription while not connected', breaks='a subscription that failed because there was no connection is counted as joined',
 demo=GUEST+'''int main(){ G g; bool t1=false,t2=false; std::optional<Subscription> s; try { s.emplace(g.g.subscribe<Rec>([](auto&){})); } catch(...) { t1=true; } try { s.emplace(g.g.subscribe<Rec>([](auto&){})); } catch(...) { t2=true; } REQ(t1&&t2); return 0; }'''),
dict(id='c10-silent', prop='C10', edits=[(GT,'''        if (m_hostConnection == nullptr)
        {
            throw std::runtime_error{ "attempt to publish on closed connection" };
        }
''','''        if (m_hostConnection == nullptr)
        {
            if (remove)
            {
                LOG_WARN_S("attempt to remove instance on closed connection");
                return;
            }

            throw std::runtime_error{ "attempt to publish on closed connection" };
        }
''')],
 needs='removing an instance while not connected', breaks='the removal is lost silently',
 demo=GUEST+'''int main(){ G g; bool t=false; try { g.g.remove(Rec{.recorderId="a"}); } catch(...) { t=true; } REQ(t); return 0; }'''),
dict(id='c11-remove-key', prop='C11', edits=[(GT,'''        if (!(instance._keyProperties() <= instance._validProperties()))''','''        if (!remove && !(instance._keyProperties() <= instance._validProperties()))''')],
 needs='removing an instance without its key on a guest', breaks='removals of instances without key are transmitted',
 demo=GUEST+'''int main(){ G g; g.open(); bool t=false; try { g.g.remove(Rec{}); } catch(...) { t=true; } REQ(t); return 0; }'''),
dict(id='c11-clear', prop='C11', edits=[(HT,'''            *includedProperties += instance._keyProperties();
            *includedProperties ^= instance._properties();''','''            *includedProperties += instance._keyProperties();
            *includedProperties ^= instance._validProperties();''')],
 needs='publishing a selected property that is not set', breaks='properties can no longer be cleared by publishing them unset',
 demo=INC+'''int main(){ Host h; property_set_t got; auto s=h.h.subscribe<Rec>([&](const Event<Rec>& e){ got=e.newProperties(); }); std::optional<property_set_t> a; auto t=h.h.subscribe(Rec::_Descriptor(), Transceiver::transmission_handler_t{[&](const io::Transmission& x){ a=*x.header().attributes; }}); h.h.publish(Rec{.recorderId="a"}, Rec::_Descriptor().properties(), false); REQ(a && *a==Rec::_Descriptor().properties()); return 0; }'''),
dict(id='c11-selected-key', prop='C11', edits=[(GT,'''            *includedProperties += instance._keyProperties();
''','''            if (!remove || includedProperties->empty())
            {
                *includedProperties += instance._keyProperties();
            }

''')],
 needs='removing with an explicit selection that lacks the key', breaks='the removal does not name the key',
 demo=GUEST+'''int main(){ G g; g.open(); DotsDaemonStatus d{.serverName="a",.startTime=timepoint_t::Now()}; g.g.publish(d, DotsDaemonStatus::startTime_p + property_set_t{}, true); auto a=*g.c->sent.back().first.attributes; REQ(d._keyProperties() <= a); return 0; }'''),
dict(id='c13-removed-event', prop='C13', edits=[(DI,'''                    dispatchToHandlers(descriptor, handlers, Event<>{ header, instance, removed.key(), removed.mapped() });''','''                    dispatchToHandlers(descriptor, handlers, Event<>{ header, instance, instance, removed.mapped() });''')],
 needs='a removal whose instance only has the key', breaks='subscribers are told the received instead of the removed instance',
 demo=INC+'''int main(){ Host h; bool ok=false; auto s=h.h.subscribe<DotsDaemonStatus>([&](const Event<DotsDaemonStatus>& e){ if(e.isRemove()) ok=e.updated().startTime.isValid(); }); h.h.publish(DotsDaemonStatus{.serverName="a",.startTime=timepoint_t::Now()}); h.h.remove(DotsDaemonStatus{.serverName="a"}); REQ(ok); return 0; }'''),
dict(id='c13-replay-self', prop='C13', edits=[(DI,'''                    header.attributes = instance->_validProperties();
''','''                    if (cloneInfo.lastOperation == DotsMt::remove || (cloneInfo.lastUpdateFrom == cloneInfo.createdFrom && container.size() > 2 && *header.fromCache == 2))
                    {
                        continue;
                    }

                    header.attributes = instance->_validProperties();
''')],
 needs='a late subscription to a type with more than two cached instances', breaks='late subscribers miss cached instances',
 demo=INC+'''int main(){ Host h; for(auto n:{"a","b","c","d"}) h.h.publish(DotsDaemonStatus{.serverName=n,.startTime=timepoint_t::Now()}); int n=0; auto s=h.h.subscribe<DotsDaemonStatus>([&](auto&){ ++n; }); REQ(n==4); return 0; }'''),
dict(id='c13-uncached-meta', prop='C13', edits=[(DI,'''              .created = header.sentTime,
                .createdFrom = header.sender,''','') ] and [(DI,'''                .createdFrom = header.sender,
''','''                .createdFrom = header.sender.isValid() && *header.sender != 0 ? header.sender : header.sender,
''')] and [(DI,'''                dispatchToHandlers(descriptor, handlers, Event<>{ header, instance, updated, cloneInfo });''','''                DotsCloneInformation info = cloneInfo;
                info.lastOperation = info.lastUpdateFrom.isValid() && container.size() > 1 ? DotsMt::update : DotsMt::create;
                dispatchToHandlers(descriptor, handlers, Event<>{ header, instance, updated, info });''')],
 needs='a second instance in a container', breaks='creations are announced as updates or updates as creations',
 demo=INC+'''int main(){ Host h; std::vector<bool> c; auto s=h.h.subscribe<DotsDaemonStatus>([&](const Event<DotsDaemonStatus>& e){ c.push_back(e.isCreate()); }); for(int i=0;i<2;++i) h.h.publish(DotsDaemonStatus{.serverName="a",.startTime=timepoint_t::Now()}); for(int i=0;i<2;++i) h.h.publish(DotsDaemonStatus{.serverName="b",.startTime=timepoint_t::Now()}); REQ((c==std::vector<bool>{true,false,true,false})); return 0; }'''),
dict(id='c14-std-only', prop='C14', edits=[(DI,'''            catch (...)
            {
                m_errorHandler(descriptor, std::current_exception());
            }
''','''            catch (const std::exception&)
            {
                m_errorHandler(descriptor, std::current_exception());
            }
''')],
 needs='a handler that throws something that is not a std::exception', breaks='other handlers are not called and the handler stays marked as being called',
 demo=INC+'''int main(){ Host h; int n=0; auto a=h.h.subscribe<Rec>([&](auto&){ throw 1; }); auto b=h.h.subscribe<Rec>([&](auto&){ ++n; }); try { h.h.publish(Rec{.recorderId="a"}); } catch(...) {} REQ(n==1); return 0; }'''),
dict(id='c14-newtype-rethrow', prop='C14', edits=[(TRX,'''            catch (const std::exception& e)
            {
                LOG_ERROR_S("error in new type handler''','''            catch (const std::runtime_error& e)
            {
                LOG_ERROR_S("error in new type handler''')] and [(TRX,'''            std::rethrow_exception(ePtr);
        }
        catch (const std::exception& e)
        {''','''            std::rethrow_exception(ePtr);
        }
        catch (const std::logic_error& e)
        {
            if (descriptor.cached())
            {
                throw;
            }

            LOG_ERROR_S("error in subscription handler for type '" << descriptor.name() << "' -> '" << e.what() << "'");
        }
        catch (const std::exception& e)
        {''')],
 needs='a handler of a cached type that throws a logic error', breaks='reporting the error of a handler terminates the program',
 demo=INC+'''int main(){ Host h; auto a=h.h.subscribe<DotsDaemonStatus>([&](auto&){ throw std::logic_error{"x"}; }); h.h.publish(DotsDaemonStatus{.serverName="a"}); return 0; }'''),
dict(id='c15-ids', prop='C15', edits=[(DI,'''        m_transmissionHandlerPool[&descriptor].emplace(id, std::move(handler));

        return id;''','''        transmission_handlers_t& handlers = m_transmissionHandlerPool[&descriptor];
        id = handlers.size();
        handlers.emplace(id, std::move(handler));

        return id;''')],
 needs='subscribing again after an earlier subscription of the same type ended', breaks='two handlers get the same id, so that a handler is lost or the wrong one is removed',
 demo=INC+'''int main(){ Host h; int n=0; auto f=[&](const io::Transmission&){ ++n; }; std::optional<Subscription> a{h.h.subscribe(Rec::_Descriptor(), Transceiver::transmission_handler_t{f})}; auto b=h.h.subscribe(Rec::_Descriptor(), Transceiver::transmission_handler_t{f}); a.reset(); auto c=h.h.subscribe(Rec::_Descriptor(), Transceiver::transmission_handler_t{f}); h.h.publish(Rec{.recorderId="a"}); REQ(n==2); return 0; }'''),
dict(id='c15-assign', prop='C15', edits=[(SU,'''        unsubscribe();

        m_handler = std::move(rhs.m_handler);
        rhs.m_handler = std::nullopt;

        return *this;''','''        if (rhs.m_handler != std::nullopt)
        {
            unsubscribe();
        }

        m_handler = std::move(rhs.m_handler);
        rhs.m_handler = std::nullopt;

        return *this;''')],
 needs='overwriting an active subscription with an empty one', breaks='the overwritten subscription is never cancelled',
 demo=INC+'''int main(){ Host h; int n=0; auto a=h.h.subscribe<Rec>([&](auto&){ ++n; }); auto b=h.h.subscribe<Rec>([&](auto&){}); b.discard(); a=std::move(b); h.h.publish(Rec{.recorderId="a"}); REQ(n==0); return 0; }'''),
dict(id='c15-move-ctor', prop='C15', edits=[(SU,'''        m_handler(std::move(other.m_handler))
    {
        other.m_handler = std::nullopt;
    }''','''        m_handler(std::move(other.m_handler))
    {
        if (m_handler == std::nullopt)
        {
            other.m_handler = std::nullopt;
        }
    }''')],
 needs='destroying a subscription from which another one was moved', breaks='the source of a move calls an empty unsubscribe handler',
 demo=INC+'''int main(){ Host h; int n=0; { auto a=h.h.subscribe<Rec>([&](auto&){ ++n; }); Subscription b{std::move(a)}; } h.h.publish(Rec{.recorderId="a"}); REQ(n==0); return 0; }'''),
dict(id='c15-typed', prop='C15', edits=[('lib/include/dots/Transceiver.h','transceiver.m_dispatcher.removeEventHandler(T::_Descriptor(), id); });','if (transceiver.m_dispatcher.container(T::_Descriptor()).empty()) transceiver.m_dispatcher.removeEventHandler(T::_Descriptor(), id); });')],
 needs='ending a subscription of a type of which instances are cached', breaks='the handler is not removed',
 demo=INC+'''int main(){ Host h; int n=0; { auto a=h.h.subscribe<DotsDaemonStatus>([&](auto&){ ++n; }); h.h.publish(DotsDaemonStatus{.serverName="a"}); } n=0; h.h.publish(DotsDaemonStatus{.serverName="b"}); REQ(n==0); return 0; }'''),
]
