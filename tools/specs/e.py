exec(open('/tmp/s/d.py').read().split('\nS=[')[0])
CH='lib/src/io/Channel.cpp'; LI='lib/src/io/Listener.cpp'; TL='lib/src/io/channels/TcpListener.cpp'; UL='lib/src/io/channels/UdsListener.cpp'
FK='''#include "h.h"
#include <dots/io/channels/LocalChannel.h>
#include <dots/io/channels/LocalListener.h>
#define REQ(x) do { if(!(x)) { std::cerr << "FAILED: " #x "\\n"; return 1; } } while(0)
struct FC : io::Channel { FC(key_t k): Channel(k){ initEndpoints(io::Endpoint{"fake","a"}, io::Endpoint{"fake","b"}); } int reads=0; void asyncReceiveImpl() override { ++reads; } void transmitImpl(const DotsHeader&, const type::Struct&) override {}
 void rx(){ DotsMsgError m{.errorCode=1}; DotsHeader h; h.typeName="DotsMsgError"; h.attributes=m._validProperties(); processReceive(io::Transmission{h, type::AnyStruct{m}}); } void fail(){ processError("x"); } };
struct FL : io::Listener { int n=0; void asyncAcceptImpl() override { ++n; } void acc(){ processAccept(io::channel_ptr_t{}); } void fail(){ processError("x"); } };
'''
S=[
dict(id='c28-second-start', prop='C28', edits=[(CH,'''        if (m_asyncReceiving)
        {
            throw std::logic_error{ "only one async receive can be active at any given time" };
        }

        assert(m_initialized);

        m_receiveHandler = std::move(receiveHandler);
        m_errorHandler = std::move(errorHandler);
''','''        m_receiveHandler = std::move(receiveHandler);
        m_errorHandler = std::move(errorHandler);

        if (m_asyncReceiving)
        {
            throw std::logic_error{ "only one async receive can be active at any given time" };
        }

        assert(m_initialized);

''')], needs='a second attempt to receive from an active channel (refused with an exception), and a message afterwards', breaks='the refused attempt replaces the handlers of the active operation',
 demo=FK+'''int main(){ type::Registry reg; auto c=io::make_channel<FC>(); c->init(reg); int a=0,b=0; c->asyncReceive([&](io::Transmission){ ++a; return true; },[](std::exception_ptr){}); bool t=false;
 try { c->asyncReceive([&](io::Transmission){ ++b; return true; },[](std::exception_ptr){}); } catch(const std::logic_error&){ t=true; } c->rx(); REQ(t); REQ(a==1); REQ(b==0); return 0; }'''),
dict(id='c28-accept-twice', prop='C28', edits=[(LI,'''        m_asyncAcceptActive = true;
        m_acceptHandler = std::move(acceptHandler);
        m_errorHandler = std::move(errorHandler);
        asyncAcceptImpl();
''','''        m_acceptHandler = std::move(acceptHandler);
        m_errorHandler = std::move(errorHandler);
        asyncAcceptImpl();
        m_asyncAcceptActive = true;
''')], needs='a listener whose operation fails or is refused while it is started', breaks='a listener is active although starting it failed or its failure was already due',
 demo=FK+'''struct SL : io::Listener { int n=0; void asyncAcceptImpl() override { if(++n==1) processError("fails immediately"); } void acc(){ processAccept(io::channel_ptr_t{}); } };
int main(){ SL l; int e=0,a=0; l.asyncAccept([&](io::Listener&, io::channel_ptr_t){ ++a; return true; },[&](io::Listener&, std::exception_ptr){ ++e; }); REQ(e==1); l.acc(); REQ(a==0); return 0; }'''),
dict(id='c28-foreign-exception', prop='C28', edits=[(CH,'''                channel_->m_asyncReceiving = false;
            }
        }
        catch (...)
''','''                channel_->m_asyncReceiving = false;
            }
        }
        catch (const std::exception&)
''')], needs='a receive handler that throws something that is not derived from std::exception', breaks='the failure is not reported but terminates the program',
 demo=FK+'''int main(){ type::Registry reg; auto c=io::make_channel<FC>(); c->init(reg); int e=0; c->asyncReceive([&](io::Transmission)->bool{ throw 1; },[&](std::exception_ptr){ ++e; }); c->rx(); REQ(e==1); return 0; }'''),
dict(id='c28-read-after-failure', prop='C28', edits=[(AS,'''                if (m_readDispatching)
                {
                    m_readDispatching = false;
                }
                else
                {
                    asyncReceiveImpl();
                }
''','''                m_readDispatching = false;
                asyncReceiveImpl();
''')], needs='several messages in one read, one of which tells the channel to stop', breaks='reading is resumed although the handler asked to stop',
 demo=NET+'''int main(){ Net n; n.start(); REQ(n.ch!=nullptr); n.onRx=[&]{ return false; }; auto f=frame(DotsMsgError{.errorCode=1}); auto b=f; b.insert(b.end(),f.begin(),f.end()); asio::write(n.s,asio::buffer(b)); n.run(200);
 // nothing may be read any more: whatever follows stays in the socket until receiving is started again
 int got=0; n.ch->asyncReceive([&](io::Transmission){ ++got; return true; },[](std::exception_ptr){}); asio::write(n.s,asio::buffer(f)); n.run(300); std::cerr<<n.got<<" "<<got<<"\\n"; REQ(n.got==1); REQ(got==2); return 0; }'''),
dict(id='c28-ws-swallow', prop='C28', edits=[(WS,'''                verifyErrorCode(ec);

                m_serializer.setInput''','''                if (ec)
                {
                    return;
                }

                m_serializer.setInput''')], needs='a client that disconnects from a WebSocket channel', breaks='the loss of the connection is never reported',
 demo=NET+'''#include <dots/io/channels/WebSocketListener.h>
int main(){ asio::io_context io; type::Registry reg; std::string p=port(io); io::WebSocketListener l{io,"127.0.0.1",p}; io::channel_ptr_t ch; int err=0; l.asyncAccept([&](io::Listener&, io::channel_ptr_t c){ ch=c; ch->init(reg); ch->asyncReceive([](io::Transmission){return true;},[&](std::exception_ptr){ ++err; }); return true; },[](io::Listener&,std::exception_ptr){});
 std::thread t([&]{ try { asio::io_context c; auto k=io::make_channel<io::WebSocketChannel>(c,io::Endpoint{"ws://127.0.0.1:"+p}); std::this_thread::sleep_for(std::chrono::milliseconds(200)); } catch(const std::exception& e){ std::cerr<<e.what()<<"\\n"; } });
 for(int i=0;i<40 && !err;++i){ io.restart(); io.run_for(std::chrono::milliseconds(50)); } t.join(); REQ(ch!=nullptr); REQ(err==1); return 0; }'''),
dict(id='c27-host-listeners', prop='C27', edits=[(HT,'''        m_listeners.erase(&listener);
    }
''','''        for (auto it = m_listeners.begin(); it != m_listeners.end();)
        {
            it = it->first == &listener || m_guestConnections.empty() ? m_listeners.erase(it) : std::next(it);
        }
    }
''')], needs='a host with several listeners, one of which fails while no guest is connected', breaks='the other listeners are dropped as well',
 demo='''#include "h.h"
struct FL : io::Listener { bool* gone; FL(bool* g): gone(g){} ~FL(){ *gone=true; } void asyncAcceptImpl() override {} void fail(){ processError("x"); } };
int main(){ asio::io_context io; HostTransceiver h{"h", io}; bool g1=false,g2=false; auto& a=static_cast<FL&>(h.listen(std::make_unique<FL>(&g1))); h.listen(std::make_unique<FL>(&g2)); a.fail(); io.run_for(std::chrono::milliseconds(20)); bool ok=g1&&!g2; std::cerr<<g1<<g2<<"\\n"; return ok?0:1; }'''),
dict(id='c27-tcp-config', prop='C27', edits=[(TL,'''                m_socket.non_blocking(true);
''','''                if (boost::system::error_code failed; m_socket.remote_endpoint(failed), failed)
                {
                    return;
                }

                m_socket.non_blocking(true);
''')], needs='a client that has reset its connection before it was accepted', breaks='the listener stops accepting',
 demo=NET+'''int main(){ asio::io_context io; std::string p=port(io); io::v2::TcpListener l{io,"127.0.0.1",p}; int acc=0; l.asyncAccept([&](io::Listener&, io::channel_ptr_t c){ ++acc; return true; },[](io::Listener&,std::exception_ptr){});
 asio::ip::tcp::endpoint ep{asio::ip::make_address("127.0.0.1"),(unsigned short)std::stoi(p)}; { asio::io_context c; asio::ip::tcp::socket s{c}; s.connect(ep); s.set_option(asio::socket_base::linger(true,0)); s.close(); } std::this_thread::sleep_for(std::chrono::milliseconds(50)); io.run_for(std::chrono::milliseconds(100)); io.restart();
 int before=acc; asio::io_context c; asio::ip::tcp::socket s{c}; s.connect(ep); io.run_for(std::chrono::milliseconds(200)); std::cerr<<before<<" "<<acc<<"\\n"; REQ(acc==before+1); return 0; }'''),
dict(id='c27-accept-stop', prop='C27', edits=[(HT,'''        catch (const std::exception& e)
        {
            // note: this only affects the connection that is being established
            LOG_ERROR_S("error while accepting incoming channel -> " << e.what());
''','''        catch (const std::runtime_error& e)
        {
            // note: this only affects the connection that is being established
            LOG_ERROR_S("error while accepting incoming channel -> " << e.what());
''')], needs='a channel that was already initialised handed to the host by a listener', breaks='the failure escapes from the accept handler and the listener is removed',
 demo='''#include "h.h"
struct FL : io::Listener { bool* gone; FL(bool* g): gone(g){} ~FL(){ *gone=true; } void asyncAcceptImpl() override {} void acc(io::channel_ptr_t c){ try { processAccept(std::move(c)); } catch (...) { processError(std::current_exception()); } } };
#include <dots/io/channels/LocalChannel.h>
int main(){ asio::io_context io; HostTransceiver h{"h", io}; bool g1=false; auto& a=static_cast<FL&>(h.listen(std::make_unique<FL>(&g1))); type::Registry reg; auto c=io::make_channel<io::LocalChannel>(io); c->init(reg); a.acc(c); io.run_for(std::chrono::milliseconds(20)); std::cerr<<g1<<"\\n"; return g1; }'''),
]
