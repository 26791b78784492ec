AS='lib/include/dots/io/channels/AsyncStreamChannel.h'; LC='lib/src/io/channels/LocalChannel.cpp'; HT='lib/src/HostTransceiver.cpp'; WS='lib/src/io/channels/WebSocketChannel.cpp'
NET='''#include "h.h"
#include <dots/io/channels/TcpListener.h>
#include <dots/io/channels/TcpChannel.h>
#include <dots/io/channels/LocalChannel.h>
#include <dots/io/channels/LocalListener.h>
#include <dots/serialization/CborSerializer.h>
#define REQ(x) do { if(!(x)) { std::cerr << "FAILED: " #x "\\n"; return 1; } } while(0)
template<class S> std::vector<uint8_t> frame(const S& m){ serialization::CborSerializer q; DotsHeader h; h.typeName=m._descriptor().name(); h.attributes=m._validProperties(); q.serialize(h); q.serialize(m);
 uint32_t k=q.output().size(); std::vector<uint8_t> b{0x1a}; for(int j=3;j>=0;--j) b.push_back(k>>(8*j)); b.insert(b.end(),q.output().begin(),q.output().end()); return b; }
static std::string port(asio::io_context& io){ asio::ip::tcp::acceptor a{io, {asio::ip::tcp::v4(),0}}; return std::to_string(a.local_endpoint().port()); }
struct Net { asio::io_context io; type::Registry reg; std::string p=port(io); io::v2::TcpListener l{io,"127.0.0.1",p}; io::channel_ptr_t ch; asio::ip::tcp::socket s{io}; bool released=false; int late=0, errs=0, got=0; std::function<bool()> onRx;
 void start(){ l.asyncAccept([&](io::Listener&, io::channel_ptr_t c){ ch=std::move(c); ch->init(reg); ch->asyncReceive([&](io::Transmission){ ++got; if(released) ++late; return onRx?onRx():true; },[&](std::exception_ptr){ ++errs; if(released) ++late; }); return false; },[](io::Listener&,std::exception_ptr){});
  s.connect({asio::ip::make_address("127.0.0.1"),(unsigned short)std::stoi(p)}); run(300); }
 void run(int ms){ io.restart(); io.run_for(std::chrono::milliseconds(ms)); }
 void fill(){ Rec r; r.recorderId=std::string(6*1024*1024,'x'); for(int i=0;i<3;++i){ try{ ch->transmit(r); }catch(...){ } run(200);} }
 void release(){ released=true; ch.reset(); } };
'''
S=[
dict(id='c26-read-orphan', prop='C26', edits=[(AS,'''                        if (this_.expired() || (this_.use_count() == 1 && m_asyncWriting))
                        {
                            return;
                        }

                        verifyErrorCode(ec);''','''                        if (this_.expired())
                        {
                            return;
                        }

                        verifyErrorCode(ec);''')],
 needs='a channel released by its owner while a write is still pending, and data arriving afterwards', breaks='the receive handler of the destroyed owner is called', extra=' /repo/lib/src/io/channels/TcpChannel.cpp' if 0 else '',
 demo=NET+'''int main(){ Net n; n.start(); REQ(n.ch!=nullptr); n.fill(); n.release(); n.run(100); asio::write(n.s,asio::buffer(frame(DotsMsgError{.errorCode=1}))); n.run(400); REQ(n.late==0); return 0; }'''),
dict(id='c26-write-orphan', prop='C26', edits=[(AS,'''                        if (this_.use_count() > 1)
                        {
                            processError(std::current_exception());
                        }''','''                        if (this_.use_count() >= 1)
                        {
                            processError(std::current_exception());
                        }''')],
 needs='a channel released by its owner while a write is pending that fails afterwards', breaks='the error handler of the destroyed owner is called',
 demo=NET+'''int main(){ Net n; n.start(); REQ(n.ch!=nullptr); n.fill(); n.release(); n.run(100); boost::system::error_code ec; n.s.set_option(asio::socket_base::linger(true,0)); n.s.close(ec); n.run(500); REQ(n.late==0); return 0; }'''),
dict(id='c26-write-weak', prop='C26', edits=[(AS,'[&, this_{ shared_from_this() }]','[&, this_{ weak_from_this() }]')],
 needs='a channel released by its owner after its write was performed but before the completion is called', breaks='the completion accesses the destroyed channel',
 asan=['lib/src/io/channels/TcpChannel.cpp'],
 demo=NET+'''int main(){ Net n; n.start(); REQ(n.ch!=nullptr); n.ch->transmit(DotsMsgError{.errorCode=1}); n.ch->transmit(DotsMsgError{.errorCode=2}); n.release(); n.run(300); REQ(n.late==0); return 0; }'''),
dict(id='c26-local-raw', prop='C26', edits=[(LC,'[peer = m_peer, header = header','[other = other.get(), header = header'),(LC,'''            auto other = peer.lock();

            try''','''            try''')],
 needs='a local channel destroyed while a transmission to it is pending', breaks='the transmission is delivered to the destroyed channel',
 asan=['lib/src/io/channels/LocalChannel.cpp'],
 demo=NET+'''int main(){ asio::io_context io; type::Registry ra, rb; io::LocalListener l{io}; io::channel_ptr_t host; int got=0; l.asyncAccept([&](io::Listener&, io::channel_ptr_t c){ host=std::move(c); host->init(ra); host->asyncReceive([&](io::Transmission){ ++got; return true; },[&](std::exception_ptr){}); return true; },[](io::Listener&,std::exception_ptr){});
 auto guest=io::make_channel<io::LocalChannel>(io,l); guest->init(rb); io.run(); io.restart(); REQ(host!=nullptr); guest->transmit(DotsMsgError{.errorCode=1}); io.run(); io.restart(); REQ(got==1); guest->transmit(DotsMsgError{.errorCode=1}); host.reset(); io.run(); REQ(got==1); return 0; }'''),
dict(id='c26-member-continue', prop='C26', edits=[(HT,'''        transmit(transmission);

        return !connection.closed();''','''        transmit(transmission);

        return true;''')],
 needs='a guest that receives its own publications and whose connection fails while the host sends it one of them', breaks='the host continues to receive on the closed connection',
 demo='''#include "h.h"
#define REQ(x) do { if(!(x)) { std::cerr << "FAILED: " #x "\\n"; return 1; } } while(0)
int main(){ Host h; Subscription s=h.h.subscribe<Rec>([](auto&){}); auto a=h.guest(); a->rxs(Rec{.recorderId="x"}); auto b=h.guest("h"); join<Rec>(*b); int r=b->reads; b->fail=true; b->rxs(Rec{.recorderId="y"}); REQ(b->reads==r); return 0; }'''),
dict(id='c26-ws-expired', prop='C26', edits=[(WS,'''                if (this_.expired())
                {
                    return;
                }

                verifyErrorCode(ec);''','''                verifyErrorCode(ec);''')],
 needs='a WebSocket channel destroyed while it is receiving', breaks='the completion accesses the destroyed channel',
 asan=['lib/src/io/channels/WebSocketChannel.cpp'],
 demo='''#include "h.h"
#include <dots/io/channels/WebSocketListener.h>
#include <dots/io/channels/WebSocketChannel.h>
#include <thread>
#define REQ(x) do { if(!(x)) { std::cerr << "FAILED: " #x "\\n"; return 1; } } while(0)
int main(){ asio::io_context io; type::Registry reg; std::string p; { asio::ip::tcp::acceptor a{io,{asio::ip::tcp::v4(),0}}; p=std::to_string(a.local_endpoint().port()); }
 io::WebSocketListener l{io,"127.0.0.1",p}; io::channel_ptr_t ch; int late=0; l.asyncAccept([&](io::Listener&, io::channel_ptr_t c){ ch=std::move(c); ch->init(reg); ch->asyncReceive([&](io::Transmission){ return true; },[&](std::exception_ptr){ ++late; }); return false; },[](io::Listener&,std::exception_ptr){});
 std::thread t([&]{ asio::io_context o; try { auto c=io::make_channel<io::WebSocketChannel>(o,"127.0.0.1",p); std::this_thread::sleep_for(std::chrono::milliseconds(1500)); } catch(std::exception& e){ std::cerr<<e.what()<<"\\n"; } });
 io.run_for(std::chrono::milliseconds(700)); bool ok=ch!=nullptr; ch.reset(); io.restart(); io.run_for(std::chrono::milliseconds(1500)); t.join(); REQ(ok); REQ(late==0); return 0; }'''),
]
