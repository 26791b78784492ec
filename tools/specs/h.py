AS='lib/include/dots/io/channels/AsyncStreamChannel.h'; LC='lib/src/io/channels/LocalChannel.cpp'; WS='lib/src/io/channels/WebSocketChannel.cpp'
N2='''#include "h.h"
#include <dots/io/channels/TcpListener.h>
#include <dots/io/channels/TcpChannel.h>
#include <dots/io/channels/LocalChannel.h>
#include <dots/io/channels/LocalListener.h>
#include <dots/serialization/CborSerializer.h>
#include <DotsTransportHeader.dots.h>
#include <thread>
#define REQ(x) do { if(!(x)) { std::cerr << "FAILED: " #x "\\n"; return 1; } } while(0)
static std::string port(asio::io_context& io){ asio::ip::tcp::acceptor a{io, {asio::ip::tcp::v4(),0}}; return std::to_string(a.local_endpoint().port()); }
template<class L> struct Net { asio::io_context io; type::Registry reg; std::string p=port(io); L l{io,"127.0.0.1",p}; std::vector<io::channel_ptr_t> chs; std::vector<std::unique_ptr<asio::ip::tcp::socket>> ss; std::vector<std::pair<DotsHeader,type::AnyStruct>> got; int errs=0; std::vector<std::vector<uint8_t>> in;
 Net(int n=1){ l.asyncAccept([&](io::Listener&, io::channel_ptr_t c){ c->init(reg); c->asyncReceive([&](io::Transmission t){ got.emplace_back(t.header(), type::AnyStruct{*t.instance()}); return true; }, [&](std::exception_ptr e){ ++errs; }); chs.push_back(std::move(c)); return true; }, [](io::Listener&, std::exception_ptr){});
  for(int i=0;i<n;++i){ ss.push_back(std::make_unique<asio::ip::tcp::socket>(io)); ss.back()->connect({asio::ip::make_address("127.0.0.1"),(unsigned short)std::stoi(p)}); while((int)chs.size()<=i) run(20); } in.resize(n); }
 void run(int ms){ io.restart(); io.run_for(std::chrono::milliseconds(ms)); }
 // everything the i-th peer can read
 std::vector<uint8_t>& rd(int i=0, int rounds=10){ auto& s=*ss[i]; s.non_blocking(true); for(int k=0;k<rounds;){ run(20); std::vector<uint8_t> b(1<<20); boost::system::error_code ec; size_t n=s.read_some(asio::buffer(b),ec); if(n) in[i].insert(in[i].end(),b.begin(),b.begin()+n), k=0; else ++k; } return in[i]; } };
struct Msg { DotsHeader h; type::AnyStruct i; };
// decodes a v2 byte stream; empty optional when it is not a sequence of frames
inline std::optional<std::vector<Msg>> decode2(type::Registry& reg, const std::vector<uint8_t>& b){ std::vector<Msg> r; size_t at=0; try{ while(at<b.size()){ if(b.size()-at<5||b[at]!=0x1a) return {}; size_t n=(size_t(b[at+1])<<24)|(b[at+2]<<16)|(b[at+3]<<8)|b[at+4]; if(b.size()-at-5<n) return {};
  serialization::CborSerializer q; q.setInput(b.data()+at+5,n); DotsHeader h; q.deserialize(h); type::AnyStruct i{reg.getStructType(*h.typeName)}; q.deserialize(*i); if(q.inputAvailable()!=0) return {}; r.push_back(Msg{std::move(h),std::move(i)}); at+=5+n; } }catch(std::exception& e){ std::cerr<<e.what()<<"\\n"; return {}; } return r; }
inline std::optional<std::vector<Msg>> decode1(type::Registry& reg, const std::vector<uint8_t>& b){ std::vector<Msg> r; size_t at=0; try{ while(at<b.size()){ if(b.size()-at<2) return {}; size_t n=b[at]|(b[at+1]<<8); at+=2; if(b.size()-at<n) return {};
  serialization::CborSerializer q; q.setInput(b.data()+at,n); DotsTransportHeader th; q.deserialize(th); if(q.inputAvailable()!=0) return {}; at+=n; size_t m=*th.payloadSize; if(b.size()-at<m) return {}; serialization::CborSerializer z; z.setInput(b.data()+at,m); type::AnyStruct i{reg.getStructType(*th.dotsHeader->typeName)}; z.deserialize(*i); if(z.inputAvailable()!=0) return {}; r.push_back(Msg{*th.dotsHeader,std::move(i)}); at+=m; } }catch(std::exception& e){ std::cerr<<e.what()<<"\\n"; return {}; } return r; }
template<class S> DotsHeader hdr(const S& s){ return DotsHeader{.typeName=s._descriptor().name(), .attributes=s._validProperties()}; }
template<class S> std::vector<uint8_t> frame2(const S& m, const char* type=nullptr){ serialization::CborSerializer q; DotsHeader h=hdr(m); q.serialize(h); q.serialize(m); uint32_t k=q.output().size(); std::vector<uint8_t> b{0x1a}; for(int j=3;j>=0;--j) b.push_back(k>>(8*j)); b.insert(b.end(),q.output().begin(),q.output().end()); return b; }
'''
S=[
dict(id='c25-batch-cached', prop='C25', edits=[(AS,'cacheBuffer.assign(begin, writeBuffer.end());','(void)begin;\n                    cacheBuffer.assign(writeBuffer.begin(), writeBuffer.end());')],
 needs='two transmissions queued on a connection while an earlier write is in progress, the second of which also goes to another connection', breaks='the other connection receives the first transmission in addition',
 demo=N2+'''int main(){ Net<io::v2::TcpListener> n{2};
 auto t=[&](int k){ DotsMsgError e{.errorCode=k}; return io::Transmission{hdr(e), type::AnyStruct{e}}; }; auto a=t(1), b=t(2), c=t(3); n.chs[0]->transmit(a); n.chs[0]->transmit(b); n.chs[0]->transmit(c); n.chs[1]->transmit(c);
 auto m=decode2(n.reg,n.rd(1)); REQ(m); REQ(m->size()==1); REQ(*m->front().i->_to<DotsMsgError>().errorCode==3); auto k=decode2(n.reg,n.rd(0)); REQ(k); REQ(k->size()==3); return 0; }'''),
dict(id='c25-cache-early', prop='C25', edits=[(AS,'''                    iterator_t begin = serializeTransmission(transmission.header(), transmission.instance());
                    cacheId = transmission.id();
''','''                    cacheId = transmission.id();
                    iterator_t begin = serializeTransmission(transmission.header(), transmission.instance());
''')],
 needs='a transmission that cannot be serialized, sent to more than one connection of a listener', breaks='the second connection receives the transmission sent before it in its place',
 demo=N2+'''int main(){ Net<io::v2::TcpListener> n{2};
 DotsMsgError e{.errorCode=1}; io::Transmission a{hdr(e), type::AnyStruct{e}}; n.chs[0]->transmit(a); n.rd(0); io::Transmission bad{DotsHeader{.typeName="DotsMsgError"}, type::AnyStruct{e}};
 int thrown=0; for(int i=0;i<2;++i) try{ n.chs[i]->transmit(bad); }catch(...){ ++thrown; } auto m=decode2(n.reg,n.rd(1)); REQ(m); REQ(m->empty()); REQ(thrown==2); return 0; }'''),
dict(id='c25-size-narrow', prop='C25', edits=[(AS,'auto transmissionSize = static_cast<transmission_size_t>(payloadSize - TransmissionSizeSize);','auto transmissionSize = static_cast<transmission_size_t>(static_cast<uint16_t>(payloadSize - TransmissionSizeSize));')],
 needs='a message of more than 65535 bytes', breaks='the announced size is truncated and the stream is out of step',
 demo=N2+'''int main(){ Net<io::v2::TcpListener> n; Rec r; r.recorderId=std::string(100000,'x'); n.chs[0]->transmit(hdr(r),r); auto m=decode2(n.reg,n.rd()); REQ(m); REQ(m->size()==1); return 0; }'''),
dict(id='c25-v1-attributes', prop='C25', edits=[(AS,'serializer.serialize(instance, *header.attributes);\n                std::vector<uint8_t> serializedInstance','serializer.serialize(instance);\n                std::vector<uint8_t> serializedInstance')],
 needs='a partial update (header announcing fewer properties than the instance has) on a v1 connection', breaks='properties that are not announced are sent',
 demo=N2+'''int main(){ Net<io::v1::TcpListener> n; DotsMsgError e{.errorCode=7,.errorText="text"}; DotsHeader h=hdr(e); h.attributes=DotsMsgError::errorCode_p; n.chs[0]->transmit(h,e); auto m=decode1(n.reg,n.rd()); REQ(m); REQ(m->size()==1); auto& x=m->front().i->_to<DotsMsgError>(); REQ(*x.errorCode==7); REQ(!x.errorText.isValid()); return 0; }'''),
dict(id='c25-read-room', prop='C25', edits=[(AS,'auto process_transmission_size = [this, process_transmission]\n                {\n                    if (size_t transmissionSize = deserializeTransmissionSize(); transmissionSize <= m_serializer.inputAvailable())','auto process_transmission_size = [this, process_transmission]\n                {\n                    if (size_t transmissionSize = deserializeTransmissionSize(); transmissionSize <= m_readBuffer.size() - TransmissionSizeSize)')],
 needs='a message that arrives in more than one piece', breaks='a partial message is decoded',
 demo=N2+'''int main(){ Net<io::v2::TcpListener> n; Rec r; r.recorderId=std::string(300,'x'); auto f=frame2(r); asio::write(*n.ss[0],asio::buffer(f.data(),100)); n.run(200); asio::write(*n.ss[0],asio::buffer(f.data()+100,f.size()-100)); n.run(200); REQ(n.errs==0); REQ(n.got.size()==1); REQ(n.got[0].second->_to<Rec>().recorderId->size()==300); return 0; }'''),
dict(id='c25-read-offset', prop='C25', edits=[(AS,'uint8_t* readBufferBegin = m_readBuffer.data() + availableBytes;','uint8_t* readBufferBegin = m_readBuffer.data() + (requiredBytes > ReadBufferMinSize ? availableBytes : availableBytes & ~size_t{ 1 });')],
 needs='a message that arrives in two pieces, the first of which leaves an odd number of unread bytes', breaks='an unread byte is overwritten',
 demo=N2+'''int main(){ Net<io::v2::TcpListener> n; Rec r; std::string t; for(int i=0;i<300;++i) t+=char('a'+i*7%26); r.recorderId=t; auto f=frame2(r); for(size_t cut: {99,100}){ asio::write(*n.ss[0],asio::buffer(f.data(),cut)); n.run(200); asio::write(*n.ss[0],asio::buffer(f.data()+cut,f.size()-cut)); n.run(200);} REQ(n.errs==0); REQ(n.got.size()==2); REQ(*n.got[1].second->_to<Rec>().recorderId==t); return 0; }'''),
dict(id='c25-flush-early', prop='C25', edits=[(AS,'''            serializeTransmission(transmission);

            if (!m_asyncWriting)''','''            serializeTransmission(transmission);

            if (!m_asyncWriting || m_serializer.output().size() > WriteBufferMaxSize / 2)''')],
 needs='more than five megabytes queued while a write is in progress', breaks='a second write is started while the first one is in progress, whose buffer is exchanged',
 demo=N2+'''int main(){ Net<io::v2::TcpListener> n; auto t=[&](char c){ Rec r; r.recorderId=std::string(6*1024*1024,c); return io::Transmission{hdr(r),type::AnyStruct{r}}; }; auto a=t('a'), b=t('b'); n.chs[0]->transmit(a); n.run(50); n.chs[0]->transmit(b); auto m=decode2(n.reg,n.rd()); REQ(m); REQ(m->size()==2); REQ(*(*m)[0].i->_to<Rec>().recorderId==std::string(6*1024*1024,'a')); REQ(*(*m)[1].i->_to<Rec>().recorderId==std::string(6*1024*1024,'b')); return 0; }'''),
dict(id='c25-v1-stale-header', prop='C25', edits=[(AS,'''                m_transportHeader = {};
                m_serializer.deserialize(m_transportHeader);''','''                m_serializer.deserialize(m_transportHeader);''')],
 needs='a v1 connection receiving a message without payload size after a complete one', breaks='the message is taken to have the size of an earlier one',
 demo=N2+'''static std::vector<uint8_t> frame1(DotsHeader h, const type::Struct& s, bool sized){ serialization::CborSerializer p; p.serialize(s,*h.attributes); DotsTransportHeader t{.dotsHeader=h}; if(sized) t.payloadSize=(uint32_t)p.output().size(); serialization::CborSerializer q; q.serialize(t); std::vector<uint8_t> b{(uint8_t)q.output().size(),(uint8_t)(q.output().size()>>8)}; b.insert(b.end(),q.output().begin(),q.output().end()); b.insert(b.end(),p.output().begin(),p.output().end()); return b; }
int main(){ Net<io::v1::TcpListener> n; DotsMsgError e{.errorCode=7}; DotsHeader h=hdr(e); asio::write(*n.ss[0],asio::buffer(frame1(h,e,true))); n.run(200); REQ(n.got.size()==1); asio::write(*n.ss[0],asio::buffer(frame1(hdr(e),e,false))); n.run(200); REQ(n.got.size()==1); REQ(n.errs==1); return 0; }'''),
dict(id='c25-local-attributes', prop='C25', edits=[(LC,'data = to_cbor(instance, *header.attributes)','data = to_cbor(instance)')],
 needs='a partial update sent over a local channel', breaks='properties that are not announced are sent',
 demo=N2+'''int main(){ asio::io_context io; type::Registry ra, rb; io::LocalListener l{io}; io::channel_ptr_t host; std::optional<type::AnyStruct> got; l.asyncAccept([&](io::Listener&, io::channel_ptr_t c){ host=std::move(c); host->init(ra); host->asyncReceive([&](io::Transmission t){ got.emplace(*t.instance()); return true; },[](std::exception_ptr){}); return true; },[](io::Listener&,std::exception_ptr){});
 auto guest=io::make_channel<io::LocalChannel>(io,l); guest->init(rb); io.run(); io.restart(); REQ(host!=nullptr); DotsMsgError e{.errorCode=7,.errorText="text"}; DotsHeader h=hdr(e); h.attributes=DotsMsgError::errorCode_p; guest->transmit(h,e); io.run(); REQ(got); REQ(!(*got)->_to<DotsMsgError>().errorText.isValid()); return 0; }'''),
]
