#include <dots/asio.h>
#include <dots/HostTransceiver.h>
#include <dots/GuestTransceiver.h>
#include <dots/io/Listener.h>
#include <dots/dots.h>
#include <DotsMsgConnect.dots.h>
#include <DotsMember.dots.h>
#include <DotsMsgError.dots.h>
#include <DotsMsgHello.dots.h>
#include <DotsContinuousRecorderStatus.dots.h>
#include <DotsMsgConnectResponse.dots.h>
#include <iostream>
#include <functional>
using namespace dots;
struct TC : io::Channel {
  bool fail=false; std::vector<std::pair<DotsHeader,std::string>> sent; std::optional<type::AnyStruct> last; std::function<void()> onSend;
  TC(io::Channel::key_t k):io::Channel(k){ initEndpoints(io::Endpoint{"tcp://127.0.0.1"}, io::Endpoint{"tcp://127.0.0.1"}); }
  void asyncReceiveImpl() override { ++reads; }
  void transmitImpl(const DotsHeader& h, const type::Struct& i) override { if(fail) throw std::runtime_error{"send failed"}; sent.emplace_back(h,i._descriptor().name()); last.reset(); last.emplace(i); if(onSend) onSend(); }
  void transmitImpl(const io::Transmission& t) override { transmitImpl(t.header(), t.instance()); }
  int reads=0;
  void rx(io::Transmission t){ processReceive(std::move(t)); }
  template<class S> void rxs(const S& s, bool remove=false){ rx(io::Transmission{DotsHeader{.typeName=s._descriptor().name(), .attributes=remove? s._keyProperties():s._validProperties(), .removeObj=remove}, type::AnyStruct{s}}); }
  void err(std::exception_ptr e){ processError(e);} 
  size_t count(const std::string& n, size_t from=0){ size_t r=0; for(size_t i=from;i<sent.size();++i) if(*sent[i].first.typeName==n) ++r; return r; }
};
struct TL : io::Listener { int accepts=0; void asyncAcceptImpl() override {++accepts;} void acc(io::channel_ptr_t c){ processAccept(std::move(c)); } };
struct Host {
  asio::io_context ctx; HostTransceiver h{"host", ctx}; TL* l;
  Host(){ auto p=std::make_unique<TL>(); l=p.get(); h.listen(io::listener_ptr_t{std::move(p)}); }
  std::shared_ptr<TC> guest(const char* name="g"){ auto ch=io::make_channel<TC>(); auto p=std::static_pointer_cast<TC>(ch); l->acc(ch); ch.reset(); p->rxs(DotsMsgConnect{.clientName=name,.preloadCache=false}); return p; }
};
template<class T> void join(TC& c){ c.rxs(DotsMember{.groupName=T::_Descriptor().name(), .event=DotsMemberEvent::join}); }
using Rec=DotsContinuousRecorderStatus;
