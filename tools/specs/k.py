import runpy
P=[s for s in runpy.run_path('/tmp/s/i.py')['S']][0]['demo']; P=P[:P.index('int main')]
GT='lib/src/GuestTransceiver.cpp'; HT='lib/src/HostTransceiver.cpp'; UR='lib/src/tools/Uri.cpp'; LA='lib/src/io/auth/LegacyAuthManager.cpp'; TLc='lib/src/io/channels/TcpListener.cpp'; TCc='lib/src/io/channels/TcpChannel.cpp'; WS='lib/src/io/channels/WebSocketChannel.cpp'; UL='lib/src/io/channels/UdsListener.cpp'; CH='lib/include/dots/io/channels/TcpChannel.h'
L='listenEndpoint.setPort(std::string{ io::v1::TcpListener::DefaultPort });'
Q=P+'''#include <dots/io/Endpoint.h>
'''
Hh=P+'''#include "h.h"
#include <dots/io/channels/TcpListener.h>
#include <dots/io/channels/TcpChannel.h>
#include <dots/io/channels/UdsChannel.h>
#include <dots/io/channels/UdsListener.h>
#include <dots/io/channels/WebSocketListener.h>
#include <dots/io/auth/LegacyAuthManager.h>
'''
C3=open('/verif/seeded/c03-priority-find/demo.cpp').read(); C3=C3[:C3.index('int main')]
S=[
dict(id='c31-group', prop='C31', edits=[(GT,'m_joinedGroups.erase(std::string(name));','m_joinedGroups.erase(name.data());'),(GT,'if (m_joinedGroups.count(std::string(name)))','if (m_joinedGroups.count(name.data()))')],
 needs='a group name that is part of a longer text', breaks='the group is never left',
 extra='-fno-access-control', demo=P+'''#include <dots/asio.h>
#include <dots/GuestTransceiver.h>
struct G : dots::GuestTransceiver { using GuestTransceiver::GuestTransceiver; void publish(const dots::type::Struct&, std::optional<dots::property_set_t>, bool) override {} };
int main(){ dots::asio::io_context c; G g{"g", c}; g.m_joinedGroups.insert("Alpha"); std::string t="AlphaBeta"; try{ g.leaveGroup(std::string_view{t}.substr(0,5)); }catch(...){} REQ(g.m_joinedGroups.empty()); return 0; }'''),
dict(id='c32-guest-uds-v1', prop='C32', edits=[(GT,'return open<io::posix::v1::UdsChannel>','return open<io::posix::v2::UdsChannel>')],
 needs='a host that listens on an uds-v1 endpoint', breaks='guest and host speak different wire formats',
 extra='-fno-access-control', demo=Hh+'''int main(){ std::string path="/tmp/c32-"+std::to_string(::getpid()); dots::asio::io_context c; HostTransceiver h{"h", c}; h.listen(std::vector<io::Endpoint>{io::Endpoint{"uds-v1:"+path}}); dots::asio::io_context c2; GuestTransceiver g{"g", c2}; const Connection& k=g.open({}, {}, io::Endpoint{"uds-v1:"+path}); io::Channel* ch=const_cast<Connection&>(k).m_channel.get(); REQ(dynamic_cast<io::posix::v1::UdsChannel*>(ch)!=nullptr); return 0; }'''),
dict(id='c32-auth-ws', prop='C32', edits=[(LA,'''        if (remoteEndpoint.scheme() == "tcp" || remoteEndpoint.scheme() == "ws")
        {
            DotsMsgConnect connect{''','''        if (remoteEndpoint.scheme() == "tcp")
        {
            DotsMsgConnect connect{''')],
 needs='a web socket client and an accepting default policy', breaks='web socket peers bypass the rules for their address',
 demo=C3+'''int main(){ Host H; io::LegacyAuthManager m{H.h}; { DotsAuthenticationPolicy q; q.nameSpace="n"; q.accept=true; H.h.publish(q); }
  { DotsAuthentication r; r.nameSpace="n"; r.network=DotsNetwork{.network="10.0.0.0",.prefix=8}; r.priority=2; r.clientName=""; r.accept=false; H.h.publish(r); }
  io::Nonce n{5}; io::Digest d{n,io::Nonce{6},"g","wrong"}; REQ(!m.verifyAuthentication(io::Endpoint{"tcp://10.0.0.1"},"g",n,io::Nonce{6},d)); REQ(!m.verifyAuthentication(io::Endpoint{"ws://10.0.0.1"},"g",n,io::Nonce{6},d)); return 0; }'''),
dict(id='c32-listen-unknown', prop='C32', edits=[(HT,'''                throw std::runtime_error{ "unknown or unsupported endpoint scheme: '" + std::string{ scheme } + "'" };''','''                LOG_ERROR_S("unknown or unsupported endpoint scheme: '" << scheme << "'");
                continue;''')],
 needs='an endpoint with a misspelt scheme', breaks='the host runs without listening on the endpoint',
 demo=Hh+'''int main(){ dots::asio::io_context c; HostTransceiver h{"h", c}; std::vector<io::Endpoint> eps{io::Endpoint{"tpc://127.0.0.1:0"}}; REQ(throws([&]{ h.listen(eps); })); return 0; }'''),
dict(id='c32-uri-port', prop='C32', edits=[(UR,'            m_port = {};\n','')],
 needs='an URI that is assigned one without authority', breaks='the port is a view into the previous text',
 demo=Q+'''int main(){ io::Endpoint e{"tcp://host-with-a-rather-long-name.example:1234"}; e=io::Endpoint{"uds:/p"}; REQ(e.port().empty()); return 0; }'''),
dict(id='c32-remote', prop='C32', edits=[(TCc,'''        if (stream().is_open())
        {
            initEndpoints(Endpoint{ stream().local_endpoint() }, Endpoint{ stream().remote_endpoint() });''','''        if (stream().is_open())
        {
            initEndpoints(Endpoint{ stream().local_endpoint() }, Endpoint{ "tcp", stream().remote_endpoint().address().to_string(), stream().local_endpoint().port() });''')],
 needs='a look at the port of an accepted peer', breaks='the peer is named by the port of the listener', extra='-fno-access-control',
 demo=Hh+'''int main(){ dots::asio::io_context c; io::TcpListener l{c, io::Endpoint{"tcp://127.0.0.1:23451"}}; io::channel_ptr_t ch; l.asyncAccept([&](io::Listener&, io::channel_ptr_t k){ ch=std::move(k); return false; }, [](io::Listener&, std::exception_ptr){}); dots::asio::ip::tcp::socket s{c}; s.connect({dots::asio::ip::address::from_string("127.0.0.1"), 23451}); c.run_for(std::chrono::milliseconds(500)); REQ(ch!=nullptr); REQ(ch->remoteEndpoint().port()==std::to_string(s.local_endpoint().port())); return 0; }'''),
dict(id='c32-listen-v1', prop='C32', edits=[(HT,'listen<io::v1::TcpListener>(listenEndpoint);','listen<io::TcpListener>(listenEndpoint);')],
 needs='an old client connecting to a tcp-v1 endpoint', breaks='the host answers in the wrong wire format', extra='-fno-access-control',
 demo=Hh+'''int main(){ dots::asio::io_context c; HostTransceiver h{"h", c}; h.listen(std::vector<io::Endpoint>{io::Endpoint{"tcp-v1://127.0.0.1:23452"}}); REQ(dynamic_cast<io::v1::TcpListener*>(h.m_listeners.begin()->first)!=nullptr); return 0; }'''),
dict(id='c32-ipv6', prop='C32', edits=[(UR,'m_host = m_hostDelimited.substr(1, m_hostDelimited.size() - 2);','m_host = m_hostDelimited.substr(1, m_hostDelimited.find_last_of(\':\') - 1);')],
 needs='an IPv6 address', breaks='the last group of the address is lost', demo=Q+'''int main(){ io::Endpoint e{"tcp://[fe80::1:2]:80"}; REQ(e.host()=="fe80::1:2"); return 0; }'''),
dict(id='c32-port', prop='C32', edits=[(CH,'case TransmissionFormat::v1: return "11234";','case TransmissionFormat::v1: return "11235";')],
 needs='an endpoint without port', breaks='x', demo=Hh+'''int main(){ REQ(io::v1::TcpChannel::DefaultPort!=io::v2::TcpChannel::DefaultPort); return 0;}'''),
dict(id='c32-uds-path', prop='C32', edits=[(UL,'GenericUdsListener(ioContext, endpoint.path(), backlog)','GenericUdsListener(ioContext, endpoint.path().substr(0, endpoint.path().find(\'.\')), backlog)')],
 needs='a socket path with a dot in it', breaks='the listener is found at another path', demo=Hh+'''#include <sys/stat.h>
int main(){ std::string path="/tmp/c32-"+std::to_string(::getpid())+".sock"; dots::asio::io_context c; io::posix::v1::UdsListener l{c, io::Endpoint{"uds:"+path}}; struct stat st; REQ(::stat(path.c_str(),&st)==0); return 0; }'''),
]
