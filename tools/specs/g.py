exec(open('/tmp/s/f.py').read().split('\nS=[')[0])
AP='lib/src/Application.cpp'; DO='lib/src/dots.cpp'; IO='lib/include/dots/io/Io.h'
H30='''#undef DOTS_NO_GLOBAL_TRANSCEIVER
#include "h.h"
#include <dots/Application.h>
#include <dots/io/Io.h>
#include <thread>
#define REQ(x) do { if(!(x)) { std::cerr << "FAILED: " #x "\\n"; _exit(1); } } while(0)
struct Srv { asio::io_context c; std::thread t; int port; std::function<void(asio::ip::tcp::socket&)> f; asio::ip::tcp::acceptor a; Srv(std::function<void(asio::ip::tcp::socket&)> f): f(f), a(c,{asio::ip::address_v4::loopback(),0}) { port=a.local_endpoint().port(); setenv("DOTS_ENDPOINT",("tcp://127.0.0.1:"+std::to_string(port)).c_str(),1); t=std::thread([this]{ asio::ip::tcp::socket s(c); a.accept(s); this->f(s); }); } ~Srv(){ t.join(); } };
inline void watch(int n=20){ std::thread([n]{ sleep(n); std::cerr<<"FAILED: hangs\\n"; _exit(1); }).detach(); }
struct HostThread { asio::io_context c; HostTransceiver h{"host",c}; std::thread t; int port; HostThread(){ { asio::io_context x; asio::ip::tcp::acceptor a(x,{asio::ip::address_v4::loopback(),0}); port=a.local_endpoint().port(); } std::string u="tcp://127.0.0.1:"+std::to_string(port); setenv("DOTS_ENDPOINT",u.c_str(),1); h.listen(std::vector<io::Endpoint>{io::Endpoint{u}}); t=std::thread([this]{ auto w=asio::make_work_guard(c); c.run(); }); } void stop(){ c.stop(); if(t.joinable()) t.join(); } ~HostThread(){ stop(); } };
'''
S=[
dict(id='c30-exit-code', prop='C30', edits=[(AP,'''        m_exitCode = EXIT_SUCCESS;
        ioContext().run();

        return m_exitCode;
''','''        ioContext().run();

        return std::exchange(m_exitCode, EXIT_SUCCESS);
'''),(AP,'#include <dots/Application.h>\n','#include <utility>\n#include <dots/Application.h>\n'),(AP,'''        m_exitCode = exitCode;
        ioContext().stop();
''','''        ioContext().stop();
        asio::post(ioContext(), [this, exitCode]{ m_exitCode = exitCode; });
''')], needs='an application ended with a specific exit code', breaks='the exit code is stored only by a posted handler, which the stopped loop never executes',
 demo=H30+'''int main(){ watch(); asio::io_context c; int p; { asio::io_context x; asio::ip::tcp::acceptor a(x,{asio::ip::address_v4::loopback(),0}); p=a.local_endpoint().port(); } setenv("DOTS_ENDPOINT",("tcp://127.0.0.1:"+std::to_string(p)).c_str(),1); Application app{HostTransceiver{"h",c}, false}; asio::post(c,[&]{ app.exit(7); }); REQ(app.exec()==7); return 0; }'''),
dict(id='c30-lost-connection', prop='C30', edits=[(AP,'''        if (connection.closed())
        {
            exit();
        }
''','''        if (connection.closed() && ePtr != nullptr)
        {
            exit();
        }
''')], needs='a host that closes the connection gracefully', breaks='the application keeps running without its host',
 extra='-fno-access-control', demo=H30+'''int main(){ watch(10); HostThread h; Application app{"x", std::nullopt, false}; REQ(global_transceiver().connected());
 asio::post(io::global_io_context(), []{ const_cast<Connection&>(global_transceiver().connection()).handleClose(nullptr); }); asio::steady_timer keep{io::global_io_context(), std::chrono::seconds{60}}; keep.async_wait([](auto){}); app.exec(); return 0; }'''),
dict(id='c30-double-destroy', prop='C30', edits=[(AP,'''        if (m_hostTransceiverStorage != std::nullopt)
        {
            m_hostTransceiverStorage = std::nullopt;
        }
        else if (m_guestTransceiverStorage != std::nullopt)
        {
            m_guestTransceiverStorage = std::nullopt;
        }
        else
''','''        m_hostTransceiverStorage = std::nullopt;
        m_guestTransceiverStorage = std::nullopt;

        if (global_transceiver_is_set())
''')], needs='an application with its own transceiver in a program that also has a global transceiver', breaks='destroying the application destroys a global transceiver it does not own',
 demo=H30+'''int main(){ watch(); asio::io_context c; int p; { asio::io_context x; asio::ip::tcp::acceptor a(x,{asio::ip::address_v4::loopback(),0}); p=a.local_endpoint().port(); } setenv("DOTS_ENDPOINT",("tcp://127.0.0.1:"+std::to_string(p)).c_str(),1); global_transceiver_create(GuestTransceiver{"g",io::global_io_context()}); { Application app{HostTransceiver{"h",c}, false}; } REQ(global_transceiver_is_set()); global_transceiver_destroy(); return 0; }'''),
dict(id='c30-secret-order', prop='C30', edits=[(AP,'''        if (auto it = args.find("dots-auth-secret"); it != args.end())
        {
            m_openEndpoint->setUserPassword(it->second.as<std::string>());
        }
        else if (const char* dotsAuthSecret = ::getenv("DOTS_AUTH_SECRET"); dotsAuthSecret != nullptr)
        {
            m_openEndpoint->setUserPassword(dotsAuthSecret);
        }
''','''        if (const char* dotsAuthSecret = ::getenv("DOTS_AUTH_SECRET"); dotsAuthSecret != nullptr)
        {
            m_openEndpoint->setUserPassword(dotsAuthSecret);
        }
        else if (auto it = args.find("dots-auth-secret"); it != args.end())
        {
            m_openEndpoint->setUserPassword(it->second.as<std::string>());
        }
''')], needs='a secret on the command line and another one in the environment', breaks='the environment overrides the command line, so the application cannot connect', 
 extra='-fno-access-control', demo=H30+'''int main(){ asio::io_context c; int p; { asio::io_context x; asio::ip::tcp::acceptor a(x,{asio::ip::address_v4::loopback(),0}); p=a.local_endpoint().port(); } setenv("DOTS_ENDPOINT",("tcp://127.0.0.1:"+std::to_string(p)).c_str(),1); setenv("DOTS_AUTH_SECRET","env",1);
 Application app{HostTransceiver{"h",c}, false}; char a0[]="x", a1[]="--dots-auth-secret=cmd", a2[]="--dots-endpoint=tcp://u@127.0.0.1"; char* av[]={a0,a1,a2,nullptr}; app.parseGuestTransceiverArgs(3,av); REQ(app.m_openEndpoint->userPassword()=="cmd"); return 0; }'''),
dict(id='c30-set-without-check', prop='C30', edits=[(DO,'''        if (global_transceiver_is_set()) {
            throw std::runtime_error("global_transceiver_create: global_transceiver is already set.");
        }
''','''        if (global_transceiver_is_set() && g_global_transceiver->connected()) {
            throw std::runtime_error("global_transceiver_create: global_transceiver is already set.");
        }
''')], needs='creating a second global transceiver (or application) while the first one is not connected', breaks='the existing global transceiver with its subscriptions is replaced silently',
 demo=H30+'''int main(){ auto& g=global_transceiver_create(GuestTransceiver{"g",io::global_io_context()}); (void)g; bool t=false; try { global_transceiver_create(GuestTransceiver{"h",io::global_io_context()}); } catch(const std::exception&){ t=true; } REQ(t); REQ(global_transceiver().selfName()=="g"); return 0; }'''),
dict(id='c30-clear-skipped', prop='C30', edits=[(DO,'''        global_transceiver().clear();
        g_global_transceiver.reset();
''','''        g_global_transceiver.reset();
''')], needs='destroying the global transceiver while a handler owns a subscription of its own', breaks='handlers are destroyed while the transceiver is already being destroyed', 
 demo=H30+'''int main(){ global_transceiver_create(GuestTransceiver{"g",io::global_io_context()}); bool had=false; auto d=std::shared_ptr<int>(new int(1),[&](int* p){ had=global_transceiver_is_set(); delete p; });
 (void)0; Subscription* s=new Subscription{global_transceiver().subscribe([d](const type::Descriptor<>&){})}; d.reset(); global_transceiver_destroy(); REQ(had); (void)s; _exit(0); }'''),
dict(id='c30-closed-error', prop='C30', edits=[(AP,'''        m_guestConnectionError = ePtr;

        if (connection.closed())
        {
            exit();
        }
''','''        if (connection.connected() || connection.closed())
        {
            m_guestConnectionError = connection.connected() ? ePtr : nullptr;
        }

        if (connection.closed())
        {
            exit();
        }
''')], needs='a host that refuses the connection with an error', breaks='the reason of the failure is replaced by a general one',
 demo=H30+'''int main(){ watch(); bool eof=false; Srv s([](asio::ip::tcp::socket& k){ k.close(); }); try { Application app{"x", std::nullopt, false}; } catch(const std::exception& e){ eof=std::string(e.what()).find("End of file")!=std::string::npos || std::string(e.what()).find("reset")!=std::string::npos; std::cerr<<e.what()<<"\\n"; } REQ(eof); s.t.detach(); s.t=std::thread([]{}); return 0; }'''),
]
