exec(open('/tmp/s/e.py').read().split('\nS=[')[0])
TI='lib/src/Timer.cpp'; FO='lib/src/io/FdObserver.cpp'; DO='lib/src/dots.cpp'
H29='''#include "h.h"
#include <dots/Timer.h>
#include <dots/io/Io.h>
#include <dots/io/FdObserver.h>
#include <unistd.h>
#include <sys/socket.h>
#include <thread>
#define REQ(x) do { if(!(x)) { std::cerr << "FAILED: " #x "\\n"; return 1; } } while(0)
using namespace std::chrono_literals; using D=type::Duration;
'''
S=[
dict(id='c29-decided-early', prop='C29', edits=[(TI,'''            timerData->handler();

            if (timerData->periodic && (timerData.use_count() != 1 || timerData->discarded))
            {
''','''            const bool proceed = timerData->periodic && (timerData.use_count() != 1 || timerData->discarded);
            timerData->handler();

            if (proceed)
            {
''')], needs='a periodic timer that is destroyed by its own handler', breaks='the removed timer keeps waiting once more and keeps its handler and the event loop alive until then',
 demo=H29+'''int main(){ asio::io_context c; std::unique_ptr<Timer> t; auto tok=std::make_shared<int>(1); std::weak_ptr<int> w=tok; int n=0; t=std::make_unique<Timer>(c, D{0.05}, [&,tok]{ ++n; t.reset(); }, true); tok.reset();
 c.run_one(); REQ(n==1); REQ(w.expired()); REQ(c.poll_one()==0); return 0; }'''),
dict(id='c29-drift', prop='C29', edits=[(TI,'type::SteadyTimePoint timepoint = timerData->next += timerData->interval;','type::SteadyTimePoint timepoint = timerData->next = type::SteadyTimePoint::Now() + timerData->interval;')], needs='a periodic timer whose handler (or another one) takes a noticeable part of the interval', breaks='the period gets longer by the time spent, so that the timer drifts',
 demo=H29+'''int main(){ asio::io_context c; int n=0; Timer t{c, D{0.05}, [&]{ ++n; std::this_thread::sleep_for(40ms); }, true}; auto s=std::chrono::steady_clock::now(); while(n<10) c.run_one(); auto d=std::chrono::steady_clock::now()-s; REQ(d<720ms); REQ(d>=500ms); return 0; }'''),
dict(id='c29-error-again', prop='C29', edits=[(FO,'''                observerData->handler(nullptr);

                if (observerData.use_count() != 1 || observerData->discarded)
                {
                    AsyncWait(observerData);
                }
            }
''','''                observerData->handler(nullptr);
            }

            if (observerData.use_count() != 1 || observerData->discarded)
            {
                AsyncWait(observerData);
            }
''')], needs='an observer of a descriptor for which waiting fails', breaks='the observer reports the same failure again and again',
 demo=H29+'''int main(){ char tmp[]="/tmp/c29XXXXXX"; int fd=mkstemp(tmp); REQ(fd>=0); unlink(tmp); asio::io_context c; int n=0,e=0; io::posix::FdObserver o(c, fd, [&](std::exception_ptr p){ ++n; if(p) ++e; });
 for(int i=0;i<20;++i) c.poll_one(); REQ(n==1); REQ(e==1); return 0; }'''),
dict(id='c29-discard-lost', prop='C29', edits=[(TI,'if ((timerData.use_count() == 1 && !timerData->discarded) || error == asio::error::operation_aborted)','if (timerData.use_count() == 1 || error == asio::error::operation_aborted)')], needs='a timer that was detached by discard() before it expires', breaks='the handler of a detached timer is never called',
 demo=H29+'''int main(){ asio::io_context c; int n=0; { Timer t{c, D{0.02}, [&]{ ++n; }, false}; t.discard(); } c.run_for(200ms); REQ(n==1); return 0; }'''),
dict(id='c29-remove-next', prop='C29', edits=[(DO,'                m_timers.erase(id);\n','''                if (auto it = m_timers.lower_bound(id); it != m_timers.end())
                {
                    m_timers.erase(it);
                }
''')], needs='removing a timer id a second time while a younger timer exists', breaks='another timer is removed',
 demo=H29+'''int main(){ int n=0; auto a=add_timer(D{0.01},[]{},false); auto b=add_timer(D{0.02},[&]{ ++n; },false); (void)b; remove_timer(a); remove_timer(a); io::global_io_context().run_for(200ms); REQ(n==1); return 0; }'''),
dict(id='c29-id-reused', prop='C29', edits=[(DO,'                Timer::id_t id = ++m_lastTimerId;\n','                Timer::id_t id = m_lastTimerId = static_cast<Timer::id_t>(m_timers.size() + 1);\n')], needs='removing a timer that is not the youngest and adding another one', breaks='the id of an existing timer is used again, so the new timer is never created',
 demo=H29+'''int main(){ int n=0; auto a=add_timer(D{0.01},[]{},false); auto b=add_timer(D{0.02},[]{},false); remove_timer(a); auto c=add_timer(D{0.03},[&]{ ++n; },false); REQ(c!=b); io::global_io_context().run_for(200ms); REQ(n==1); return 0; }'''),
dict(id='c29-kept-alive', prop='C29', edits=[(FO,'''        observerData->streamDescriptor.async_wait(observerData->waitType, [observerData](boost::system::error_code error)
        {
            if (''','''        observerData->streamDescriptor.async_wait(observerData->waitType, [observerData](boost::system::error_code error)
        {
            const std::shared_ptr<observer_data> guard = observerData;

            if (''')], needs='an observer destroyed between the readiness of its descriptor and the execution of the completion', breaks='the additional reference makes the destroyed observer look registered: its handler is still called',
 demo=H29+'''int main(){ asio::io_context c; int s[2]; REQ(socketpair(AF_UNIX,SOCK_STREAM,0,s)==0); int n=0; std::unique_ptr<io::posix::FdObserver> o; o=std::make_unique<io::posix::FdObserver>(c, s[0], [&](std::exception_ptr){ ++n; if(n==1) o.reset(); });
 REQ(write(s[1],"x",1)==1); c.run_for(100ms); REQ(n==1); return 0; }'''),
]
