// instantiates the helpers that run a handler in an event loop, so that they can be analysed
#include <dots/asio.h>
#include <dots/io/Io.h>
#include <functional>
std::future<void> instPostVoid(dots::asio::io_context& ioContext, std::function<void()> handler)
{
    return dots::io::post_and_promise_result(ioContext, std::move(handler));
}
std::future<int> instPostValue(dots::asio::io_context& ioContext, std::function<int()> handler)
{
    return dots::io::post_and_promise_result(ioContext, std::move(handler));
}
