// instantiates member templates of dots::Transceiver, so that they can be analysed
#include <dots/Transceiver.h>
#include <DotsClient.dots.h>
dots::Subscription instSubscribe(dots::Transceiver& transceiver, dots::Transceiver::event_handler_t<DotsClient> handler)
{
    return transceiver.subscribe<DotsClient>(std::move(handler));
}
