CH='lib/src/io/Channel.cpp'; LI='lib/src/io/Listener.cpp'; TL='lib/src/io/channels/TcpListener.cpp'; UL='lib/src/io/channels/UdsListener.cpp'; LC='lib/src/io/channels/LocalChannel.cpp'; LL='lib/src/io/channels/LocalListener.cpp'; WL='lib/src/io/channels/WebSocketListener.cpp'; AS='lib/include/dots/io/channels/AsyncStreamChannel.h'; HT='lib/src/HostTransceiver.cpp'; WS='lib/src/io/channels/WebSocketChannel.cpp'
PR=['C26','C27','C28']
S=[
dict(id='rf-local-error', props=PR, edits=[(LC,'''                if (descriptor == nullptr)
                {
                    throw std::runtime_error{ "encountered unknown type: " + *header.typeName };
                }
''','''                if (descriptor == nullptr)
                {
                    other->processError("encountered unknown type: " + *header.typeName);
                    return;
                }
''')]),
dict(id='rf-tcp-helper', props=PR, edits=[(TL,'''    template <typename TChannel>
    void GenericTcpListener<TChannel>::asyncAcceptImpl()
''','''    namespace
    {
        void configure(asio::ip::tcp::socket& socket)
        {
            constexpr int MinimumSendBufferSize = 1024 * 1024;

            socket.non_blocking(true);
            socket.set_option(asio::ip::tcp::socket::keep_alive(true));
            socket.set_option(asio::ip::tcp::no_delay(true));

            asio::socket_base::send_buffer_size size;
            socket.get_option(size);

            if (size.value() >= MinimumSendBufferSize)
            {
                return;
            }

            socket.set_option(asio::socket_base::send_buffer_size(MinimumSendBufferSize));
        }
    }

    template <typename TChannel>
    void GenericTcpListener<TChannel>::asyncAcceptImpl()
'''),(TL,'''                m_socket.non_blocking(true);
                m_socket.set_option(asio::ip::tcp::no_delay(true));
                m_socket.set_option(asio::ip::tcp::socket::keep_alive(true));

                constexpr int MinimumSendBufferSize = 1024 * 1024;
                asio::socket_base::send_buffer_size sendBufferSize;
                m_socket.get_option(sendBufferSize);

                if (sendBufferSize.value() < MinimumSendBufferSize)
                {
                    m_socket.set_option(asio::socket_base::send_buffer_size(MinimumSendBufferSize));
                }
''','''                configure(m_socket);
''')]),
dict(id='rf-uds-split', props=PR, edits=[(UL,'''            if (this_.expired() || error == asio::error::operation_aborted || !m_acceptor.is_open())
            {
                return;
            }
''','''            const bool alive = !this_.expired();

            if (!alive)
            {
                return;
            }

            if (!m_acceptor.is_open() || error == asio::error::operation_aborted)
            {
                return;
            }
''')]),
dict(id='rf-listener-return', props=PR, edits=[(LI,'''        if ((*m_acceptHandler)(*this, std::move(channel)))
        {
            asyncAcceptImpl();
        }
        else if (!weakThis_.expired())
        {
''','''        const bool proceed = (*m_acceptHandler)(*this, std::move(channel));

        if (proceed)
        {
            asyncAcceptImpl();
            return;
        }

        if (!weakThis_.expired())
        {
''')]),
dict(id='rf-listener-error', props=PR, edits=[(LI,'''        if (m_asyncAcceptActive)
        {
            m_asyncAcceptActive = false;
            (*m_errorHandler)(*this, ePtr);
        }
''','''        if (!std::exchange(m_asyncAcceptActive, false))
        {
            return;
        }

        (*m_errorHandler)(*this, std::move(ePtr));
''')]),
dict(id='rf-channel-error', props=PR, edits=[(CH,'''        try
        {
            m_asyncReceiving = false;
            (*m_errorHandler)(ePtr);
        }
''','''        m_asyncReceiving = false;
        auto& handler = *m_errorHandler;

        try
        {
            handler(ePtr);
        }
''')]),
dict(id='rf-receive-reorder', props=PR, edits=[(CH,'''        m_receiveHandler = std::move(receiveHandler);
        m_errorHandler = std::move(errorHandler);
        m_asyncReceiving = true;
        asyncReceiveImpl();
''','''        m_asyncReceiving = true;
        m_errorHandler.emplace(std::move(errorHandler));
        m_receiveHandler.emplace(std::move(receiveHandler));
        asyncReceiveImpl();
''')]),
dict(id='rf-process-receive', props=PR, edits=[(CH,'''            if ((*m_receiveHandler)(std::move(transmission)))
            {
                asyncReceiveImpl();
            }
            else if (auto channel_ = channel.lock(); channel_ != nullptr)
            {
                channel_->m_asyncReceiving = false;
            }
''','''            if (bool proceed = (*m_receiveHandler)(std::move(transmission)); !proceed)
            {
                if (!channel.expired())
                {
                    m_asyncReceiving = false;
                }
            }
            else
            {
                asyncReceiveImpl();
            }
''')]),
dict(id='rf-ws-helper', props=PR, edits=[(WS,'''                m_serializer.setInput(static_cast<const char*>(m_buffer.cdata().data()), m_buffer.size());
                m_serializer.reader().readArrayBegin();
                DotsHeader header;
                m_serializer.deserialize(header);
                type::AnyStruct instance{ registry().getStructType(*header.typeName) };
                m_serializer.deserialize(*instance);
                m_serializer.reader().readArrayEnd();

                processReceive(Transmission{ std::move(header), std::move(instance) });
            }
            catch (...)
            {
                processError(std::current_exception());
            }
''','''                auto decode = [this]() -> Transmission
                {
                    m_serializer.setInput(static_cast<const char*>(m_buffer.cdata().data()), m_buffer.size());
                    m_serializer.reader().readArrayBegin();
                    DotsHeader header;
                    m_serializer.deserialize(header);
                    type::AnyStruct instance{ registry().getStructType(*header.typeName) };
                    m_serializer.deserialize(*instance);
                    m_serializer.reader().readArrayEnd();

                    return Transmission{ std::move(header), std::move(instance) };
                };

                processReceive(decode());
            }
            catch (...)
            {
                processError(std::current_exception());
            }
''')]),
dict(id='rf-read-dispatch', props=PR, edits=[(AS,'''                if (m_readDispatching)
                {
                    m_readDispatching = false;
                }
                else
                {
                    asyncReceiveImpl();
                }
''','''                if (!std::exchange(m_readDispatching, false))
                {
                    asyncReceiveImpl();
                }
''')]),
dict(id='rf-host-accept', props=['C27','C04','C06'], edits=[(HT,'''        m_listeners.erase(&listener);
    }
''','''        if (auto it = m_listeners.find(&listener); it != m_listeners.end())
        {
            m_listeners.erase(it);
        }
    }
''')]),
]
