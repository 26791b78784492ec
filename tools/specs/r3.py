AS='lib/include/dots/io/channels/AsyncStreamChannel.h'; LC='lib/src/io/channels/LocalChannel.cpp'; CH='lib/src/io/Channel.cpp'; TL='lib/src/io/channels/TcpListener.cpp'; CO='lib/src/Connection.cpp'; LI='lib/src/io/Listener.cpp'; HT='lib/src/HostTransceiver.cpp'; GT='lib/src/GuestTransceiver.cpp'
P=['C26','C25','C27','C28'] if 0 else ['C26']
S=[
dict(id='guard-helper', props=P, edits=[(AS,'''                        if (this_.expired() || (this_.use_count() == 1 && m_asyncWriting))
                        {
                            return;
                        }

                        verifyErrorCode(ec);''','''                        if (isReleased(this_))
                        {
                            return;
                        }

                        verifyErrorCode(ec);'''),(AS,'''        template <typename Handler>
        void asyncRead(''','''        bool isReleased(const std::weak_ptr<Channel>& channel) const
        {
            return channel.expired() || (m_asyncWriting && channel.use_count() == 1);
        }

        template <typename Handler>
        void asyncRead(''')]),
dict(id='guard-split', props=P, edits=[(AS,'''                        if (this_.expired() || (this_.use_count() == 1 && m_asyncWriting))
                        {
                            return;
                        }

                        verifyErrorCode(ec);''','''                        if (this_.expired())
                        {
                            return;
                        }

                        if (const bool onlyWriting = m_asyncWriting && this_.use_count() == 1; onlyWriting)
                        {
                            return;
                        }

                        verifyErrorCode(ec);''')]),
dict(id='process-bool', props=P, edits=[(CH,'''            if ((*m_receiveHandler)(std::move(transmission)))
            {
                asyncReceiveImpl();
            }
            else if (auto channel_ = channel.lock(); channel_ != nullptr)
            {
                channel_->m_asyncReceiving = false;
            }''','''            const bool continueReceiving = (*m_receiveHandler)(std::move(transmission));

            if (!continueReceiving)
            {
                if (!channel.expired())
                {
                    m_asyncReceiving = false;
                }

                return;
            }

            asyncReceiveImpl();''')]),
dict(id='local-early', props=P, edits=[(LC,'''            auto other = peer.lock();

            try
            {
                if (other == nullptr)
                {
                    return;
                }
''','''            std::shared_ptr<LocalChannel> other = peer.lock();

            if (!other)
            {
                return;
            }

            try
            {''')]),
dict(id='tcp-configure', props=P, edits=[(TL,'''            if (error)
            {
                processError(std::make_exception_ptr''','''            const bool failed = static_cast<bool>(error);

            if (failed)
            {
                processError(std::make_exception_ptr''')]),
dict(id='listener-flag', props=P, edits=[(LI,'''        if ((*m_acceptHandler)(*this, std::move(channel)))
        {
            asyncAcceptImpl();
        }
        else if (!weakThis_.expired())
        {
            m_asyncAcceptActive = false;
            m_acceptHandler = std::nullopt;
            m_errorHandler = std::nullopt;
        }''','''        bool acceptNext = (*m_acceptHandler)(*this, std::move(channel));

        if (acceptNext)
        {
            asyncAcceptImpl();
            return;
        }

        if (weakThis_.lock() != nullptr)
        {
            m_errorHandler.reset();
            m_acceptHandler.reset();
            m_asyncAcceptActive = false;
        }''')]),
dict(id='host-return', props=P+['C02','C09'], edits=[(HT,'''        dispatcher().dispatch(transmission);
        transmit(transmission);

        return !connection.closed();''','''        dispatcher().dispatch(transmission);
        transmit(transmission);

        if (connection.closed())
        {
            return false;
        }

        return true;''')]),
dict(id='guest-return', props=P, edits=[(GT,'''        dispatcher().dispatch(transmission);

        return !connection.closed();''','''        dispatcher().dispatch(transmission);
        const bool open = connection.state() != DotsConnectionState::closed;

        return open;''')]),
dict(id='conn-inline', props=P+['C01','C04','C06'], edits=[(CO,'''            return handleReceiveImpl(std::move(transmission));
        }
        catch (...)
        {
            if (m_connectionState == DotsConnectionState::closed)
            {
                return false;
            }

            throw;
        }''','''            const bool receive = handleReceiveImpl(std::move(transmission));

            return receive;
        }
        catch (...)
        {
            if (m_connectionState != DotsConnectionState::closed)
            {
                throw;
            }
        }

        return false;''')]),
dict(id='write-helper', props=P, edits=[(AS,'''                    catch (...)
                    {
                        if (this_.use_count() > 1)
                        {
                            processError(std::current_exception());
                        }
                    }''','''                    catch (...)
                    {
                        const auto owners = this_.use_count() - 1;

                        if (this_.use_count() < 2)
                        {
                            return;
                        }

                        (void)owners;
                        processError(std::current_exception());
                    }''')]),
]
