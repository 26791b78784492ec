AP='lib/src/Application.cpp'; DO='lib/src/dots.cpp'; IO='lib/include/dots/io/Io.h'; AH='lib/include/dots/Application.h'
PR=['C30']
S=[
dict(id='rf30-wait-loop', props=PR, edits=[(AP,'''        for (;;)
        {
            if (m_guestConnectionError != nullptr)
            {
                std::rethrow_exception(m_guestConnectionError);
            }

            if (transceiver.connected())
            {
                break;
            }
            else if (!transceiver.hasConnection() || ioContext().run_one() == 0)
            {
                throw std::runtime_error{ "connection to host was not established" };
            }
        }
''','''        while (m_guestConnectionError == nullptr && !transceiver.connected())
        {
            const bool processed = transceiver.hasConnection() && ioContext().run_one() > 0;

            if (!processed)
            {
                throw std::runtime_error{ "connection to host was not established" };
            }
        }

        if (m_guestConnectionError != nullptr)
        {
            std::rethrow_exception(m_guestConnectionError);
        }
''')]),
dict(id='rf30-guard', props=PR, edits=[(AP,'''        if (m_hostTransceiverStorage != std::nullopt)
        {
            m_hostTransceiverStorage = std::nullopt;
        }
        else if (m_guestTransceiverStorage != std::nullopt)
        {
            m_guestTransceiverStorage = std::nullopt;
        }
        else
        {
            global_transceiver_destroy();
        }
''','''        const bool isGlobal = !m_hostTransceiverStorage.has_value() && !m_guestTransceiverStorage.has_value();

        if (isGlobal)
        {
            global_transceiver_destroy();
        }
        else
        {
            m_hostTransceiverStorage.reset();
            m_guestTransceiverStorage.reset();
        }
''')]),
dict(id='rf30-transition', props=PR, edits=[(AP,'''        m_guestConnectionError = ePtr;

        if (connection.closed())
        {
            exit();
        }
''','''        m_guestConnectionError = std::move(ePtr);

        if (!connection.closed())
        {
            return;
        }

        m_exitCode = EXIT_SUCCESS;
        ioContext().stop();
''')]),
dict(id='rf30-signal-helper', props=PR, edits=[(AP,'''        if (handleExitSignals)
        {
            m_signals = std::make_shared<signal_set_storage>(ioContext());
            m_signals->signalSet.async_wait([this, signals{ std::weak_ptr<signal_set_storage>{ m_signals } }](boost::system::error_code error, int/* signalNumber*/)
            {
                if (!signals.expired() && !error)
                {
                    exit();
                }
            });
        }

        for (;;)
''','''        if (handleExitSignals)
        {
            m_signals = std::make_shared<signal_set_storage>(ioContext());
            m_signals->signalSet.async_wait([this, signals{ std::weak_ptr<signal_set_storage>{ m_signals } }](boost::system::error_code error, int/* signalNumber*/)
            {
                if (signals.lock() == nullptr || error.failed())
                {
                    return;
                }

                exit(EXIT_SUCCESS);
            });
        }

        for (;;)
''')]),
dict(id='rf30-endpoint', props=PR, edits=[(AP,'''        if (auto it = args.find("dots-endpoint"); it != args.end())
        {
            m_openEndpoint.emplace(it->second.as<std::string>());
        }
        else if (const char* openEndpointUri = ::getenv("DOTS_ENDPOINT"); openEndpointUri != nullptr)
        {
            m_openEndpoint.emplace(openEndpointUri);
        }
        else
        {
             m_openEndpoint.emplace("tcp://127.0.0.1");
        }
''','''        std::string uri = "tcp://127.0.0.1";

        if (args.count("dots-endpoint") > 0)
        {
            uri = args["dots-endpoint"].as<std::string>();
        }
        else if (const char* openEndpointUri = ::getenv("DOTS_ENDPOINT"))
        {
            uri = openEndpointUri;
        }

        m_openEndpoint.emplace(uri);
''')]),
dict(id='rf30-promise', props=PR, edits=[(IO,'''                try
                {
                    if constexpr (std::is_same_v<return_t, void>)
                    {
                        std::invoke(handler);
                        promise.set_value();
                    }
                    else
                    {
                        promise.set_value(std::invoke(handler));
                    }
                }
                catch (...)
                {
                    promise.set_exception(std::current_exception());
                }
''','''                std::exception_ptr ePtr;

                try
                {
                    if constexpr (std::is_same_v<return_t, void>)
                    {
                        handler();
                        promise.set_value();
                    }
                    else
                    {
                        auto result = handler();
                        promise.set_value(std::move(result));
                    }
                }
                catch (...)
                {
                    ePtr = std::current_exception();
                }

                if (ePtr != nullptr)
                {
                    promise.set_exception(ePtr);
                }
''')]),
dict(id='rf30-global', props=PR, edits=[(DO,'''        if (global_transceiver_is_set()) {
            throw std::runtime_error("global_transceiver_create: global_transceiver is already set.");
        }
        g_global_transceiver = std::move(transceiver);
        return global_transceiver();
''','''        if (!g_global_transceiver)
        {
            return g_global_transceiver.emplace(std::move(transceiver));
        }

        throw std::runtime_error("global_transceiver_create: global_transceiver is already set.");
'''),(DO,'''        global_transceiver().clear();
        g_global_transceiver.reset();
''','''        g_global_transceiver->clear();
        g_global_transceiver = std::nullopt;
''')]),
]
