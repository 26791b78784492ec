
GT='lib/src/GuestTransceiver.cpp'; HT='lib/src/HostTransceiver.cpp'; UR='lib/src/tools/Uri.cpp'; LA='lib/src/io/auth/LegacyAuthManager.cpp'; TLc='lib/src/io/channels/TcpListener.cpp'; TCc='lib/src/io/channels/TcpChannel.cpp'; UL='lib/src/io/channels/UdsListener.cpp'
A=['C32','C03','C02','C31']
S=[
dict(id='r9-is', props=A, edits=[(HT,'std::string_view scheme = listenEndpoint.scheme();','std::string_view scheme = listenEndpoint.scheme();\n            auto is = [scheme](std::string_view what) { return scheme == what; };'),(HT,'if (scheme == "tcp")','if (is("tcp"))'),(HT,'if (scheme == "tcp-v2")','if (is("tcp-v2"))'),(HT,'if (scheme == "ws")','if (is("ws"))'),
  (GT,'std::string_view scheme = endpoint.scheme();','const std::string scheme{ endpoint.scheme() };'),(GT,'std::string{ scheme } + "\'" };','scheme + "\'" };')]),
dict(id='r9-port', props=A, edits=[(TLc,'std::string{ endpoint.port().empty() ? DefaultPort : endpoint.port() }','[&]() -> std::string { if (!endpoint.port().empty()) { return std::string{ endpoint.port() }; } return std::string{ DefaultPort }; }()'),(TCc,'endpoint.port().empty() ? DefaultPort : endpoint.port()','endpoint.port().size() > 0 ? endpoint.port() : std::string_view{ DefaultPort }')]),
dict(id='r9-network', props=A, edits=[(LA,"""        if (remoteEndpoint.scheme() == "tcp" || remoteEndpoint.scheme() == "ws")
        {
            if (requires""","""        if (is_network(remoteEndpoint))
        {
            if (requires"""),(LA,"""        if (remoteEndpoint.scheme() == "tcp" || remoteEndpoint.scheme() == "ws")
        {
            DotsMsg""","""        if (is_network(remoteEndpoint))
        {
            DotsMsg"""),(LA,"""namespace dots::io
{
""","""namespace dots::io
{
    static bool is_network(const Endpoint& e)
    {
        for (std::string_view s : { "tcp", "ws" })
        {
            if (e.scheme() == s)
            {
                return true;
            }
        }

        return false;
    }

""")]),
dict(id='r9-network2', props=A, edits=[(LA,"""        if (remoteEndpoint.scheme() == "tcp" || remoteEndpoint.scheme() == "ws")
        {
            if (requires""","""        if (is_network(remoteEndpoint))
        {
            if (requires"""),(LA,"""        if (remoteEndpoint.scheme() == "tcp" || remoteEndpoint.scheme() == "ws")
        {
            DotsMsg""","""        if (is_network(remoteEndpoint))
        {
            DotsMsg"""),(LA,"""namespace dots::io
{
""","""namespace dots::io
{
    static bool is_network(const Endpoint& e)
    {
        const std::string scheme{ e.scheme() };
        return "ws" == scheme || !(scheme != "tcp");
    }

""")]),
dict(id='r9-parse', props=A, edits=[(UR,"""            m_authority = {};
            m_userName = {};
            m_userPassword = {};
            m_hostDelimited = {};
            m_host = {};
            m_port = {};
""","""            for (std::string_view* part : { &m_authority, &m_userName, &m_userPassword, &m_hostDelimited, &m_host, &m_port })
            {
                *part = {};
            }
""")]),
dict(id='r9-parse2', props=A, edits=[(UR,"""            m_userName = {};
            m_userPassword = {};
            m_hostDelimited = {};
            m_host = {};
            m_port = {};
""","""            m_userName = m_userPassword = std::string_view{};
            m_hostDelimited = m_host = m_port = std::string_view{};
""")]),
dict(id='r9-order', props=A, edits=[(GT,"""        if (scheme == "tcp")
        {
            return open<io::TcpChannel>""","""        if (scheme == "ws")
        {
            return open<io::WebSocketChannel>(std::move(preloadPublishTypes), std::move(preloadSubscribeTypes), std::move(authSecret), std::move(endpoint));
        }

        if (scheme == "tcp")
        {
            return open<io::TcpChannel>"""),(GT,"""        else if (scheme == "ws")
        {
            return open<io::WebSocketChannel>(std::move(preloadPublishTypes), std::move(preloadSubscribeTypes), std::move(authSecret), std::move(endpoint));
        }
        else
        {
            throw""","""        {
            throw""")]),
dict(id='r9-uds', props=A, edits=[(UL,'GenericUdsListener(ioContext, endpoint.path(), backlog)','GenericUdsListener(ioContext, path_of(endpoint), backlog)'),(UL,"""    template <typename TChannel>
    GenericUdsListener<TChannel>::GenericUdsListener(asio::io_context& ioContext, const Endpoint& endpoint""","""    static std::string_view path_of(const Endpoint& endpoint) { return endpoint.path(); }

    template <typename TChannel>
    GenericUdsListener<TChannel>::GenericUdsListener(asio::io_context& ioContext, const Endpoint& endpoint""")]),
]
