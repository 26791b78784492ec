HT='lib/src/HostTransceiver.cpp'; CO='lib/src/Connection.cpp'; LA='lib/src/io/auth/LegacyAuthManager.cpp'; CT='lib/src/Container.cpp'
S=[
dict(id='r-ct-helper', props=['C12'], edits=[(CT,'''            if (valueDescriptor.less(lhsValue, rhsValue))
            {
                return true;
            }
            else if (valueDescriptor.less(rhsValue, lhsValue))
            {
                return false;
            }
''','''            const bool lhsIsLess = valueDescriptor.less(lhsValue, rhsValue);

            if (lhsIsLess)
                return true;

            if (valueDescriptor.less(rhsValue, lhsValue))
                return false;
'''),(CT,'''            cloneInfo.lastOperation = DotsMt::remove;
            cloneInfo.lastUpdateFrom = header.sender;
            cloneInfo.modified = header.sentTime;
            cloneInfo.localUpdateTime = timepoint_t::Now();
''','''            touch(cloneInfo, header, DotsMt::remove);
'''),(CT,'''    Container<type::Struct>::key_compare::key_compare(''','''    static void touch(DotsCloneInformation& info, const DotsHeader& header, DotsMt operation)
    {
        info.localUpdateTime = timepoint_t::Now();
        info.modified = header.sentTime;
        info.lastUpdateFrom = header.sender;
        info.lastOperation = operation;
    }

    Container<type::Struct>::key_compare::key_compare('''),
 (CT,'''        return it == m_instances.end() ? nullptr : &*it;''','''        if (it != m_instances.end())
        {
            return &*it;
        }

        return nullptr;'''),
 (CT,'''            if (property_set_t propertySet = propertyDescriptor.set(); propertySet <= updateSet)
            {''','''            const property_set_t propertySet = propertyDescriptor.set();

            if (!(propertySet <= updateSet))
            {
                continue;
            }

            {''')]),
dict(id='r-host', props=['C06','C07','C08','C09'], edits=[(HT,'''        for (Connection* destinationConnection : m_groups[*transmission.header().typeName])
        {
            if (destinationConnection->state() != DotsConnectionState::closed)
            {
''','''        auto& group = m_groups[*transmission.header().typeName];

        for (Connection* destinationConnection : group)
        {
            if (!destinationConnection->closed())
            {
'''),(HT,'''                for (const auto& [descriptor, container] : pool())
                {
                    if (descriptor->cleanup())
                    {
                        for (const auto& [instance, cloneInfo] : container)
                        {
                            if (connection.peerId() == cloneInfo.lastUpdateFrom)
                            {
                                cleanupInstances.emplace_back(instance);
                            }
                        }
                    }
                }
''','''                for (const auto& [descriptor, container] : pool())
                {
                    if (!descriptor->cleanup())
                    {
                        continue;
                    }

                    for (const auto& element : container)
                    {
                        if (element.second.lastUpdateFrom == connection.peerId())
                        {
                            cleanupInstances.push_back(element.first);
                        }
                    }
                }
'''),(HT,'''        DotsHeader header{
            .typeName = container.descriptor().name(),
            .fromCache = static_cast<uint32_t>(container.size()),
            .removeObj = false
        };
''','''        auto remaining = static_cast<uint32_t>(container.size());

        DotsHeader header{
            .typeName = container.descriptor().name(),
            .removeObj = false
        };
'''),(HT,'            --*header.fromCache;\n','            header.fromCache = --remaining;\n'),
 (HT,'''        if (member.event == DotsMemberEvent::kill)
        {
            LOG_WARN_S(connection.peerDescription() << " requested unsupported kill event");
        }
        else if (member.event == DotsMemberEvent::leave)
        {
            if (size_t removed = m_groups[groupName].erase(&connection); removed == 0)
            {
                LOG_WARN_S(connection.peerDescription() << " is not a member of group '" << groupName << "'");
            }
        }
        else if''','''        if (member.event == DotsMemberEvent::kill)
        {
            LOG_WARN_S(connection.peerDescription() << " requested unsupported kill event");
            return;
        }

        if (member.event == DotsMemberEvent::leave)
        {
            auto& members = m_groups[groupName];
            const size_t removed = members.erase(&connection);

            if (removed == 0)
            {
                LOG_WARN_S(connection.peerDescription() << " is not a member of group '" << groupName << "'");
            }
        }
        else if''')]),
dict(id='r-conn', props=['C01','C02','C04','C05','C06'], edits=[(CO,'''    void Connection::handlePreloadFinished(const DotsMsgConnectResponse&/* connectResponse*/)
    {
        setConnectionState(DotsConnectionState::connected);
        expectSystemType<DotsMsgError>(DotsMsgError::errorCode_p, &Connection::handlePeerError);
    }
''','''    void Connection::handlePreloadFinished(const DotsMsgConnectResponse&/* connectResponse*/)
    {
        expectSystemType<DotsMsgError>(DotsMsgError::errorCode_p, &Connection::handlePeerError);
        setConnectionState(DotsConnectionState::connected);
    }
'''),(CO,'''                    if (header.sender.isValid())
                    {
                        header.isFromMyself = header.sender == m_selfId;
                        return (*m_receiveHandler)(*this, std::move(transmission));
                    }
                    else
                    {
                        header.sender.emplace(m_peerId);
                        header.isFromMyself = false;
                        return (*m_receiveHandler)(*this, std::move(transmission));
                    }
''','''                    if (header.sender.isValid())
                    {
                        header.isFromMyself = *header.sender == m_selfId;
                    }
                    else
                    {
                        header.sender = m_peerId;
                        header.isFromMyself = false;
                    }

                    return (*m_receiveHandler)(*this, std::move(transmission));
'''),(CO,'''        if (connectResponse.accepted == false)
        {
            throw std::runtime_error{ "connection was not accepted by the host" };
        }

        m_selfId''','''        const bool accepted = connectResponse.accepted == true;

        if (!accepted)
        {
            throw std::runtime_error{ "connection was not accepted by the host" };
        }

        m_selfId'''),(CO,'''        if (m_authManager != nullptr && !m_authManager->verifyAuthentication(''','''        const bool needsVerification = m_authManager != nullptr;

        if (needsVerification && !m_authManager->verifyAuthentication(''')]),
dict(id='r-auth', props=['C02','C03'], edits=[(LA,'''        if (!accept.has_value())
        {
            accept = m_defaultAcceptPolicy;
        }

        return accept.value_or(true);''','''        if (accept.has_value())
        {
            return *accept;
        }

        return m_defaultAcceptPolicy.has_value() ? *m_defaultAcceptPolicy : true;'''),(LA,'''                    if (!msgConnect._hasProperties(DotsMsgConnect::authChallengeResponse_p + DotsMsgConnect::cnonce_p))
                    {''','''                    const bool proofGiven = msgConnect.authChallengeResponse.isValid() && msgConnect.cnonce.isValid();

                    if (!proofGiven)
                    {''')]),
]
