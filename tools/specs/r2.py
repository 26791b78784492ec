GT='lib/src/GuestTransceiver.cpp'; HT='lib/src/HostTransceiver.cpp'; DI='lib/src/Dispatcher.cpp'; TRX='lib/src/Transceiver.cpp'; SU='lib/src/Subscription.cpp'; CT='lib/src/Container.cpp'
D5=['C10','C11','C13','C14','C15','C04','C05','C07','C08','C09','C06','C12']
S=[
dict(id='r-sub-swap', props=['C15'], edits=[(SU,'''        if (std::optional<unsubscribe_handler_t> handler = std::exchange(m_handler, std::nullopt); handler != std::nullopt)
        {
            (*handler)();
        }''','''        if (!m_handler.has_value())
        {
            return;
        }

        unsubscribe_handler_t handler = std::move(*m_handler);
        m_handler.reset();
        handler();'''),(SU,'''        m_handler(std::move(other.m_handler))
    {
        other.m_handler = std::nullopt;
    }''','''        m_handler(std::exchange(other.m_handler, std::nullopt))
    {
        /* do nothing */
    }'''),(SU,'''        m_handler = std::move(rhs.m_handler);
        rhs.m_handler = std::nullopt;
''','''        m_handler.swap(rhs.m_handler);
''')]),
dict(id='r-sub-discard', props=['C15'], edits=[(SU,'''    void Subscription::discard()
    {
        m_handler = std::nullopt;''','''    void Subscription::discard()
    {
        m_handler.reset();''')]),
dict(id='r-tr-sub', props=['C15','C13','C14'], edits=[(TRX,'''        const auto& [id, handler_] = *m_newTypeHandlers.try_emplace(m_nextId++, std::move(handler)).first;

        try
        {
            m_registry.forEach(handler_);
        }
        catch (...)
        {
            // the caller will not get a subscription that could remove the handler
            m_newTypeHandlers.extract(id);
            throw;
        }

        return makeSubscription([id(id)](Transceiver& transceiver)
        {
            const std::vector<id_t>& dispatchingIds = transceiver.m_dispatchingIds;

            if (std::find(dispatchingIds.begin(), dispatchingIds.end(), id) != dispatchingIds.end())
            {
                transceiver.m_removeIds.emplace_back(id);
            }
            else
            {
                transceiver.m_newTypeHandlers.extract(id);
            }
        });''','''        const id_t id = m_nextId++;
        auto it = m_newTypeHandlers.emplace(id, std::move(handler)).first;

        try
        {
            m_registry.forEach(it->second);
        }
        catch (...)
        {
            m_newTypeHandlers.erase(id);
            throw;
        }

        return makeSubscription([id](Transceiver& transceiver)
        {
            const auto& busy = transceiver.m_dispatchingIds;
            const bool isBusy = std::find(busy.begin(), busy.end(), id) != busy.end();

            if (!isBusy)
            {
                transceiver.m_newTypeHandlers.extract(id);
                return;
            }

            transceiver.m_removeIds.push_back(id);
        });''')]),
dict(id='r-tr-mksub', props=['C15'], edits=[('lib/include/dots/Transceiver.h','''            if (std::shared_ptr<Transceiver*> this_ = weakThis.lock(); this_ != nullptr)
            {
                unsubscribeHandler(**this_);
            }''','''            auto location = weakThis.lock();

            if (!location)
            {
                return;
            }

            Transceiver& transceiver = **location;
            unsubscribeHandler(transceiver);''')]),
dict(id='r-tr-struct', props=['C15','C11','C13'], edits=[(TRX,'''        if (descriptor.substructOnly())
        {
            throw std::logic_error{ "attempt to subscribe to substruct-only type '" + descriptor.name() + "'" };
        }

        joinGroup(descriptor.name());
        Dispatcher::id_t id = m_dispatcher.addEventHandler(descriptor, std::move(handler));

        return makeSubscription([&descriptor, id](Transceiver& transceiver){ transceiver.m_dispatcher.removeEventHandler(descriptor, id); });''','''        if (descriptor.substructOnly())
        {
            throw std::logic_error{ "attempt to subscribe to substruct-only type '" + descriptor.name() + "'" };
        }

        const std::string& groupName = descriptor.name();
        joinGroup(groupName);
        const auto handlerId = dispatcher().addEventHandler(descriptor, std::move(handler));
        auto unsubscribe = [desc = &descriptor, handlerId](Transceiver& transceiver)
        {
            Dispatcher& disp = transceiver.dispatcher();
            disp.removeEventHandler(*desc, handlerId);
        };

        return makeSubscription(std::move(unsubscribe));''')]),
dict(id='r-disp-add', props=['C15','C13','C14'], edits=[(DI,'''        m_transmissionHandlerPool[&descriptor].emplace(id, std::move(handler));

        return id;''','''        auto& handlers = m_transmissionHandlerPool[&descriptor];
        handlers.try_emplace(id, std::move(handler));

        return id;'''),(DI,'''        const event_handler_t<>& handler_ = handlers.emplace(id, std::move(handler)).first->second;

        const Container<>& container = m_containerPool.get(descriptor);

        if (!container.empty())
        {''','''        auto [itHandler, inserted] = handlers.emplace(id, std::move(handler));
        (void)inserted;
        const event_handler_t<>& handler_ = itHandler->second;

        if (const Container<>& container = m_containerPool.get(descriptor); container.size() > 0)
        {''')]),
dict(id='r-disp-event', props=['C13','C14','C15'], edits=[(DI,'''            if (header.removeObj == true)
            {
                if (Container<>::node_t removed = container.remove(header, instance); !removed.empty())
                {
                    dispatchToHandlers(descriptor, handlers, Event<>{ header, instance, removed.key(), removed.mapped() });
                }
            }
            else
            {
                const auto& [updated, cloneInfo] = container.insert(header, instance);
                dispatchToHandlers(descriptor, handlers, Event<>{ header, instance, updated, cloneInfo });
            }''','''            const bool isRemoval = header.removeObj == true;

            if (!isRemoval)
            {
                const auto& [updated, cloneInfo] = container.insert(header, instance);
                Event<> event{ header, instance, updated, cloneInfo };
                dispatchToHandlers(descriptor, handlers, event);
                return;
            }

            Container<>::node_t removed = container.remove(header, instance);

            if (removed.empty())
            {
                return;
            }

            dispatchToHandlers(descriptor, handlers, Event<>{ header, instance, removed.key(), removed.mapped() });''')]),
dict(id='r-disp-handlers', props=['C13','C14','C15'], edits=[(DI,'''        for (const auto& [id, handler] : handlers)
        {
            if (std::find(m_removeIds.begin(), m_removeIds.end(), id) != m_removeIds.end())
            {
                continue;
            }

            m_dispatchingIds.emplace_back(id);
''','''        for (const auto& entry : handlers)
        {
            const id_t id = entry.first;
            const auto& handler = entry.second;
            const bool isRemoved = std::find(m_removeIds.begin(), m_removeIds.end(), id) != m_removeIds.end();

            if (isRemoved)
            {
                continue;
            }

            m_dispatchingIds.push_back(id);
''')]),
dict(id='r-disp-contains', props=['C13','C14','C15'], edits=[(DI,'''            if (std::find(m_removeIds.begin(), m_removeIds.end(), id) != m_removeIds.end())
            {
                continue;
            }

            m_dispatchingIds.emplace_back(id);
''','''            if (contains(m_removeIds, id))
            {
                continue;
            }

            m_dispatchingIds.emplace_back(id);
'''),(DI,'''            bool isDispatching = std::find(m_dispatchingIds.begin(), m_dispatchingIds.end(), id) != m_dispatchingIds.end();
''','''            bool isDispatching = contains(m_dispatchingIds, id);
'''),(DI,'''                if (std::find(m_dispatchingIds.begin(), m_dispatchingIds.end(), id) != m_dispatchingIds.end())
                {''','''                if (contains(m_dispatchingIds, id))
                {'''),(DI,'''namespace dots
{
''','''namespace dots
{
    namespace
    {
        template <typename Ids, typename Id>
        bool contains(const Ids& ids, const Id& id)
        {
            return std::find(ids.begin(), ids.end(), id) != ids.end();
        }
    }

''')]),
dict(id='r-disp-guard', props=['C13','C14','C15'], edits=[(DI,'''            try
            {
                handler(dispatchable);
            }
            catch (...)
            {
                m_errorHandler(descriptor, std::current_exception());
            }
''','''            std::exception_ptr error;

            try
            {
                handler(dispatchable);
            }
            catch (...)
            {
                error = std::current_exception();
            }

            if (error != nullptr)
            {
                m_errorHandler(descriptor, error);
            }
''')]),
dict(id='r-disp-tx', props=['C13','C14','C15'], edits=[(DI,'''        auto itHandlers = m_transmissionHandlerPool.find(&descriptor);

        if (itHandlers == m_transmissionHandlerPool.end())
        {
            return;
        }

        transmission_handlers_t& handlers = itHandlers->second;
        dispatchToHandlers(descriptor, handlers, transmission);''','''        if (auto itHandlers = m_transmissionHandlerPool.find(&descriptor); itHandlers != m_transmissionHandlerPool.end())
        {
            dispatchToHandlers(descriptor, itHandlers->second, transmission);
        }''')]),
dict(id='r-guest', props=['C10','C11','C05','C04'], edits=[(GT,'''            if (connection.state() == DotsConnectionState::early_subscribe)
            {
                for (const auto& [name, descriptor] : m_preloadPublishTypes)
                {
                    (void)name;
                    connection.transmit(descriptor->to<type::StructDescriptor>());
                }
''','''            const DotsConnectionState state = connection.state();

            if (state == DotsConnectionState::early_subscribe)
            {
                for (const auto& entry : m_preloadPublishTypes)
                {
                    const auto& structDescriptor = entry.second->to<type::StructDescriptor>();
                    connection.transmit(structDescriptor);
                }
'''),(GT,'''            else if (connection.state() == DotsConnectionState::closed)
            {
                if (m_hostConnection != nullptr)
                {
                    m_hostConnection = nullptr;
                }
            }''','''            else if (state == DotsConnectionState::closed)
            {
                m_hostConnection.reset();
            }''')]),
dict(id='r-guest-join', props=['C10','C11','C05','C04'], edits=[(GT,'''        if (m_joinedGroups.count(std::string(name)) == 0)
        {
            publish(DotsMember{
                .groupName = name,
                .event = DotsMemberEvent::join
            });
            m_joinedGroups.insert(std::string(name));
        }''','''        std::string groupName{ name };

        if (m_joinedGroups.find(groupName) != m_joinedGroups.end())
        {
            return;
        }

        DotsMember member;
        member.groupName = name;
        member.event = DotsMemberEvent::join;
        publish(member);

        m_joinedGroups.emplace(std::move(groupName));''')]),
dict(id='r-publish-check', props=['C10','C11','C06','C07'], edits=[(GT,'''        if (includedProperties == std::nullopt)
        {
            includedProperties = instance._validProperties();
        }
        else
        {
            *includedProperties += instance._keyProperties();
            *includedProperties ^= instance._properties();
        }

        if (m_hostConnection == nullptr)
        {
            throw std::runtime_error{ "attempt to publish on closed connection" };
        }

        try
        {
            m_hostConnection->transmit(instance, includedProperties, remove);''','''        if (m_hostConnection == nullptr)
        {
            throw std::runtime_error{ "attempt to publish on closed connection" };
        }

        property_set_t attributes = instance._validProperties();

        if (includedProperties.has_value())
        {
            attributes = (*includedProperties + instance._keyProperties()) ^ instance._properties();
        }

        try
        {
            m_hostConnection->transmit(instance, attributes, remove);'''),(HT,'''        if (includedProperties == std::nullopt)
        {
            includedProperties = instance._validProperties();
        }
        else
        {
            *includedProperties += instance._keyProperties();
            *includedProperties ^= instance._properties();
        }

        DotsHeader header{
            .typeName = instance._descriptor().name(),
            .sentTime = timepoint_t::Now(),
            .serverSentTime = timepoint_t::Now(),
            .attributes = *includedProperties,''','''        const property_set_t attributes = includedProperties == std::nullopt ?
            instance._validProperties() :
            (*includedProperties + instance._keyProperties()) ^ instance._properties();

        DotsHeader header{
            .typeName = instance._descriptor().name(),
            .sentTime = timepoint_t::Now(),
            .serverSentTime = timepoint_t::Now(),
            .attributes = attributes,''')]),
dict(id='r-publish-helper', props=['C10','C11','C06','C07'], edits=[(HT,'''        if (!(instance._keyProperties() <= instance._validProperties()))
        {
            throw std::runtime_error("attempt to publish instance with missing key properties '" + (instance._keyProperties() - instance._validProperties()).toString() + "'");
        }
''','''        requireKey(instance);
'''),(HT,'''    void HostTransceiver::publish(''','''    static void requireKey(const type::Struct& instance)
    {
        const property_set_t missing = instance._keyProperties() - instance._validProperties();

        if (!missing.empty())
        {
            throw std::runtime_error("attempt to publish instance with missing key properties '" + missing.toString() + "'");
        }
    }

    void HostTransceiver::publish(''')]),
dict(id='r-container', props=['C12'], edits=[(CT,'''            cloneInfo.lastOperation = DotsMt::update;
            cloneInfo.lastUpdateFrom = header.sender;
''','''            cloneInfo.lastUpdateFrom = header.sender;
            cloneInfo.lastOperation = DotsMt::update;
''')]),
dict(id='r-newtype', props=['C14','C15'], edits=[(TRX,'''        for (const auto& [id, handler] : m_newTypeHandlers)
        {
            if (std::find(m_removeIds.begin(), m_removeIds.end(), id) != m_removeIds.end())
            {
                continue;
            }

            m_dispatchingIds.emplace_back(id);

            try
            {
                handler(descriptor);
            }
            catch (const std::exception& e)
            {
                LOG_ERROR_S("error in new type handler for type '" << descriptor.name() << "' -> " << e.what());
            }
            catch (...)
            {
                LOG_ERROR_S("error in new type handler for type '" << descriptor.name() << "' -> <unknown>");
            }

            m_dispatchingIds.pop_back();
        }
''','''        const auto isRemoved = [this](id_t id)
        {
            return std::find(m_removeIds.begin(), m_removeIds.end(), id) != m_removeIds.end();
        };

        for (auto it = m_newTypeHandlers.begin(); it != m_newTypeHandlers.end(); ++it)
        {
            const auto& [id, handler] = *it;

            if (isRemoved(id))
            {
                continue;
            }

            m_dispatchingIds.push_back(id);

            try
            {
                handler(descriptor);
            }
            catch (const std::exception& e)
            {
                LOG_ERROR_S("error in new type handler for type '" << descriptor.name() << "' -> " << e.what());
            }
            catch (...)
            {
                LOG_ERROR_S("error in new type handler for type '" << descriptor.name() << "' -> <unknown>");
            }

            m_dispatchingIds.pop_back();
        }
''')]),
dict(id='r-dtor', props=['C15','C14'], edits=[(TRX,'''        m_dispatcher.clear();
        std::exchange(m_newTypeHandlers, {});''','''        dispatcher().clear();
        new_type_handlers_t handlers = std::move(m_newTypeHandlers);
        m_newTypeHandlers = {};''')]),
]
