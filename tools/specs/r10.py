
RG='lib/src/type/Registry.cpp'; DM='lib/src/type/DescriptorMap.cpp'; CP='lib/src/ContainerPool.cpp'
A=['C20','C31']
S=[
dict(id='r10-find', props=A, edits=[(DM,"""        if (auto it = m_underlyingMap.find(name); it == m_underlyingMap.end())
        {
            if (assertNotNull)
            {
                throw std::logic_error{ std::string{ "no type with name: " } + std::string{ name } };
            }
            else
            {
                return nullptr;
            }
        }
        else
        {
            return it->second.get();
        }""","""        const auto it = m_underlyingMap.find(name);

        if (it != m_underlyingMap.end())
        {
            return &*it->second;
        }

        if (!assertNotNull)
        {
            return nullptr;
        }

        throw std::logic_error{ std::string{ "no type with name: " } + std::string{ name } };"""),(DM,'return find(name) != nullptr;','return m_underlyingMap.count(name) > 0;'),(RG,'return findType(name) != nullptr;','return m_types.contains(name);')]),
dict(id='r10-kind', props=A, edits=[(RG,"""        auto descriptor = static_cast<const EnumDescriptor*>(findType(name, assertNotNull));

        if (descriptor != nullptr && descriptor->type() != Type::Enum)
        {
            descriptor = nullptr;
        }
""","""        const Descriptor<>* type = findType(name, assertNotNull);
        const EnumDescriptor* descriptor = type == nullptr ? nullptr : type->as<EnumDescriptor>();
"""),(RG,"""        auto descriptor = static_cast<const StructDescriptor*>(findType(name, assertNotNull));

        if (descriptor != nullptr && descriptor->type() != Type::Struct)
        {
            descriptor = nullptr;
        }

        if (assertNotNull && descriptor == nullptr)
        {
            throw""","""        const Descriptor<>* found = findType(name, assertNotNull);

        if (found != nullptr && found->type() == Type::Struct)
        {
            return static_cast<const StructDescriptor*>(found);
        }

        const StructDescriptor* descriptor = nullptr;

        if (assertNotNull)
        {
            throw""")]),
dict(id='r10-register', props=A, edits=[(RG,"""        if (auto descriptor_ = findType(descriptor.name()); descriptor_ != nullptr)
        {
            if (assertNewType)
            {
                throw std::logic_error{ "there already is a type with name: " + descriptor.name() };
            }
            else
            {
                return *descriptor_;
            }
        }

        m_types.emplace(descriptor);
""","""        auto [registered, isNew] = m_types.tryEmplace(descriptor);

        if (!isNew)
        {
            if (assertNewType)
            {
                throw std::logic_error{ "there already is a type with name: " + descriptor.name() };
            }

            return *registered;
        }
"""),(RG,"""        if (auto vectorDescriptor = descriptor.as<VectorDescriptor>(); vectorDescriptor != nullptr)
        {
            registerType(vectorDescriptor->valueDescriptor(), false);
        }
        else if (auto enumDescriptor = descriptor.as<EnumDescriptor>(); enumDescriptor != nullptr)
        {
            registerType(enumDescriptor->underlyingDescriptor(), false);
        }
        else if (auto structDescriptor = descriptor.as<StructDescriptor>(); structDescriptor != nullptr)
        {
            for (PropertyDescriptor& propertyDescriptor : structDescriptor->propertyDescriptors())
            {
                registerType(propertyDescriptor.valueDescriptor(), false);
            }
        }
""","""        switch (descriptor.type())
        {
            case Type::Vector:
                registerType(static_cast<VectorDescriptor&>(descriptor).valueDescriptor(), false);
                break;
            case Type::Enum:
                registerType(static_cast<EnumDescriptor&>(descriptor).underlyingDescriptor(), false);
                break;
            case Type::Struct:
                for (PropertyDescriptor& propertyDescriptor : static_cast<StructDescriptor&>(descriptor).propertyDescriptors())
                {
                    registerType(propertyDescriptor.valueDescriptor(), false);
                }
                break;
            default:
                break;
        }
""")]),
dict(id='r10-nested', props=A, edits=[(RG,"""        if (auto vectorDescriptor = descriptor.as<VectorDescriptor>(); vectorDescriptor != nullptr)
        {
            registerType(vectorDescriptor->valueDescriptor(), false);
        }
        else if (auto enum""","""        auto registerNested = [this](Descriptor<>& nested) { registerType(nested, false); };

        if (auto vectorDescriptor = descriptor.as<VectorDescriptor>())
        {
            registerNested(vectorDescriptor->valueDescriptor());
        }
        else if (auto enum"""),(RG,"""            for (PropertyDescriptor& propertyDescriptor : structDescriptor->propertyDescriptors())
            {
                registerType(propertyDescriptor.valueDescriptor(), false);
            }""","""            auto& properties = structDescriptor->propertyDescriptors();

            for (auto it = properties.begin(); it != properties.end(); ++it)
            {
                registerNested(it->valueDescriptor());
            }"""),(RG,"""        if (m_newTypeHandler != std::nullopt)
        {
            (*m""","""        if (m_newTypeHandler.has_value())
        {
            (*m""")]),
dict(id='r10-erase', props=A, edits=[(DM,"""        if (auto it = m_underlyingMap.find(name); it == m_underlyingMap.end())
        {
            if (assertContainedType)
            {
                throw std::logic_error{ std::string{ "no type with name: " } + std::string{ name } };
            }
        }
        else
        {
            m_underlyingMap.erase(it);
        }""","""        if (m_underlyingMap.erase(name) == 0 && assertContainedType)
        {
            throw std::logic_error{ std::string{ "no type with name: " } + std::string{ name } };
        }""")]),
dict(id='r10-pool', props=A, edits=[(CP,"""            auto [it, emplaced] = m_pool.try_emplace(&descriptor, descriptor);
            auto& [descriptorPtr, container] = *it;

            if (emplaced)
            {
                m_nameCache.emplace(descriptorPtr->name(), &container);
            }

            return container;""","""            auto it = m_pool.find(&descriptor);

            if (it == m_pool.end())
            {
                it = m_pool.emplace(&descriptor, descriptor).first;
                m_nameCache.emplace(descriptor.name(), &it->second);
            }

            return it->second;"""),(CP,"""        auto it = m_nameCache.find(name);
        return it == m_nameCache.end() ? nullptr : it->second;""","""        if (auto it = m_nameCache.find(name); it != m_nameCache.end())
        {
            return it->second;
        }

        return nullptr;""")]),
dict(id='r10-policy', props=A, edits=[(RG,"""                    if (descriptor->isFundamentalType())
                    {
                        m_types.emplace(descriptor);
                    }
                    else if (const auto *vectorDescriptor = descriptor->as<VectorDescriptor>(); vectorDescriptor != nullptr)
                    {
                        if (vectorDescriptor->valueDescriptor().isFundamentalType())
                        {
                            m_types.emplace(descriptor);
                        }
                    }""","""                    const auto* vectorDescriptor = descriptor->as<VectorDescriptor>();

                    if (const Descriptor<>& basic = vectorDescriptor == nullptr ? *descriptor : vectorDescriptor->valueDescriptor(); basic.isFundamentalType())
                    {
                        m_types.emplace(descriptor);
                    }"""),(RG,"""                    if (not IsUserType(*descriptor))
                    {
                        m_types.emplace(descriptor);
                    }""","""                    if (IsUserType(*descriptor))
                    {
                        continue;
                    }

                    m_types.emplace(*descriptor);""")]),
]
