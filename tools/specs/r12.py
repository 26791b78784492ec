RG='lib/src/type/Registry.cpp'; DM='lib/src/type/DescriptorMap.cpp'; CP='lib/src/ContainerPool.cpp'; RH='lib/include/dots/type/Registry.h'
A=['C20']
S=[
dict(id='r12-member', props=A, edits=[(RH,"        void deregisterType(const Descriptor<>& descriptor","        void registerNestedTypes(Descriptor<>& descriptor);\n        void deregisterType(const Descriptor<>& descriptor"),(RG,"""        m_types.emplace(descriptor);

        if (auto vectorDescriptor""","""        m_types.emplace(descriptor);
        registerNestedTypes(descriptor);

        if (m_newTypeHandler != std::nullopt)
        {
            (*m_newTypeHandler)(descriptor);
        }

        return descriptor;
    }

    void Registry::registerNestedTypes(Descriptor<>& descriptor)
    {
        if (auto vectorDescriptor"""),(RG,"""                registerType(propertyDescriptor.valueDescriptor(), false);
            }
        }

        if (m_newTypeHandler != std::nullopt)
        {
            (*m_newTypeHandler)(descriptor);
        }

        return descriptor;
    }""","""                registerType(propertyDescriptor.valueDescriptor(), false);
            }
        }
    }""")]),
dict(id='r12-handler', props=A, edits=[(RG,"""        if (m_newTypeHandler != std::nullopt)
        {
            (*m_newTypeHandler)(descriptor);
        }

        return descriptor;""","""        if (!m_newTypeHandler)
        {
            return descriptor;
        }

        const auto& handler = *m_newTypeHandler;
        handler(descriptor);

        return descriptor;"""),(RG,"""            for (PropertyDescriptor& propertyDescriptor : structDescriptor->propertyDescriptors())
            {
                registerType(propertyDescriptor.valueDescriptor(), false);
            }""","""            for (auto& property : structDescriptor->propertyDescriptors())
            {
                Descriptor<>& valueDescriptor = property.valueDescriptor();
                registerType(valueDescriptor, /*assertNewType = */false);
            }""")]),
dict(id='r12-policy', props=A, edits=[(RG,"""                for (auto&[name, descriptor]: static_descriptors())
                {
                    m_types.emplace(descriptor);
                }
                break;
        }
""","""                for (const auto& entry : static_descriptors())
                {
                    m_types.emplace(*entry.second);
                }
                break;
        }
"""),(RG,"""                    if (not IsUserType(*descriptor))
                    {
                        m_types.emplace(descriptor);
                    }""","""                    const bool isInternal = !IsUserType(*descriptor);

                    if (isInternal)
                    {
                        m_types.emplace(descriptor);
                    }""")]),
dict(id='r12-get', props=A, edits=[(RG,"        return *findStructType(name, true);","""        if (const StructDescriptor* descriptor = findStructType(name); descriptor != nullptr)
        {
            return *descriptor;
        }

        throw std::logic_error{ std::string{ "registered type with name '" } + std::string{ name } + "' is not a struct type" };"""),(RG,"        return *findEnumType(name, true);","""        auto* descriptor = findEnumType(name, true);
        return *descriptor;"""),(CP,"""        auto it = m_pool.find(&descriptor);
        return it == m_pool.end() ? nullptr : &it->second;""","""        if (auto it = m_pool.find(&descriptor); it != m_pool.end())
        {
            const Container<>& container = it->second;
            return &container;
        }

        return nullptr;"""),(CP,"""        return const_cast<Container<>&>(std::as_const(*this).get(name));""","""        const ContainerPool& self = *this;
        return const_cast<Container<>&>(self.get(name));""")]),
dict(id='r12-remove', props=A, edits=[(CP,"""        if (auto it = m_nameCache.find(descriptor.name()); it != m_nameCache.end() && it->second == &node.mapped())
        {
            m_nameCache.erase(it);
        }""","""        auto it = m_nameCache.find(descriptor.name());

        if (it != m_nameCache.end())
        {
            if (&node.mapped() == it->second)
            {
                m_nameCache.erase(it);
            }
        }"""),(CP,"""        if (node.empty())
        {
            throw""","""        if (!node)
        {
            throw""")]),
dict(id='r12-erasehelp', props=A, edits=[(DM,"""    void DescriptorMap::erase(std::string_view name, bool assertContainedType)
    {
        if""","""    static std::logic_error unknownType(std::string_view name)
    {
        return std::logic_error{ std::string{ "no type with name: " } + std::string{ name } };
    }

    void DescriptorMap::erase(std::string_view name, bool assertContainedType)
    {
        if"""),(DM,"""            if (assertContainedType)
            {
                throw std::logic_error{ std::string{ "no type with name: " } + std::string{ name } };
            }""","""            if (!assertContainedType)
            {
                return;
            }

            throw unknownType(name);"""),(DM,"""        return find(name) != nullptr;""","""        return m_underlyingMap.find(name) != m_underlyingMap.end();""")]),
dict(id='r12-exists', props=A, edits=[(RG,"""        if (auto descriptor_ = findType(descriptor.name()); descriptor_ != nullptr)
        {
            if (assertNewType)""","""        if (hasType(descriptor.name()))
        {
            auto descriptor_ = findType(descriptor.name());

            if (assertNewType)""")]),
dict(id='r12-throwhelp', props=A, edits=[(CP,"""    ContainerPool::ContainerPool(const ContainerPool& other)""","""    [[noreturn]] static void throwMissing(const std::string& name)
    {
        throw std::runtime_error{ "container pool does not contain an element for the given type: " + name };
    }

    ContainerPool::ContainerPool(const ContainerPool& other)"""),(CP,"""                throw std::runtime_error{ "container pool does not contain an element for the given type: " + descriptor.name() };
            }

            return *container;""","""                throwMissing(descriptor.name());
            }

            return *container;"""),(CP,"""            throw std::runtime_error{ "container pool does not contain an element for the given type: " + std::string{ name } };""","""            throwMissing(std::string{ name });"""),(CP,"""            throw std::runtime_error{ "container pool does not contain an element for the given type: " + descriptor.name() };
        }

        if (auto""","""            throwMissing(descriptor.name());
        }

        if (auto""")]),
]
