RG='lib/src/type/Registry.cpp'; DM='lib/src/type/DescriptorMap.cpp'; CP='lib/src/ContainerPool.cpp'
A=['C20']
def fn(want, T, word):
    return ("""        auto descriptor = static_cast<const %sDescriptor*>(findType(name, assertNotNull));

        if (descriptor != nullptr && descriptor->type() != Type::%s)
        {
            descriptor = nullptr;
        }

        if (assertNotNull && descriptor == nullptr)
        {
            throw std::logic_error{ std::string{ "registered type with name '" } + std::string{ name } + "' is not %s type" };
        }

        return descriptor;""" % (want, want, word))
S=[
dict(id='r11-tmpl', props=A, edits=[(RG,"""    template<typename T>
    static void ensureDescriptor()""","""    template<typename D>
    static const D* narrow(const Descriptor<>* type, Type kind, bool assertKind, std::string_view name, const char* what)
    {
        if (type != nullptr && type->type() == kind)
        {
            return static_cast<const D*>(type);
        }

        if (assertKind)
        {
            throw std::logic_error{ std::string{ "registered type with name '" } + std::string{ name } + "' is not " + what + " type" };
        }

        return nullptr;
    }

    template<typename T>
    static void ensureDescriptor()"""),
 (RG,fn('Enum',0,'an enum'),"""        return narrow<EnumDescriptor>(findType(name, assertNotNull), Type::Enum, assertNotNull, name, "an enum");"""),
 (RG,fn('Struct',0,'a struct'),"""        return narrow<StructDescriptor>(findType(name, assertNotNull), Type::Struct, assertNotNull, name, "a struct");""")]),
dict(id='r11-find', props=A, edits=[(RG,"""        if (const Descriptor<>* descriptor = m_types.find(name); descriptor == nullptr)
        {
            if (assertNotNull)
            {
                throw std::logic_error{std::string{"no type registered with name1: "} + std::string{ name }};
            }
            else
            {
                return nullptr;
            }
        }
        else
        {
            return descriptor;
        }""","""        const Descriptor<>* descriptor = m_types.find(name);

        if (descriptor == nullptr && assertNotNull)
        {
            throw std::logic_error{std::string{"no type registered with name1: "} + std::string{ name }};
        }

        return descriptor;"""),(RG,"""        return *findType(name, true);
    }

    const EnumDescriptor& Registry""","""        const Descriptor<>* descriptor = findType(name, true);
        return *descriptor;
    }

    const EnumDescriptor& Registry"""),(DM,"""        auto [descriptor_, emplaced] = tryEmplace(descriptor);

        if (!emplaced)
        {
            throw std::logic_error{ "there already is a type with name: " + descriptor_->name() };
        }

        return *descriptor_;""","""        if (auto [emplacedDescriptor, isNew] = tryEmplace(descriptor); isNew)
        {
            return *emplacedDescriptor;
        }
        else
        {
            throw std::logic_error{ "there already is a type with name: " + emplacedDescriptor->name() };
        }""")]),
dict(id='r11-tryemplace', props=A, edits=[(DM,"""        auto [it, emplaced] = m_underlyingMap.try_emplace(descriptor.name(), descriptor.shared_from_this());
        return std::make_pair(it->second.get(), emplaced);""","""        auto result = m_underlyingMap.emplace(descriptor.name(), descriptor.shared_from_this());
        return { result.first->second.get(), result.second };"""),(DM,"""        if (auto it = m_underlyingMap.find(name); it == m_underlyingMap.end())
        {
            if (assertContainedType)
            {
                throw std::logic_error{ std::string{ "no type with name: " } + std::string{ name } };
            }
        }
        else
        {
            m_underlyingMap.erase(it);
        }""","""        auto it = m_underlyingMap.find(name);

        if (it != m_underlyingMap.end())
        {
            m_underlyingMap.erase(it);
            return;
        }

        if (assertContainedType)
        {
            throw std::logic_error{ std::string{ "no type with name: " } + std::string{ name } };
        }""")]),
dict(id='r11-remove', props=A, edits=[(CP,"""        node_t node = m_pool.extract(&descriptor);

        if (node.empty())
        {
            throw std::runtime_error{ "container pool does not contain an element for the given type: " + descriptor.name() };
        }

        if (auto it = m_nameCache.find(descriptor.name()); it != m_nameCache.end() && it->second == &node.mapped())
        {
            m_nameCache.erase(it);
        }

        return node;""","""        auto itPool = m_pool.find(&descriptor);

        if (itPool == m_pool.end())
        {
            throw std::runtime_error{ "container pool does not contain an element for the given type: " + descriptor.name() };
        }

        const Container<>* container = &itPool->second;

        if (auto itName = m_nameCache.find(descriptor.name()); itName != m_nameCache.end() && itName->second == container)
        {
            m_nameCache.erase(itName);
        }

        return m_pool.extract(itPool);""")]),
dict(id='r11-copy', props=A, edits=[(CP,"""        for (auto& [descriptorPtr, container] : m_pool)
        {
            m_nameCache.emplace(descriptorPtr->name(), &container);
        }""","""        for (auto it = m_pool.begin(); it != m_pool.end(); ++it)
        {
            m_nameCache.try_emplace(it->first->name(), &it->second);
        }"""),(CP,"""        if (this != &rhs)
        {
            *this = ContainerPool{ rhs };
        }

        return *this;""","""        if (this == &rhs)
        {
            return *this;
        }

        ContainerPool copy{ rhs };
        *this = std::move(copy);

        return *this;""")]),
dict(id='r11-get', props=A, edits=[(CP,"""        if (insertIfNotExist)
        {
            auto [it, emplaced] = m_pool.try_emplace(&descriptor, descriptor);
            auto& [descriptorPtr, container] = *it;

            if (emplaced)
            {
                m_nameCache.emplace(descriptorPtr->name(), &container);
            }

            return container;
        }
        else
        {
            const Container<>* container = find(descriptor);

            if (container == nullptr)
            {
                throw std::runtime_error{ "container pool does not contain an element for the given type: " + descriptor.name() };
            }

            return *container;
        }""","""        if (const Container<>* existing = find(descriptor); existing != nullptr)
        {
            return *existing;
        }

        if (!insertIfNotExist)
        {
            throw std::runtime_error{ "container pool does not contain an element for the given type: " + descriptor.name() };
        }

        Container<>& created = m_pool.try_emplace(&descriptor, descriptor).first->second;
        m_nameCache.emplace(descriptor.name(), &created);

        return created;""")]),
dict(id='r11-policy', props=A, edits=[(RG,"""                    if (descriptor->isFundamentalType())
                    {
                        m_types.emplace(descriptor);
                    }
                    else if (const auto *vectorDescriptor = descriptor->as<VectorDescriptor>(); vectorDescriptor != nullptr)
                    {
                        if (vectorDescriptor->valueDescriptor().isFundamentalType())
                        {
                            m_types.emplace(descriptor);
                        }
                    }""","""                    const auto* vectorDescriptor = descriptor->as<VectorDescriptor>();
                    const bool isFundamentalVector = vectorDescriptor != nullptr && vectorDescriptor->valueDescriptor().isFundamentalType();

                    if (descriptor->isFundamentalType() || isFundamentalVector)
                    {
                        m_types.emplace(descriptor);
                    }"""),(RG,"""            return !structDescriptor->internal();
        }
        else if (const auto* vectorDescriptor = descriptor.as<VectorDescriptor>(); vectorDescriptor != nullptr)
        {
            return IsUserType(vectorDescriptor->valueDescriptor());
        }
        else
        {
            return false;
        }""","""            return structDescriptor->internal() == false;
        }

        const auto* vectorDescriptor = descriptor.as<VectorDescriptor>();
        return vectorDescriptor != nullptr && IsUserType(vectorDescriptor->valueDescriptor());""")]),
dict(id='r11-register', props=A, edits=[(RG,"""        if (auto descriptor_ = findType(descriptor.name()); descriptor_ != nullptr)
        {
            if (assertNewType)
            {
                throw std::logic_error{ "there already is a type with name: " + descriptor.name() };
            }
            else
            {
                return *descriptor_;
            }
        }
""","""        const std::string& name = descriptor.name();
        Descriptor<>* existing = findType(name);

        if (existing != nullptr && assertNewType)
        {
            throw std::logic_error{ "there already is a type with name: " + name };
        }

        if (existing != nullptr)
        {
            return *existing;
        }
"""),(RG,"""        m_types.erase(descriptor.name(), assertRegisteredType);""","""        deregisterType(std::string_view{ descriptor.name() }, assertRegisteredType);""")]),
]
