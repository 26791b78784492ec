AS='lib/include/dots/io/channels/AsyncStreamChannel.h'; LC='lib/src/io/channels/LocalChannel.cpp'; WS='lib/src/io/channels/WebSocketChannel.cpp'
PR=['C25','C26']
S=[
dict(id='rf25-size-helper', props=PR, edits=[(AS,'''                writeBuffer[sizeIndex++] = static_cast<uint8_t>(0x1A);

                for (int16_t i = sizeof(transmission_size_t) - 1; i >= 0; --i)
                {
                    writeBuffer[sizeIndex++] = static_cast<uint8_t>(transmissionSize >> i * 8);
                }
''','''                writeTransmissionSize(writeBuffer, sizeIndex, transmissionSize);
'''),(AS,'''        /*!
         * @brief Verify that further data''','''        void writeTransmissionSize(buffer_t& buffer, size_t index, transmission_size_t transmissionSize)
        {
            buffer[index] = uint8_t{ 0x1A };

            for (size_t i = 1; i <= sizeof(transmission_size_t); ++i)
            {
                buffer[index + i] = static_cast<uint8_t>((transmissionSize >> (sizeof(transmission_size_t) - i) * 8) & 0xFF);
            }
        }

        /*!
         * @brief Verify that further data''')]),
dict(id='rf25-index-order', props=PR, edits=[(AS,'''                size_t payloadSize = writeBuffer.size() - beginIndex;
                auto transmissionSize = static_cast<transmission_size_t>(payloadSize - TransmissionSizeSize);
                size_t sizeIndex = beginIndex;
''','''                size_t sizeIndex = beginIndex;
                const size_t payloadIndex = beginIndex + TransmissionSizeSize;
                const auto transmissionSize = static_cast<transmission_size_t>(writeBuffer.size() - payloadIndex);
'''),(AS,'return writeBuffer.begin() + beginIndex;\n            }\n        }','return std::next(writeBuffer.begin(), beginIndex);\n            }\n        }')]),
dict(id='rf25-sum', props=PR, edits=[(AS,'''                    m_serializer.serialize(header);
                    m_serializer.serialize(instance, *header.attributes);
                }''','''                    const auto& attributes = *header.attributes;
                    m_serializer.serialize(header);
                    m_serializer.serialize(instance, attributes);
                }''')]),
dict(id='rf25-v1-insert', props=PR, edits=[(AS,'std::copy(serializedHeaderSizeData, serializedHeaderSizeData + sizeof(serializedHeaderSize), std::back_inserter(writeBuffer));','writeBuffer.insert(writeBuffer.end(), serializedHeaderSizeData, serializedHeaderSizeData + sizeof(serializedHeaderSize));')]),
dict(id='rf25-v1-payload', props=PR, edits=[(AS,'''                std::vector<uint8_t> serializedInstance = std::move(serializer.output());
''','''                std::vector<uint8_t> serializedInstance = std::move(serializer.output());
                const auto payloadSize = static_cast<uint32_t>(serializedInstance.size());
'''),(AS,'''                    .payloadSize = static_cast<uint32_t>(serializedInstance.size())
''','''                    .payloadSize = payloadSize
''')]),
dict(id='rf25-cache-flow', props=PR, edits=[(AS,'''            if (m_payloadCache == nullptr)
            {
                serializeTransmission(transmission.header(), transmission.instance());
            }
            else
            {
                auto& [cacheId, cacheBuffer] = *m_payloadCache;
                buffer_t& writeBuffer = m_serializer.output();

                if (transmission.id() == cacheId)
                {
                    verifyWriteBufferSize();
                    writeBuffer.insert(writeBuffer.end(), cacheBuffer.begin(), cacheBuffer.end());
                }
                else
                {
                    iterator_t begin = serializeTransmission(transmission.header(), transmission.instance());
                    cacheId = transmission.id();
                    cacheBuffer.assign(begin, writeBuffer.end());
                }
            }
''','''            if (!m_payloadCache)
            {
                serializeTransmission(transmission.header(), transmission.instance());
                return;
            }

            payload_cache_t& cache = *m_payloadCache;

            if (cache.first != transmission.id())
            {
                iterator_t begin = serializeTransmission(transmission.header(), transmission.instance());
                cache.second.assign(begin, m_serializer.output().end());
                cache.first = transmission.id();
                return;
            }

            verifyWriteBufferSize();
            m_serializer.output().insert(m_serializer.output().end(), cache.second.cbegin(), cache.second.cend());
''')]),
dict(id='rf25-write-order', props=PR, edits=[(AS,'''            m_writeBuffer.swap(m_serializer.output());
            m_serializer.output().clear();

            if (m_writeBuffer.empty())
            {
                m_asyncWriting = false;
            }
            else
            {
''','''            m_writeBuffer.clear();
            std::swap(m_writeBuffer, m_serializer.output());
            m_asyncWriting = !m_writeBuffer.empty();

            if (m_asyncWriting)
            {
'''),(AS,'''                });

                m_asyncWriting = true;
            }
        }''','''                });
            }
        }''')]),
dict(id='rf25-transmit-return', props=PR, edits=[(AS,'''            serializeTransmission(header, instance);

            if (!m_asyncWriting)
            {
                asyncWrite();
            }''','''            serializeTransmission(header, instance);
            startWriting();'''),(AS,'''            serializeTransmission(transmission);

            if (!m_asyncWriting)
            {
                asyncWrite();
            }''','''            serializeTransmission(transmission);
            startWriting();'''),(AS,'''        /*!
         * @brief Verify that further data''','''        void startWriting()
        {
            if (m_asyncWriting)
            {
                return;
            }

            asyncWrite();
        }

        /*!
         * @brief Verify that further data''')]),
dict(id='rf25-read-flow', props=PR, edits=[(AS,'''                auto process_transmission_size = [this, process_transmission]
                {
                    if (size_t transmissionSize = deserializeTransmissionSize(); transmissionSize <= m_serializer.inputAvailable())
                    {
                        process_transmission();
                    }
                    else
                    {
                        asyncRead(transmissionSize, process_transmission);
                    }
                };
''','''                auto process_transmission_size = [this, process_transmission]
                {
                    const size_t transmissionSize = deserializeTransmissionSize();

                    if (m_serializer.inputAvailable() < transmissionSize)
                    {
                        asyncRead(transmissionSize, process_transmission);
                        return;
                    }

                    process_transmission();
                };
''')]),
dict(id='rf25-asyncread', props=PR, edits=[(AS,'''                uint8_t* readBufferBegin = m_readBuffer.data() + availableBytes;
                uint8_t* readBufferEnd = m_readBuffer.data() + m_readBuffer.size();
''','''                uint8_t* readBufferBegin = m_readBuffer.data() + availableBytes;
                const size_t readBufferRoom = m_readBuffer.size() - availableBytes;
'''),(AS,'asio::buffer(readBufferBegin, readBufferEnd - readBufferBegin)','asio::buffer(readBufferBegin, readBufferRoom)'),(AS,'''                        if (m_serializer.inputAvailable() < requiredBytes)
                        {
                            asyncRead(requiredBytes, handler);
                        }
                        else
                        {
                            handler();
                        }''','''                        if (m_serializer.inputAvailable() >= requiredBytes)
                        {
                            handler();
                        }
                        else
                        {
                            asyncRead(requiredBytes, handler);
                        }''')]),
dict(id='rf25-transmission', props=PR, edits=[(AS,'''                auto header = m_serializer.template deserialize<DotsHeader>();
                type::AnyStruct instance{registry().getStructType(*header.typeName)};
''','''                DotsHeader header;
                m_serializer.deserialize(header);
                const type::StructDescriptor& descriptor = registry().getStructType(*header.typeName);
                type::AnyStruct instance{ descriptor };
''')]),
dict(id='rf25-ws', props=PR, edits=[(WS,'''                DotsHeader header;
                m_serializer.deserialize(header);
                type::AnyStruct instance{ registry().getStructType(*header.typeName) };
                m_serializer.deserialize(*instance);
                m_serializer.reader().readArrayEnd();

                processReceive(Transmission{ std::move(header), std::move(instance) });''','''                auto header = m_serializer.deserialize<DotsHeader>();
                type::AnyStruct instance{ registry().getStructType(*header.typeName) };
                m_serializer.deserialize(*instance);
                m_serializer.reader().readArrayEnd();

                Transmission transmission{ std::move(header), std::move(instance) };
                processReceive(std::move(transmission));'''),(WS,'''        serializer.writer().writeArrayBegin();
        serializer.serialize(header);
        serializer.serialize(instance, *header.attributes);
        serializer.writer().writeArrayEnd();

        m_stream.write(asio::buffer(serializer.output()));''','''        auto& writer = serializer.writer();
        writer.writeArrayBegin();
        serializer.serialize(header);
        serializer.serialize(instance, *header.attributes);
        writer.writeArrayEnd();

        const std::string& message = serializer.output();
        m_stream.write(asio::buffer(message.data(), message.size()));''')]),
dict(id='rf25-local', props=PR, edits=[(LC,'''        if (other == nullptr)
        {
            if (instance._is<DotsMsgError>())
            {
                return;
            }
            else
            {
                throw std::runtime_error{ "local channel is not linked or expired unexpectedly" };
            }
        }
''','''        if (!other)
        {
            if (!instance._is<DotsMsgError>())
            {
                throw std::runtime_error{ "local channel is not linked or expired unexpectedly" };
            }

            return;
        }

        std::vector<uint8_t> payload = to_cbor(instance, *header.attributes);
'''),(LC,'data = to_cbor(instance, *header.attributes)','data = std::move(payload)'),(LC,'''                type::AnyStruct instance_{ *descriptor };
                from_cbor(data, instance_.get());
''','''                type::AnyStruct instance_{ *descriptor };
                from_cbor(data, *instance_);
''')]),
]
