SE='lib/include/dots/serialization/Serializer.h'; TV='lib/include/dots/type/TypeVisitor.h'; RD='lib/include/dots/serialization/formats/Reader.h'; RJ='lib/include/dots/serialization/formats/RapidJsonReader.h'
CR='lib/include/dots/serialization/formats/CborReader.h'; TR='lib/include/dots/serialization/formats/TextReader.h'; UR='lib/src/tools/Uri.cpp'
S=[
dict(id='r8-guard', props=['C24'], edits=[(TV,'''            try
            {
                visitBegin<Const>();
                visit_();
                visitEnd<Const>();
            }
            catch (...)
            {
                visitingLevel = initialVisitingLevel;

                if (initialVisitingLevel == 0)
                {
                    derived().template visitAbortDerived<Const>();
                }

                throw;
            }''','''            auto abort = [&]
            {
                visitingLevel = initialVisitingLevel;

                if (initialVisitingLevel == 0)
                {
                    derived().template visitAbortDerived<Const>();
                }
            };

            try
            {
                visitBegin<Const>();
                std::forward<Visit>(visit_)();
                visitEnd<Const>();
            }
            catch (...)
            {
                abort();
                throw;
            }''')]),
dict(id='r8-begin', props=['C24'], edits=[(TV,'''            if (incrementVisitingLevel<Const>() == 1)
            {
                derived().template visitBeginDerived<Const>();
            }''','''            const size_t level = incrementVisitingLevel<Const>();
            const bool outermost = level == 1;

            if (!outermost)
            {
                return;
            }

            derived().template visitBeginDerived<Const>();'''),(TV,'return ++m_constVisitingLevel;','m_constVisitingLevel += 1;\n                return m_constVisitingLevel;')]),
dict(id='r8-input', props=['C21','C24'], edits=[(RD,'''            m_inputData = inputData;
            m_inputDataEnd = m_inputData + inputDataSize;
            m_inputDataBegin = m_inputData;''','''            m_inputDataBegin = inputData;
            m_inputDataEnd = inputData + inputDataSize;
            m_inputData = inputData;'''),(RJ,'''            m_input = &inputValue;
            m_nesting = {};''','''            m_nesting = decltype(m_nesting){};
            m_input = &inputValue;'''),(SE,'                m_serializeOffset = m_writer.output().size();','                const auto& output = m_writer.output();\n                m_serializeOffset = output.size();')]),
dict(id='r8-cbor', props=['C21','C22'], edits=[(CR,'''                    for (int16_t i = numBytes - 1; i >= 0; --i)
                    {
                        value |= static_cast<uint64_t>(readByte()) << i * 8;
                    }
                }

                if (majorType == cbor_t::MajorType::ByteString''','''                    for (uint8_t i = numBytes; i > 0; --i)
                    {
                        value = (value << 8) | readByte();
                    }
                }

                if (majorType == cbor_t::MajorType::ByteString'''),(CR,'''            assertInputAvailable(size);
            str.resize(size);
            readBytes(reinterpret_cast<uint8_t*>(str.data()), size);''','''            assertInputAvailable(size);
            const uint8_t* first = inputData();
            str.assign(first, first + size);
            inputData() += size;''')]),
dict(id='r8-cbor2', props=['C21','C22'], edits=[(CR,'''            if (size != N)
            {
                throwInvalidSize("byte string size does not match size", N, size);
            }

            assertInputAvailable(N);
            readBytes(reinterpret_cast<uint8_t*>(&bytes[0]), size);''','''            if (size == N)
            {
                assertInputAvailable(size);
                readBytes(reinterpret_cast<uint8_t*>(bytes), N);
            }
            else
            {
                throwInvalidSize("byte string size does not match size", N, size);
            }'''),(CR,'''            assertInputAvailable(1);

            if (uint8_t majorType = *inputData() & cbor_t::MajorType::Mask; majorType == cbor_t::MajorType::SignedInt)''','''            assertInputAvailable(1);
            const uint8_t* initialByte = inputData();

            if ((initialByte[0] & cbor_t::MajorType::Mask) == cbor_t::MajorType::SignedInt)''')]),
dict(id='r8-text', props=['C21','C22','C24'], edits=[(TR,'''            std::from_chars_result result = std::from_chars(input().data(), input().data() + input().size(), value, base);

            if (result.ec != std::errc{})
            {
                throw makeTokenError("<integer-value>");
            }

            inputAdvance(static_cast<size_t>(result.ptr - input().data()));''','''            std::string_view text = input();
            const char* first = text.data();
            auto [last, ec] = std::from_chars(first, first + text.size(), value, base);

            if (ec != std::errc{})
            {
                throw makeTokenError("<integer-value>");
            }

            inputAdvance(static_cast<size_t>(last - first));'''),(TR,'''            if (tools::starts_with(input(), token))
            {
                inputAdvance(token.size());
                return true;
            }
            else
            {
                return false;
            }
        }

        bool tryConsumeTokenAfterWhitespace''','''            if (!tools::starts_with(input(), token))
            {
                return false;
            }

            inputAdvance(token.size());
            return true;
        }

        bool tryConsumeTokenAfterWhitespace''')]),
dict(id='r8-uri', props=['C31'], edits=[(UR,'setAuthority(hostView.data());','setAuthority(std::string{ hostView });')]),
]
