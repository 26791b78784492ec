CR='lib/include/dots/serialization/formats/CborReader.h'; TR='lib/include/dots/serialization/formats/TextReader.h'; JR='lib/include/dots/serialization/formats/RapidJsonReader.h'
DG='lib/src/io/auth/Digest.cpp'; UR='lib/src/tools/Uri.cpp'; EN='lib/src/type/EnumDescriptor.cpp'; LA='lib/src/io/auth/LegacyAuthManager.cpp'; DM='lib/src/type/DescriptorMap.cpp'; CH='lib/src/type/Chrono.cpp'
P='''#include <dots/dots.h>
#include <dots/serialization/CborSerializer.h>
#include <dots/serialization/StringSerializer.h>
#include <dots/serialization/RapidJsonSerializer.h>
#include <dots/serialization/formats/CborReader.h>
#include <dots/serialization/formats/TextReader.h>
#include <dots/serialization/formats/StringReader.h>
#include <dots/io/auth/Digest.h>
#include <dots/io/auth/LegacyAuthManager.h>
#include <dots/tools/Uri.h>
#include <dots/type/Registry.h>
#include <iostream>
#include <cstring>
using namespace dots; using namespace dots::serialization;
#define REQ(x) do { if(!(x)) { std::cerr << "FAILED: " #x << std::endl; return 1; } } while(0)
template<class F> bool throws(F f){ try{ f(); return false; } catch(const std::exception&){ return true; } }
'''
S=[
dict(id='c21-str-length', prop='C21', edits=[(CR,'if (size > static_cast<size_t>(inputDataEnd() - inputData()))','if (inputData() + size > inputDataEnd())')],
 needs='a skipped string whose claimed length makes the end of the string wrap around the address space', breaks='the reader moves to a position in front of the input',
 demo=P+'''int main(){ std::vector<uint8_t> d(64,0); d[40]=0x7B; for(int i=41;i<49;++i) d[i]=0xFF; d[48]=0xE0; CborReader r; r.setInput(d.data()+40, 20); bool t=throws([&]{ r.skip(); }); REQ(t); return 0; }'''),
dict(id='c21-bytes', prop='C21', edits=[(CR,'''            assertInputAvailable(N);
            readBytes(reinterpret_cast<uint8_t*>(&bytes[0]), size);''','''            readBytes(reinterpret_cast<uint8_t*>(&bytes[0]), size);''')],
 needs='a byte string that is cut off after its length', breaks='bytes behind the input are copied',
 demo=P+'''int main(){ std::vector<uint8_t> d{0x44,1,2,3,4,5}; CborReader r; r.setInput(d.data(), 3); std::array<uint8_t,4> b{}; REQ(throws([&]{ r.read(b); })); return 0; }'''),
dict(id='c21-bytes-size', prop='C21', edits=[(CR,'if (size != N)','if (size < N)'),(CR,'assertInputAvailable(N);','assertInputAvailable(size);')],
 needs='a byte string that is longer than the array it is read into', breaks='bytes behind the array are overwritten',
 demo=P+'''int main(){ std::vector<uint8_t> d{0x48,1,2,3,4,5,6,7,8}; CborReader r; r.setInput(d.data(), d.size()); struct { std::array<uint8_t,4> b{}; uint8_t c[4]={}; } x; throws([&]{ r.read(x.b); }); REQ(x.c[0]==0); return 0; }'''),
dict(id='c21-float16', prop='C21', edits=[(CR,'''                assertInputAvailable(numBytes);

                return { numBytes, additionalInformation };''','''                if (expectedMajorType != cbor_t::MajorType::SimpleOrFloat)
                {
                    assertInputAvailable(numBytes);
                }

                return { numBytes, additionalInformation };''')],
 needs='a floating point value that is cut off', breaks='bytes behind the input are decoded',
 demo=P+'''int main(){ std::vector<uint8_t> d{0xFA,0x3F,0x80,0,0,0}; CborReader r; r.setInput(d.data(), 3); REQ(throws([&]{ float f; r.read(f); })); return 0; }'''),
dict(id='c21-signed-width', prop='C21', edits=[(CR,'''                uint8_t numBytes = 1  << (additionalInformation - cbor_t::AdditionalInformation::FollowingBytes1);

                if (numBytes > valueSize)
                {
                    throwInvalidSize("encountered value exceeds value size", valueSize, numBytes);
                }

                assertInputAvailable(numBytes);''','''                uint8_t numBytes = 1  << (additionalInformation - cbor_t::AdditionalInformation::FollowingBytes1);

                assertInputAvailable(std::min<size_t>(numBytes, valueSize));

                if (numBytes > valueSize && valueSize < sizeof(uint32_t))
                {
                    throwInvalidSize("encountered value exceeds value size", valueSize, numBytes);
                }''')],
 needs='an eight byte integer for a four byte property at the end of the input', breaks='bytes behind the input are decoded',
 demo=P+'''int main(){ std::vector<uint8_t> d{0x1B,0,0,0,0,0,0,0,1}; CborReader r; r.setInput(d.data(), 6); REQ(throws([&]{ uint32_t v; r.read(v); })); return 0; }'''),
dict(id='c21-quote-escape', prop='C21', edits=[(TR,'''                    tokenInput.remove_prefix(1);
                }

                throw makeTokenError(Delimiter);''','''                    tokenInput.remove_prefix(tokenInput.front() == '\\\\' ? 2 : 1);
                }

                throw makeTokenError(Delimiter);''')],
 needs='a quoted string that is cut off behind a backslash', breaks='the scan for the closing quote continues behind the input',
 demo=P+'''int main(){ std::string t="{ a: \\"x\\\\"; StringReader r; std::string whole=t+"\\" behind"; r.setInput(whole.data(), t.size()); r.readObjectBegin(); r.readObjectMemberName(); REQ(throws([&]{ r.readQuotedString(); })); return 0; }'''),
dict(id='c21-escape-advance', prop='C21', edits=[(TR,'''                        const auto& [from, to] = *it;
                        token += from;
                        inputAdvance(to.size());''','''                        const auto& [from, to] = *it;
                        token += from;
                        inputAdvance(from.size() + format_t::StringEscape.size() + (to.size() > 2));''')],
 needs='an escape sequence of three or more characters', breaks='the position is not moved by the length of what was recognised',
 demo=P+'''int main(){ return 0; }'''),
dict(id='c21-bool-prefix', prop='C21', edits=[(TR,'''                if (tryConsumeToken("true"))
                {
                    value = true;
                    return;
                }''','''                if (tools::starts_with(input(), "t"))
                {
                    inputAdvance(std::string_view{ "true" }.size());
                    value = true;
                    return;
                }''')],
 needs='a truncated boolean at the end of the input', breaks='the position is moved behind the end of the input',
 demo=P+'''int main(){ std::string t="[ trailing"; StringReader r; r.setInput(t.data(), 4); r.readArrayBegin(); bool th=throws([&]{ r.read<bool>(); }); REQ(th); return 0; }'''),
dict(id='c21-json-element', prop='C21', edits=[(JR,'''            m_nesting.emplace(m_input);
            m_input = array.Begin();''','''            m_nesting.emplace(m_input);
            m_input = &array[0];''')],
 needs='an empty array', breaks='the first element of an empty array is accessed', asan=['lib/src/Transceiver.cpp'],
 demo=P+'''int main(){ return 0; }'''),
dict(id='c22-head-width', prop='C22', edits=[(CR,'readInitialByte(expectedMajorType, sizeof(T));\n\n            if (additionalInformation','readInitialByte(expectedMajorType, sizeof(uint64_t));\n\n            if (additionalInformation')],
 needs='a number that does not fit the property', breaks='the number is truncated',
 demo=P+'''int main(){ std::vector<uint8_t> d{0x19,1,0}; CborReader r; r.setInput(d.data(), d.size()); REQ(throws([&]{ uint8_t v; r.read(v); })); return 0; }'''),
dict(id='c22-signed-width', prop='C22', edits=[(CR,'unsigned_t unsignedValue = readHead<unsigned_t>(cbor_t::MajorType::SignedInt);','auto unsignedValue = static_cast<unsigned_t>(readHead<uint64_t>(cbor_t::MajorType::SignedInt));')],
 needs='a negative number that does not fit the property', breaks='the number is truncated',
 demo=P+'''int main(){ std::vector<uint8_t> d{0x39,1,0}; CborReader r; r.setInput(d.data(), d.size()); REQ(throws([&]{ int8_t v; r.read(v); })); return 0; }'''),
dict(id='c22-str-alloc', prop='C22', edits=[(CR,'''            assertInputAvailable(size);
            str.resize(size);''','''            str.resize(size);
            assertInputAvailable(size);''')],
 needs='a text string that claims to be huge', breaks='memory for the claimed size is allocated',
 demo=P+'''#include <sys/resource.h>
int main(){ std::vector<uint8_t> d{0x7A,0x7F,0xFF,0xFF,0xFF,'a'}; CborReader r; r.setInput(d.data(), d.size()); std::string s; REQ(throws([&]{ r.read(s); })); REQ(s.capacity()<1000); return 0; }'''),
dict(id='c22-text-narrow', prop='C22', edits=[(TR,'''            std::from_chars_result result = std::from_chars(input().data(), input().data() + input().size(), value, base);

            if (result.ec != std::errc{})
            {
                throw makeTokenError("<integer-value>");
            }
''','''            std::conditional_t<std::is_signed_v<T>, int64_t, uint64_t> number{};
            std::from_chars_result result = std::from_chars(input().data(), input().data() + input().size(), number, base);

            if (result.ec != std::errc{})
            {
                throw makeTokenError("<integer-value>");
            }

            value = static_cast<T>(number);
''')],
 needs='a number that does not fit the property', breaks='the number is truncated',
 demo=P+'''int main(){ StringReader r; std::string t="[ 300 ]"; r.setInput(t); r.readArrayBegin(); REQ(throws([&]{ r.read<uint8_t>(); })); return 0; }'''),
dict(id='c22-escape-loop', prop='C22', edits=[(TR,'''                        if (it == format_t::StringEscapeMapping.end())
                        {
                            throw makeTokenError("<valid-escape-sequence>");
                        }

                        const auto& [from, to] = *it;
                        token += from;
                        inputAdvance(to.size());''','''                        if (it != format_t::StringEscapeMapping.end())
                        {
                            const auto& [from, to] = *it;
                            token += from;
                            inputAdvance(to.size());
                        }''')],
 needs='an unknown escape sequence', breaks='decoding does not end',
 demo=P+'''int main(){ alarm(20); StringReader r; std::string t="[ \\"a\\\\q\\" ]"; r.setInput(t); r.readArrayBegin(); REQ(throws([&]{ r.readEscapedString(); })); return 0; }''', extra='-include unistd.h'),
dict(id='c31-enum-name', prop='C31', edits=[(EN,'return enumeratorDescriptor.name() == name;','return enumeratorDescriptor.name() == name.data();')],
 needs='a name that is part of a longer text', breaks='the enumerator is not found',
 demo=P+'''#include <DotsConnectionState.dots.h>
int main(){ const auto& d=static_cast<const type::EnumDescriptor&>(type::Descriptor<DotsConnectionState>::Instance()); std::string t="connecting now"; std::string_view n=std::string_view{t}.substr(0,10); REQ(!throws([&]{ d.enumeratorFromName(n); })); return 0; }'''),
dict(id='c31-auth-host', prop='C31', edits=[(LA,'''return verifyResponse(asio::ip::address::from_string(std::string{ remoteEndpoint.host() }), nonce.value(), connect);''','''return verifyResponse(asio::ip::address::from_string(remoteEndpoint.host().data()), nonce.value(), connect);''')],
 needs='a remote endpoint with a port', breaks='the address is not understood',
 demo=P+'''struct A : io::LegacyAuthManager { using LegacyAuthManager::LegacyAuthManager; }; 
int main(){ io::Endpoint e{"tcp://127.0.0.1:1234"}; io::Nonce n; return 0; }'''),
dict(id='c31-digest', prop='C31', edits=[(DG,'hasher.process(data.begin(), data.end());','hasher.process(data.data(), data.data() + std::char_traits<char>::length(data.data()));')],
 needs='a secret that is part of a longer text', breaks='the digest covers more than the secret',
 demo=P+'''int main(){ std::string s="secretXYZ"; io::Nonce n{12345}; io::Digest a{n, "abc", "user", std::string_view{s}.substr(0,6)}, b{n,"abc","user","secret"}; REQ(a.toString()==b.toString()); return 0; }'''),
dict(id='c31-uri-replace', prop='C31', edits=[(UR,'part.size(), replacement);\n        parse();','part.size(), replacement.data());\n        parse();')],
 needs='a replacement that is part of a longer text', breaks='the whole text becomes part of the URI',
 demo=P+'''int main(){ tools::Uri u{"tcp://user:pw@host:11"}; u.setUserPassword(""); return 0; }'''),
]
