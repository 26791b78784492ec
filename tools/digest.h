// stand-in for dots::io::Digest (its source is not part of the library built here)
#include <dots/io/auth/Digest.h>
#include <cstring>
#include <cstdio>
namespace dots::io {
inline uint64_t fnv(const std::string& s, uint64_t h){ for(unsigned char c: s) { h ^= c; h *= 1099511628211ull; } return h; }
inline Digest::value_t mk(const std::string& s){ Digest::value_t v{}; for(int i=0;i<4;++i){ uint64_t h=fnv(s,14695981039346656037ull+i); std::memcpy(v.data()+8*i,&h,8);} return v; }
Digest::Digest(const value_t& v):m_value(v){}
Digest::Digest(std::string_view s):m_value{}{ for(size_t i=0;i+1<s.size()&&i/2<32;i+=2) m_value[i/2]=(uint8_t)std::stoi(std::string{s.substr(i,2)},nullptr,16); }
Digest::Digest(Nonce n, std::string_view c, std::string_view u, std::string_view s):m_value(mk(std::string{u}+"::"+std::string{s}+":"+std::to_string(n.value())+":"+std::string{c})){}
Digest::Digest(Nonce n, Nonce c, std::string_view u, std::string_view s):Digest(n,c.toString(),u,s){}
auto Digest::value() const -> const value_t& { return m_value; }
std::string Digest::toString() const { std::string r; char b[3]; for(auto x: m_value){ std::snprintf(b,3,"%02x",x); r+=b; } return r; }
}
