// declaration-only stand-in for the PicoSHA2 header, which is not installed here; only parsed, never compiled or run
#pragma once
#include <string>
#include <cstddef>
namespace picosha2
{
    static const std::size_t k_digest_size = 32;
    class hash256_one_by_one
    {
    public:
        hash256_one_by_one();
        void init();
        template <typename It> void process(It first, It last);
        void finish();
        template <typename It> void get_hash_bytes(It first, It last) const;
    };
    template <typename It> std::string bytes_to_hex_string(It first, It last);
    template <typename C> std::string bytes_to_hex_string(const C& bytes);
    template <typename Src, typename Dst> void hash256(const Src& src, Dst& dst);
    template <typename It, typename OutIt> void hash256(It first, It last, OutIt first2, OutIt last2);
}
