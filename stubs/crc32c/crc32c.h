// Stand-in for google/crc32c (not installed here): the same function, CRC-32C (Castagnoli), computed with a table.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>

namespace crc32c
{
    namespace detail
    {
        constexpr std::array<uint32_t, 256> make_table()
        {
            std::array<uint32_t, 256> t{};
            for (uint32_t i = 0; i < 256; ++i)
            {
                uint32_t c = i;
                for (int k = 0; k < 8; ++k) c = (c & 1) ? (c >> 1) ^ 0x82f63b78u : c >> 1;
                t[i] = c;
            }
            return t;
        }
        inline constexpr std::array<uint32_t, 256> table = make_table();
    }
    inline uint32_t Extend(uint32_t crc, const uint8_t* p, size_t n)
    {
        uint32_t c = ~crc;
        for (size_t i = 0; i < n; ++i) c = (c >> 8) ^ detail::table[(c ^ p[i]) & 0xff];
        return ~c;
    }
    inline uint32_t Crc32c(const uint8_t* p, size_t n) { return Extend(0, p, n); }
    inline uint32_t Crc32c(const char* p, size_t n) { return Extend(0, reinterpret_cast<const uint8_t*>(p), n); }
}  // namespace crc32c
