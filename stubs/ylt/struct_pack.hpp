// Stand-in for yalantinglibs' struct_pack (not installed here): the calls kio's bitcask makes, with the same observable
// behaviour: a 4-byte type code whose lowest bit announces a byte with the width of lengths, then the fields in order,
// integers little endian, strings and vectors as a length and their bytes. Input is never trusted.
#pragma once
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <expected>
#include <span>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace struct_pack
{
    enum class errc
    {
        ok,
        no_buffer_space,
        invalid_buffer
    };
    struct err_code
    {
        errc ec = errc::ok;
        operator errc() const { return ec; }
        [[nodiscard]] std::string_view message() const { return ec == errc::ok ? "ok" : ec == errc::no_buffer_space ? "no buffer space" : "invalid argument"; }
    };

    namespace detail
    {
        template<typename T>
        concept Scalar = std::is_arithmetic_v<T>;

        template<typename T>
        constexpr uint32_t type_code(uint32_t h)
        {
            if constexpr (Scalar<T>)
                return (h ^ (sizeof(T) + (std::is_signed_v<T> ? 16u : 0u))) * 16777619u;
            else
                return (h ^ (77u + sizeof(typename T::value_type))) * 16777619u;
        }
        struct MaxLen
        {
            size_t max = 0, bytes = 0;
            template<typename T>
            void operator()(const T& f)
            {
                if constexpr (Scalar<T>)
                    bytes += sizeof(T);
                else
                {
                    static_assert(sizeof(typename T::value_type) == 1);
                    ++lens;
                    bytes += f.size();
                    if (f.size() > max) max = f.size();
                }
            }
            size_t lens = 0;
            [[nodiscard]] size_t width() const { return max < 256 ? 1 : max < 65536 ? 2 : max < (size_t{1} << 32) ? 4 : 8; }
            [[nodiscard]] size_t total() const { return 4 + (width() > 1 ? 1 : 0) + bytes + lens * width(); }
        };
        struct Writer
        {
            char* p;
            size_t width;
            void raw(const void* d, size_t n)
            {
                if (n) memcpy(p, d, n);
                p += n;
            }
            template<typename T>
            void operator()(const T& f)
            {
                if constexpr (Scalar<T>)
                    raw(&f, sizeof f);
                else
                {
                    const uint64_t n = f.size();
                    raw(&n, width);
                    raw(f.data(), f.size());
                }
            }
        };
        struct Reader
        {
            const char* p;
            size_t left;
            size_t width;
            bool bad = false;
            bool raw(void* d, size_t n)
            {
                if (bad || left < n) return !(bad = true);
                if (n) memcpy(d, p, n);
                p += n;
                left -= n;
                return true;
            }
            template<typename T>
            void operator()(T& f)
            {
                if constexpr (Scalar<T>)
                    raw(&f, sizeof f);
                else
                {
                    uint64_t n = 0;
                    if (!raw(&n, width)) return;
                    if (n > left)
                    {
                        bad = true;
                        return;
                    }
                    f.assign(p, p + n);
                    p += n;
                    left -= n;
                }
            }
        };
        struct Coder
        {
            uint32_t h = 2166136261u;
            template<typename T>
            void operator()(const T&)
            {
                h = type_code<T>(h);
            }
        };
    }  // namespace detail

    template<typename T>
    size_t get_needed_size(const T& t)
    {
        detail::MaxLen m;
        ylt_refl_visit(t, m);
        return m.total();
    }

    template<typename T>
    void serialize_to(std::vector<char>& out, const T& t)
    {
        detail::MaxLen m;
        ylt_refl_visit(t, m);
        detail::Coder c;
        ylt_refl_visit(t, c);
        const size_t at = out.size();
        out.resize(at + m.total());
        detail::Writer w{out.data() + at, m.width()};
        const uint32_t code = (c.h & ~1u) | (m.width() > 1 ? 1u : 0u);
        w.raw(&code, 4);
        if (m.width() > 1)
        {
            const uint8_t meta = m.width() == 2 ? 1 : m.width() == 4 ? 2 : 3;
            w.raw(&meta, 1);
        }
        ylt_refl_visit(t, w);
    }
    template<typename T>
    std::vector<char> serialize(const T& t)
    {
        std::vector<char> out;
        serialize_to(out, t);
        return out;
    }

    template<typename T, typename View>
    std::expected<T, err_code> deserialize(const View& v)
    {
        detail::Reader r{v.data(), v.size(), 1};
        T t{};
        detail::Coder c;
        ylt_refl_visit(t, c);
        uint32_t code = 0;
        if (!r.raw(&code, 4)) return std::unexpected(err_code{errc::no_buffer_space});
        if ((code & ~1u) != (c.h & ~1u)) return std::unexpected(err_code{errc::invalid_buffer});
        if (code & 1)
        {
            uint8_t meta = 0;
            if (!r.raw(&meta, 1)) return std::unexpected(err_code{errc::no_buffer_space});
            if (meta < 1 || meta > 3) return std::unexpected(err_code{errc::invalid_buffer});
            r.width = size_t{1} << meta;
        }
        ylt_refl_visit(t, r);
        if (r.bad) return std::unexpected(err_code{errc::no_buffer_space});
        return t;
    }
}  // namespace struct_pack

#define YLT_STUB_1(o, v, a) v(o.a);
#define YLT_STUB_2(o, v, a, ...) v(o.a); YLT_STUB_1(o, v, __VA_ARGS__)
#define YLT_STUB_3(o, v, a, ...) v(o.a); YLT_STUB_2(o, v, __VA_ARGS__)
#define YLT_STUB_4(o, v, a, ...) v(o.a); YLT_STUB_3(o, v, __VA_ARGS__)
#define YLT_STUB_5(o, v, a, ...) v(o.a); YLT_STUB_4(o, v, __VA_ARGS__)
#define YLT_STUB_6(o, v, a, ...) v(o.a); YLT_STUB_5(o, v, __VA_ARGS__)
#define YLT_STUB_7(o, v, a, ...) v(o.a); YLT_STUB_6(o, v, __VA_ARGS__)
#define YLT_STUB_8(o, v, a, ...) v(o.a); YLT_STUB_7(o, v, __VA_ARGS__)
#define YLT_STUB_PICK(_1, _2, _3, _4, _5, _6, _7, _8, N, ...) N
#define YLT_STUB_EACH(o, v, ...) \
    YLT_STUB_PICK(__VA_ARGS__, YLT_STUB_8, YLT_STUB_7, YLT_STUB_6, YLT_STUB_5, YLT_STUB_4, YLT_STUB_3, YLT_STUB_2, YLT_STUB_1)(o, v, __VA_ARGS__)
#define YLT_REFL(T, ...)                                                                             \
    template<typename V>                                                                             \
    inline void ylt_refl_visit(const T& t, V& v) { YLT_STUB_EACH(t, v, __VA_ARGS__) }                \
    template<typename V>                                                                             \
    inline void ylt_refl_visit(T& t, V& v) { YLT_STUB_EACH(t, v, __VA_ARGS__) }
