// Sockets, peers and stream contents shared by scenarios.
#pragma once
#include "kio_common.h"

#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>

#include "kio/net/net.h"

namespace scen
{
    // The content of stream `id`: cheap to compute anywhere, differs in every position and between streams.
    SIM_NOINSTR __attribute__((always_inline)) inline char stream_byte(u64 id, u64 i)
    {
        u64 x = (i + 1) * 0x9E3779B97F4A7C15ull + id * 0xD1B54A32D192ED03ull;
        x ^= x >> 29;
        x *= 0xBF58476D1CE4E5B9ull;
        return char(x >> 56);
    }
    SIM_NOINSTR inline std::string stream_data(u64 id, u64 from, u64 n)
    {
        Quiet q;
        std::string s(n, 0);
        char* p = s.data();
        for (u64 i = 0; i < n; ++i) p[i] = stream_byte(id, from + i);
        return s;
    }
    SIM_NOINSTR inline void check_stream(u64 id, u64 from, const char* p, u64 n, const char* cls, const char* what)
    {
        Quiet q;
        for (u64 i = 0; i < n; ++i)
            if (p[i] != stream_byte(id, from + i))
            {
                // where does this byte belong?
                i64 at = -1;
                for (u64 k = 0; k < from + n + 5000 && n - i >= 4; ++k)
                    if (p[i] == stream_byte(id, k) && p[i + 1] == stream_byte(id, k + 1) && p[i + 2] == stream_byte(id, k + 2) && p[i + 3] == stream_byte(id, k + 3))
                    {
                        at = i64(k);
                        break;
                    }
                sim::violation(cls, "%s: wrong byte at position %llu of the stream (offset %llu of %llu)%s%s", what, (unsigned long long)(from + i), (unsigned long long)i, (unsigned long long)n,
                               at >= 0 ? ", it is byte " : ", it is no byte of the stream", at >= 0 ? std::to_string(at).c_str() : "");
            }
    }
    inline sockaddr_in loopback(u16 port)
    {
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons(port);
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        return a;
    }
    // A connected blocking socket of the program (through system calls, no worker), with the peer's handle.
    inline int connect_plain(u16 port)
    {
        const int fd = ::socket(AF_INET, SOCK_STREAM, 0);
        if (fd < 0) return -1;
        sockaddr_in a = loopback(port);
        if (::connect(fd, (sockaddr*)&a, sizeof a) != 0)
        {
            ::close(fd);
            return -1;
        }
        return fd;
    }
    // A size: often small, sometimes around powers of two, sometimes large.
    inline u64 some_size(u64 lo, u64 hi)
    {
        switch (wr(0, 5))
        {
            case 0: return wr(lo, std::min<u64>(hi, lo + 4));
            case 1:
            {
                const u64 p = 1ull << wr(0, 17);
                const u64 v = p + wr(0, 2);
                return std::clamp<u64>(v ? v - 1 : 0, lo, hi);
            }
            case 2: return wr(lo, hi);
            default: return wr(lo, std::min<u64>(hi, lo + 300));
        }
    }
    inline std::string read_file(const std::string& path)
    {
        std::string s;
        const int fd = ::open(path.c_str(), O_RDONLY);
        if (fd < 0) return "?";
        char b[4096];
        long n;
        while ((n = ::pread(fd, b, sizeof b, off_t(s.size()))) > 0) s.append(b, size_t(n));
        ::close(fd);
        return s;
    }
    inline void write_file(const std::string& path, const std::string& data)
    {
        const int fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0) sim::sim_error("open");
        for (size_t i = 0; i < data.size();)
        {
            const long n = ::pwrite(fd, data.data() + i, data.size() - i, off_t(i));
            if (n <= 0 && errno != EINTR) sim::sim_error("pwrite");
            if (n > 0) i += size_t(n);
        }
        ::close(fd);
    }
}  // namespace scen
