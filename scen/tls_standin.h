// What the stand-in for OpenSSL does beyond its interface (tls_standin.cpp).
#pragma once
#include "common.h"

namespace tls_standin
{
    struct Knobs
    {
        bool v13 = true;          // the library speaks TLS 1.3
        double p_no_ktls = 0;     // the kernel refuses the keys of a connection, in one direction or both
        double p_ahead = 0;       // data behind the handshake is read ahead into the library's buffer
        u64 pad = 0;              // size of the handshake messages
    };
    Knobs& knobs();
    // Counters, for scenarios.
    struct Counts
    {
        u64 no_ktls = 0, refused = 0, live_ssl = 0, live_ctx = 0;
    };
    Counts& counts();
}  // namespace tls_standin
