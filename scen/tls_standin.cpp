// A stand-in for the part of OpenSSL 3 that kio uses, behind its real headers: a handshake of a few messages over the
// non-blocking descriptor with the return values, error queue and shutdown rules of the real library, and kernel TLS through
// the simulated kernel. No cryptography, no randomness: certificates are files of the lines name=, issuer=, key=.
#include "tls_standin.h"

#include <cerrno>
#include <fcntl.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <sys/socket.h>
#include <unistd.h>

namespace tls_standin
{
    Knobs& knobs()
    {
        static Knobs* k = new Knobs;
        return *k;
    }
    Counts& counts()
    {
        static Counts* c = new Counts;
        return *c;
    }
}  // namespace tls_standin

namespace
{
    thread_local std::vector<unsigned long>* t_errors;
    void push(int lib, int reason)
    {
        if (!t_errors) t_errors = new std::vector<unsigned long>;
        t_errors->push_back(ERR_PACK(lib, 0, reason));
    }
    std::string slurp(const char* path)
    {
        std::string s;
        const int fd = ::open(path, O_RDONLY);
        if (fd < 0) return "";
        char b[512];
        long n;
        while ((n = ::pread(fd, b, sizeof b, off_t(s.size()))) > 0) s.append(b, size_t(n));
        ::close(fd);
        return s;
    }
    std::string field(const std::string& s, const std::string& name)
    {
        size_t p = 0;
        while (p < s.size())
        {
            const size_t e = std::min(s.find('\n', p), s.size());
            if (s.compare(p, name.size() + 1, name + "=") == 0) return s.substr(p + name.size() + 1, e - p - name.size() - 1);
            p = e + 1;
        }
        return "";
    }
}  // namespace

struct ssl_method_st
{
    bool server;
};
struct ssl_ctx_st
{
    std::atomic<int> refs{1};
    bool server = false;
    int min_version = 0;
    bool ktls = false;
    size_t tickets = 2;
    std::string cert, key;
    std::vector<std::string> trusted;
    int verify = SSL_VERIFY_NONE;
};
struct bio_st
{
    ssl_st* ssl;
};
struct ssl_st
{
    ssl_ctx_st* ctx;
    bio_st bio{this};
    int fd = -1;
    int state = 0;               // messages of the handshake done; 100: finished, -1: failed
    bool server = false;
    int version = 0;
    int want = 0;                // 1 read, 2 write
    int shut = 0;
    bool alert_pending = false;
    bool tx = false, rx = false;
    long mode = 0;
    std::string sni, host, out, in, ahead;
};

extern "C"
{
    int OPENSSL_init_ssl(uint64_t, const OPENSSL_INIT_SETTINGS*) { return 1; }
    int OPENSSL_init_crypto(uint64_t, const OPENSSL_INIT_SETTINGS*) { return 1; }
    const char* OpenSSL_version(int) { return "stand-in 3"; }
    unsigned long OpenSSL_version_num(void) { return OPENSSL_VERSION_NUMBER; }
    unsigned long ERR_get_error(void)
    {
        if (!t_errors || t_errors->empty()) return 0;
        const unsigned long e = t_errors->front();
        t_errors->erase(t_errors->begin());
        return e;
    }
    unsigned long ERR_peek_error(void) { return !t_errors || t_errors->empty() ? 0 : t_errors->front(); }
    unsigned long ERR_peek_last_error(void) { return !t_errors || t_errors->empty() ? 0 : t_errors->back(); }
    void ERR_clear_error(void)
    {
        delete t_errors;
        t_errors = nullptr;
    }
    void ERR_error_string_n(unsigned long e, char* buf, size_t n) { snprintf(buf, n, "error:%08lX", e); }
    const char* ERR_reason_error_string(unsigned long) { return "reason"; }

    const SSL_METHOD* TLS_server_method(void)
    {
        static const ssl_method_st m{true};
        return &m;
    }
    const SSL_METHOD* TLS_client_method(void)
    {
        static const ssl_method_st m{false};
        return &m;
    }
    SSL_CTX* SSL_CTX_new(const SSL_METHOD* m)
    {
        if (sim::fault(sim::F_InitFail))
        {
            push(ERR_LIB_SSL, ERR_R_MALLOC_FAILURE);
            return nullptr;
        }
        auto* c = new ssl_ctx_st;
        c->server = m->server;
        Quiet q;
        tls_standin::counts().live_ctx++;
        return c;
    }
    void SSL_CTX_free(SSL_CTX* c)
    {
        if (!c || c->refs.fetch_sub(1) != 1) return;
        delete c;
        Quiet q;
        tls_standin::counts().live_ctx--;
    }
    int SSL_CTX_up_ref(SSL_CTX* c)
    {
        c->refs.fetch_add(1);
        return 1;
    }
    long SSL_CTX_ctrl(SSL_CTX* c, int cmd, long l, void*)
    {
        if (cmd == SSL_CTRL_SET_MIN_PROTO_VERSION) c->min_version = int(l);
        return 1;
    }
    uint64_t SSL_CTX_set_options(SSL_CTX* c, uint64_t o)
    {
        if (o & SSL_OP_ENABLE_KTLS) c->ktls = true;
        return o;
    }
    int SSL_CTX_set_num_tickets(SSL_CTX* c, size_t n)
    {
        c->tickets = n;
        return 1;
    }
    int SSL_CTX_use_certificate_chain_file(SSL_CTX* c, const char* f)
    {
        c->cert = slurp(f);
        if (!field(c->cert, "name").empty()) return 1;
        push(ERR_LIB_SSL, SSL_R_BAD_SSL_FILETYPE);
        return 0;
    }
    int SSL_CTX_use_certificate_file(SSL_CTX* c, const char* f, int) { return SSL_CTX_use_certificate_chain_file(c, f); }
    int SSL_CTX_use_PrivateKey_file(SSL_CTX* c, const char* f, int)
    {
        c->key = field(slurp(f), "key");
        if (c->key.empty())
        {
            push(ERR_LIB_SSL, SSL_R_BAD_SSL_FILETYPE);
            return 0;
        }
        if (!c->cert.empty() && field(c->cert, "key") != c->key)
        {
            push(ERR_LIB_X509, 116);
            return 0;
        }
        return 1;
    }
    int SSL_CTX_check_private_key(const SSL_CTX* c)
    {
        if (!c->key.empty() && field(c->cert, "key") == c->key) return 1;
        push(ERR_LIB_X509, 116);
        return 0;
    }
    int SSL_CTX_load_verify_locations(SSL_CTX* c, const char* file, const char*)
    {
        if (!file) return 1;
        const std::string ca = field(slurp(file), "name");
        if (ca.empty())
        {
            push(ERR_LIB_X509, 1);
            return 0;
        }
        c->trusted.push_back(ca);
        return 1;
    }
    int SSL_CTX_set_default_verify_paths(SSL_CTX*) { return 1; }
    void SSL_CTX_set_verify(SSL_CTX* c, int m, SSL_verify_cb) { c->verify = m; }
    int SSL_CTX_set_cipher_list(SSL_CTX*, const char* s)
    {
        if (strcmp(s, "none")) return 1;
        push(ERR_LIB_SSL, SSL_R_NO_CIPHER_MATCH);
        return 0;
    }
    int SSL_CTX_set_ciphersuites(SSL_CTX* c, const char* s) { return SSL_CTX_set_cipher_list(c, s); }
    int SSL_CTX_set_alpn_protos(SSL_CTX*, const unsigned char*, unsigned) { return 0; }

    SSL* SSL_new(SSL_CTX* c)
    {
        if (!c || sim::fault(sim::F_InitFail))
        {
            push(ERR_LIB_SSL, ERR_R_MALLOC_FAILURE);
            return nullptr;
        }
        SSL_CTX_up_ref(c);
        auto* s = new ssl_st{c};
        s->server = c->server;
        Quiet q;
        tls_standin::counts().live_ssl++;
        return s;
    }
    void SSL_free(SSL* s)
    {
        if (!s) return;
        SSL_CTX_free(s->ctx);
        delete s;
        Quiet q;
        tls_standin::counts().live_ssl--;
    }
    int SSL_set_fd(SSL* s, int fd)
    {
        s->fd = fd;
        return 1;
    }
    int SSL_get_fd(const SSL* s) { return s->fd; }
    BIO* SSL_get_rbio(const SSL* s) { return const_cast<BIO*>(&s->bio); }
    BIO* SSL_get_wbio(const SSL* s) { return const_cast<BIO*>(&s->bio); }
    long BIO_ctrl(BIO* b, int cmd, long, void*)
    {
        if (cmd == BIO_CTRL_GET_KTLS_SEND) return b->ssl->tx;
        if (cmd == BIO_CTRL_GET_KTLS_RECV) return b->ssl->rx;
        return 0;
    }
    long SSL_ctrl(SSL* s, int cmd, long l, void* p)
    {
        if (cmd == SSL_CTRL_MODE) s->mode |= l;
        if (cmd == SSL_CTRL_SET_TLSEXT_HOSTNAME) s->sni = (const char*)p;
        return 1;
    }
    int SSL_set1_host(SSL* s, const char* h)
    {
        s->host = h;
        return 1;
    }
    void SSL_set_verify(SSL* s, int m, SSL_verify_cb) { s->ctx->verify = m; }
    const char* SSL_get_version(const SSL* s) { return s->version == TLS1_3_VERSION ? "TLSv1.3" : s->version == TLS1_2_VERSION ? "TLSv1.2" : "unknown"; }
    const SSL_CIPHER* SSL_get_current_cipher(const SSL* s) { return s->state == 100 ? (const SSL_CIPHER*)s : nullptr; }
    const char* SSL_CIPHER_get_name(const SSL_CIPHER* c) { return c ? "STANDIN-AES256-GCM" : "(NONE)"; }
    int SSL_is_init_finished(const SSL* s) { return s->state == 100; }
    int SSL_in_init(const SSL* s) { return s->state != 100; }
    int SSL_get_shutdown(const SSL* s) { return s->shut; }
    void SSL_set_shutdown(SSL* s, int m) { s->shut |= m; }
    int SSL_pending(const SSL* s) { return int(s->ahead.size()); }
    int SSL_has_pending(const SSL* s) { return !s->ahead.empty(); }

    int SSL_get_error(const SSL* s, int ret)
    {
        if (ret > 0) return SSL_ERROR_NONE;
        if (const unsigned long e = ERR_peek_error()) return ERR_GET_LIB(e) == ERR_LIB_SYS ? SSL_ERROR_SYSCALL : SSL_ERROR_SSL;
        if (s->want == 1) return SSL_ERROR_WANT_READ;
        if (s->want == 2) return SSL_ERROR_WANT_WRITE;
        if (s->shut & SSL_RECEIVED_SHUTDOWN) return SSL_ERROR_ZERO_RETURN;
        return SSL_ERROR_SYSCALL;
    }
}

namespace
{
    enum { Ok = 1, Again = 0, Fail = -1 };
    int flush(SSL* s)
    {
        while (!s->out.empty())
        {
            const long r = ::send(s->fd, s->out.data(), s->out.size(), MSG_NOSIGNAL);
            if (r > 0)
                s->out.erase(0, size_t(r));
            else if (r < 0 && errno == EINTR)
                continue;
            else if (r < 0 && errno == EAGAIN)
            {
                s->want = 2;
                return Again;
            }
            else
                return Fail;   // a failing system call: errno tells
        }
        return Ok;
    }
    // A message: type, 3 bytes of length, body. Never reads beyond it.
    int take(SSL* s, char& type, std::string& body)
    {
        for (;;)
        {
            size_t need = 4;
            if (s->in.size() >= 4)
            {
                if (s->in[0] < 1 || s->in[0] > 9 || s->in[1] != 0)
                {
                    push(ERR_LIB_SSL, SSL_R_WRONG_VERSION_NUMBER);
                    return Fail;
                }
                need = 4 + size_t(u8(s->in[2])) * 256 + u8(s->in[3]);
            }
            if (s->in.size() >= need && need >= 4 && s->in.size() >= 4)
            {
                type = s->in[0];
                body = s->in.substr(4);
                s->in.clear();
                return Ok;
            }
            char b[2048];
            const long r = ::recv(s->fd, b, std::min(sizeof b, need - s->in.size()), 0);
            if (r > 0)
                s->in.append(b, size_t(r));
            else if (r == 0)
            {
                push(ERR_LIB_SSL, SSL_R_UNEXPECTED_EOF_WHILE_READING);
                return Fail;
            }
            else if (errno == EINTR)
                continue;
            else if (errno == EAGAIN)
            {
                s->want = 1;
                return Again;
            }
            else
                return Fail;
        }
    }
    void put(SSL* s, char type, std::string body)
    {
        body += "pad=" + std::string(tls_standin::knobs().pad, 'p') + "\n";
        const char h[4] = {type, 0, char(body.size() / 256), char(body.size() % 256)};
        s->out.append(h, 4);
        s->out += body;
    }
    enum : char { CHello = 1, SHello = 2, CFin = 3, SFin = 4, Alert = 5 };
    int refuse(SSL* s, int reason)
    {
        put(s, Alert, "");
        (void)flush(s);
        push(ERR_LIB_SSL, reason);
        s->state = -1;
        Quiet q;
        tls_standin::counts().refused++;
        sim::probe("handshake refused");
        return Fail;
    }
    int finish(SSL* s)
    {
        s->state = 100;
        const bool refused = sim::chance(Env, tls_standin::knobs().p_no_ktls);
        s->tx = s->rx = s->ctx->ktls;
        if (refused && s->ctx->ktls)
        {
            switch (sim::decide(Env, 3))
            {
                case 0: s->tx = false; break;
                case 1: s->rx = false; break;
                default: s->tx = s->rx = false;
            }
            Quiet q;
            tls_standin::counts().no_ktls++;
            sim::probe("kernel TLS refused");
        }
        sim::sock_ktls(s->fd, s->tx, s->rx);
        if (s->server && s->version == TLS1_3_VERSION)
            for (size_t i = 0; i < s->ctx->tickets; ++i) (void)sim::sock_send_control(s->fd, 22);
        if (sim::chance(Env, tls_standin::knobs().p_ahead))
        {
            char b[256];
            const long r = ::recv(s->fd, b, sizeof b, MSG_DONTWAIT);
            if (r > 0) s->ahead.assign(b, size_t(r));
        }
        return Ok;
    }
    // One handshake, as far as it gets.
    int advance(SSL* s)
    {
        for (;;)
        {
            if (s->state < 0)
            {
                push(ERR_LIB_SSL, SSL_R_SSL_HANDSHAKE_FAILURE);
                return Fail;
            }
            if (const int f = flush(s); f != Ok)
            {
                if (f == Fail) s->state = -1;
                return f;
            }
            if (s->state == 100) return Ok;
            const bool v13 = s->version == TLS1_3_VERSION;
            if (!s->server && s->state == 0)
            {
                put(s, CHello, "sni=" + s->sni + "\nmin=" + std::to_string(s->ctx->min_version) + "\n");
                s->state = 1;
                continue;
            }
            if (!s->server && s->state == 2 && v13) return finish(s);   // its Finished is sent
            if (s->server && s->state == 2) return finish(s);
            char type;
            std::string body;
            if (const int t = take(s, type, body); t != Ok)
            {
                if (t == Fail) s->state = -1;
                return t;
            }
            if (type == Alert)
            {
                s->state = -1;
                push(ERR_LIB_SSL, SSL_R_SSLV3_ALERT_HANDSHAKE_FAILURE);
                return Fail;
            }
            if (s->server && s->state == 0 && type == CHello)
            {
                s->version = tls_standin::knobs().v13 ? TLS1_3_VERSION : TLS1_2_VERSION;
                const std::string m = field(body, "min");
                if (s->version < s->ctx->min_version || s->version < atoi(m.c_str())) return refuse(s, SSL_R_UNSUPPORTED_PROTOCOL);
                s->sni = field(body, "sni");
                put(s, SHello, "version=" + std::to_string(s->version) + "\n" + s->ctx->cert);
                s->state = 1;
                continue;
            }
            if (!s->server && s->state == 1 && type == SHello)
            {
                s->version = atoi(field(body, "version").c_str());
                if (s->version < s->ctx->min_version) return refuse(s, SSL_R_UNSUPPORTED_PROTOCOL);
                if (s->ctx->verify & SSL_VERIFY_PEER)
                {
                    const std::string issuer = field(body, "issuer"), name = field(body, "name");
                    if (std::find(s->ctx->trusted.begin(), s->ctx->trusted.end(), issuer) == s->ctx->trusted.end()) return refuse(s, SSL_R_CERTIFICATE_VERIFY_FAILED);
                    if (!s->host.empty() && s->host != name) return refuse(s, SSL_R_CERTIFICATE_VERIFY_FAILED);
                }
                put(s, CFin, "");
                s->state = 2;
                continue;
            }
            if (s->server && s->state == 1 && type == CFin)
            {
                if (!v13) put(s, SFin, "");
                s->state = 2;
                continue;
            }
            if (!s->server && s->state == 2 && type == SFin) return finish(s);
            return refuse(s, SSL_R_UNEXPECTED_MESSAGE);
        }
    }
    int handshake(SSL* s)
    {
        ERR_clear_error();
        errno = 0;
        s->want = 0;
        const int r = advance(s);
        return r == Ok ? 1 : -1;
    }
    // Reads records behind the handshake: 1 data is next, 0 end or close_notify, -1 see SSL_get_error.
    int records(SSL* s)
    {
        for (;;)
        {
            if (s->shut & SSL_RECEIVED_SHUTDOWN) return 0;
            const int c = sim::sock_recv_control(s->fd);
            if (c == 22) continue;   // a ticket
            if (c == 21)
            {
                s->shut |= SSL_RECEIVED_SHUTDOWN;
                return 0;
            }
            if (c == -EBADMSG) return 1;
            if (c == -EAGAIN)
            {
                s->want = 1;
                return -1;
            }
            if (c == 0)
            {
                push(ERR_LIB_SSL, SSL_R_UNEXPECTED_EOF_WHILE_READING);
                s->shut |= SSL_RECEIVED_SHUTDOWN;
                return -1;
            }
            errno = -c;
            return -1;
        }
    }
}  // namespace

extern "C"
{
    int SSL_connect(SSL* s)
    {
        s->server = false;
        return handshake(s);
    }
    int SSL_accept(SSL* s)
    {
        s->server = true;
        return handshake(s);
    }
    int SSL_do_handshake(SSL* s) { return handshake(s); }
    int SSL_read(SSL* s, void* p, int n)
    {
        errno = 0;
        s->want = 0;
        if (s->state != 100)
        {
            push(ERR_LIB_SSL, SSL_R_UNINITIALIZED);
            return -1;
        }
        if (!s->ahead.empty())
        {
            const size_t k = std::min(s->ahead.size(), size_t(n));
            memcpy(p, s->ahead.data(), k);
            s->ahead.erase(0, k);
            return int(k);
        }
        if (const int r = records(s); r <= 0) return r;
        const long r = ::recv(s->fd, p, size_t(n), 0);
        if (r < 0 && errno == EAGAIN) s->want = 1;
        return int(r);
    }
    int SSL_write(SSL* s, const void* p, int n)
    {
        errno = 0;
        s->want = 0;
        const long r = ::send(s->fd, p, size_t(n), MSG_NOSIGNAL);
        if (r < 0 && errno == EAGAIN) s->want = 2;
        return int(r);
    }
    int SSL_shutdown(SSL* s)
    {
        s->want = 0;
        if (s->state == 0) return 1;   // before any handshake
        if (s->state != 100)
        {
            push(ERR_LIB_SSL, SSL_R_SHUTDOWN_WHILE_IN_INIT);
            return -1;
        }
        errno = 0;
        if (!(s->shut & SSL_SENT_SHUTDOWN) || s->alert_pending)
        {
            s->shut |= SSL_SENT_SHUTDOWN;
            s->alert_pending = true;
            const int r = sim::sock_send_control(s->fd, 21);
            if (r == -EAGAIN)
            {
                s->want = 2;
                return -1;
            }
            if (r < 0)
            {
                errno = -r;
                return -1;
            }
            s->alert_pending = false;
        }
        else if (!(s->shut & SSL_RECEIVED_SHUTDOWN))
        {
            if (!s->ahead.empty())
            {
                push(ERR_LIB_SSL, SSL_R_APPLICATION_DATA_AFTER_CLOSE_NOTIFY);
                return -1;
            }
            const int r = records(s);
            if (r == 1) push(ERR_LIB_SSL, SSL_R_APPLICATION_DATA_AFTER_CLOSE_NOTIFY);
            if (!(s->shut & SSL_RECEIVED_SHUTDOWN) || r < 0) return -1;
        }
        return s->shut == (SSL_SENT_SHUTDOWN | SSL_RECEIVED_SHUTDOWN) ? 1 : 0;
    }
}

// Not used by kio today; here so that a change of kio that does use them can be judged.
extern "C"
{
    int SSL_in_before(const SSL* s) { return s->state == 0; }
    int SSL_is_server(const SSL* s) { return s->server; }
    OSSL_HANDSHAKE_STATE SSL_get_state(const SSL* s) { return s->state == 0 ? TLS_ST_BEFORE : s->state == 100 ? TLS_ST_OK : TLS_ST_CR_SRVR_HELLO; }
    int SSL_want(const SSL* s) { return s->want == 1 ? SSL_READING : s->want == 2 ? SSL_WRITING : SSL_NOTHING; }
    int SSL_get_rfd(const SSL* s) { return s->fd; }
    int SSL_get_wfd(const SSL* s) { return s->fd; }
    int SSL_set_rfd(SSL* s, int fd) { return SSL_set_fd(s, fd); }
    int SSL_set_wfd(SSL* s, int fd) { return SSL_set_fd(s, fd); }
    void SSL_set_connect_state(SSL* s) { s->server = false; }
    void SSL_set_accept_state(SSL* s) { s->server = true; }
    SSL_CTX* SSL_get_SSL_CTX(const SSL* s) { return s->ctx; }
    long SSL_get_verify_result(const SSL*) { return 0; }
    int SSL_version(const SSL* s) { return s->version; }
    void SSL_set_quiet_shutdown(SSL*, int) {}
    int SSL_get_verify_mode(const SSL* s) { return s->ctx->verify; }
    int SSL_CTX_get_verify_mode(const SSL_CTX* c) { return c->verify; }
    uint64_t SSL_CTX_get_options(const SSL_CTX* c) { return c->ktls ? SSL_OP_ENABLE_KTLS : 0; }
    uint64_t SSL_CTX_clear_options(SSL_CTX* c, uint64_t o)
    {
        if (o & SSL_OP_ENABLE_KTLS) c->ktls = false;
        return SSL_CTX_get_options(c);
    }
    uint64_t SSL_set_options(SSL*, uint64_t o) { return o; }
    uint64_t SSL_get_options(const SSL* s) { return SSL_CTX_get_options(s->ctx); }
    size_t SSL_CTX_get_num_tickets(const SSL_CTX* c) { return c->tickets; }
    int SSL_set_num_tickets(SSL* s, size_t n) { return SSL_CTX_set_num_tickets(s->ctx, n); }
    long SSL_CTX_set_timeout(SSL_CTX*, long) { return 300; }
    void SSL_CTX_set_quiet_shutdown(SSL_CTX*, int) {}
    void SSL_CTX_set_verify_depth(SSL_CTX*, int) {}
    int SSL_CTX_set_session_id_context(SSL_CTX*, const unsigned char*, unsigned) { return 1; }
    void SSL_CTX_set_alpn_select_cb(SSL_CTX*, SSL_CTX_alpn_select_cb_func, void*) {}
    void SSL_get0_alpn_selected(const SSL*, const unsigned char** d, unsigned* n)
    {
        *d = nullptr;
        *n = 0;
    }
    const char* SSL_get_servername(const SSL* s, int) { return s->sni.empty() ? nullptr : s->sni.c_str(); }
    int SSL_add1_host(SSL* s, const char* h) { return SSL_set1_host(s, h); }
    void SSL_set_hostflags(SSL*, unsigned) {}
    const char* SSL_state_string(const SSL*) { return "state"; }
    const char* SSL_state_string_long(const SSL*) { return "state"; }
    int SSL_CTX_load_verify_file(SSL_CTX* c, const char* f) { return SSL_CTX_load_verify_locations(c, f, nullptr); }
    int SSL_CTX_load_verify_dir(SSL_CTX*, const char*) { return 1; }
    int SSL_read_ex(SSL* s, void* p, size_t n, size_t* k)
    {
        const int r = SSL_read(s, p, int(std::min<size_t>(n, 1 << 30)));
        *k = r > 0 ? size_t(r) : 0;
        return r > 0;
    }
    int SSL_write_ex(SSL* s, const void* p, size_t n, size_t* k)
    {
        const int r = SSL_write(s, p, int(std::min<size_t>(n, 1 << 30)));
        *k = r > 0 ? size_t(r) : 0;
        return r > 0;
    }
    int SSL_up_ref(SSL*) { return 0; }
    int SSL_clear(SSL*) { return 0; }
    unsigned long ERR_get_error_all(const char** f, int* l, const char** fn, const char** d, int* fl)
    {
        if (f) *f = "";
        if (l) *l = 0;
        if (fn) *fn = "";
        if (d) *d = "";
        if (fl) *fl = 0;
        return ERR_get_error();
    }
    char* ERR_error_string(unsigned long e, char* b)
    {
        static char own[64];
        if (!b) b = own;
        snprintf(b, 64, "error:%08lX", e);
        return b;
    }
    const char* ERR_lib_error_string(unsigned long) { return "lib"; }
    void ERR_print_errors_fp(FILE*) { ERR_clear_error(); }
}
