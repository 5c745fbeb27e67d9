// OpenSSL made deterministic, certificates read before the runs fork off, and an endpoint made of OpenSSL itself.
#pragma once
#include "proto.h"
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/pem.h>
namespace sim { extern std::map<Str, X509 *> ssl_certs; extern std::map<Str, EVP_PKEY *> ssl_keys; }
namespace tlsenv {
inline Str g_dir;
// ---- determinism: all randomness of OpenSSL comes from the run's seed ----
inline uint64_t g_rnd;
inline int rnd_bytes(unsigned char *p, int n) { for (int i = 0; i < n; ++i) { g_rnd ^= g_rnd << 13; g_rnd ^= g_rnd >> 7; g_rnd ^= g_rnd << 17; p[i] = (unsigned char)(g_rnd >> 24); } return 1; }
inline int rnd_seed(const void *, int) { return 1; }
inline int rnd_add(const void *, int, double) { return 1; }
inline int rnd_status() { return 1; }
inline RAND_METHOD g_meth = {rnd_seed, rnd_bytes, NULL, rnd_add, rnd_bytes, rnd_status};
// An endpoint made of OpenSSL itself, on memory buffers.
struct Ossl {
    SSL_CTX *ctx; SSL *s; BIO *in, *out; Str rx; bool hs = false, end = false, err = false;
    Ossl(bool server, int ver, int frag, bool tickets = true) {
        ctx = SSL_CTX_new(TLS_method()); SSL_CTX_set_min_proto_version(ctx, ver); SSL_CTX_set_max_proto_version(ctx, ver); if (!tickets) SSL_CTX_set_num_tickets(ctx, 0);
        if (server) { SSL_CTX_use_certificate(ctx, ssl_certs[g_dir + "tlscert.pem"]); SSL_CTX_use_PrivateKey(ctx, ssl_keys[g_dir + "tlskey.pem"]); }
        s = SSL_new(ctx); in = BIO_new(BIO_s_mem()); out = BIO_new(BIO_s_mem()); BIO_set_mem_eof_return(in, -1); SSL_set_bio(s, in, out); if (frag) SSL_set_max_send_fragment(s, frag); if (server) SSL_set_accept_state(s); else SSL_set_connect_state(s);
    }
    ~Ossl() { SSL_free(s); SSL_CTX_free(ctx); }
    Str take() { Str r; char b[4096]; int n; while ((n = BIO_read(out, b, sizeof b)) > 0) r.append(b, n); return r; }
    void step() { // as far as it gets
        ERR_set_mark(); if (!hs) { int r = SSL_do_handshake(s); if (r == 1) hs = true; else { int c = SSL_get_error(s, r); if (c != SSL_ERROR_WANT_READ) err = true; } }
        if (hs && !end && !err) { char b[3000]; for (;;) { int r = SSL_read(s, b, sizeof b); if (r > 0) { rx.append(b, r); continue; } int c = SSL_get_error(s, r); if (c == SSL_ERROR_ZERO_RETURN) end = true; else if (c != SSL_ERROR_WANT_READ) err = true; break; } }
        ERR_pop_to_mark();
    }
    void feed(const Str &d) { ERR_set_mark(); BIO_write(in, d.data(), (int)d.size()); ERR_pop_to_mark(); }
    bool write(const Str &d) { ERR_set_mark(); int r = d.empty() ? 1 : SSL_write(s, d.data(), (int)d.size()); ERR_pop_to_mark(); return r > 0; }
    void shutdown() { ERR_set_mark(); SSL_shutdown(s); ERR_pop_to_mark(); }
};
struct TlsSetup { TlsSetup() {
    Str f = __FILE__; size_t k = f.rfind('/'); g_dir = k == Str::npos ? "" : f.substr(0, k + 1); g_rnd = 88172645463325252ull; RAND_set_rand_method(&g_meth);
    for (auto n : {"tlskey.pem", "tlsother.pem"}) if (FILE *x = fopen((g_dir + n).c_str(), "r")) { ssl_keys[g_dir + n] = PEM_read_PrivateKey(x, NULL, NULL, NULL); fclose(x); }
    if (FILE *x = fopen((g_dir + "tlscert.pem").c_str(), "r")) { ssl_certs[g_dir + "tlscert.pem"] = PEM_read_X509(x, NULL, NULL, NULL); fclose(x); }
    for (int v : {TLS1_3_VERSION, TLS1_2_VERSION}) { Ossl a(false, v, 0), b(true, v, 0); for (int i = 0; i < 6; ++i) { a.step(); b.feed(a.take()); b.step(); a.feed(b.take()); } a.shutdown(); b.shutdown(); } // loads everything once, before the runs fork off
} };
inline TlsSetup g_setup;
}
using namespace tlsenv;
