// OpenSSL as the library sees it: the real one, with objects counted, resource faults, and the
// certificate files parsed only once.
#include "rt.h"
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <map>
namespace sim {
static int n_ssl, n_ctx, n_bio;
int ssl_live() { return n_ssl + n_ctx + n_bio; }
std::string describe_ssl() { char b[100]; snprintf(b, sizeof b, "%d SSL, %d SSL_CTX, %d BIO", n_ssl, n_ctx, n_bio); return b; }
std::map<std::string, X509 *> ssl_certs;
std::map<std::string, EVP_PKEY *> ssl_keys;
}
using namespace sim;
static long bio_cb(BIO *b, int oper, const char *, size_t, int, long, int ret, size_t *) { if (oper == BIO_CB_FREE) --n_bio; return ret; }
extern "C" {
SSL_CTX *sim_SSL_CTX_new(const SSL_METHOD *m) { enter("SSL_CTX_new"); if (res_hit(R_MEM)) return NULL; SSL_CTX *c = SSL_CTX_new(m); if (c) ++n_ctx; return c; }
void sim_SSL_CTX_free(SSL_CTX *c) { if (c) --n_ctx; SSL_CTX_free(c); }
SSL *sim_SSL_new(SSL_CTX *c) { enter("SSL_new"); if (res_hit(R_MEM)) return NULL; SSL *s = SSL_new(c); if (s) ++n_ssl; return s; }
void sim_SSL_free(SSL *s) { if (s) --n_ssl; SSL_free(s); }
BIO *sim_BIO_new(const BIO_METHOD *m) { enter("BIO_new"); if (res_hit(R_MEM)) return NULL; BIO *b = BIO_new(m); if (b) { ++n_bio; BIO_set_callback_ex(b, bio_cb); } return b; }
int sim_SSL_CTX_use_certificate_file(SSL_CTX *c, const char *f, int type) {
    enter("open"); if (res_hit(R_FD)) return 0; auto it = ssl_certs.find(f ? f : ""); if (it != ssl_certs.end() && type == SSL_FILETYPE_PEM) return SSL_CTX_use_certificate(c, it->second); return SSL_CTX_use_certificate_file(c, f, type);
}
int sim_SSL_CTX_use_PrivateKey_file(SSL_CTX *c, const char *f, int type) {
    enter("open"); if (res_hit(R_FD)) return 0; auto it = ssl_keys.find(f ? f : ""); if (it != ssl_keys.end() && type == SSL_FILETYPE_PEM) return SSL_CTX_use_PrivateKey(c, it->second); return SSL_CTX_use_PrivateKey_file(c, f, type);
}
int sim_fprintf(FILE *f, const char *fmt, ...) {
    if (!strncmp(fmt, "SSL error", 9)) return 0;
    va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap); return r;
}
}
