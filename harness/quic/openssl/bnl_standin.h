// Stand-in for the part of BoringSSL that bnl uses. The primitives are symbolic:
// transport.cpp records what each one was given and returns fresh bytes that
// stand for its result. The TLS handshake follows the script.
#pragma once

#include <cstddef>
#include <cstdint>

struct ssl_st;
struct ssl_ctx_st;
struct ssl_method_st;
struct ssl_cipher_st;
typedef ssl_st SSL;
typedef ssl_ctx_st SSL_CTX;
typedef ssl_method_st SSL_METHOD;
typedef ssl_cipher_st SSL_CIPHER;

enum ssl_encryption_level_t {
  ssl_encryption_initial = 0,
  ssl_encryption_early_data,
  ssl_encryption_handshake,
  ssl_encryption_application
};

struct ssl_quic_method_st {
  int (*set_encryption_secrets)(SSL *, ssl_encryption_level_t, const uint8_t *read,
                                const uint8_t *write, size_t);
  int (*add_handshake_data)(SSL *, ssl_encryption_level_t, const uint8_t *, size_t);
  int (*flush_flight)(SSL *);
  int (*send_alert)(SSL *, ssl_encryption_level_t, uint8_t);
};
typedef ssl_quic_method_st SSL_QUIC_METHOD;

#define TLS1_3_VERSION 0x0304
#define SSL_ERROR_SSL 1
#define SSL_ERROR_WANT_READ 2
#define SSL_ERROR_WANT_WRITE 3

const SSL_METHOD *TLS_method();
SSL_CTX *SSL_CTX_new(const SSL_METHOD *);
void SSL_CTX_free(SSL_CTX *);
int SSL_CTX_set_default_verify_paths(SSL_CTX *);
SSL *SSL_new(SSL_CTX *);
void SSL_free(SSL *);
int SSL_set_ex_data(SSL *, int, void *);
void *SSL_get_ex_data(const SSL *, int);
#define SSL_get_app_data(s) (SSL_get_ex_data(s, 0))
int SSL_set_alpn_protos(SSL *, const uint8_t *, unsigned);
void SSL_set_connect_state(SSL *);
int SSL_set_min_proto_version(SSL *, uint16_t);
int SSL_set_max_proto_version(SSL *, uint16_t);
int SSL_set_tlsext_host_name(SSL *, const char *);
int SSL_set_quic_transport_params(SSL *, const uint8_t *, size_t);
void SSL_get_peer_quic_transport_params(const SSL *, const uint8_t **, size_t *);
int SSL_set_quic_method(SSL *, const SSL_QUIC_METHOD *);
int SSL_do_handshake(SSL *);
int SSL_get_error(const SSL *, int);
int SSL_provide_quic_data(SSL *, ssl_encryption_level_t, const uint8_t *, size_t);
int SSL_process_quic_post_handshake(SSL *);
const SSL_CIPHER *SSL_get_current_cipher(const SSL *);
uint32_t SSL_CIPHER_get_id(const SSL_CIPHER *);
const char *SSL_CIPHER_standard_name(const SSL_CIPHER *);
uint32_t ERR_get_error();
void ERR_error_string_n(uint32_t, char *, size_t);

struct env_md_st;
typedef env_md_st EVP_MD;
const EVP_MD *EVP_sha256();
const EVP_MD *EVP_sha384();
int HKDF_extract(uint8_t *out, size_t *out_len, const EVP_MD *, const uint8_t *secret,
                 size_t, const uint8_t *salt, size_t);
int HKDF_expand(uint8_t *out, size_t out_len, const EVP_MD *, const uint8_t *prk, size_t,
                const uint8_t *info, size_t);

struct evp_aead_st;
struct evp_aead_ctx_st;
typedef evp_aead_st EVP_AEAD;
typedef evp_aead_ctx_st EVP_AEAD_CTX;
#define EVP_AEAD_DEFAULT_TAG_LENGTH 0
const EVP_AEAD *EVP_aead_aes_128_gcm();
const EVP_AEAD *EVP_aead_aes_256_gcm();
const EVP_AEAD *EVP_aead_chacha20_poly1305();
size_t EVP_AEAD_max_overhead(const EVP_AEAD *);
EVP_AEAD_CTX *EVP_AEAD_CTX_new(const EVP_AEAD *, const uint8_t *key, size_t, size_t tag);
void EVP_AEAD_CTX_free(EVP_AEAD_CTX *);
int EVP_AEAD_CTX_seal(const EVP_AEAD_CTX *, uint8_t *out, size_t *out_len, size_t max,
                      const uint8_t *nonce, size_t, const uint8_t *in, size_t,
                      const uint8_t *ad, size_t);
int EVP_AEAD_CTX_open(const EVP_AEAD_CTX *, uint8_t *out, size_t *out_len, size_t max,
                      const uint8_t *nonce, size_t, const uint8_t *in, size_t,
                      const uint8_t *ad, size_t);

struct AES_KEY {
  uint8_t key[32];
  unsigned bits;
};
#define AES_ENCRYPT 1
#define AES_DECRYPT 0
int AES_set_encrypt_key(const uint8_t *, unsigned bits, AES_KEY *);
void AES_ecb_encrypt(const uint8_t *in, uint8_t *out, const AES_KEY *, const int enc);
void CRYPTO_chacha_20(uint8_t *out, const uint8_t *in, size_t, const uint8_t key[32],
                      const uint8_t nonce[12], uint32_t counter);
