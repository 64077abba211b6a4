// Stand-ins for the transport library (ngtcp2) and the TLS library. They follow
// the script, record what they are given, and keep hold of the memory they are
// given exactly as long as the real ones would. They judge nothing.
#pragma once

#include <ngtcp2/ngtcp2.h>
#include <openssl/bnl_standin.h>

#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

using bytes = std::vector<uint8_t>;

static std::atomic<long> live_arrays{ 0 };
void *operator new[](size_t n)
{
  live_arrays++;
  void *p = std::malloc(n == 0 ? 1 : n);
  if (p == nullptr) {
    throw std::bad_alloc();
  }
  return p;
}
void operator delete[](void *p) noexcept
{
  if (p != nullptr) {
    live_arrays--;
  }
  std::free(p);
}
void operator delete[](void *p, size_t) noexcept { operator delete[](p); }

// --------------------------------------------------------------------- output

static std::string out;
static int out_fd = 1;

static void
flush_out()
{
  size_t done = 0;
  while (done < out.size()) {
    ssize_t n = ::write(out_fd, out.data() + done, out.size() - done);
    if (n <= 0) {
      _exit(97);
    }
    done += static_cast<size_t>(n);
  }
  out.clear();
}

struct ev {
  explicit ev(const char *op) { out += std::string("{\"o\":\"") + op + "\""; }
  ~ev()
  {
    out += "}\n";
    flush_out();
  }
  ev &s(const char *k, const std::string &v)
  {
    out += std::string(",\"") + k + "\":\"" + v + "\"";
    return *this;
  }
  ev &n(const char *k, long long v)
  {
    out += std::string(",\"") + k + "\":" + std::to_string(v);
    return *this;
  }
  ev &b(const char *k, bool v)
  {
    out += std::string(",\"") + k + "\":" + (v ? "true" : "false");
    return *this;
  }
  ev &d(const char *k, const uint8_t *p, size_t size)
  {
    out += std::string(",\"") + k + "\":[";
    for (size_t i = 0; i < size; i++) {
      out += (i == 0 ? "" : ",") + std::to_string(p[i]);
    }
    out += "]";
    return *this;
  }
  ev &d(const char *k, const bytes &v) { return d(k, v.data(), v.size()); }
  ev &w(const char *k, uint64_t v)
  {
    bytes be;
    for (int i = 7; i >= 0; i--) {
      be.push_back(static_cast<uint8_t>(v >> (8 * i)));
    }
    return d(k, be);
  }
};

// ------------------------------------------------------------------ the script

struct script {
  std::deque<std::string> write, open, pkt, tls, errs;
  std::map<std::string, int> fail; // name: how many calls succeed before
  uint64_t clock = 0;
  long serial = 0;
  uint64_t idle = 0, expiry = 0;   // of a new connection
  std::deque<uint64_t> exps;       // expiry times after its timers were handled
  std::deque<uint64_t> arm;        // when the loss timer expires after a packet, from then
  bool real = false;               // the expiry is that of the timers
};
static script plan;

static std::string
take(std::deque<std::string> &q, const char *otherwise)
{
  if (q.empty()) {
    return otherwise;
  }
  std::string r = q.front();
  q.pop_front();
  return r;
}

static bool
fails(const char *name)
{
  auto it = plan.fail.find(name);
  if (it == plan.fail.end()) {
    return false;
  }
  if (it->second-- > 0) {
    return false;
  }
  plan.fail.erase(it);
  return true;
}

static bytes
unhex(const std::string &s)
{
  bytes r;
  if (s == "-") {
    return r;
  }
  for (size_t i = 0; i + 1 < s.size(); i += 2) {
    r.push_back(static_cast<uint8_t>(std::stoi(s.substr(i, 2), nullptr, 16)));
  }
  return r;
}

static std::vector<std::string>
split(const std::string &s, char c)
{
  std::vector<std::string> r;
  std::string cur;
  for (char x : s) {
    if (x == c) {
      r.push_back(cur);
      cur.clear();
    } else {
      cur += x;
    }
  }
  r.push_back(cur);
  return r;
}

// Bytes that depend on a function and all of its arguments.
static bytes
symbol(const char *fn, std::initializer_list<bytes> args, size_t size)
{
  uint64_t h = 1469598103934665603ULL;
  auto eat = [&h](uint8_t b) {
    h ^= b;
    h *= 1099511628211ULL;
  };
  for (const char *p = fn; *p != 0; p++) {
    eat(static_cast<uint8_t>(*p));
  }
  for (const bytes &a : args) {
    eat(static_cast<uint8_t>(a.size() >> 8));
    eat(static_cast<uint8_t>(a.size()));
    for (uint8_t b : a) {
      eat(b);
    }
  }
  bytes r;
  while (r.size() < size) {
    h += 0x9e3779b97f4a7c15ULL;
    uint64_t z = h;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    r.push_back(static_cast<uint8_t>((z ^ (z >> 31)) >> 24));
  }
  return r;
}

static bytes
view(const uint8_t *p, size_t n)
{
  return n == 0 ? bytes() : bytes(p, p + n);
}

// What the libraries want to be logged.
struct text {
  const char *from;
  std::string what;
};
static std::vector<text> texts;
static std::deque<std::string> tls_errors; // not yet asked for
static std::string tls_error;

// The TLS library fails: its errors are there to be asked for.
static void
tls_failure()
{
  while (!plan.errs.empty()) {
    bytes b = unhex(take(plan.errs, "-"));
    tls_errors.emplace_back(b.begin(), b.end());
    texts.push_back({ "tls", tls_errors.back() });
  }
}

static bytes
packet()
{
  plan.serial++;
  return { 0x50,
           static_cast<uint8_t>(plan.serial >> 16),
           static_cast<uint8_t>(plan.serial >> 8),
           static_cast<uint8_t>(plan.serial) };
}

// --------------------------------------------------------------- the transport

struct piece {
  const uint8_t *data;
  size_t size;
};

struct tx {
  uint64_t offset = 0; // acknowledged
  std::deque<piece> pieces;
};

static void
release(tx &t, size_t size)
{
  t.offset += size;
  while (size > 0 && !t.pieces.empty()) {
    piece &p = t.pieces.front();
    size_t n = std::min(size, p.size);
    p.data += n;
    p.size -= n;
    size -= n;
    if (p.size == 0) {
      t.pieces.pop_front();
    }
  }
}

// What would be sent again: reads the memory.
static bytes
contents(const tx &t)
{
  bytes r;
  for (const piece &p : t.pieces) {
    r.insert(r.end(), p.data, p.data + p.size);
  }
  return r;
}

// N bytes, "*": all that is outstanding, "%P": P percent of it, "+N": N more.
static size_t
amount(const std::string &what, const tx &t)
{
  size_t all = 0;
  for (const piece &p : t.pieces) {
    all += p.size;
  }
  switch (what[0]) {
    case '*': return all;
    case '%': return all * std::stoul(what.substr(1)) / 100;
    case '+': return all + std::stoul(what.substr(1));
  }
  return std::stoul(what);
}

struct ngtcp2_conn {
  ngtcp2_conn_callbacks cb;
  void *user = nullptr;
  ngtcp2_cid dcid;
  bool completed = false;
  int64_t next_bidi = 0;
  int64_t next_uni = 2;
  std::map<int64_t, tx> streams;
  std::map<int, tx> crypto;
  bool blocked[2] = {};
  uint64_t idle_timeout = 0;
  uint64_t expiry = 0;
  uint64_t loss = UINT64_MAX;
  uint64_t ack = UINT64_MAX;
  ngtcp2_printf log = nullptr;
};

static ngtcp2_conn *conn = nullptr; // the only one
static std::vector<std::string> reading;
static std::deque<std::vector<std::string>> readings; // of the next packets, if known

static void
rearm(bool loss)
{
  if (plan.real) {
    if (loss) {
      conn->loss = UINT64_MAX;
      if (!plan.exps.empty()) {
        conn->loss = plan.exps.front();
        plan.exps.pop_front();
      }
    }
    conn->expiry = std::min(conn->loss, conn->ack);
  } else if (!plan.exps.empty()) {
    conn->expiry = plan.exps.front();
    plan.exps.pop_front();
  }
}

static void
wrote()
{
  if (plan.real && !plan.arm.empty()) {
    conn->loss = (plan.clock + plan.arm.front()) * 1000;
    plan.arm.pop_front();
    conn->expiry = std::min(conn->loss, conn->ack);
  }
}

static const char *
level_name(ngtcp2_crypto_level l)
{
  switch (l) {
    case NGTCP2_CRYPTO_LEVEL_INITIAL: return "initial";
    case NGTCP2_CRYPTO_LEVEL_EARLY: return "early";
    case NGTCP2_CRYPTO_LEVEL_HANDSHAKE: return "handshake";
    case NGTCP2_CRYPTO_LEVEL_APP: return "application";
  }
  return "?";
}
static ngtcp2_crypto_level
level_of(const std::string &s)
{
  return s == "initial" ? NGTCP2_CRYPTO_LEVEL_INITIAL
       : s == "early" ? NGTCP2_CRYPTO_LEVEL_EARLY
       : s == "handshake" ? NGTCP2_CRYPTO_LEVEL_HANDSHAKE
                          : NGTCP2_CRYPTO_LEVEL_APP;
}

const char *ngtcp2_strerror(int) { return "error"; }

void
ngtcp2_path_storage_init(ngtcp2_path_storage *s, const uint8_t *local, size_t ln,
                         void *, const uint8_t *remote, size_t rn, void *)
{
  std::memset(s, 0, sizeof(*s));
  std::memcpy(s->local_addrbuf, local, ln);
  std::memcpy(s->remote_addrbuf, remote, rn);
  s->path.local = { ln, s->local_addrbuf, nullptr };
  s->path.remote = { rn, s->remote_addrbuf, nullptr };
}

void
ngtcp2_settings_default(ngtcp2_settings *s)
{
  std::memset(static_cast<void *>(s), 0xee, sizeof(*s));
  s->log_printf = nullptr;
}

int
ngtcp2_conn_client_new(ngtcp2_conn **c, const ngtcp2_cid *dcid, const ngtcp2_cid *scid,
                       const ngtcp2_path *path, uint32_t version,
                       const ngtcp2_conn_callbacks *cb, const ngtcp2_settings *s,
                       const void *, void *user)
{
  *c = conn = new ngtcp2_conn;
  conn->cb = *cb;
  conn->user = user;
  conn->log = s->log_printf;
  conn->dcid = *dcid;
  conn->idle_timeout = plan.idle;
  conn->expiry = plan.expiry;
  conn->loss = plan.real ? plan.expiry : UINT64_MAX;
  ev e("unc");
  e.d("local", path->local.addr, path->local.addrlen)
    .d("remote", path->remote.addr, path->remote.addrlen)
    .d("dcid", dcid->data, dcid->datalen)
    .d("scid", scid->data, scid->datalen)
    .b("version", version == NGTCP2_PROTO_VER)
    .w("ts", s->initial_ts);
  uint64_t v[] = { s->max_stream_data_bidi_local, s->max_stream_data_bidi_remote,
                   s->max_stream_data_uni, s->max_data, s->max_streams_bidi,
                   s->max_streams_uni, s->idle_timeout, s->max_packet_size,
                   s->ack_delay_exponent, s->disable_migration, s->max_ack_delay };
  out += ",\"params\":[";
  bool first = true;
  for (uint64_t x : v) {
    out += first ? "[" : ",[";
    first = false;
    for (int i = 7; i >= 0; i--) {
      out += std::to_string((x >> (8 * i)) & 0xff) + (i == 0 ? "]" : ",");
    }
  }
  out += "]";
  return 0;
}

void
ngtcp2_conn_del(ngtcp2_conn *c)
{
  if (c == conn) {
    conn = nullptr;
  }
  delete c;
}

void
ngtcp2_conn_set_aead_overhead(ngtcp2_conn *, size_t n)
{
  ev("uoverhead").n("n", static_cast<long long>(n));
}
int
ngtcp2_conn_get_handshake_completed(ngtcp2_conn *c)
{
  return c->completed ? 1 : 0;
}
void
ngtcp2_conn_handshake_completed(ngtcp2_conn *c)
{
  c->completed = true;
  { ev("ucompleted"); }
  c->cb.handshake_completed(c, c->user);
}

static bytes local_tp;
void
ngtcp2_conn_get_local_transport_params(ngtcp2_conn *, ngtcp2_transport_params *p)
{
  p->marker = 0x6c6f63616c;
}
ssize_t
ngtcp2_encode_transport_params(uint8_t *dest, size_t size, ngtcp2_transport_params_type t,
                               const ngtcp2_transport_params *p)
{
  local_tp = symbol("tp", { { 1 } }, 23);
  bool right = t == NGTCP2_TRANSPORT_PARAMS_TYPE_CLIENT_HELLO && p->marker == 0x6c6f63616c &&
               size >= local_tp.size();
  ev("utp").d("d", local_tp).b("right", right);
  if (!right) {
    return -1;
  }
  std::memcpy(dest, local_tp.data(), local_tp.size());
  return static_cast<ssize_t>(local_tp.size());
}
int
ngtcp2_decode_transport_params(ngtcp2_transport_params *p, ngtcp2_transport_params_type t,
                               const uint8_t *d, size_t n)
{
  bool bad = t != NGTCP2_TRANSPORT_PARAMS_TYPE_ENCRYPTED_EXTENSIONS || n > 64;
  bool r = !bad && !fails("dtp");
  if (r) {
    p->marker = 0x72656d6f7465;
    std::memcpy(p->bytes, d, n);
    p->size = n;
  }
  ev("udtp").b("right", !bad).b("r", r);
  return r ? 0 : -1;
}
int
ngtcp2_conn_set_remote_transport_params(ngtcp2_conn *, const ngtcp2_transport_params *p)
{
  bool r = p->marker == 0x72656d6f7465 && !fails("rtp");
  ev("urtp").d("d", p->marker == 0x72656d6f7465 ? bytes(p->bytes, p->bytes + p->size) : bytes())
    .b("r", r);
  return r ? 0 : -1;
}

static int
install(const char *kind, const uint8_t *key, size_t kn, const uint8_t *iv, size_t in,
        const uint8_t *hp, size_t hn)
{
  bool r = !fails("install");
  ev("uinstall").s("kind", kind).d("key", key, kn).d("iv", iv, in).d("hp", hp, hn).b("r", r);
  return r ? 0 : NGTCP2_ERR_INTERNAL;
}
#define INSTALL(name, kind)                                                              \
  int name(ngtcp2_conn *, const uint8_t *key, size_t kn, const uint8_t *iv, size_t in,   \
           const uint8_t *hp, size_t hn)                                                 \
  {                                                                                      \
    return install(kind, key, kn, iv, in, hp, hn);                                       \
  }
INSTALL(ngtcp2_conn_install_initial_tx_keys, "initial tx")
INSTALL(ngtcp2_conn_install_initial_rx_keys, "initial rx")
INSTALL(ngtcp2_conn_install_early_keys, "early")
INSTALL(ngtcp2_conn_install_handshake_tx_keys, "handshake tx")
INSTALL(ngtcp2_conn_install_handshake_rx_keys, "handshake rx")
INSTALL(ngtcp2_conn_install_tx_keys, "tx")
INSTALL(ngtcp2_conn_install_rx_keys, "rx")
int
ngtcp2_conn_update_tx_key(ngtcp2_conn *, const uint8_t *k, size_t kn, const uint8_t *iv, size_t in)
{
  return install("update tx", k, kn, iv, in, nullptr, 0);
}
int
ngtcp2_conn_update_rx_key(ngtcp2_conn *, const uint8_t *k, size_t kn, const uint8_t *iv, size_t in)
{
  return install("update rx", k, kn, iv, in, nullptr, 0);
}

int
ngtcp2_conn_submit_crypto_data(ngtcp2_conn *c, ngtcp2_crypto_level l, const uint8_t *d, size_t n)
{
  bool r = !fails("submit");
  if (r && n > 0) {
    c->crypto[l].pieces.push_back({ d, n });
  }
  ev("usubmit").s("level", level_name(l)).d("d", d, n).b("r", r);
  return r ? 0 : NGTCP2_ERR_INTERNAL;
}

static void
paths(ev &e, const ngtcp2_path *p)
{
  if (p != nullptr) {
    e.d("local", p->local.addr, p->local.addrlen).d("remote", p->remote.addr, p->remote.addrlen);
  }
}

ssize_t
ngtcp2_conn_write_pkt(ngtcp2_conn *, ngtcp2_path *path, uint8_t *dest, size_t size, ngtcp2_tstamp ts)
{
  std::string a = take(plan.pkt, "idle");
  ev e("upkt");
  e.w("ts", ts);
  paths(e, path);
  if (a == "idle") {
    e.s("a", "idle");
    return 0;
  }
  if (a == "error") {
    e.s("a", "error");
    return NGTCP2_ERR_INTERNAL;
  }
  bytes p = packet();
  p.resize(std::min<size_t>(size, std::stoul(a) + p.size()), 0x77);
  std::memcpy(dest, p.data(), p.size());
  e.s("a", "ok").d("p", p);
  wrote();
  return static_cast<ssize_t>(p.size());
}

ssize_t
ngtcp2_conn_write_stream(ngtcp2_conn *c, ngtcp2_path *, uint8_t *dest, size_t size,
                         ssize_t *written, uint32_t, int64_t id, uint8_t fin,
                         const uint8_t *d, size_t n, ngtcp2_tstamp ts)
{
  std::string a = take(plan.write, "1200");
  ev e("uwrite");
  e.s("id", std::to_string(id)).b("fin", fin != 0).d("d", d, n).w("ts", ts);
  *written = -1;
  if (a == "blocked" || a == "shut") {
    e.s("a", a);
    return a == "blocked" ? NGTCP2_ERR_STREAM_DATA_BLOCKED : NGTCP2_ERR_STREAM_SHUT_WR;
  }
  if (a == "congested") {
    e.s("a", a);
    return 0;
  }
  bytes p = packet();
  if (p.size() <= size) {
    std::memcpy(dest, p.data(), p.size());
  }
  size_t take_n = a == "none" ? 0 : std::min<size_t>(n, std::stoul(a));
  if (a == "none" || (take_n == 0 && !(n == 0 && fin != 0))) {
    e.s("a", "none").d("p", p); // a packet without a STREAM frame
    return static_cast<ssize_t>(p.size());
  }
  *written = static_cast<ssize_t>(take_n);
  if (take_n > 0) {
    c->streams[id].pieces.push_back({ d, take_n });
  }
  e.s("a", "ok").n("n", static_cast<long long>(take_n)).d("p", p);
  wrote();
  return static_cast<ssize_t>(p.size());
}

static int
open_stream(int64_t &next, int64_t *id, bool bidi)
{
  // once blocked, blocked until the next call
  std::string a = conn->blocked[bidi] ? "blocked" : take(plan.open, "ok");
  ev e("uopen");
  e.b("bidi", bidi).s("a", a);
  if (a == "blocked") {
    conn->blocked[bidi] = true;
    return NGTCP2_ERR_STREAM_ID_BLOCKED;
  }
  if (a == "error") {
    return NGTCP2_ERR_INTERNAL;
  }
  *id = next;
  next += 4;
  e.s("id", std::to_string(*id));
  return 0;
}
int
ngtcp2_conn_open_bidi_stream(ngtcp2_conn *c, int64_t *id, void *)
{
  return open_stream(c->next_bidi, id, true);
}
int
ngtcp2_conn_open_uni_stream(ngtcp2_conn *c, int64_t *id, void *)
{
  return open_stream(c->next_uni, id, false);
}

static int callback(ngtcp2_conn *c, const std::string &item);

int
ngtcp2_conn_read_pkt(ngtcp2_conn *c, const ngtcp2_path *path, const uint8_t *d, size_t n,
                     ngtcp2_tstamp ts)
{
  {
    ev e("uread");
    e.d("d", d, n).w("ts", ts);
    paths(e, path);
  }
  if (!readings.empty()) {
    reading = readings.front();
    readings.pop_front();
  }
  for (const std::string &item : reading) {
    if (item.compare(0, 4, "tls=") == 0) { // what TLS will do with this packet
      plan.tls.push_back(item.substr(4));
      continue;
    }
    int rv = callback(c, item);
    if (rv != 0) {
      ev("ureadr").n("r", rv);
      return rv;
    }
  }
  ev("ureadr").n("r", 0);
  return 0;
}

const ngtcp2_cid *ngtcp2_conn_get_dcid(ngtcp2_conn *c) { return &c->dcid; }
uint64_t ngtcp2_conn_get_idle_timeout(ngtcp2_conn *c) { return c->idle_timeout; }
ngtcp2_tstamp ngtcp2_conn_get_expiry(ngtcp2_conn *c) { return c->expiry; }
ngtcp2_tstamp ngtcp2_conn_loss_detection_expiry(ngtcp2_conn *c) { return c->loss; }
ngtcp2_tstamp ngtcp2_conn_ack_delay_expiry(ngtcp2_conn *c) { return c->ack; }
int
ngtcp2_conn_on_loss_detection_timer(ngtcp2_conn *, ngtcp2_tstamp ts)
{
  bool r = !fails("loss");
  ev("uloss").w("ts", ts).b("r", r);
  conn->loss = UINT64_MAX;
  rearm(true);
  return r ? 0 : NGTCP2_ERR_INTERNAL;
}
void
ngtcp2_conn_cancel_expired_ack_delay_timer(ngtcp2_conn *, ngtcp2_tstamp ts)
{
  ev("uackdelay").w("ts", ts);
  conn->ack = UINT64_MAX;
  rearm(false);
}

// ------------------------------------------------------------------------- TLS

struct ssl_method_st {
  int dummy;
};
struct ssl_ctx_st {
  int refs;
};
struct ssl_cipher_st {
  uint32_t id;
};
struct ssl_st {
  void *app = nullptr;
  const SSL_QUIC_METHOD *method = nullptr;
  SSL_CIPHER cipher{ 0 };
  int error = 0;
  bool done = false;
  bytes peer_tp;
};

static const char *
level_name(ssl_encryption_level_t l)
{
  switch (l) {
    case ssl_encryption_initial: return "initial";
    case ssl_encryption_early_data: return "early";
    case ssl_encryption_handshake: return "handshake";
    case ssl_encryption_application: return "application";
  }
  return "?";
}
static ssl_encryption_level_t
ssl_level(const std::string &s)
{
  return s == "initial" ? ssl_encryption_initial
       : s == "early" ? ssl_encryption_early_data
       : s == "handshake" ? ssl_encryption_handshake
                          : ssl_encryption_application;
}

static ssl_method_st tls_method;
const SSL_METHOD *TLS_method() { return &tls_method; }
SSL_CTX *SSL_CTX_new(const SSL_METHOD *) { return new ssl_ctx_st{ 1 }; }
void SSL_CTX_free(SSL_CTX *c) { delete c; }
int SSL_CTX_set_default_verify_paths(SSL_CTX *) { return 1; }
SSL *SSL_new(SSL_CTX *) { return new ssl_st; }
void SSL_free(SSL *s) { delete s; }
int
SSL_set_ex_data(SSL *s, int, void *p)
{
  s->app = p;
  return 1;
}
void *SSL_get_ex_data(const SSL *s, int) { return s->app; }
int
SSL_set_alpn_protos(SSL *, const uint8_t *d, unsigned n)
{
  ev("ussl").s("what", "alpn").d("v", d, n);
  return 0;
}
void SSL_set_connect_state(SSL *) { ev("ussl").s("what", "client").d("v", bytes()); }
int
SSL_set_min_proto_version(SSL *, uint16_t v)
{
  ev("ussl").s("what", "min").d("v", { uint8_t(v >> 8), uint8_t(v) });
  return 1;
}
int
SSL_set_max_proto_version(SSL *, uint16_t v)
{
  ev("ussl").s("what", "max").d("v", { uint8_t(v >> 8), uint8_t(v) });
  return 1;
}
int
SSL_set_tlsext_host_name(SSL *, const char *name)
{
  ev("ussl").s("what", "host").d("v", reinterpret_cast<const uint8_t *>(name), strlen(name));
  return 1;
}
int
SSL_set_quic_transport_params(SSL *, const uint8_t *d, size_t n)
{
  ev("ussl").s("what", "tp").d("v", d, n);
  return 1;
}
void
SSL_get_peer_quic_transport_params(const SSL *s, const uint8_t **d, size_t *n)
{
  *d = s->peer_tp.data();
  *n = s->peer_tp.size();
}
int
SSL_set_quic_method(SSL *s, const SSL_QUIC_METHOD *m)
{
  s->method = m;
  return 1;
}

// One step of the handshake: items separated by ';'.
//   s:LEVEL:READ:WRITE:CIPHER  secrets      d:LEVEL:HEX  data
//   done:HEX (peer's transport parameters) | want | write (wants that) | err
int
SSL_do_handshake(SSL *s)
{
  { ev("uhs"); }
  if (s->done) {
    ev("uhsr").s("a", "again");
    return 1;
  }
  std::string step = take(plan.tls, "want");
  bool write = false;
  for (const std::string &item : split(step, ';')) {
    std::vector<std::string> f = split(item, ':');
    int r = 1;
    if (f[0] == "s") {
      bytes rd = unhex(f[2]);
      bytes wr = unhex(f[3]);
      s->cipher.id = static_cast<uint32_t>(std::stoul(f[4]));
      {
        ev("usecrets").s("level", f[1]).d("rd", rd).d("wr", wr)
          .s("cipher", f[4] == "0" ? "none" : std::to_string(s->cipher.id));
      }
      bool early = f[1] == "early";
      r = s->method->set_encryption_secrets(
        s, ssl_level(f[1]), early ? nullptr : rd.data(), wr.data(), wr.size());
      ev("usecretsr").n("r", r);
    } else if (f[0] == "d") {
      bytes d = unhex(f[2]);
      { ev("udata").s("level", f[1]).d("d", d); }
      // the library's own buffer, which it reuses
      r = s->method->add_handshake_data(s, ssl_level(f[1]), d.data(), d.size());
      ev("udatar").n("r", r);
    } else if (f[0] == "done") {
      s->peer_tp = unhex(f[1]);
      s->done = true;
      ev("uhsr").s("a", "done").d("tp", s->peer_tp);
      return 1;
    } else if (f[0] == "write") {
      write = true;
    } else if (f[0] == "err") {
      s->error = SSL_ERROR_SSL;
      tls_failure();
      ev("uhsr").s("a", "err");
      return -1;
    }
    if (r != 1) {
      s->error = SSL_ERROR_SSL;
      tls_failure();
      ev("uhsr").s("a", "err");
      return -1;
    }
  }
  s->error = write ? SSL_ERROR_WANT_WRITE : SSL_ERROR_WANT_READ;
  ev("uhsr").s("a", "want");
  return -1;
}
int SSL_get_error(const SSL *s, int) { return s->error; }
int
SSL_provide_quic_data(SSL *, ssl_encryption_level_t l, const uint8_t *d, size_t n)
{
  bool r = !fails("provide");
  if (!r) {
    tls_failure();
  }
  ev("uprovide").s("level", level_name(l)).d("d", d, n).b("r", r);
  return r ? 1 : 0;
}
int
SSL_process_quic_post_handshake(SSL *)
{
  bool r = !fails("post");
  if (!r) {
    tls_failure();
  }
  ev("upost").b("r", r);
  return r ? 1 : 0;
}
const SSL_CIPHER *
SSL_get_current_cipher(const SSL *s)
{
  return s->cipher.id == 0 ? nullptr : &s->cipher;
}
uint32_t SSL_CIPHER_get_id(const SSL_CIPHER *c) { return c->id; }
const char *SSL_CIPHER_standard_name(const SSL_CIPHER *) { return "CIPHER"; }
uint32_t
ERR_get_error()
{
  if (tls_errors.empty()) {
    return 0;
  }
  tls_error = tls_errors.front();
  tls_errors.pop_front();
  return 0x10000000U + static_cast<uint32_t>(tls_errors.size());
}
void
ERR_error_string_n(uint32_t, char *d, size_t n)
{
  if (n > 0) {
    size_t k = std::min(n - 1, tls_error.size());
    std::memcpy(d, tls_error.data(), k);
    d[k] = 0;
  }
}

// ------------------------------------------------------------------ primitives

struct env_md_st {
  const char *name;
  size_t size;
};
static env_md_st md256{ "sha256", 32 };
static env_md_st md384{ "sha384", 48 };
const EVP_MD *EVP_sha256() { return &md256; }
const EVP_MD *EVP_sha384() { return &md384; }

int
HKDF_extract(uint8_t *o, size_t *on, const EVP_MD *md, const uint8_t *secret, size_t sn,
             const uint8_t *salt, size_t tn)
{
  bool r = !fails("extract");
  bytes v = symbol(md->name, { view(secret, sn), view(salt, tn), { 1 } }, md->size);
  ev("uextract").s("md", md->name).d("secret", secret, sn).d("salt", salt, tn).d("out", v).b("r", r);
  if (!r) {
    return 0;
  }
  std::memcpy(o, v.data(), v.size());
  *on = v.size();
  return 1;
}

int
HKDF_expand(uint8_t *o, size_t on, const EVP_MD *md, const uint8_t *prk, size_t pn,
            const uint8_t *info, size_t in)
{
  bool r = !fails("expand");
  bytes v = symbol(md->name, { view(prk, pn), view(info, in), { 2 } }, on);
  ev("uexpand").s("md", md->name).d("prk", prk, pn).d("info", info, in).d("out", v).b("r", r);
  if (!r) {
    return 0;
  }
  std::memcpy(o, v.data(), v.size());
  return 1;
}

struct evp_aead_st {
  const char *name;
  size_t key;
};
struct evp_aead_ctx_st {
  const evp_aead_st *aead;
  bytes key;
};
static evp_aead_st aes128{ "aes128", 16 };
static evp_aead_st aes256{ "aes256", 32 };
static evp_aead_st chacha{ "chacha", 32 };
const EVP_AEAD *EVP_aead_aes_128_gcm() { return &aes128; }
const EVP_AEAD *EVP_aead_aes_256_gcm() { return &aes256; }
const EVP_AEAD *EVP_aead_chacha20_poly1305() { return &chacha; }
size_t EVP_AEAD_max_overhead(const EVP_AEAD *) { return 16; }
EVP_AEAD_CTX *
EVP_AEAD_CTX_new(const EVP_AEAD *a, const uint8_t *key, size_t n, size_t)
{
  if (n != a->key || fails("aead")) {
    return nullptr;
  }
  return new evp_aead_ctx_st{ a, view(key, n) };
}
void EVP_AEAD_CTX_free(EVP_AEAD_CTX *c) { delete c; }

static int
aead_run(const char *op, const EVP_AEAD_CTX *c, uint8_t *o, size_t *on, size_t max,
         const uint8_t *nonce, size_t nn, const uint8_t *in, size_t n, const uint8_t *ad,
         size_t an)
{
  bool seal = std::string(op) == "seal";
  size_t size = seal ? n + 16 : n < 16 ? 0 : n - 16;
  bool r = max >= size && (seal || n >= 16) && !fails(op);
  bytes v = symbol(op, { c->key, view(nonce, nn), view(in, n), view(ad, an) }, size);
  ev("uaead").s("op", op).s("aead", c->aead->name).d("key", c->key).d("nonce", nonce, nn)
    .d("in", in, n).d("ad", ad, an).d("out", v).b("r", r);
  if (!r) {
    return 0;
  }
  std::memcpy(o, v.data(), v.size());
  *on = size;
  return 1;
}
int
EVP_AEAD_CTX_seal(const EVP_AEAD_CTX *c, uint8_t *o, size_t *on, size_t max, const uint8_t *nonce,
                  size_t nn, const uint8_t *in, size_t n, const uint8_t *ad, size_t an)
{
  return aead_run("seal", c, o, on, max, nonce, nn, in, n, ad, an);
}
int
EVP_AEAD_CTX_open(const EVP_AEAD_CTX *c, uint8_t *o, size_t *on, size_t max, const uint8_t *nonce,
                  size_t nn, const uint8_t *in, size_t n, const uint8_t *ad, size_t an)
{
  return aead_run("open", c, o, on, max, nonce, nn, in, n, ad, an);
}

int
AES_set_encrypt_key(const uint8_t *k, unsigned bits, AES_KEY *key)
{
  if ((bits != 128 && bits != 256) || fails("aes")) {
    return -1;
  }
  std::memset(key->key, 0, sizeof(key->key));
  std::memcpy(key->key, k, bits / 8);
  key->bits = bits;
  return 0;
}
void
AES_ecb_encrypt(const uint8_t *in, uint8_t *o, const AES_KEY *key, const int enc)
{
  bytes v = symbol(enc == AES_ENCRYPT ? "ecb" : "ecbd", { view(key->key, key->bits / 8), view(in, 16) }, 16);
  ev("uecb").b("enc", enc == AES_ENCRYPT).d("key", key->key, key->bits / 8).d("in", in, 16).d("out", v);
  std::memcpy(o, v.data(), 16);
}
void
CRYPTO_chacha_20(uint8_t *o, const uint8_t *in, size_t n, const uint8_t key[32],
                 const uint8_t nonce[12], uint32_t counter)
{
  bytes ctr{ uint8_t(counter), uint8_t(counter >> 8), uint8_t(counter >> 16), uint8_t(counter >> 24) };
  bytes v = symbol("chacha", { view(key, 32), view(nonce, 12), ctr }, 64);
  v.resize(std::min<size_t>(n, 64));
  ev("uchacha").d("key", key, 32).d("nonce", nonce, 12).d("counter", ctr).d("stream", v);
  for (size_t i = 0; i < v.size(); i++) {
    o[i] = static_cast<uint8_t>(in[i] ^ v[i]);
  }
}

static std::map<int64_t, uint64_t> received; // offsets

// What the transport reports. It stops at the first one that fails.
static int
callback(ngtcp2_conn *c, const std::string &item)
{
  std::vector<std::string> f = split(item, ':');
  int r = 0;
  if (f[0] == "d") { // d:ID:FIN:HEX
    bytes d = unhex(f[3]);
    int64_t id = std::stoll(f[1]);
    ev("ucbdata").s("id", f[1]).n("m", id % 4).b("fin", f[2] == "1").d("d", d);
    r = c->cb.recv_stream_data(c, id, f[2] == "1" ? 1 : 0, received[id], d.data(), d.size(),
                               c->user, nullptr);
    received[id] += d.size();
    std::fill(d.begin(), d.end(), 0xdd);
  } else if (f[0] == "r") { // r:ID:FINAL:ERROR
    ev("ucbreset").s("id", f[1]).s("error", f[3]);
    r = c->cb.stream_reset(c, std::stoll(f[1]), std::stoull(f[2]), std::stoull(f[3]), c->user, nullptr);
  } else if (f[0] == "c") { // c:LEVEL:HEX
    bytes d = unhex(f[2]);
    { ev("ucbcrypto").s("level", f[1]).d("d", d); }
    r = c->cb.recv_crypto_data(c, level_of(f[1]), 0, d.data(), d.size(), c->user);
    ev("ucbcryptor").n("r", r);
  } else if (f[0] == "a") { // a:ID:N
    int64_t id = std::stoll(f[1]);
    size_t n = amount(f[2], c->streams[id]);
    r = c->cb.acked_stream_data_offset(c, id, c->streams[id].offset, n, c->user, nullptr);
    if (r == 0) {
      release(c->streams[id], n);
    }
    ev("ucback").s("id", f[1]).n("n", static_cast<long long>(n)).n("r", r);
  } else if (f[0] == "k") { // k:LEVEL:N
    ngtcp2_crypto_level l = level_of(f[1]);
    size_t n = amount(f[2], c->crypto[l]);
    r = c->cb.acked_crypto_offset(c, l, c->crypto[l].offset, n, c->user);
    if (r == 0) {
      release(c->crypto[l], n);
    }
    ev("ucbkack").s("level", f[1]).n("n", static_cast<long long>(n)).n("r", r);
  } else if (f[0] == "o") { // o:ID opened
    r = c->cb.stream_open(c, std::stoll(f[1]), c->user);
    ev("ucbnote").s("what", "open").n("r", r);
  } else if (f[0] == "x") { // x:ID:ERROR closed
    r = c->cb.stream_close(c, std::stoll(f[1]), std::stoull(f[2]), c->user, nullptr);
    ev("ucbnote").s("what", "close").n("r", r);
  } else if (f[0] == "m") { // m:N limits
    uint64_t n = std::stoull(f[1]);
    r |= c->cb.extend_max_local_streams_bidi(c, n, c->user);
    r |= c->cb.extend_max_local_streams_uni(c, n, c->user);
    r |= c->cb.extend_max_remote_streams_bidi(c, n, c->user);
    r |= c->cb.extend_max_remote_streams_uni(c, n, c->user);
    r |= c->cb.extend_max_stream_data(c, 0, n, c->user, nullptr);
    ev("ucbnote").s("what", "limits").n("r", r);
  } else if (f[0] == "u") { // u: key update
    { ev("ucbkey"); }
    r = c->cb.update_key(c, c->user);
    ev("ucbkeyr").n("r", r);
  } else if (f[0] == "v") { // v:OK path validation
    bytes a{ 1, 2, 3, 4 };
    ngtcp2_path p{};
    p.local = { 4, a.data(), nullptr };
    p.remote = { 4, a.data(), nullptr };
    r = c->cb.path_validation(c, &p, f[1] == "1" ? NGTCP2_PATH_VALIDATION_RESULT_SUCCESS
                                                 : NGTCP2_PATH_VALIDATION_RESULT_FAILURE, c->user);
    ev("ucbpath").b("ok", f[1] == "1").n("r", r);
  } else if (f[0] == "s") { // stateless reset
    ngtcp2_pkt_stateless_reset s{};
    bytes d(8, 1);
    s.rand = d.data();
    s.randlen = d.size();
    r = c->cb.recv_stateless_reset(c, &s, c->user);
    ev("ucbdead").s("what", "stateless reset").n("r", r);
  } else if (f[0] == "y") { // retry
    ngtcp2_pkt_hd h{};
    ngtcp2_pkt_retry t{};
    r = c->cb.recv_retry(c, &h, &t, c->user);
    ev("ucbdead").s("what", "retry").n("r", r);
  } else if (f[0] == "i") { // client initial
    { ev("ucbinitial"); }
    r = c->cb.client_initial(c, c->user);
    ev("ucbinitialr").n("r", r);
  } else if (f[0] == "t") { // t:EXPIRY
    (plan.real ? c->loss : c->expiry) = std::stoull(f[1]);
    c->expiry = plan.real ? std::min(c->loss, c->ack) : c->expiry;
  } else if (f[0] == "e") { // e:RV an error of the transport itself
    r = std::stoi(f[1]);
  }
  return r;
}
