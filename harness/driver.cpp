// Conformance driver: executes scripted calls on the public API of bnl and
// records what each call returned as one JSON object per call, for validation
// against the TLA+ specification. It judges nothing itself.
#include <bnl/base/buffer.hpp>
#include <bnl/base/buffers.hpp>
#include <bnl/http3/client/connection.hpp>
#include <bnl/http3/codec/frame.hpp>
#include <bnl/http3/codec/qpack.hpp>
#include <bnl/http3/codec/qpack/huffman.hpp>
#include <bnl/http3/codec/qpack/literal.hpp>
#include <bnl/http3/codec/qpack/prefix_int.hpp>
#include <bnl/http3/codec/varint.hpp>
#include <bnl/http3/server/connection.hpp>
#include <bnl/base/system_error.hpp>
#include <bnl/ip/host.hpp>
#include <bnl/log/console.hpp>
#include <bnl/quic/event.hpp>
#include <bnl/quic/path.hpp>

#include "logging.hpp"
#include "watch.hpp"

#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

using namespace bnl;

// ---------------------------------------------------------------- allocations

static std::atomic<long> live_arrays{ 0 };
static std::atomic<long> live_objects{ 0 };

void *operator new[](size_t n)
{
  live_arrays++;
  void *p = std::malloc(n == 0 ? 1 : n);
  if (p == nullptr) {
    throw std::bad_alloc();
  }
  return p;
}
void operator delete[](void *p) noexcept
{
  if (p != nullptr) {
    live_arrays--;
  }
  std::free(p);
}
void operator delete[](void *p, size_t) noexcept
{
  operator delete[](p);
}
void *operator new(size_t n)
{
  live_objects++;
  void *p = std::malloc(n == 0 ? 1 : n);
  if (p == nullptr) {
    throw std::bad_alloc();
  }
  return p;
}
void operator delete(void *p) noexcept
{
  if (p != nullptr) {
    live_objects--;
  }
  std::free(p);
}
void operator delete(void *p, size_t) noexcept
{
  operator delete(p);
}

// --------------------------------------------------------------------- output

using bytes = std::vector<uint8_t>;

static std::string out;
static bool first_event = true;
static bool first_field = true;

static void
ev(const char *op)
{
  if (!first_event) {
    out += ',';
  }
  first_event = false;
  out += "{\"o\":\"";
  out += op;
  out += '"';
}

static void
key(const char *k)
{
  out += ",\"";
  out += k;
  out += "\":";
}

static void
kstr(const char *k, const std::string &v)
{
  key(k);
  out += '"';
  out += v;
  out += '"';
}

static void
kint(const char *k, long long v)
{
  key(k);
  out += std::to_string(v);
}

static void
kbool(const char *k, bool v)
{
  key(k);
  out += v ? "true" : "false";
}

static void
abytes(const uint8_t *p, size_t n)
{
  out += '[';
  for (size_t i = 0; i < n; i++) {
    if (i != 0) {
      out += ',';
    }
    out += std::to_string(p[i]);
  }
  out += ']';
}

static void
kbytes(const char *k, const uint8_t *p, size_t n)
{
  key(k);
  abytes(p, n);
}

static void
kbytes(const char *k, const bytes &b)
{
  kbytes(k, b.data(), b.size());
}

static void
kbytes(const char *k, const base::buffer &b)
{
  kbytes(k, b.data(), b.size());
}

static void
kview(const char *k, base::string_view s)
{
  kbytes(k, reinterpret_cast<const uint8_t *>(s.data()), s.size());
}

static void
awide(uint64_t v)
{
  uint8_t w[8];
  for (int i = 0; i < 8; i++) {
    w[i] = static_cast<uint8_t>(v >> (56 - 8 * i));
  }
  abytes(w, 8);
}

static void
kwide(const char *k, uint64_t v)
{
  key(k);
  awide(v);
}

static bool collecting = false;

static void
flush_out()
{
  if (collecting) {
    return;
  }
  size_t off = 0;
  while (off < out.size()) {
    ssize_t n = ::write(STDOUT_FILENO, out.data() + off, out.size() - off);
    if (n <= 0) {
      _exit(99);
    }
    off += static_cast<size_t>(n);
  }
  out.clear();
}

static void
done()
{
  out += "}\n";
  flush_out();
}

static const char *
ename(http3::error e)
{
  switch (e) {
    case http3::error::no_error:
      return "no_error";
    case http3::error::internal:
      return "internal";
    case http3::error::wrong_stream:
      return "wrong_stream";
    case http3::error::closed_critical_stream:
      return "closed_critical_stream";
    case http3::error::missing_settings:
      return "missing_settings";
    case http3::error::unexpected_frame:
      return "unexpected_frame";
    case http3::error::malformed_frame:
      return "malformed_frame";
    case http3::error::qpack_decompression_failed:
      return "qpack_decompression_failed";
    case http3::error::incomplete:
      return "incomplete";
    case http3::error::idle:
      return "idle";
    case http3::error::delegate:
      return "delegate";
    case http3::error::not_implemented:
      return "not_implemented";
    case http3::error::varint_overflow:
      return "varint_overflow";
    case http3::error::malformed_header:
      return "malformed_header";
    case http3::error::stream_closed:
      return "stream_closed";
    case http3::error::invalid_handle:
      return "invalid_handle";
  }
  return "unknown_error";
}

// ---------------------------------------------------------------------- input

static bytes
unhex(const std::string &s)
{
  bytes b;
  if (s == "-") {
    return b;
  }
  if (s[0] == '@') { // pattern: @count,start,step[,mod]
    size_t n = 0;
    unsigned start = 0;
    unsigned step = 1;
    unsigned mod = 256;
    std::sscanf(s.c_str(), "@%zu,%u,%u,%u", &n, &start, &step, &mod);
    b.resize(n);
    for (size_t i = 0; i < n; i++) {
      b[i] = static_cast<uint8_t>((start + step * i) % mod);
    }
    return b;
  }
  auto nib = [](char c) {
    return c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10;
  };
  for (size_t i = 0; i + 1 < s.size(); i += 2) {
    b.push_back(static_cast<uint8_t>(nib(s[i]) << 4 | nib(s[i + 1])));
  }
  return b;
}

static base::buffer
tobuf(const bytes &b)
{
  return b.empty() ? base::buffer() : base::buffer(b.data(), b.size());
}

static std::string
tostr(const bytes &b)
{
  return std::string(b.begin(), b.end());
}

// ---------------------------------------------------------------------- state

using handle_t = http3::request::handle; // same type as response::handle

struct chan {
  bytes data;
  bool fin = false;
};

struct gen {
  std::unique_ptr<http3::client::generator> c;
  std::unique_ptr<http3::server::generator> s;
  int conn = -1;
  size_t budget = 0;
  std::string rid; // id of the stream the generator was made for
};

struct conn {
  std::unique_ptr<http3::client::connection> c;
  std::unique_ptr<http3::server::connection> s;
  bool moved = false;
  size_t received = 0;
  std::map<uint64_t, chan> q; // sent, not yet delivered
};

static std::map<int, std::unique_ptr<base::buffer>> bufs;
static std::map<int, bool> bufmoved;
static std::map<int, std::unique_ptr<base::buffers>> chains;
static std::map<int, std::unique_ptr<http3::qpack::encoder>> qencs;
static std::map<int, std::unique_ptr<http3::qpack::decoder>> qdecs;
static std::map<int, conn> conns;
static std::map<int, std::unique_ptr<handle_t>> handles;
static std::map<int, gen> gens;

static std::unique_ptr<base::log::api> logger;
static keeper *keeping = nullptr;

static void
reset()
{
  base::logger = nullptr;
  keeping = nullptr;
  logger.reset();
  gens.clear();
  conns.clear();
  handles.clear();
  bufs.clear();
  bufmoved.clear();
  chains.clear();
  qencs.clear();
  qdecs.clear();
}

// --------------------------------------------------------------------- codecs

template<typename R>
static bool
kres(const R &r)
{
  if (r) {
    kstr("r", "ok");
    return true;
  }
  kstr("r", ename(r.error()));
  return false;
}

static void
kframe(const http3::frame &f)
{
  using T = http3::frame::type;
  switch (static_cast<http3::frame::type>(f)) {
    case T::data:
      kstr("t", "data");
      key("f");
      out += '[';
      awide(f.data.size);
      out += ']';
      break;
    case T::headers:
      kstr("t", "headers");
      key("f");
      out += '[';
      awide(f.headers.size);
      out += ']';
      break;
    case T::priority:
      kstr("t", "priority");
      key("f");
      out += '[';
      awide(static_cast<uint64_t>(f.priority.prioritized_element_type));
      out += ',';
      awide(static_cast<uint64_t>(f.priority.element_dependency_type));
      out += ',';
      awide(f.priority.prioritized_element_id);
      out += ',';
      awide(f.priority.element_dependency_id);
      out += ',';
      awide(f.priority.weight);
      out += ']';
      break;
    case T::cancel_push:
      kstr("t", "cancel_push");
      key("f");
      out += '[';
      awide(f.cancel_push.push_id);
      out += ']';
      break;
    case T::settings:
      kstr("t", "settings");
      key("f");
      out += '[';
      awide(f.settings.max_header_list_size);
      out += ',';
      awide(f.settings.num_placeholders);
      out += ',';
      awide(f.settings.qpack_max_table_capacity);
      out += ',';
      awide(f.settings.qpack_blocked_streams);
      out += ']';
      break;
    case T::push_promise:
      kstr("t", "push_promise");
      key("f");
      out += '[';
      awide(f.push_promise.push_id);
      out += ',';
      awide(f.push_promise.size);
      out += ']';
      break;
    case T::goaway:
      kstr("t", "goaway");
      key("f");
      out += '[';
      awide(f.goaway.stream_id);
      out += ']';
      break;
    case T::max_push_id:
      kstr("t", "max_push_id");
      key("f");
      out += '[';
      awide(f.max_push_id.push_id);
      out += ']';
      break;
    case T::duplicate_push:
      kstr("t", "duplicate_push");
      key("f");
      out += '[';
      awide(f.duplicate_push.push_id);
      out += ']';
      break;
    default:
      kstr("t", "bogus");
      key("f");
      out += "[]";
  }
}

static const char *
tname(http3::frame::type t)
{
  using T = http3::frame::type;
  switch (t) {
    case T::data:
      return "data";
    case T::headers:
      return "headers";
    case T::priority:
      return "priority";
    case T::cancel_push:
      return "cancel_push";
    case T::settings:
      return "settings";
    case T::push_promise:
      return "push_promise";
    case T::goaway:
      return "goaway";
    case T::max_push_id:
      return "max_push_id";
    case T::duplicate_push:
      return "duplicate_push";
  }
  return "bogus";
}

static http3::frame
mkframe(const std::string &t, const std::vector<uint64_t> &f)
{
  using P = http3::frame::payload;
  if (t == "data") {
    return P::data{ f[0] };
  }
  if (t == "headers") {
    return P::headers{ f[0] };
  }
  if (t == "priority") {
    P::priority p{};
    p.prioritized_element_type = static_cast<P::priority::type>(f[0]);
    p.element_dependency_type = static_cast<P::priority::type>(f[1]);
    p.prioritized_element_id = f[2];
    p.element_dependency_id = f[3];
    p.weight = static_cast<uint8_t>(f[4]);
    return p;
  }
  if (t == "cancel_push") {
    return P::cancel_push{ f[0] };
  }
  if (t == "settings") {
    P::settings s;
    s.max_header_list_size = f[0];
    s.num_placeholders = f[1];
    s.qpack_max_table_capacity = f[2];
    s.qpack_blocked_streams = f[3];
    return s;
  }
  if (t == "push_promise") {
    return P::push_promise{ f[0], f[1] };
  }
  if (t == "goaway") {
    return P::goaway{ f[0] };
  }
  if (t == "max_push_id") {
    return P::max_push_id{ f[0] };
  }
  return P::duplicate_push{ f[0] };
}

template<typename Seq>
static void
decode_any(Seq &seq, const std::string &what, size_t p)
{
  if (what == "varint") {
    auto r = http3::varint::decode(seq);
    if (kres(r)) {
      kwide("v", r.value());
    }
  } else if (what == "frame") {
    auto r = http3::frame::decode(seq);
    if (kres(r)) {
      kframe(r.value());
    }
  } else if (what == "peek") {
    auto r = http3::frame::peek(seq);
    if (kres(r)) {
      kstr("t", tname(r.value()));
    }
  } else if (what == "pint") {
    auto r = http3::qpack::prefix_int::decode(seq, static_cast<uint8_t>(p));
    if (kres(r)) {
      kwide("v", r.value());
    }
  } else if (what == "lit") {
    auto r = http3::qpack::literal::decode(seq, static_cast<uint8_t>(p));
    if (kres(r)) {
      kview("v", r.value());
    }
  } else if (what == "huff") {
    auto r = http3::qpack::huffman::decode(seq, p);
    if (kres(r)) {
      kview("v", r.value());
    }
  } else {
    kstr("r", "bad");
  }
}

template<typename Seq>
static bytes
content(const Seq &s)
{
  bytes b;
  size_t n = s.size();
  for (size_t i = 0; i < n; i++) {
    b.push_back(s[i]);
  }
  return b;
}

// dec KIND CUTS SKIP WHAT P HEX: one decode on fresh input.
//   KIND: b buffer, s chain, lb/ls look-ahead over them, lbc/lsc copy of an
//   advanced look-ahead. CUTS: chain segmentation, e.g. 1.0.3 or "-".
static void
op_dec(std::istringstream &in)
{
  std::string kind;
  std::string cuts;
  std::string what;
  std::string hex;
  size_t p = 0;
  size_t skip = 0;
  in >> kind >> cuts >> skip >> what >> p >> hex;
  bytes data = unhex(hex);

  ev("dec");
  kstr("kind", kind);
  kstr("what", what);
  kint("p", static_cast<long long>(p));
  kint("skip", static_cast<long long>(skip));
  kbytes("in", data);
  flush_out();

  auto cut = [&]() {
    auto c = std::make_unique<base::buffers>();
    size_t off = 0;
    if (cuts != "-") {
      std::istringstream cs(cuts);
      std::string part;
      while (std::getline(cs, part, '.')) {
        size_t n = std::min<size_t>(std::stoul(part), data.size() - off);
        c->push(base::buffer(data.data() + off, n));
        off += n;
      }
    }
    c->push(base::buffer(data.data() + off, data.size() - off));
    return c;
  };

  if (kind == "b") {
    base::buffer b(data.data(), data.size());
    b.consume(skip);
    decode_any(b, what, p);
    kint("used", static_cast<long long>(data.size() - skip - b.size()));
    kbytes("rest", content(b));
  } else if (kind == "s") {
    auto c = cut();
    c->consume(skip);
    decode_any(*c, what, p);
    kint("used", static_cast<long long>(data.size() - skip - c->size()));
    kbytes("rest", content(*c));
  } else if (kind == "lb" || kind == "lbc") {
    base::buffer b(data.data(), data.size());
    base::buffer::lookahead l0(b);
    l0.consume(skip);
    if (kind == "lb") {
      decode_any(l0, what, p);
      kint("used", static_cast<long long>(l0.consumed() - skip));
      kbytes("rest", content(l0));
    } else {
      base::buffer::lookahead l1(l0);
      decode_any(l1, what, p);
      kint("used", static_cast<long long>(l1.consumed()));
      kbytes("rest", content(l1));
    }
    kbytes("under", content(b));
  } else {
    auto c = cut();
    base::buffers::lookahead l0(*c);
    l0.consume(skip);
    if (kind == "ls") {
      decode_any(l0, what, p);
      kint("used", static_cast<long long>(l0.consumed() - skip));
      kbytes("rest", content(l0));
    } else {
      base::buffers::lookahead l1(l0);
      decode_any(l1, what, p);
      kint("used", static_cast<long long>(l1.consumed()));
      kbytes("rest", content(l1));
    }
    kbytes("under", content(*c));
  }
  done();
}

static void
op_venc(std::istringstream &in)
{
  uint64_t v = 0;
  in >> v;
  ev("venc");
  kwide("v", v);
  flush_out();
  auto s = http3::varint::encoded_size(v);
  kint("size", s ? static_cast<long long>(s.value()) : -1);
  kstr("sr", s ? "ok" : ename(s.error()));
  uint8_t raw[24];
  std::memset(raw, 0xa5, sizeof(raw));
  auto r = http3::varint::encode(raw + 4, v);
  kstr("rr", r ? "ok" : ename(r.error()));
  kbytes("raw", raw + 4, r ? r.value() : 0);
  size_t n = r ? r.value() : 0;
  bool clean = true;
  for (size_t i = 0; i < sizeof(raw); i++) {
    if ((i < 4 || i >= 4 + n) && raw[i] != 0xa5) {
      clean = false;
    }
  }
  kbool("clean", clean);
  auto b = http3::varint::encode(v);
  kstr("br", b ? "ok" : ename(b.error()));
  if (b) {
    kbytes("buf", b.value());
  } else {
    kbytes("buf", bytes());
  }
  done();
}

static void
op_fenc(std::istringstream &in)
{
  std::string t;
  in >> t;
  std::vector<uint64_t> f;
  uint64_t x = 0;
  while (in >> x) {
    f.push_back(x);
  }
  http3::frame frame = mkframe(t, f);
  ev("fenc");
  kstr("ft", t);
  key("ff");
  out += '[';
  for (size_t i = 0; i < f.size(); i++) {
    if (i != 0) {
      out += ',';
    }
    awide(f[i]);
  }
  out += ']';
  flush_out();
  kframe(frame);
  auto s = http3::frame::encoded_size(frame);
  kint("size", s ? static_cast<long long>(s.value()) : -1);
  kstr("sr", s ? "ok" : ename(s.error()));
  auto b = http3::frame::encode(frame);
  kstr("br", b ? "ok" : ename(b.error()));
  if (b) {
    kbytes("buf", b.value());
  } else {
    kbytes("buf", bytes());
  }
  std::vector<uint8_t> raw(256, 0xa5);
  auto r = http3::frame::encode(raw.data(), frame);
  kstr("rr", r ? "ok" : ename(r.error()));
  kbytes("raw", raw.data(), r ? r.value() : 0);
  done();
}

static void
op_feq(std::istringstream &in)
{
  std::string t1;
  std::string t2;
  size_t n = 0;
  in >> t1 >> n;
  std::vector<uint64_t> f1(n);
  for (auto &x : f1) {
    in >> x;
  }
  in >> t2 >> n;
  std::vector<uint64_t> f2(n);
  for (auto &x : f2) {
    in >> x;
  }
  http3::frame a = mkframe(t1, f1);
  http3::frame b = mkframe(t2, f2);
  ev("feq");
  kstr("t1", t1);
  key("f1");
  out += '[';
  for (size_t i = 0; i < f1.size(); i++) {
    if (i != 0) {
      out += ',';
    }
    awide(f1[i]);
  }
  out += ']';
  kstr("t2", t2);
  key("f2");
  out += '[';
  for (size_t i = 0; i < f2.size(); i++) {
    if (i != 0) {
      out += ',';
    }
    awide(f2[i]);
  }
  out += ']';
  flush_out();
  kbool("eq", a == b);
  kbool("ne", a != b);
  done();
}

static void
op_penc(std::istringstream &in)
{
  uint64_t v = 0;
  unsigned p = 0;
  unsigned first = 0;
  in >> v >> p >> first;
  ev("penc");
  kwide("v", v);
  kint("p", p);
  kint("first", first);
  flush_out();
  kint("size",
       static_cast<long long>(
         http3::qpack::prefix_int::encoded_size(v, static_cast<uint8_t>(p))));
  uint8_t raw[32];
  std::memset(raw, 0xa5, sizeof(raw));
  raw[4] = static_cast<uint8_t>(first);
  size_t n =
    http3::qpack::prefix_int::encode(raw + 4, v, static_cast<uint8_t>(p));
  kbytes("raw", raw + 4, std::min<size_t>(n, 24));
  bool clean = true;
  for (size_t i = 0; i < sizeof(raw); i++) {
    if ((i < 4 || i >= 4 + n) && raw[i] != 0xa5) {
      clean = false;
    }
  }
  kbool("clean", clean);
  base::buffer b =
    http3::qpack::prefix_int::encode(v, static_cast<uint8_t>(p));
  kbytes("buf", b);
  done();
}

static void
op_henc(std::istringstream &in)
{
  std::string hex;
  in >> hex;
  bytes d = unhex(hex);
  std::string s = tostr(d);
  base::string_view view(s.data(), s.size());
  ev("henc");
  kbytes("s", d);
  flush_out();
  size_t size = http3::qpack::huffman::encoded_size(view);
  kint("size", static_cast<long long>(size));
  bytes raw(size + 16, 0xa5);
  size_t n = http3::qpack::huffman::encode(raw.data(), view);
  kbytes("raw", raw.data(), std::min(n, raw.size()));
  bool clean = true;
  for (size_t i = n; i < raw.size(); i++) {
    clean = clean && raw[i] == 0xa5;
  }
  kbool("clean", clean);
  base::buffer b = http3::qpack::huffman::encode(view);
  kbytes("buf", b);
  done();
}

static void
op_lenc(std::istringstream &in)
{
  std::string hex;
  unsigned p = 0;
  unsigned first = 0;
  in >> p >> first >> hex;
  bytes d = unhex(hex);
  std::string s = tostr(d);
  base::string_view view(s.data(), s.size());
  ev("lenc");
  kint("p", p);
  kint("first", first);
  kbytes("s", d);
  flush_out();
  uint8_t pp = static_cast<uint8_t>(p);
  size_t size = http3::qpack::literal::encoded_size(view, pp);
  kint("size", static_cast<long long>(size));
  bytes raw(size + 16, 0xa5);
  raw[0] = static_cast<uint8_t>(first);
  size_t n = http3::qpack::literal::encode(raw.data(), view, pp);
  kbytes("raw", raw.data(), std::min(n, raw.size()));
  bool clean = true;
  for (size_t i = n; i < raw.size(); i++) {
    clean = clean && raw[i] == 0xa5;
  }
  kbool("clean", clean);
  // Fill freed memory so that the allocation below is unlikely to be zeroed.
  {
    base::buffer junk(size + 4);
    std::fill(junk.begin(), junk.end(), static_cast<uint8_t>(0xff));
  }
  base::buffer b = http3::qpack::literal::encode(view, pp);
  kbytes("buf", b);
  done();
}

// qpack encoder / decoder objects

static void
op_qe(std::istringstream &in)
{
  int q = 0;
  std::string how;
  std::string hn;
  std::string hv;
  in >> q >> how >> hn >> hv;
  auto &e = qencs[q];
  if (!e) {
    e = std::make_unique<http3::qpack::encoder>();
  }
  std::string n = tostr(unhex(hn));
  std::string v = tostr(unhex(hv));
  http3::header_view h(base::string_view(n.data(), n.size()),
                       base::string_view(v.data(), v.size()));
  ev("qe");
  kint("q", q);
  kstr("how", how);
  kview("n", h.name());
  kview("v", h.value());
  flush_out();
  auto s = e->encoded_size(h);
  kstr("sr", s ? "ok" : ename(s.error()));
  kint("size", s ? static_cast<long long>(s.value()) : -1);
  if (how == "buf") {
    auto r = e->encode(h);
    if (kres(r)) {
      kbytes("d", r.value());
    } else {
      kbytes("d", bytes());
    }
    kbool("clean", true);
  } else {
    size_t cap = 2 * (n.size() + v.size()) + 64;
    bytes raw(cap, 0xa5);
    auto r = e->encode(raw.data(), h);
    size_t w = r ? r.value() : 0;
    bool clean = true;
    for (size_t i = w; i < raw.size(); i++) {
      clean = clean && raw[i] == 0xa5;
    }
    kres(r);
    kbytes("d", raw.data(), std::min(w, cap));
    kbool("clean", clean);
  }
  kint("count", static_cast<long long>(e->count()));
  done();
}

// qd Q on chain C (pushes HEX first, then decodes once)
static void
op_qd(std::istringstream &in)
{
  int q = 0;
  int c = 0;
  std::string hex;
  in >> q >> c >> hex;
  auto &d = qdecs[q];
  if (!d) {
    d = std::make_unique<http3::qpack::decoder>();
  }
  auto &ch = chains[c];
  if (!ch) {
    ch = std::make_unique<base::buffers>();
  }
  bytes b = unhex(hex);
  ev("qd");
  kint("q", q);
  kint("c", c);
  kbytes("in", b);
  flush_out();
  if (!b.empty()) {
    ch->push(tobuf(b));
  }
  auto r = d->decode(*ch);
  if (kres(r)) {
    kview("n", r.value().name());
    kview("v", r.value().value());
  }
  kint("count", static_cast<long long>(d->count()));
  kbytes("rest", content(*ch));
  done();
}

// qdb HEX: decode a whole block from one contiguous buffer until error
static void
op_qdb(std::istringstream &in)
{
  std::string hex;
  in >> hex;
  bytes b = unhex(hex);
  base::buffer buf(b.data(), b.size());
  http3::qpack::decoder d;
  ev("qdb");
  kbytes("in", b);
  flush_out();
  key("hs");
  out += '[';
  bool first = true;
  std::string err;
  for (size_t i = 0; i <= b.size() + 1; i++) {
    auto r = d.decode(buf);
    if (!r) {
      err = ename(r.error());
      break;
    }
    if (!first) {
      out += ',';
    }
    first = false;
    out += "[";
    base::string_view n = r.value().name();
    base::string_view v = r.value().value();
    abytes(reinterpret_cast<const uint8_t *>(n.data()), n.size());
    out += ',';
    abytes(reinterpret_cast<const uint8_t *>(v.data()), v.size());
    out += ']';
  }
  out += ']';
  kstr("r", err);
  kint("count", static_cast<long long>(d.count()));
  kbytes("rest", content(buf));
  done();
}

// -------------------------------------------------------------------- buffers

static void
kbufs()
{
  key("all");
  out += '[';
  bool first = true;
  for (auto &e : bufs) {
    if (!e.second || bufmoved[e.first]) {
      continue;
    }
    const base::buffer &b = *e.second;
    if (!first) {
      out += ',';
    }
    first = false;
    bytes c = content(b);
    out += '[';
    out += std::to_string(e.first);
    out += ',';
    abytes(c.data(), c.size());
    out += ',';
    out += (b.size() == static_cast<size_t>(b.end() - b.begin()) &&
            b.empty() == (b.size() == 0) &&
            (b.empty() || (b.data() == b.begin() && *b == c[0] &&
                           std::memcmp(b.data(), c.data(), c.size()) == 0)))
             ? "true"
             : "false";
    out += ']';
  }
  out += ']';
}

static base::buffer *
buf(int i)
{
  auto it = bufs.find(i);
  return it == bufs.end() || bufmoved[i] ? nullptr : it->second.get();
}

static void
op_b(std::istringstream &in)
{
  std::string what;
  int d = 0;
  in >> what >> d;
  if (what == "new" || what == "view" || what == "fill" || what == "chars" ||
      what == "assign") {
    std::string hex;
    in >> hex;
    bytes b = unhex(hex);
    ev("bnew");
    kint("d", d);
    kbytes("in", b);
    flush_out();
    if (what == "new") {
      bufs[d] = std::make_unique<base::buffer>(b.data(), b.size());
    } else if (what == "view") {
      bufs[d] =
        std::make_unique<base::buffer>(base::buffer_view(b.data(), b.size()));
    } else if (what == "chars") {
      bufs[d] = std::make_unique<base::buffer>(
        reinterpret_cast<const char *>(b.data()), b.size());
    } else if (what == "fill") {
      bufs[d] = std::make_unique<base::buffer>(b.size());
      base::buffer &x = *bufs[d];
      for (size_t i = 0; i < b.size(); i++) {
        x[i] = b[i];
      }
    } else { // assign a temporary to an existing buffer
      if (!bufs[d]) {
        bufs[d] = std::make_unique<base::buffer>();
      }
      *bufs[d] = base::buffer(b.data(), b.size());
    }
    bufmoved[d] = false;
  } else if (what == "default") {
    ev("bnew");
    kint("d", d);
    kbytes("in", bytes());
    flush_out();
    bufs[d] = std::make_unique<base::buffer>();
    bufmoved[d] = false;
  } else if (what == "slice") {
    int s = 0;
    size_t n = 0;
    in >> s >> n;
    base::buffer *b = buf(s);
    if (b == nullptr || s == d) {
      return;
    }
    n = std::min(n, b->size());
    ev("bslice");
    kint("d", d);
    kint("s", s);
    kint("n", static_cast<long long>(n));
    flush_out();
    bufs[d] = std::make_unique<base::buffer>(b->slice(n));
    bufmoved[d] = false;
  } else if (what == "slicea") { // slice, assigned to an existing buffer
    int s = 0;
    size_t n = 0;
    in >> s >> n;
    base::buffer *b = buf(s);
    if (b == nullptr || bufs.find(d) == bufs.end()) {
      return;
    }
    n = std::min(n, b->size());
    ev(s == d ? "bself" : "bslice");
    kint("d", d);
    kint("s", s);
    kint("n", static_cast<long long>(n));
    flush_out();
    *bufs[d] = b->slice(n);
    bufmoved[d] = false;
  } else if (what == "consume") {
    size_t n = 0;
    in >> n;
    base::buffer *b = buf(d);
    if (b == nullptr) {
      return;
    }
    n = std::min(n, b->size());
    ev("bconsume");
    kint("d", d);
    kint("n", static_cast<long long>(n));
    flush_out();
    b->consume(n);
  } else if (what == "move") { // assignment
    int s = 0;
    in >> s;
    base::buffer *b = buf(s);
    if (b == nullptr || bufs.find(d) == bufs.end()) {
      return;
    }
    ev("bmove");
    kint("d", d);
    kint("s", s);
    flush_out();
    base::buffer &target = *bufs[d];
    target = std::move(*b);
    bufmoved[d] = false;
    if (s != d) {
      bufmoved[s] = true;
    }
  } else if (what == "movec") { // construction
    int s = 0;
    in >> s;
    base::buffer *b = buf(s);
    if (b == nullptr || s == d) {
      return;
    }
    ev("bmove");
    kint("d", d);
    kint("s", s);
    flush_out();
    bufs[d] = std::make_unique<base::buffer>(std::move(*b));
    bufmoved[d] = false;
    bufmoved[s] = true;
  } else if (what == "drop") {
    if (bufs.find(d) == bufs.end()) {
      return;
    }
    ev("bdrop");
    kint("d", d);
    flush_out();
    bufs.erase(d);
  } else if (what == "concat") {
    int s = 0;
    int t = 0;
    in >> s >> t;
    base::buffer *b1 = buf(s);
    base::buffer *b2 = buf(t);
    if (b1 == nullptr || b2 == nullptr) {
      return;
    }
    ev("bconcat");
    kint("d", d);
    kint("s", s);
    kint("t", t);
    flush_out();
    auto r = std::make_unique<base::buffer>(base::buffer::concat(*b1, *b2));
    bufs[d] = std::move(r);
    bufmoved[d] = false;
  } else if (what == "write") {
    size_t i = 0;
    unsigned v = 0;
    in >> i >> v;
    base::buffer *b = buf(d);
    if (b == nullptr || b->empty()) {
      return;
    }
    i %= b->size();
    ev("bwrite");
    kint("d", d);
    kint("i", static_cast<long long>(i));
    kint("v", v);
    flush_out();
    if (i == 0 && (v & 1U) != 0) {
      **b = static_cast<uint8_t>(v);
    } else {
      (*b)[i] = static_cast<uint8_t>(v);
    }
  } else if (what == "eq") {
    int s = 0;
    in >> s;
    base::buffer *b1 = buf(d);
    base::buffer *b2 = buf(s);
    if (b1 == nullptr || b2 == nullptr) {
      return;
    }
    ev("beq");
    kint("d", d);
    kint("s", s);
    flush_out();
    kbool("eq", base::buffer_view(*b1) == base::buffer_view(*b2));
    kbool("ne", base::buffer_view(*b1) != base::buffer_view(*b2));
  } else if (what == "look") { // look N1 N2 N3: advance, copy, advance, advance
    size_t n1 = 0;
    size_t n2 = 0;
    size_t n3 = 0;
    in >> n1 >> n2 >> n3;
    base::buffer *b = buf(d);
    if (b == nullptr) {
      return;
    }
    n1 = std::min(n1, b->size());
    n2 = std::min(n2, b->size() - n1);
    n3 = std::min(n3, b->size() - n1);
    ev("blook");
    kint("d", d);
    kint("n1", static_cast<long long>(n1));
    kint("n2", static_cast<long long>(n2));
    kint("n3", static_cast<long long>(n3));
    flush_out();
    base::buffer::lookahead l(*b);
    l.consume(n1);
    base::buffer::lookahead l2(l);
    l2.consume(n2);
    kbytes("l2", content(l2));
    kint("c2", static_cast<long long>(l2.consumed()));
    base::buffer::lookahead l3(l2);
    kbytes("l3", content(l3));
    kint("c3", static_cast<long long>(l3.consumed()));
    l.consume(n3);
    kbytes("l1", content(l));
    kint("c1", static_cast<long long>(l.consumed()));
    kbool("e", l.empty());
    kint("h", l.empty() ? -1 : static_cast<long long>(*l));
  } else {
    return;
  }
  kbufs();
  done();
}

// --------------------------------------------------------------------- chains

static void
op_s(std::istringstream &in)
{
  std::string what;
  int c = 0;
  in >> what >> c;
  auto &ch = chains[c];
  if (!ch) {
    ch = std::make_unique<base::buffers>();
  }
  if (what == "push") {
    std::string hex;
    in >> hex;
    bytes b = unhex(hex);
    ev("spush");
    kint("c", c);
    kbytes("in", b);
    flush_out();
    ch->push(base::buffer(b.data(), b.size()));
  } else if (what == "pushpart") { // push a slice of a bigger, shared buffer
    std::string hex;
    size_t off = 0;
    in >> off >> hex;
    bytes b = unhex(hex);
    off = std::min(off, b.size());
    ev("spush");
    kint("c", c);
    kbytes("in", bytes(b.begin() + static_cast<long>(off), b.end()));
    flush_out();
    base::buffer whole(b.data(), b.size());
    base::buffer head = whole.slice(off);
    ch->push(std::move(whole));
  } else if (what == "pop") {
    if (ch->empty()) {
      return;
    }
    ev("spop");
    kint("c", c);
    flush_out();
    base::buffer b = ch->pop();
    kbytes("d", b);
  } else if (what == "front" || what == "back") {
    if (ch->empty()) {
      return;
    }
    ev(what == "front" ? "sfront" : "sback");
    kint("c", c);
    flush_out();
    kbytes("d", what == "front" ? ch->front() : ch->back());
  } else if (what == "slice") {
    size_t n = 0;
    in >> n;
    n = std::min(n, ch->size());
    ev("sslice");
    kint("c", c);
    kint("n", static_cast<long long>(n));
    flush_out();
    base::buffer b = ch->slice(n);
    kbytes("d", b);
  } else if (what == "slicew") { // slice and scribble over the result
    size_t n = 0;
    in >> n;
    n = std::min(n, ch->size());
    ev("sslice");
    kint("c", c);
    kint("n", static_cast<long long>(n));
    flush_out();
    base::buffer b = ch->slice(n);
    kbytes("d", b);
    std::fill(b.begin(), b.end(), static_cast<uint8_t>(0xee));
  } else if (what == "consume") {
    size_t n = 0;
    in >> n;
    n = std::min(n, ch->size());
    ev("sconsume");
    kint("c", c);
    kint("n", static_cast<long long>(n));
    flush_out();
    ch->consume(n);
  } else if (what == "move") {
    int d = 0;
    in >> d;
    if (d == c) {
      return;
    }
    ev("smove");
    kint("c", c);
    kint("d", d);
    flush_out();
    auto moved = std::make_unique<base::buffers>(std::move(*ch));
    chains[d] = std::move(moved);
    chains[c] = std::make_unique<base::buffers>();
    kbytes("dst", content(*chains[d]));
    auto &chd = chains[c];
    kbytes("all", content(*chd));
    kint("z", 0);
    kbool("e", chd->empty());
    done();
    return;
  } else if (what == "dec") { // decode from the chain
    std::string w;
    size_t p = 0;
    in >> w >> p;
    ev("sdec");
    kint("c", c);
    kstr("what", w);
    kint("p", static_cast<long long>(p));
    flush_out();
    decode_any(*ch, w, p);
  } else if (what == "look") {
    size_t n1 = 0;
    size_t n2 = 0;
    size_t n3 = 0;
    in >> n1 >> n2 >> n3;
    size_t size = ch->size();
    n1 = std::min(n1, size);
    n2 = std::min(n2, size - n1);
    n3 = std::min(n3, size - n1);
    ev("slook");
    kint("c", c);
    kint("n1", static_cast<long long>(n1));
    kint("n2", static_cast<long long>(n2));
    kint("n3", static_cast<long long>(n3));
    flush_out();
    base::buffers::lookahead l(*ch);
    l.consume(n1);
    base::buffers::lookahead l2(l);
    l2.consume(n2);
    kbytes("l2", content(l2));
    kint("c2", static_cast<long long>(l2.consumed()));
    base::buffers::lookahead l3(l2);
    kbytes("l3", content(l3));
    kint("c3", static_cast<long long>(l3.consumed()));
    l.consume(n3);
    kbytes("l1", content(l));
    kint("c1", static_cast<long long>(l.consumed()));
    kbool("e1", l.empty());
    kint("h", l.empty() ? -1 : static_cast<long long>(*l));
  } else {
    return;
  }
  kbytes("all", content(*ch));
  kint("z", static_cast<long long>(ch->size()));
  kbool("e", ch->empty());
  done();
}

// ---------------------------------------------------------------- connections

static void
kvoid(const http3::result<void> &r)
{
  kstr("r", r ? "ok" : ename(r.error()));
}

static void
op_request(std::istringstream &in)
{
  int k = 0;
  int h = 0;
  in >> k >> h;
  auto it = conns.find(k);
  if (it == conns.end() || !it->second.c || it->second.moved) {
    return;
  }
  ev("request");
  kint("k", k);
  kint("h", h);
  flush_out();
  auto r = it->second.c->request();
  if (kres(r)) {
    kstr("id", std::to_string(r.value().id()));
    auto fresh = std::make_unique<handle_t>(std::move(r).value());
    handles[h] = std::move(fresh);
  }
  done();
}

static void
op_response(std::istringstream &in)
{
  int k = 0;
  int h = 0;
  uint64_t id = 0;
  in >> k >> id >> h;
  auto it = conns.find(k);
  if (it == conns.end() || !it->second.s || it->second.moved) {
    return;
  }
  ev("response");
  kint("k", k);
  kint("h", h);
  kstr("id", std::to_string(id));
  flush_out();
  auto r = it->second.s->response(id);
  if (kres(r)) {
    kstr("hid", std::to_string(r.value().id()));
    auto fresh = std::make_unique<handle_t>(std::move(r).value());
    handles[h] = std::move(fresh);
  }
  done();
}

static void
op_h(std::istringstream &in)
{
  std::string what;
  int h = 0;
  in >> what >> h;
  if (what == "new") {
    ev("hnew");
    kint("h", h);
    flush_out();
    handles[h] = std::make_unique<handle_t>();
    done();
    return;
  }
  auto it = handles.find(h);
  if (it == handles.end()) {
    return;
  }
  handle_t &x = *it->second;
  if (what == "header") {
    std::string hn;
    std::string hv;
    in >> hn >> hv;
    std::string n = tostr(unhex(hn));
    std::string v = tostr(unhex(hv));
    http3::header_view hd(base::string_view(n.data(), n.size()),
                          base::string_view(v.data(), v.size()));
    ev("header");
    kint("h", h);
    kview("n", hd.name());
    kview("v", hd.value());
    flush_out();
    kvoid(x.header(hd));
    // The handle must not keep references to the caller's strings.
    std::fill(n.begin(), n.end(), '!');
    std::fill(v.begin(), v.end(), '!');
  } else if (what == "body") {
    std::string hex;
    in >> hex;
    bytes b = unhex(hex);
    ev("body");
    kint("h", h);
    kbytes("d", b);
    flush_out();
    kvoid(x.body(base::buffer(b.data(), b.size())));
  } else if (what == "start") {
    ev("start");
    kint("h", h);
    flush_out();
    kvoid(x.start());
  } else if (what == "fin") {
    ev("fin");
    kint("h", h);
    flush_out();
    kvoid(x.fin());
  } else if (what == "id") {
    ev("hid");
    kint("h", h);
    flush_out();
    kstr("id", std::to_string(x.id()));
  } else if (what == "move") { // move h d: *d = std::move(*h)
    int d = 0;
    in >> d;
    auto to = handles.find(d);
    if (to == handles.end()) {
      return;
    }
    ev("hmove");
    kint("h", h);
    kint("d", d);
    flush_out();
    handle_t &target = *to->second;
    target = std::move(x);
  } else if (what == "movec") {
    int d = 0;
    in >> d;
    if (d == h) {
      return;
    }
    ev("hmove");
    kint("h", h);
    kint("d", d);
    flush_out();
    auto fresh = std::make_unique<handle_t>(std::move(x));
    handles[d] = std::move(fresh);
  } else if (what == "drop") {
    ev("hdrop");
    kint("h", h);
    flush_out();
    handles.erase(h);
  } else {
    return;
  }
  done();
}

template<typename C>
static bool
send_on(C &c, conn &cn)
{
  http3::result<quic::event> r = c.send();
  if (!r) {
    kstr("r", ename(r.error()));
    return false;
  }
  quic::event event = std::move(r).value();
  if (event != quic::event::type::data) {
    kstr("r", "notdata");
    return false;
  }
  kstr("r", "ok");
  kstr("id", std::to_string(event.data.id));
  kbool("fin", event.data.fin);
  kbytes("d", event.data.buffer);
  chan &q = cn.q[event.data.id];
  q.data.insert(
    q.data.end(), event.data.buffer.begin(), event.data.buffer.end());
  q.fin = q.fin || event.data.fin;
  return true;
}

static bool
do_send(int k)
{
  auto it = conns.find(k);
  if (it == conns.end() || it->second.moved) {
    return false;
  }
  ev("send");
  kint("k", k);
  flush_out();
  bool more = it->second.c ? send_on(*it->second.c, it->second)
                           : send_on(*it->second.s, it->second);
  done();
  return more;
}

static void
krecv(int k, int g, uint64_t id, bool fin, const bytes &data, int src)
{
  conn &cn = conns[k];
  ev("recv");
  kint("k", k);
  kint("g", g);
  kint("src", src);
  kstr("id", std::to_string(id));
  kint("m", static_cast<long long>(id % 4));
  kbool("fin", fin);
  kbytes("d", data);
  flush_out();
  gens.erase(g);
  cn.received += data.size();
  gen fresh;
  fresh.conn = k;
  fresh.budget = 4 * cn.received + 64;
  if (cn.c) {
    auto r = cn.c->recv(quic::event(
      quic::data{ id, fin, base::buffer(data.data(), data.size()) }));
    if (kres(r)) {
      fresh.c = std::make_unique<http3::client::generator>(
        std::move(r).value());
      gens[g] = std::move(fresh);
    }
  } else {
    auto r = cn.s->recv(quic::event(
      quic::data{ id, fin, base::buffer(data.data(), data.size()) }));
    if (kres(r)) {
      fresh.s = std::make_unique<http3::server::generator>(
        std::move(r).value());
      gens[g] = std::move(fresh);
    }
  }
  done();
}

static bool
live_conn(int k)
{
  auto it = conns.find(k);
  return it != conns.end() && !it->second.moved;
}

static void
kevent(http3::event &e)
{
  switch (static_cast<http3::event::type>(e)) {
    case http3::event::type::settings:
      kstr("r", "settings");
      key("s");
      out += '[';
      awide(e.settings.max_header_list_size);
      out += ',';
      awide(e.settings.num_placeholders);
      out += ',';
      awide(e.settings.qpack_max_table_capacity);
      out += ',';
      awide(e.settings.qpack_blocked_streams);
      out += ']';
      break;
    case http3::event::type::header:
      kstr("r", "header");
      kstr("id", std::to_string(e.header.id));
      kbool("fin", e.header.fin);
      kview("n", e.header.header.name());
      kview("v", e.header.header.value());
      break;
    case http3::event::type::body:
      kstr("r", "body");
      kstr("id", std::to_string(e.body.id));
      kbool("fin", e.body.fin);
      kbytes("d", e.body.buffer);
      break;
    case http3::event::type::finished:
      kstr("r", "finished");
      kstr("id", std::to_string(e.finished.id));
      break;
    default:
      kstr("r", "bogus");
  }
}

template<typename G>
static int
next_on(G &g)
{
  if (!g.next()) {
    kstr("r", "none");
    return 0;
  }
  http3::result<http3::event> r = g.get();
  if (!r) {
    kstr("r", "err");
    kstr("e", ename(r.error()));
    return 2;
  }
  http3::event e = std::move(r).value();
  bool finished = e == http3::event::type::finished;
  kevent(e);
  return finished ? 3 : 1;
}

// 0 nothing more, 1 event, 2 error, 3 finished, -1 no such generator
static int
do_next(int g)
{
  auto it = gens.find(g);
  if (it == gens.end() || !live_conn(it->second.conn)) {
    return -1;
  }
  ev("next");
  kint("g", g);
  kint("k", it->second.conn);
  flush_out();
  int r = it->second.c ? next_on(*it->second.c) : next_on(*it->second.s);
  done();
  return r;
}

static void
op_drain(std::istringstream &in)
{
  int g = 0;
  in >> g;
  auto it = gens.find(g);
  if (it == gens.end()) {
    return;
  }
  size_t budget = it->second.budget;
  for (size_t i = 0; i < budget; i++) {
    int r = do_next(g);
    if (r == 3) {
      do_next(g); // nothing may follow
      return;
    }
    if (r != 1) {
      return;
    }
  }
  ev("hang");
  kint("g", g);
  done();
}

static void
drop_generators(int k)
{
  for (auto g = gens.begin(); g != gens.end();) {
    g = g->second.conn == k ? gens.erase(g) : std::next(g);
  }
}

static void
op_conn(std::istringstream &in, const std::string &what)
{
  int k = 0;
  in >> k;
  if (what == "client" || what == "server") {
    ev(what.c_str());
    kint("k", k);
    flush_out();
    drop_generators(k);
    conn c;
    if (what == "client") {
      c.c = std::make_unique<http3::client::connection>();
    } else {
      c.s = std::make_unique<http3::server::connection>();
    }
    conns.erase(k);
    conns[k] = std::move(c);
    done();
    return;
  }
  auto it = conns.find(k);
  if (it == conns.end()) {
    return;
  }
  if (what == "cdel") {
    ev("cdel");
    kint("k", k);
    flush_out();
    drop_generators(k);
    conns.erase(k);
    done();
    return;
  }
  // cmove k d: connection d is move constructed from k
  int d = 0;
  in >> d;
  if (d == k || it->second.moved) {
    return;
  }
  if (what == "cassign") { // an existing connection of the same role
    auto to = conns.find(d);
    if (to == conns.end() || to->second.moved ||
        !to->second.c != !it->second.c) {
      return;
    }
  }
  ev("cmove");
  kint("k", k);
  kint("d", d);
  flush_out();
  drop_generators(k);
  drop_generators(d);
  if (what == "cassign") {
    conn &from = it->second;
    conn &to = conns[d];
    if (from.c) {
      *to.c = std::move(*from.c);
    } else {
      *to.s = std::move(*from.s);
    }
    to.q = std::move(from.q);
    to.received = from.received;
    conns.erase(k);
    done();
    return;
  }
  conn fresh;
  if (it->second.c) {
    fresh.c =
      std::make_unique<http3::client::connection>(std::move(*it->second.c));
  } else {
    fresh.s =
      std::make_unique<http3::server::connection>(std::move(*it->second.s));
  }
  fresh.q = std::move(it->second.q);
  fresh.received = it->second.received;
  conns.erase(k);
  conns.erase(d);
  conns[d] = std::move(fresh);
  done();
}

// --------------------------------------------------------------------- logging

// lset none|discard|keep|console|source
static void
op_lset(std::istringstream &in)
{
  std::string kind;
  in >> kind;
  base::logger = nullptr;
  keeping = nullptr;
  logger.reset();
  if (kind == "discard") {
    logger = std::make_unique<base::log::api>();
  } else if (kind == "keep") {
    auto k = std::make_unique<keeper>();
    keeping = k.get();
    logger = std::move(k);
  } else if (kind != "none") {
    logger = std::make_unique<log::console>(kind == "source");
  }
  base::logger = logger.get();
  ev("lset");
  kstr("k", kind);
  done();
}

struct larg {
  bool number;
  long n;
  std::string s;
};

static int log_line = 0;
static const char *log_function = nullptr;

template<typename... A>
static void
emit(const std::string &level, const char *format, const std::vector<larg> &args, const A &... a)
{
  if constexpr (sizeof...(A) < 3) {
    if (sizeof...(A) < args.size()) {
      const larg &next = args[sizeof...(A)];
      next.number ? emit(level, format, args, a..., next.n) : emit(level, format, args, a..., next.s);
      return;
    }
  }
  log_function = __func__;
  if (level == "trace") { log_line = __LINE__; BNL_LOG_T(format, a...);
  } else if (level == "debug") { log_line = __LINE__; BNL_LOG_D(format, a...);
  } else if (level == "info") { log_line = __LINE__; BNL_LOG_I(format, a...);
  } else if (level == "warning") { log_line = __LINE__; BNL_LOG_W(format, a...);
  } else { log_line = __LINE__; BNL_LOG_E(format, a...);
  }
}

static long
time_of_day()
{
  time_t t = std::time(nullptr);
  tm now{};
  localtime_r(&t, &now);
  return now.tm_hour * 3600L + now.tm_min * 60L + now.tm_sec;
}

// Takes what is written to a descriptor.
struct taker {
  int fd, old;
  FILE *to;
  explicit taker(int fd) : fd(fd), old(dup(fd)), to(std::tmpfile())
  {
    dup2(fileno(to), fd);
  }
  bytes take()
  {
    std::fflush(fd == 1 ? stdout : stderr);
    dup2(old, fd);
    close(old);
    bytes b;
    std::rewind(to);
    int c;
    while ((c = std::fgetc(to)) != EOF) {
      b.push_back(static_cast<uint8_t>(c));
    }
    std::fclose(to);
    return b;
  }
};

static void
kkept(const char *k, const std::vector<kept> &all)
{
  key(k);
  out += '[';
  for (size_t i = 0; i < all.size(); i++) {
    out += i == 0 ? "{\"lvl\":\"" : ",{\"lvl\":\"";
    out += all[i].level;
    out += '"';
    kview("text", all[i].text);
    kview("file", all[i].file);
    kview("func", all[i].function);
    kint("line", all[i].line);
    out += '}';
  }
  out += ']';
}

// lmsg LEVEL FORMATHEX [iNUMBER|sHEX]..
static void
op_lmsg(std::istringstream &in)
{
  std::string level, w;
  in >> level >> w;
  std::string format = tostr(unhex(w));
  std::vector<larg> args;
  while (in >> w) {
    args.push_back(w[0] == 'i' ? larg{ true, std::stol(w.substr(1)), "" }
                               : larg{ false, 0, tostr(unhex(w.substr(1))) });
  }
  if (keeping != nullptr) {
    keeping->all.clear();
  }
  bytes o, e;
  long t0 = time_of_day();
  std::string failure;
  {
    taker so(1), se(2);
    try {
      emit(level, format.c_str(), args);
    } catch (const std::exception &x) {
      failure = "exception";
    }
    o = so.take();
    e = se.take();
  }
  long t1 = time_of_day();
  ev("lmsg");
  if (!failure.empty()) {
    kstr("r", failure);
  }
  kstr("lvl", level);
  kview("f", format);
  key("a");
  out += '[';
  for (size_t i = 0; i < args.size(); i++) {
    out += i == 0 ? "" : ",";
    if (args[i].number) {
      out += "{\"k\":\"n\",\"n\":" + std::to_string(args[i].n) + "}";
    } else {
      out += "{\"k\":\"s\"";
      kview("s", args[i].s);
      out += '}';
    }
  }
  out += ']';
  kview("file", base::string_view(__FILE__));
  kview("func", base::string_view(log_function));
  kint("line", log_line);
  kint("t0", t0);
  kint("t1", t1);
  kkept("got", keeping != nullptr ? keeping->all : std::vector<kept>());
  kbytes("out", o);
  kbytes("err", e);
  done();
}

// --------------------------------------------------------------------- values

static ip::address
toaddress(const bytes &b)
{
  return ip::address(base::buffer_view(b.data(), b.size()));
}

template<typename T>
static std::string
shown(const T &v)
{
  std::ostringstream os;
  os << v;
  return os.str();
}

static void
kaddress(const char *k, const ip::address &a)
{
  base::buffer_view v = a.bytes();
  kbytes(k, v.data(), v.size());
}

template<typename E>
static void
errors(const char *domain, const std::vector<std::pair<const char *, E>> &all)
{
  ev("verrs");
  kstr("domain", domain);
  kstr("category", make_error_code(all[0].second).category().name());
  key("all");
  out += '[';
  bool first = true;
  for (const auto &x : all) {
    std::error_code c = make_error_code(x.second);
    std::error_code same = x.second;
    out += first ? "{\"e\":\"" : ",{\"e\":\"";
    first = false;
    out += x.first;
    out += '"';
    kint("code", c.value());
    kwide("value", static_cast<uint64_t>(x.second));
    kbool("is", static_cast<bool>(c));
    kbool("same", c == same && c.category() == same.category());
    kstr("msg", c.message());
    out += '}';
  }
  out += ']';
  done();
}

static void
op_v(std::istringstream &in)
{
  std::string what, a, b;
  in >> what;
  if (what == "addr") { // an address, another one
    in >> a >> b;
    bytes x = unhex(a);
    bytes y = unhex(b);
    ip::address p = toaddress(x);
    ip::address q = toaddress(y);
    ip::address copy = p;
    uint32_t word = 0;
    std::memcpy(&word, x.data(), 4);
    ev("vaddr");
    kbytes("d", x);
    kbytes("d2", y);
    kstr("type", p == ip::address::type::ipv4 ? "ipv4" : "ipv6");
    kaddress("v", p);
    kaddress("copy", copy);
    kbool("eq", p == q);
    kbool("self", p == copy);
    if (x.size() == 4) {
      kaddress("word", ipv4::address(word));
      kaddress("raw", ipv4::address(x.data()));
      kview("text", shown(p));
    } else {
      kaddress("raw", ipv6::address(x.data()));
    }
    done();
  } else if (what == "path") { // two endpoints
    unsigned m = 0, n = 0;
    in >> a >> m >> b >> n;
    bytes x = unhex(a);
    bytes y = unhex(b);
    ip::endpoint l(toaddress(x), static_cast<uint16_t>(m));
    ip::endpoint r(toaddress(y), static_cast<uint16_t>(n));
    quic::path p(l, r);
    quic::path q = p;
    ev("vpath");
    kbytes("d", x);
    kint("m", m);
    kbytes("d2", y);
    kint("n", n);
    kaddress("la", q.local().address());
    kint("lp", q.local().port());
    kaddress("pa", q.peer().address());
    kint("pp", q.peer().port());
    done();
  } else if (what == "host") {
    in >> a;
    bytes x = unhex(a);
    ip::host h{ base::string(x.begin(), x.end()) };
    ip::host moved = ip::host(h);
    ev("vhost");
    kbytes("d", x);
    kview("name", moved.name());
    kview("text", shown(h));
    if (std::find(x.begin(), x.end(), 0) == x.end()) {
      ip::host c(tostr(x).c_str());
      kview("c", c.name());
    }
    done();
  } else if (what == "view") { // two byte strings
    in >> a >> b;
    bytes x = unhex(a);
    bytes y = unhex(b);
    std::string xs = tostr(x);
    std::string ys = tostr(y);
    base::buffer_view v(x.data(), x.size());
    base::buffer_view w(y.data(), y.size());
    base::buffer_view_mut m(x.data(), x.size());
    base::buffer_view mv = m;
    base::string_view s(xs);
    base::string_view t(ys.data(), ys.size());
    bytes each, seach;
    for (size_t i = 0; i < v.size(); i++) {
      each.push_back(v[i]);
      seach.push_back(static_cast<uint8_t>(s[i]));
    }
    ev("vview");
    kbytes("d", x);
    kbytes("d2", y);
    kint("size", static_cast<long long>(v.size()));
    kint("ssize", static_cast<long long>(s.size()));
    kint("msize", static_cast<long long>(m.size()));
    kbool("empty", v.empty());
    kbool("sempty", s.empty());
    kbool("mempty", m.empty());
    kbytes("all", bytes(v.begin(), v.end()));
    kbytes("sall", bytes(s.begin(), s.end()));
    kbytes("mall", bytes(m.begin(), m.end()));
    kbytes("mv", bytes(mv.begin(), mv.end()));
    kbytes("each", each);
    kbytes("seach", seach);
    if (!x.empty()) {
      kint("first", *v);
      kint("sfirst", static_cast<uint8_t>(*s));
    }
    kbool("eq", v == w);
    kbool("ne", v != w);
    kbool("seq", s == t);
    kbool("sne", s != t);
    kview("text", shown(s));
    if (std::find(x.begin(), x.end(), 0) == x.end()) {
      kview("c", base::string_view(xs.c_str()));
    }
    done();
  } else if (what == "header") { // name, value, name, value
    std::string c, d;
    in >> a >> b >> c >> d;
    std::string n1 = tostr(unhex(a)), v1 = tostr(unhex(b)), n2 = tostr(unhex(c)), v2 = tostr(unhex(d));
    http3::header h(n1, v1);
    http3::header copy = h;
    http3::header moved = std::move(copy);
    http3::header_view p = moved;
    http3::header_view q(n2, v2);
    ev("vheader");
    kview("n", n1);
    kview("v", v1);
    kview("n2", n2);
    kview("v2", v2);
    kview("hn", moved.name());
    kview("hv", moved.value());
    kview("pn", p.name());
    kview("pv", p.value());
    kbool("eq", p == q);
    kbool("ne", p != q);
    kbool("lower", http3::header_is_lowercase(p));
    kview("text", shown(p));
    done();
  } else if (what == "event") { // id, fin, data, error value
    unsigned long long id = 0, value = 0;
    int fin = 0;
    in >> id >> fin >> a >> value;
    bytes x = unhex(a);
    quic::event e(quic::data{ id, fin != 0, tobuf(x) });
    quic::event m = std::move(e);
    quic::event f(quic::event::payload::error{ quic::application::error::stop_sending, id, value });
    quic::event g = std::move(f);
    ev("vevent");
    kwide("id", id);
    kbool("fin", fin != 0);
    kbytes("d", x);
    kwide("value", value);
    kbool("isdata", m == quic::event::type::data);
    kwide("mid", m.id());
    kwide("did", m.data.id);
    kbool("mfin", m.data.fin);
    kbytes("mdata", m.data.buffer);
    kbool("iserror", g == quic::event::type::error);
    kwide("gid", g.id());
    kwide("eid", g.error.id);
    kwide("evalue", g.error.value);
    kbool("etype", g.error.type == quic::application::error::stop_sending);
    done();
  } else if (what == "hevent") { // id, fin, name, value, data, four settings
    unsigned long long id = 0;
    int fin = 0;
    http3::settings t;
    std::string c;
    in >> id >> fin >> a >> b >> c >> t.max_header_list_size >> t.num_placeholders >>
      t.qpack_max_table_capacity >> t.qpack_blocked_streams;
    std::string n = tostr(unhex(a)), v = tostr(unhex(b));
    bytes x = unhex(c);
    using E = http3::event;
    E es(t);
    E eh(E::payload::header{ id, fin != 0, http3::header(n, v) });
    E eb(E::payload::body{ id, fin != 0, tobuf(x) });
    E ef(E::payload::finished{ id });
    E ms = std::move(es);
    E mh = std::move(eh);
    E mb = std::move(eb);
    E mf = std::move(ef);
    ev("vhevent");
    kwide("id", id);
    kbool("fin", fin != 0);
    kview("n", n);
    kview("v", v);
    kbytes("d", x);
    kbool("types", ms == E::type::settings && mh == E::type::header && mb == E::type::body &&
                     mf == E::type::finished);
    key("s");
    out += '[';
    awide(t.max_header_list_size); out += ',';
    awide(t.num_placeholders); out += ',';
    awide(t.qpack_max_table_capacity); out += ',';
    awide(t.qpack_blocked_streams);
    out += ']';
    key("ms");
    out += '[';
    awide(ms.settings.max_header_list_size); out += ',';
    awide(ms.settings.num_placeholders); out += ',';
    awide(ms.settings.qpack_max_table_capacity); out += ',';
    awide(ms.settings.qpack_blocked_streams);
    out += ']';
    kwide("hid", mh.header.id);
    kbool("hfin", mh.header.fin);
    kview("hn", mh.header.header.name());
    kview("hv", mh.header.header.value());
    kwide("did", mb.body.id);
    kbool("mfin", mb.body.fin);
    kbytes("mdata", mb.body.buffer);
    kwide("gid", mf.finished.id);
    done();
  } else if (what == "errors") {
    using H = http3::error;
    using Q = quic::error;
    errors<H>("http3", { { "no_error", H::no_error }, { "internal", H::internal },
                         { "wrong_stream", H::wrong_stream },
                         { "closed_critical_stream", H::closed_critical_stream },
                         { "missing_settings", H::missing_settings },
                         { "unexpected_frame", H::unexpected_frame },
                         { "malformed_frame", H::malformed_frame },
                         { "qpack_decompression_failed", H::qpack_decompression_failed },
                         { "incomplete", H::incomplete }, { "idle", H::idle },
                         { "delegate", H::delegate }, { "not_implemented", H::not_implemented },
                         { "varint_overflow", H::varint_overflow },
                         { "malformed_header", H::malformed_header },
                         { "stream_closed", H::stream_closed },
                         { "invalid_handle", H::invalid_handle } });
    errors<Q>("quic", { { "no_error", Q::no_error }, { "internal", Q::internal },
                        { "incomplete", Q::incomplete }, { "idle", Q::idle },
                        { "delegate", Q::delegate }, { "finished", Q::finished },
                        { "not_implemented", Q::not_implemented }, { "handshake", Q::handshake },
                        { "crypto", Q::crypto }, { "ngtcp2", Q::ngtcp2 },
                        { "path_validation", Q::path_validation },
                        { "stream_not_found", Q::stream_not_found },
                        { "stream_id_blocked", Q::stream_id_blocked },
                        { "stream_data_blocked", Q::stream_data_blocked } });
  }
}

static bool
run(const std::string &line)
{
  std::istringstream in(line);
  std::string op;
  in >> op;
  if (op == "lset") {
    op_lset(in);
  } else if (op == "lmsg") {
    op_lmsg(in);
  } else if (op == "v") {
    op_v(in);
  } else if (op == "dec") {
    op_dec(in);
  } else if (op == "venc") {
    op_venc(in);
  } else if (op == "fenc") {
    op_fenc(in);
  } else if (op == "feq") {
    op_feq(in);
  } else if (op == "penc") {
    op_penc(in);
  } else if (op == "henc") {
    op_henc(in);
  } else if (op == "lenc") {
    op_lenc(in);
  } else if (op == "qe") {
    op_qe(in);
  } else if (op == "qd") {
    op_qd(in);
  } else if (op == "qdb") {
    op_qdb(in);
  } else if (op == "b") {
    op_b(in);
  } else if (op == "s") {
    op_s(in);
  } else if (op == "request") {
    op_request(in);
  } else if (op == "response") {
    op_response(in);
  } else if (op == "h") {
    op_h(in);
  } else if (op == "send") {
    int k = 0;
    in >> k;
    do_send(k);
  } else if (op == "flush") {
    int k = 0;
    in >> k;
    int i = 0;
    while (i < 20000 && do_send(k)) {
      i++;
    }
    if (i == 20000) {
      ev("hang");
      kint("g", -1);
      done();
    }
  } else if (op == "recv") { // recv K G ID FIN HEX
    int k = 0;
    int g = 0;
    uint64_t id = 0;
    int fin = 0;
    std::string hex;
    in >> k >> g >> id >> fin >> hex;
    if (live_conn(k)) {
      krecv(k, g, id, fin != 0, unhex(hex), -1);
    }
  } else if (op == "dlv") { // dlv SRC ID N F DST G
    int src = 0;
    int dst = 0;
    int g = 0;
    uint64_t id = 0;
    long n = 0;
    int f = 0;
    in >> src >> id >> n >> f >> dst >> g;
    auto it = conns.find(src);
    if (it == conns.end() || !live_conn(dst)) {
      return true;
    }
    auto qi = it->second.q.find(id);
    if (qi == it->second.q.end()) {
      return true;
    }
    chan &q = qi->second;
    size_t take = n < 0 ? q.data.size()
                        : std::min(static_cast<size_t>(n), q.data.size());
    bool fin = f != 0 && q.fin && take == q.data.size();
    if (take == 0 && !fin && n != 0) {
      return true;
    }
    bytes d(q.data.begin(), q.data.begin() + static_cast<long>(take));
    q.data.erase(q.data.begin(), q.data.begin() + static_cast<long>(take));
    if (fin) {
      it->second.q.erase(qi);
    }
    krecv(dst, g, id, fin, d, src);
  } else if (op == "rerr") {
    int k = 0;
    uint64_t id = 0;
    in >> k >> id;
    if (live_conn(k)) {
      ev("rerr");
      kint("k", k);
      flush_out();
      using E = quic::application::error;
      if (conns[k].c) {
        kres(conns[k].c->recv(E{ E::rst_stream, id, 7 }));
      } else {
        kres(conns[k].s->recv(E{ E::rst_stream, id, 7 }));
      }
      done();
    }
  } else if (op == "next") {
    int g = 0;
    in >> g;
    do_next(g);
  } else if (op == "drain") {
    op_drain(in);
  } else if (op == "gdrop") {
    int g = 0;
    in >> g;
    gens.erase(g);
  } else if (op == "client" || op == "server" || op == "cdel" ||
             op == "cmove" || op == "cassign") {
    op_conn(in, op);
  } else {
    return false;
  }
  return true;
}

// Runs one operation.
static bool
guarded(const std::string &line)
{
  first_event = true;
  try {
    if (!run(line)) {
      std::fprintf(stderr, "bad op: %s\n", line.c_str());
      return false;
    }
  } catch (const std::exception &e) {
    kstr("r", "exception");
    done();
  }
  return true;
}

static long arrays = 0;
static long objects = 0;

static void
begin()
{
  reset();
  arrays = live_arrays;
  objects = live_objects;
}

static void
end()
{
  first_event = true;
  ev("end");
  flush_out();
  reset();
  kint("arrays", live_arrays - arrays);
  kint("objects", live_objects - objects);
  done();
}

// The same operations without and with a logger. What happened is recorded in
// pairs, then the messages.
static std::vector<std::string>
half(const std::vector<std::string> &script, bool logging, std::vector<kept> &messages)
{
  std::vector<std::string> lines;
  collecting = true;
  out.clear();
  begin();
  auto k = std::make_unique<keeper>();
  base::logger = logging ? k.get() : nullptr;
  for (const std::string &line : script) {
    if (!guarded(line)) {
      _exit(98);
    }
    for (size_t at = 0; at < out.size();) {
      size_t to = out.find('\n', at);
      lines.push_back(out.substr(at + (out[at] == ',' ? 1 : 0), to - at - (out[at] == ',' ? 1 : 0)));
      at = to + 1;
    }
    out.clear();
  }
  reset();
  messages = std::move(k->all);
  collecting = false;
  return lines;
}

static void
twin(const std::vector<std::string> &script)
{
  std::vector<kept> none, messages;
  std::vector<std::string> a = half(script, false, none);
  std::vector<std::string> b = half(script, true, messages);
  static const std::string nothing = "{\"o\":\"nothing\"}";
  for (size_t i = 0; i < std::max(a.size(), b.size()); i++) {
    out += "{\"o\":\"twin\",\"a\":" + (i < a.size() ? a[i] : nothing);
    out += ",\"b\":" + (i < b.size() ? b[i] : nothing) + "}\n";
    flush_out();
  }
  first_event = true;
  ev("lgot");
  kkept("got", messages);
  kkept("none", none);
  done();
}

// Input: lines "T <id>" start a trace, "E" ends it, others are operations; a
// first operation "twin" has the others run twice.
// Output per trace: a line "T <id>", one JSON object per event and line (the
// leading comma of later objects is dropped by the reader), a line "E".
int
main()
{
  std::ios::sync_with_stdio(false);
  std::string line;
  std::vector<std::string> pair;
  bool pairing = false;
  out.reserve(1 << 22);
  line.reserve(1 << 20);
  while (std::getline(std::cin, line)) {
    if (line.empty()) {
      continue;
    }
    if (line[0] == 'T' && line[1] == ' ') {
      begin();
      out += line;
      out += '\n';
      flush_out();
      watch(25);
    } else if (line == "twin") {
      pairing = true;
    } else if (line == "E") {
      if (pairing) {
        twin(pair);
        pair = {};
        pairing = false;
      } else {
        end();
      }
      watch(0);
      line.clear();
      out += "E\n";
      flush_out();
    } else if (pairing) {
      pair.push_back(line);
    } else if (!guarded(line)) {
      return 98;
    }
  }
  return 0;
}
