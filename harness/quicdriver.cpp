// Conformance driver for bnl's QUIC client. The transport library (ngtcp2) and
// the TLS library are stand-ins (quic/standins.hpp). The driver judges nothing.
#include "quic/standins.hpp"

#include <bnl/quic/client/connection.hpp>

#include "logging.hpp"
#include "watch.hpp"

using namespace bnl;

// ----------------------------------------------------------------- the client

static std::unique_ptr<quic::client::connection> client;
static std::unique_ptr<quic::client::generator> generator;
static long mark = 0;
static std::unique_ptr<keeper> logger;

static std::string
name(quic::error e)
{
  using E = quic::error;
  switch (e) {
    case E::no_error: return "no_error";
    case E::internal: return "internal";
    case E::incomplete: return "incomplete";
    case E::idle: return "idle";
    case E::delegate: return "delegate";
    case E::finished: return "finished";
    case E::not_implemented: return "not_implemented";
    case E::handshake: return "handshake";
    case E::crypto: return "crypto";
    case E::ngtcp2: return "ngtcp2";
    case E::path_validation: return "path_validation";
    case E::stream_not_found: return "stream_not_found";
    case E::stream_id_blocked: return "stream_id_blocked";
    case E::stream_data_blocked: return "stream_data_blocked";
  }
  return "?";
}

static void
finish()
{
  generator.reset();
  client.reset();
}

static void
do_send(bool &more)
{
  { ev("usend"); }
  conn->blocked[0] = conn->blocked[1] = false;
  quic::result<base::buffer> r = client->send();
  ev e("usent");
  if (r) {
    base::buffer b = std::move(r).value();
    e.s("r", "ok").d("d", b.data(), b.size());
    more = b.size() > 0;
  } else {
    e.s("r", name(r.error()));
    more = false;
  }
}

static bool
do_poll()
{
  if (!generator) {
    return false;
  }
  bool some = generator->next();
  if (!some) {
    ev("uevent").s("kind", "none");
    return false;
  }
  quic::result<quic::event> r = generator->get();
  ev e("uevent");
  if (!r) {
    e.s("kind", "failure").s("e", name(r.error()));
    return true;
  }
  quic::event v = std::move(r).value();
  if (v == quic::event::type::data) {
    e.s("kind", "data").s("id", std::to_string(v.data.id)).b("fin", v.data.fin)
      .d("d", v.data.buffer.data(), v.data.buffer.size());
  } else {
    e.s("kind", v.error.type == quic::application::error::rst_stream ? "reset" : "other")
      .s("id", std::to_string(v.error.id)).s("error", std::to_string(v.error.value));
  }
  e.b("same", v.id() == (v == quic::event::type::data ? v.data.id : v.error.id));
  return true;
}

static ip::endpoint
endpoint(const std::string &hex)
{
  bytes a = unhex(hex);
  return ip::endpoint(ip::address(base::buffer_view(a.data(), a.size())), 4433);
}

static bool
run(const std::string &line)
{
  std::istringstream in(line);
  std::vector<std::string> a;
  std::string w;
  while (in >> w) {
    a.push_back(w);
  }
  const std::string &op = a[0];
  if (op == "plan") { // plan KIND A,B,C
    if (a[1] == "fail") {
      plan.fail[a[2]] = std::stoi(a[3]);
      return true;
    }
    std::deque<std::string> &q = a[1] == "write" ? plan.write
                               : a[1] == "open" ? plan.open
                               : a[1] == "pkt" ? plan.pkt
                               : a[1] == "errs" ? plan.errs : plan.tls;
    for (const std::string &x : split(a[2], ',')) {
      q.push_back(x);
    }
    return true;
  }
  if (op == "logger") { // logger on|off
    base::logger = nullptr;
    logger.reset();
    if (a[1] == "on") {
      logger = std::make_unique<keeper>();
      base::logger = logger.get();
    }
    return true;
  }
  if (op == "clock") {
    plan.clock = std::stoull(a[1]);
    ev("uclock").w("t", plan.clock);
    return true;
  }
  if (op == "new") { // new HOSTHEX LOCAL PEER P1,..,P11
    finish();
    std::vector<std::string> p = split(a[4], ',');
    quic::params q;
    q.max_stream_data_bidi_local = std::stoull(p[0]);
    q.max_stream_data_bidi_remote = std::stoull(p[1]);
    q.max_stream_data_uni = std::stoull(p[2]);
    q.max_data = std::stoull(p[3]);
    q.max_streams_bidi = std::stoull(p[4]);
    q.max_streams_uni = std::stoull(p[5]);
    q.idle_timeout = quic::milliseconds(std::stoull(p[6]));
    q.max_packet_size = std::stoull(p[7]);
    q.ack_delay_exponent = std::stoull(p[8]);
    q.disable_migration = static_cast<uint8_t>(std::stoull(p[9]));
    q.max_ack_delay = quic::milliseconds(std::stoull(p[10]));
    bytes host = unhex(a[1]);
    {
      ev e("uclient");
      e.d("host", host).d("local", unhex(a[2])).d("peer", unhex(a[3]));
      out += ",\"params\":[";
      for (size_t k = 0; k < 11; k++) {
        uint64_t x = std::stoull(p[k]);
        out += k == 0 ? "[" : ",[";
        for (int i = 7; i >= 0; i--) {
          out += std::to_string((x >> (8 * i)) & 0xff) + (i == 0 ? "]" : ",");
        }
      }
      out += "]";
    }
    client = std::make_unique<quic::client::connection>(
      ip::host(base::string(reinterpret_cast<const char *>(host.data()), host.size())),
      quic::path(endpoint(a[2]), endpoint(a[3])), q,
      [] { return quic::duration(plan.clock); });
    ev("uready");
    return true;
  }
  if (!client) {
    return true;
  }
  if (op == "add") { // add ID FIN HEX
    bytes d = unhex(a[3]);
    quic::result<void> r = client->add(
      quic::event(quic::data{ std::stoull(a[1]), a[2] == "1", base::buffer(d.data(), d.size()) }));
    ev("uadd").s("id", a[1]).b("fin", a[2] == "1").d("d", d).s("r", r ? "ok" : name(r.error()));
  } else if (op == "adderr") {
    quic::result<void> r = client->add(quic::event(
      quic::application::error{ quic::application::error::rst_stream, std::stoull(a[1]), 7 }));
    ev("uadderr").s("r", r ? "ok" : name(r.error()));
  } else if (op == "send") {
    bool more = false;
    do_send(more);
  } else if (op == "flush") {
    bool more = true;
    for (int k = 0; more && k < 300; k++) {
      do_send(more);
    }
  } else if (op == "recv") { // recv HEX ITEM..
    bytes d = unhex(a[1]);
    reading.assign(a.begin() + 2, a.end());
    { ev("urecv").d("d", d); }
    quic::result<quic::client::generator> r = client->recv(base::buffer_view(d.data(), d.size()));
    if (r) {
      generator = std::make_unique<quic::client::generator>(std::move(r).value());
    }
    ev("urecvd").s("r", r ? "ok" : name(r.error()));
  } else if (op == "poll") {
    int n = std::stoi(a[1]);
    for (int k = 0; k < n && do_poll(); k++) {
    }
  } else if (op == "retx") {
    for (auto &s : conn->streams) {
      ev("uretx").s("id", std::to_string(s.first)).d("d", contents(s.second));
    }
    for (auto &s : conn->crypto) {
      ev("ukretx").s("level", level_name(static_cast<ngtcp2_crypto_level>(s.first)))
        .d("d", contents(s.second));
    }
  } else if (op == "cb") {
    { ev("ucb"); }
    int r = 0;
    for (size_t k = 1; k < a.size() && r == 0; k++) {
      r = callback(conn, a[k]);
    }
    ev("ucbr").n("r", r);
  } else if (op == "prot") { // prot OP IN KEY NONCE AD
    bytes d = unhex(a[2]);
    bytes key = unhex(a[3]);
    bytes nonce = unhex(a[4]);
    bytes ad = unhex(a[5]);
    bool enc = a[1] == "encrypt" || a[1] == "in_encrypt";
    bytes dest(enc ? d.size() + 16 : d.size() < 16 ? 0 : d.size() - 16, 0);
    { ev("uprot").b("broken", plan.fail.size() > 0).s("op", a[1]).d("in", d).d("key", key).d("nonce", nonce).d("ad", ad); }
    ngtcp2_protect f = a[1] == "encrypt" ? conn->cb.encrypt
                     : a[1] == "decrypt" ? conn->cb.decrypt
                     : a[1] == "in_encrypt" ? conn->cb.in_encrypt : conn->cb.in_decrypt;
    ssize_t r = f(conn, dest.data(), dest.size(), d.data(), d.size(), key.data(), key.size(),
                  nonce.data(), nonce.size(), ad.data(), ad.size(), conn->user);
    ev("uprotr").n("r", r).d("out", dest);
  } else if (op == "mask") { // mask OP KEY SAMPLE
    bytes key = unhex(a[2]);
    bytes sample = unhex(a[3]);
    bytes dest(NGTCP2_HP_SAMPLELEN, 0);
    { ev("umask").b("broken", plan.fail.size() > 0).s("op", a[1]).d("key", key).d("sample", sample); }
    ngtcp2_hp_mask f = a[1] == "mask" ? conn->cb.hp_mask : conn->cb.in_hp_mask;
    ssize_t r = f(conn, dest.data(), dest.size(), key.data(), key.size(), sample.data(),
                  sample.size(), conn->user);
    dest.resize(NGTCP2_HP_MASKLEN);
    ev("umaskr").n("r", r).d("out", dest);
  } else if (op == "pref") { // pref V4 V6
    ngtcp2_preferred_addr p{};
    bytes v4 = unhex(a[1]);
    bytes v6 = unhex(a[2]);
    std::memcpy(p.ipv4_addr, v4.data(), 4);
    std::memcpy(p.ipv6_addr, v6.data(), 16);
    bytes dest(16, 0xaa);
    ngtcp2_addr da{ dest.size(), dest.data(), nullptr };
    int r = conn->cb.select_preferred_addr(conn, &da, &p, conn->user);
    ev("upref").d("v4", v4).d("v6", v6).n("r", r).d("out", dest);
  } else if (op == "cid") { // cid N
    ngtcp2_cid c{};
    c.datalen = 77;
    uint8_t token[NGTCP2_STATELESS_RESET_TOKENLEN] = {};
    size_t n = std::stoul(a[1]);
    int r = conn->cb.get_new_connection_id(conn, &c, token, n, conn->user);
    r |= conn->cb.remove_connection_id(conn, &c, conn->user);
    bytes some(n, 0);
    r |= conn->cb.rand(conn, some.data(), n, NGTCP2_RAND_CTX_NONE, conn->user);
    ev("ucid").n("n", static_cast<long long>(n)).n("len", static_cast<long long>(c.datalen)).n("r", r);
  } else if (op == "timers") { // timers IDLE EXPIRY
    conn->idle_timeout = std::stoull(a[1]);
    conn->expiry = std::stoull(a[2]);
    ev("utimers").w("idle", conn->idle_timeout).w("expiry", conn->expiry)
      .w("timeout", client->timeout().count()).w("expires", client->expiry().count());
  } else if (op == "expire") { // expire LOSS ACK
    conn->loss = std::stoull(a[1]);
    conn->ack = std::stoull(a[2]);
    { ev("uexpire").w("loss", conn->loss).w("ack", conn->ack); }
    quic::result<void> r = client->expire();
    ev("uexpired").s("r", r ? "ok" : name(r.error()));
  } else if (op == "log") { // log KIND TEXT NUMBER
    bytes b = unhex(a[2]);
    std::string t(b.begin(), b.end());
    int n = std::stoi(a[3]);
    std::string num = std::to_string(n);
    if (conn->log == nullptr) {
      texts.push_back({ "ngtcp2", t });
    } else if (a[1] == "s") {
      texts.push_back({ "ngtcp2", t });
      conn->log(conn->user, "%s", t.c_str());
    } else if (a[1] == "ds") {
      texts.push_back({ "ngtcp2", num + "|" + t });
      conn->log(conn->user, "%d|%s", n, t.c_str());
    } else {
      texts.push_back({ "ngtcp2", "100% " + t + " " + num + " {}" });
      conn->log(conn->user, "100%% %s %d {}", t.c_str(), n);
    }
  } else if (op == "mark") {
    mark = live_arrays;
    ev("umark");
  } else if (op == "stat") {
    ev("ustat").n("arrays", live_arrays - mark);
  } else {
    return false;
  }
  return true;
}

// What was to be logged since the last operation, and what was.
static void
logged()
{
  if (!logger && texts.empty()) {
    return;
  }
  ev e("ulogged");
  e.b("on", logger != nullptr);
  out += ",\"texts\":[";
  for (size_t i = 0; i < texts.size(); i++) {
    out += std::string(i == 0 ? "" : ",") + "{\"from\":\"" + texts[i].from + "\"";
    const std::string &t = texts[i].what;
    e.d("d", reinterpret_cast<const uint8_t *>(t.data()), t.size());
    out += "}";
  }
  out += "],\"got\":[";
  for (size_t i = 0; logger && i < logger->all.size(); i++) {
    const kept &k = logger->all[i];
    out += std::string(i == 0 ? "" : ",") + "{\"lvl\":\"" + k.level + "\"";
    e.d("d", reinterpret_cast<const uint8_t *>(k.text.data()), k.text.size())
      .b("place", !k.file.empty() && !k.function.empty() && k.line > 0);
    out += "}";
  }
  out += "]";
  texts.clear();
  if (logger) {
    logger->all.clear();
  }
}

int
main()
{
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) {
      continue;
    }
    if (line[0] == 'T' && line[1] == ' ') {
      finish();
      base::logger = nullptr;
      logger.reset();
      texts.clear();
      tls_errors.clear();
      plan = script();
      received.clear();
      reading.clear();
      out += line + "\n";
      flush_out();
      watch(25);
      continue;
    }
    if (line == "E") {
      watch(0);
      finish();
      out += "E\n";
      flush_out();
      continue;
    }
    if (!run(line)) {
      std::fprintf(stderr, "bad op: %s\n", line.c_str());
      return 98;
    }
    logged();
  }
  return 0;
}
