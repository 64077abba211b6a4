// Conformance driver for bnl's HTTP/3 client program: the whole program runs,
// between stand-ins of the transport library, the TLS library, the name service,
// the socket and the event loop, which follow the script and record what they
// are asked for. The driver judges nothing.
#include "quic/standins.hpp"
#include "watch.hpp"

#include <bnl/base/log.hpp>

#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <netdb.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <systemd/sd-event.h>
#include <vector>

int bnl_client_main(int argc, char *argv[]);

// ----------------------------------------------------------------- the world

struct datagram {
  bytes d;
  std::vector<std::string> items;
  int error = 0;
};

struct timer_s;

struct world {
  std::vector<bytes> dns;
  std::string dns_fail;
  bytes local{ 10, 0, 0, 1 };
  std::deque<std::string> sends;      // ok, again, refused, unreachable
  std::deque<datagram> in;            // datagrams that have arrived
  std::deque<datagram> racing;        // arrive just after the program has looked
  size_t fresh = 0;                   // of `in', those that arrived in this turn
  int so_error = 0;
  std::deque<int> fatal;              // errno values of calls that fail
  bool full = false;                  // standard output takes nothing
  uint64_t late = 0;                  // of the event loop
  int family = 0;
  bytes peer;
  long fds = 0, sources = 0, events = 0;
};
static world w;
static bool running = false;          // inside the event loop
static const int FD0 = 100000;
static std::map<int, bool> fds;
static int next_fd = FD0;
static std::deque<std::string> *ops = nullptr;

static void
fill(sockaddr_storage *s, socklen_t *size, int family, const bytes &a, int port)
{
  std::memset(s, 0, std::min<size_t>(*size, sizeof(*s)));
  if (family == AF_INET) {
    sockaddr_in v{};
    v.sin_family = AF_INET;
    v.sin_port = htons(static_cast<uint16_t>(port));
    std::memcpy(&v.sin_addr, a.data(), std::min<size_t>(4, a.size()));
    std::memcpy(s, &v, std::min<size_t>(*size, sizeof(v)));
    *size = sizeof(v);
  } else {
    sockaddr_in6 v{};
    v.sin6_family = AF_INET6;
    v.sin6_port = htons(static_cast<uint16_t>(port));
    std::memcpy(&v.sin6_addr, a.data(), std::min<size_t>(16, a.size()));
    std::memcpy(s, &v, std::min<size_t>(*size, sizeof(v)));
    *size = sizeof(v);
  }
}

static int
failing(int e)
{
  errno = e;
  return -1;
}

extern "C" {

int
getaddrinfo(const char *node, const char *service, const addrinfo *hints, addrinfo **res)
{
  ev e("xdns");
  e.d("name", reinterpret_cast<const uint8_t *>(node), node == nullptr ? 0 : strlen(node))
    .b("fail", !w.dns_fail.empty());
  (void) service;
  (void) hints;
  if (!w.dns_fail.empty()) {
    if (w.dns_fail == "system") {
      errno = EMFILE;
      return EAI_SYSTEM;
    }
    return w.dns_fail == "again" ? EAI_AGAIN : EAI_NONAME;
  }
  addrinfo *first = nullptr;
  addrinfo **at = &first;
  out += ",\"out\":[";
  for (size_t i = 0; i < w.dns.size(); i++) {
    const bytes &a = w.dns[i];
    out += std::string(i == 0 ? "" : ",") + "[";
    for (size_t k = 0; k < a.size(); k++) {
      out += (k == 0 ? "" : ",") + std::to_string(a[k]);
    }
    out += "]";
    // once for each type of socket
    for (int type : { SOCK_STREAM, SOCK_DGRAM, SOCK_RAW }) {
      auto *s = static_cast<sockaddr_storage *>(std::calloc(1, sizeof(sockaddr_storage)));
      socklen_t size = sizeof(*s);
      fill(s, &size, a.size() == 4 ? AF_INET : AF_INET6, a, 0);
      auto *x = static_cast<addrinfo *>(std::calloc(1, sizeof(addrinfo)));
      x->ai_family = s->ss_family;
      x->ai_socktype = type;
      x->ai_addr = reinterpret_cast<sockaddr *>(s);
      x->ai_addrlen = size;
      *at = x;
      at = &x->ai_next;
      w.events++;
    }
  }
  out += "]";
  *res = first;
  return 0;
}

void
freeaddrinfo(addrinfo *x)
{
  while (x != nullptr) {
    addrinfo *n = x->ai_next;
    std::free(x->ai_addr);
    std::free(x);
    w.events--;
    x = n;
  }
}

int
socket(int family, int type, int protocol)
{
  bool bad = fails("socket");
  ev e("xsocket");
  e.s("family", family == AF_INET ? "v4" : family == AF_INET6 ? "v6" : "?")
    .b("udp", (type & 0xf) == SOCK_DGRAM && (protocol == IPPROTO_UDP || protocol == 0))
    .b("nonblock", (type & SOCK_NONBLOCK) != 0)
    .b("r", !bad);
  if (bad) {
    return failing(EAFNOSUPPORT);
  }
  w.family = family;
  w.fds++;
  fds[next_fd] = true;
  return next_fd++;
}

static bool
known(int fd)
{
  auto it = fds.find(fd);
  return it != fds.end() && it->second;
}

int
connect(int fd, const sockaddr *a, socklen_t size)
{
  if (!known(fd)) {
    return static_cast<int>(syscall(SYS_connect, fd, a, size));
  }
  bytes addr;
  int port = 0;
  if (a->sa_family == AF_INET && size >= sizeof(sockaddr_in)) {
    const auto *v = reinterpret_cast<const sockaddr_in *>(a);
    const auto *p = reinterpret_cast<const uint8_t *>(&v->sin_addr);
    addr.assign(p, p + 4);
    port = ntohs(v->sin_port);
  } else if (a->sa_family == AF_INET6 && size >= sizeof(sockaddr_in6)) {
    const auto *v = reinterpret_cast<const sockaddr_in6 *>(a);
    const auto *p = reinterpret_cast<const uint8_t *>(&v->sin6_addr);
    addr.assign(p, p + 16);
    port = ntohs(v->sin6_port);
  }
  bool bad = fails("connect");
  bytes local = w.local;
  local.resize(addr.size());
  ev("xconnect").d("addr", addr).n("port", port).d("local", local).b("r", !bad);
  if (bad) {
    return failing(ENETUNREACH);
  }
  w.peer = addr;
  w.so_error = 0;
  return 0;
}

int
bind(int fd, const sockaddr *a, socklen_t size)
{
  return known(fd) ? 0 : static_cast<int>(syscall(SYS_bind, fd, a, size));
}

int
setsockopt(int fd, int level, int name, const void *v, socklen_t size)
{
  if (!known(fd)) {
    return static_cast<int>(syscall(SYS_setsockopt, fd, level, name, v, size));
  }
  if (fails("setsockopt")) {
    ev("xopt").b("r", false);
    return failing(ENOPROTOOPT);
  }
  return 0;
}

int
getsockopt(int fd, int level, int name, void *v, socklen_t *size)
{
  if (!known(fd)) {
    return static_cast<int>(syscall(SYS_getsockopt, fd, level, name, v, size));
  }
  int x = 0;
  if (level == SOL_SOCKET && name == SO_ERROR) {
    x = w.so_error;
    w.so_error = 0;
    ev("xsoerr").n("e", x);
  }
  std::memcpy(v, &x, std::min<size_t>(*size, sizeof(x)));
  return 0;
}

int
getsockname(int fd, sockaddr *a, socklen_t *size)
{
  if (!known(fd)) {
    return static_cast<int>(syscall(SYS_getsockname, fd, a, size));
  }
  bytes local = w.local;
  local.resize(w.family == AF_INET ? 4 : 16);
  fill(reinterpret_cast<sockaddr_storage *>(a), size, w.family, local, 50123);
  return 0;
}

int
getpeername(int fd, sockaddr *a, socklen_t *size)
{
  if (!known(fd)) {
    return static_cast<int>(syscall(SYS_getpeername, fd, a, size));
  }
  fill(reinterpret_cast<sockaddr_storage *>(a), size, w.family, w.peer, 4433);
  return 0;
}

static ssize_t
do_send(const void *p, size_t n)
{
  std::string a = take(w.sends, "ok");
  ev("xsend").d("d", static_cast<const uint8_t *>(p), n).s("a", a);
  if (a == "ok") {
    return static_cast<ssize_t>(n);
  }
  return failing(a == "again" ? EAGAIN : a == "refused" ? ECONNREFUSED : ENETUNREACH);
}

ssize_t
send(int fd, const void *p, size_t n, int flags)
{
  return known(fd) ? do_send(p, n) : syscall(SYS_sendto, fd, p, n, flags, nullptr, 0);
}
ssize_t
sendto(int fd, const void *p, size_t n, int flags, const sockaddr *a, socklen_t size)
{
  return known(fd) ? do_send(p, n) : syscall(SYS_sendto, fd, p, n, flags, a, size);
}

static void
arrive()
{
  while (!w.racing.empty()) {
    w.in.push_back(w.racing.front());
    w.racing.pop_front();
    w.fresh++;
  }
}

static ssize_t
do_recv(void *p, size_t n, int flags)
{
  bool peek = (flags & MSG_PEEK) != 0;
  if (w.in.empty()) {
    if (peek) {
      arrive();
    } else {
      ev("xrecv").s("a", "again");
    }
    return failing(EAGAIN);
  }
  datagram x = w.in.front();
  if (!peek) {
    w.in.pop_front();
    w.fresh = std::min(w.fresh, w.in.size());
  }
  if (x.error != 0) {
    if (peek) {
      w.in.pop_front();   // reported once
      w.fresh = std::min(w.fresh, w.in.size());
    }
    ev("xrecv").s("a", "error");
    return failing(x.error);
  }
  size_t k = std::min(n, x.d.size());
  if (k > 0) {
    std::memcpy(p, x.d.data(), k);
  }
  if (!peek) {
    ev("xrecv").s("a", "ok").d("d", x.d);
    readings.push_back(x.items);
  }
  return static_cast<ssize_t>((flags & MSG_TRUNC) != 0 ? x.d.size() : k);
}

ssize_t
recv(int fd, void *p, size_t n, int flags)
{
  return known(fd) ? do_recv(p, n, flags) : syscall(SYS_recvfrom, fd, p, n, flags, nullptr, nullptr);
}
ssize_t
recvfrom(int fd, void *p, size_t n, int flags, sockaddr *a, socklen_t *size)
{
  return known(fd) ? do_recv(p, n, flags) : syscall(SYS_recvfrom, fd, p, n, flags, a, size);
}

int
ioctl(int fd, unsigned long request, ...)
{
  va_list args;
  va_start(args, request);
  void *p = va_arg(args, void *);
  va_end(args);
  if (!known(fd)) {
    return static_cast<int>(syscall(SYS_ioctl, fd, request, p));
  }
  if (request == FIONREAD) {
    if (w.in.empty()) {
      *static_cast<int *>(p) = 0;
      arrive();
    } else {
      *static_cast<int *>(p) = static_cast<int>(w.in.front().d.size());
    }
    return 0;
  }
  return failing(EINVAL);
}

int
close(int fd)
{
  if (fds.count(fd) == 0) {
    return static_cast<int>(syscall(SYS_close, fd));
  }
  ev("xclose").b("open", fds[fd]);
  if (fds[fd]) {
    w.fds--;
  }
  fds[fd] = false;
  return 0;
}

int
sigprocmask(int how, const sigset_t *set, sigset_t *old)
{
  (void) how;
  (void) set;
  if (old != nullptr) {
    sigemptyset(old);
  }
  return 0;
}

} // extern "C"

// ------------------------------------------------------------- the event loop

struct sd_event_source {
  sd_event *event = nullptr;
  int refs = 1;
  char kind = 0;       // i t s
  void *user = nullptr;
  int enabled = SD_EVENT_ON;
  // io
  int fd = -1;
  uint32_t events = 0;
  sd_event_io_handler_t on_io = nullptr;
  // time
  uint64_t time = 0;
  sd_event_time_handler_t on_time = nullptr;
  // signal
  int sig = 0;
  sd_event_signal_handler_t on_signal = nullptr;
  long id = 0;
};

struct sd_event {
  int refs = 1;
  bool exiting = false;
  int code = 0;
  std::vector<sd_event_source *> all;
};

static sd_event *loop = nullptr;
static long source_id = 0;

static sd_event_source *
add(sd_event *e, char kind, sd_event_source **s, void *user)
{
  auto *x = new sd_event_source;
  x->event = e;
  x->kind = kind;
  x->user = user;
  x->id = ++source_id;
  e->all.push_back(x);
  w.sources++;
  if (s != nullptr) {
    *s = x;
  }
  return x;
}

static void
drop(sd_event_source *s)
{
  auto &a = s->event->all;
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i] == s) {
      a.erase(a.begin() + static_cast<long>(i));
      break;
    }
  }
  w.sources--;
  delete s;
}

extern "C" {

int
sd_event_default(sd_event **e)
{
  if (fails("sdevent")) {
    return -ENOMEM;
  }
  if (loop != nullptr) {
    loop->refs++;
  } else {
    loop = new sd_event;
    w.events++;
  }
  *e = loop;
  return 1;
}
int
sd_event_new(sd_event **e)
{
  return sd_event_default(e) < 0 ? -ENOMEM : 0;
}
sd_event *
sd_event_ref(sd_event *e)
{
  if (e != nullptr) {
    e->refs++;
  }
  return e;
}
sd_event *
sd_event_unref(sd_event *e)
{
  if (e != nullptr && --e->refs == 0) {
    // sources without a reference of their own go with it
    while (!e->all.empty()) {
      sd_event_source *s = e->all.back();
      if (s->kind != 's') {
        ev("xleft");
      }
      drop(s);
    }
    if (e == loop) {
      loop = nullptr;
    }
    w.events--;
    delete e;
  }
  return nullptr;
}

int
sd_event_add_io(sd_event *e, sd_event_source **s, int fd, uint32_t events,
                sd_event_io_handler_t f, void *user)
{
  if (fails("sdio")) {
    ev("xsdfail");
    return -ENOSPC;
  }
  sd_event_source *x = add(e, 'i', s, user);
  x->fd = fd;
  x->events = events;
  x->on_io = f;
  ev("xaddio").b("fd", known(fd)).b("in", (events & EPOLLIN) != 0).b("out", (events & EPOLLOUT) != 0);
  return 0;
}
int
sd_event_add_time(sd_event *e, sd_event_source **s, clockid_t c, uint64_t usec, uint64_t accuracy,
                  sd_event_time_handler_t f, void *user)
{
  if (fails("sdtime")) {
    ev("xsdfail");
    return -ENOMEM;
  }
  (void) accuracy;
  sd_event_source *x = add(e, 't', s, user);
  x->time = usec;
  x->enabled = SD_EVENT_ONESHOT;
  x->on_time = f;
  ev("xaddtime").b("monotonic", c == CLOCK_MONOTONIC);
  return 0;
}
int
sd_event_add_signal(sd_event *e, sd_event_source **s, int sig, sd_event_signal_handler_t f,
                    void *user)
{
  if (fails("sdsignal")) {
    ev("xsdfail");
    return -EBUSY;
  }
  sd_event_source *x = add(e, 's', s, user);
  x->sig = sig;
  x->on_signal = f;
  return 0;
}
sd_event_source *
sd_event_source_ref(sd_event_source *s)
{
  if (s != nullptr) {
    s->refs++;
  }
  return s;
}
sd_event_source *
sd_event_source_unref(sd_event_source *s)
{
  if (s != nullptr && --s->refs == 0) {
    drop(s);
  }
  return nullptr;
}
sd_event_source *
sd_event_source_disable_unref(sd_event_source *s)
{
  return sd_event_source_unref(s);
}
void *
sd_event_source_set_userdata(sd_event_source *s, void *user)
{
  if (s == nullptr) {
    return nullptr;
  }
  void *old = s->user;
  s->user = user;
  return old;
}
void *sd_event_source_get_userdata(sd_event_source *s) { return s == nullptr ? nullptr : s->user; }
sd_event *sd_event_source_get_event(sd_event_source *s) { return s->event; }
int
sd_event_source_set_time(sd_event_source *s, uint64_t t)
{
  s->time = t;
  return 0;
}
int
sd_event_source_get_time(sd_event_source *s, uint64_t *t)
{
  *t = s->time;
  return 0;
}
int
sd_event_source_set_time_relative(sd_event_source *s, uint64_t t)
{
  uint64_t now = plan.clock;
  s->time = t > UINT64_MAX - now ? UINT64_MAX : now + t;
  return 0;
}
int
sd_event_source_set_enabled(sd_event_source *s, int v)
{
  if (s != nullptr) {
    s->enabled = v;
  }
  return 0;
}
int
sd_event_source_get_enabled(sd_event_source *s, int *v)
{
  *v = s->enabled;
  return s->enabled != SD_EVENT_OFF;
}
int
sd_event_source_set_priority(sd_event_source *, int64_t)
{
  return 0;
}
int
sd_event_source_set_io_events(sd_event_source *s, uint32_t events)
{
  s->events = events;
  return 0;
}
int
sd_event_now(sd_event *, clockid_t, uint64_t *t)
{
  *t = plan.clock;
  return 0;
}
int
sd_event_exit(sd_event *e, int code)
{
  ev("xexit").n("code", code);
  e->exiting = true;
  e->code = code;
  return 0;
}
int
sd_event_get_exit_code(sd_event *e, int *code)
{
  if (!e->exiting) {
    return -ENODATA;
  }
  *code = e->code;
  return 0;
}

} // extern "C"

static ev &
timers(ev &e, sd_event *l)
{
  out += ",\"timers\":[";
  bool first = true;
  for (sd_event_source *s : l->all) {
    if (s->kind == 't' && s->enabled != SD_EVENT_OFF) {
      out += first ? "[" : ",[";
      first = false;
      for (int i = 7; i >= 0; i--) {
        out += std::to_string((s->time >> (8 * i)) & 0xff) + (i == 0 ? "]" : ",");
      }
    }
  }
  out += "]";
  return e;
}

static ev &
transport(ev &e)
{
  return e.w("expiry", conn == nullptr ? UINT64_MAX : conn->expiry)
    .w("idle", conn == nullptr ? 0 : conn->idle_timeout);
}

// After a handler: a failure switches its source off, as it does in sd-event.
static void
done(sd_event *l, sd_event_source *s, int r, long id)
{
  bool there = false;
  for (sd_event_source *x : l->all) {
    there = there || (x == s && x->id == id);
  }
  if (there && r < 0) {
    s->enabled = SD_EVENT_OFF;
  }
  ev e("xdone");
  e.b("r", r >= 0).b("exit", l->exiting).n("waiting", static_cast<long long>(w.in.size() - w.fresh));
  timers(e, l);
  transport(e);
}

static sd_event_source *
find(sd_event *l, char kind, int sig = 0)
{
  for (sd_event_source *s : l->all) {
    if (s->kind == kind && (kind != 's' || s->sig == sig)) {
      return s;
    }
  }
  return nullptr;
}

static void
begin_io()
{
  w.fresh = 0;
  if (conn != nullptr) {
    conn->blocked[0] = conn->blocked[1] = false;
  }
}

static void
dispatch_io(sd_event *l, uint32_t flags)
{
  for (int k = 0; k < 4; k++) {
    sd_event_source *s = find(l, 'i');
    if (s == nullptr) {
      return;
    }
    uint32_t f = flags & (s->events | EPOLLERR | EPOLLHUP);
    if (f == 0 || s->enabled == SD_EVENT_OFF) {
      ev("xignored").b("off", s->enabled == SD_EVENT_OFF);
      return;
    }
    begin_io();
    {
      ev e("xio");
      e.w("now", plan.clock).b("in", (f & EPOLLIN) != 0).b("out", (f & EPOLLOUT) != 0)
        .b("err", (f & EPOLLERR) != 0).b("hup", (f & EPOLLHUP) != 0);
    }
    long id = s->id;
    size_t before = w.racing.size();
    int r = s->on_io(s, s->fd, f, s->user);
    done(l, s, r, id);
    // what arrived meanwhile is a new edge
    if (l->exiting || before == w.racing.size() || w.in.empty()) {
      return;
    }
    flags = EPOLLIN;
  }
}

static bool
fire(sd_event *l, uint64_t until)
{
  sd_event_source *s = nullptr;
  for (sd_event_source *x : l->all) {
    if (x->kind == 't' && x->enabled != SD_EVENT_OFF && x->time <= until &&
        x->time != UINT64_MAX && (s == nullptr || x->time < s->time)) {
      s = x;
    }
  }
  if (s == nullptr) {
    return false;
  }
  uint64_t wake = s->time > UINT64_MAX - w.late ? s->time : s->time + w.late;
  if (wake > until) {
    wake = s->time;
  }
  if (plan.clock < wake) {
    plan.clock = wake;
  }
  if (s->enabled == SD_EVENT_ONESHOT) {
    s->enabled = SD_EVENT_OFF;
  }
  begin_io();
  {
    ev e("xtimer");
    e.w("now", plan.clock).w("time", s->time);
    transport(e);
    e.w("loss", conn == nullptr ? UINT64_MAX : conn->loss).w("ack", conn == nullptr ? UINT64_MAX : conn->ack);
  }
  long id = s->id;
  int r = s->on_time(s, s->time, s->user);
  done(l, s, r, id);
  return true;
}

static bool configure(const std::vector<std::string> &a);

static std::vector<std::string>
words(const std::string &line)
{
  std::istringstream in(line);
  std::vector<std::string> a;
  std::string x;
  while (in >> x) {
    a.push_back(x);
  }
  return a;
}

static void
step(sd_event *l, const std::vector<std::string> &a)
{
  const std::string &op = a[0];
  if (op == "clock") {                      // clock T: time passes
    uint64_t t = std::stoull(a[1]);
    for (int k = 0; k < 60 && !l->exiting && fire(l, t); k++) {
    }
    if (!l->exiting && plan.clock < t) {
      plan.clock = t;
    }
  } else if (op == "io") {                  // io in,out,err,hup,rdhup
    uint32_t f = 0;
    for (const std::string &x : split(a[1], ',')) {
      f |= x == "in" ? EPOLLIN : x == "out" ? EPOLLOUT : x == "err" ? EPOLLERR
         : x == "hup" ? EPOLLHUP : EPOLLRDHUP;
    }
    dispatch_io(l, f);
  } else if (op == "signal") {
    sd_event_source *s = find(l, 's', std::stoi(a[1]));
    ev("xsignal").b("watched", s != nullptr);
    if (s != nullptr) {
      if (s->on_signal != nullptr) {
        signalfd_siginfo si{};
        si.ssi_signo = static_cast<uint32_t>(s->sig);
        long id = s->id;
        int r = s->on_signal(s, &si, s->user);
        done(l, s, r, id);
      } else {
        sd_event_exit(l, static_cast<int>(reinterpret_cast<intptr_t>(s->user)));
      }
    }
  }
}

extern "C" int
sd_event_loop(sd_event *l)
{
  running = true;
  {
    ev e("xloop");
    e.w("now", plan.clock);
    timers(e, l);
    transport(e);
  }
  while (!l->exiting && !ops->empty()) {
    std::string line = ops->front();
    ops->pop_front();
    std::vector<std::string> a = words(line);
    if (!configure(a)) {
      step(l, a);
    }
  }
  // nothing happens any more: only time passes
  for (int k = 0; k < 100 && !l->exiting; k++) {
    if (!fire(l, UINT64_MAX)) {
      ev("xstuck");
      break;
    }
  }
  running = false;
  if (!l->exiting) {
    ev("xendless");
    l->exiting = true;
    l->code = 77;
  }
  return l->code;
}

// ---------------------------------------------------------------- the program

static bool
configure(const std::vector<std::string> &a)
{
  const std::string &op = a[0];
  if (op == "plan") {
    if (a[1] == "fail") {
      plan.fail[a[2]] = std::stoi(a[3]);
      return true;
    }
    if (a[1] == "exps" || a[1] == "arm") {
      for (const std::string &x : split(a[2], ',')) {
        (a[1] == "arm" ? plan.arm : plan.exps).push_back(std::stoull(x));
      }
      return true;
    }
    std::deque<std::string> &q = a[1] == "write" ? plan.write
                               : a[1] == "open" ? plan.open
                               : a[1] == "pkt" ? plan.pkt
                               : a[1] == "out" ? w.sends
                               : a[1] == "errs" ? plan.errs : plan.tls;
    for (const std::string &x : split(a[2], ',')) {
      q.push_back(x);
    }
  } else if (op == "dns") {                 // dns A,B,..
    for (const std::string &x : split(a[1], ',')) {
      w.dns.push_back(unhex(x));
    }
  } else if (op == "nodns") {
    w.dns_fail = a[1];
  } else if (op == "local") {
    w.local = unhex(a[1]);
  } else if (op == "now") {
    plan.clock = std::stoull(a[1]);
  } else if (op == "late") {
    w.late = std::stoull(a[1]);
  } else if (op == "timers") {              // timers IDLE EXPIRY
    plan.idle = std::stoull(a[1]);
    plan.expiry = std::stoull(a[2]);
    plan.real = true;
    if (conn != nullptr) {
      conn->idle_timeout = plan.idle;
      conn->loss = plan.expiry;
      conn->expiry = std::min(conn->loss, conn->ack);
    }
  } else if (op == "due") {                 // due LOSS ACK
    if (conn != nullptr) {
      conn->loss = std::stoull(a[1]);
      conn->ack = std::stoull(a[2]);
      conn->expiry = std::min(conn->loss, conn->ack);
    }
  } else if (op == "dgram" || op == "race") {
    datagram x;
    x.d = unhex(a[1]);
    x.items.assign(a.begin() + 2, a.end());
    (op == "race" ? w.racing : w.in).push_back(x);
  } else if (op == "rerr") {
    datagram x;
    x.error = ECONNREFUSED;
    w.in.push_back(x);
  } else if (op == "soerr") {
    w.so_error = ECONNREFUSED;
  } else if (op == "full") {
    w.full = true;
  } else {
    return false;
  }
  return true;
}

static void
program(const std::vector<std::string> &a)
{
  std::vector<std::string> args{ "bnl-http3-client" };
  {
    ev e("xmain");
    out += ",\"args\":[";
    for (size_t k = 1; k < a.size(); k++) {
      bytes b = unhex(a[k]);
      args.emplace_back(b.begin(), b.end());
      out += k == 1 ? "[" : ",[";
      for (size_t i = 0; i < b.size(); i++) {
        out += (i == 0 ? "" : ",") + std::to_string(b[i]);
      }
      out += "]";
    }
    out += "]";
    e.w("now", plan.clock).b("full", w.full);
  }
  std::vector<char *> argv;
  for (std::string &x : args) {
    argv.push_back(&x[0]);
  }
  argv.push_back(nullptr);
  int fd = w.full ? ::open("/dev/full", O_WRONLY) : memfd_create("out", 0);
  static int null = ::open("/dev/null", O_WRONLY);
  int err = dup(2);
  dup2(fd, 1);
  dup2(null, 2);
  int code = bnl_client_main(static_cast<int>(args.size()), argv.data());
  bnl::base::logger = nullptr;
  std::cout.flush();
  std::fflush(stdout);
  std::cout.clear();
  clearerr(stdout);
  dup2(err, 2);
  syscall(SYS_close, err);
  bytes all;
  if (!w.full) {
    struct stat st {};
    fstat(fd, &st);
    all.resize(static_cast<size_t>(st.st_size));
    if (pread(fd, all.data(), all.size(), 0) < 0) {
      all.clear();
    }
  }
  dup2(null, 1);
  syscall(SYS_close, fd);
  if (all.size() > 4000) {
    all.erase(all.begin(), all.end() - 4000);
  }
  ev("xend").n("code", code).d("out", all).n("fds", w.fds).n("sources", w.sources)
    .n("events", w.events).b("conn", conn != nullptr).b("full", w.full);
}

int
main()
{
  out_fd = dup(1);
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) {
      continue;
    }
    if (line[0] == 'T' && line[1] == ' ') {
      out += line + "\n";
      flush_out();
      plan = script();
      w = world();
      received.clear();
      reading.clear();
      readings.clear();
      tls_errors.clear();
      texts.clear();
      fds.clear();
      std::deque<std::string> rest;
      while (std::getline(std::cin, line) && line != "E") {
        if (!line.empty()) {
          rest.push_back(line);
        }
      }
      ops = &rest;
      watch(25);
      while (!rest.empty()) {
        std::vector<std::string> a = words(rest.front());
        rest.pop_front();
        if (a[0] == "main") {
          program(a);
          break;
        }
        if (!configure(a)) {
          std::fprintf(stderr, "bad op: %s\n", a[0].c_str());
          return 98;
        }
      }
      watch(0);
      if (conn != nullptr) {
        ngtcp2_conn_del(conn);
      }
      out += "E\n";
      flush_out();
    }
  }
  return 0;
}
