// Robustness of a server and conservation of resources: C10, C17.
#include "net.h"

#include <algorithm>
#include <sys/resource.h>

#include "libiqxmlrpc/firewall.h"

extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

using namespace net;
using namespace iqxmlrpc;

typedef Client<Http_client_connection> Http_client;
typedef Client<Https_client_connection> Https_client;

static std::string filler(Rng& r, size_t n)
{
  std::string s(n, ' ');
  for (size_t i = 0; i < n; ++i) s[i] = "abcdefghijklmnop0123456789ABCDEF"[r.next() & 31];
  return s;
}

static std::string bytes(Rng& r, size_t n)
{
  std::string s;
  while (s.size() < n) s += (char)r.below(256);
  return s;
}

// ---------------------------------------------------------------- C10
static void methods(Fixture& f)
{
  f.method("echo", [](Method*, const Param_list& p, Value& v) { v = p.at(0); });
  f.method("big", [](Method*, const Param_list& p, Value& v) { v = Value(std::string(p.at(0).get_int(), 'B')); });
  f.method("slow", [](Method*, const Param_list& p, Value& v) { usleep(p.at(0).get_int()); v = Value("slow"); });
  f.method("throw", [](Method*, const Param_list&, Value&) { throw std::runtime_error("text of the exception"); });
  f.method("odd", [](Method*, const Param_list&, Value&) { throw 7; });
}

enum Evil { E_RANDOM, E_PREFIX, E_IDLE, E_DRIP, E_BEFORE_ANSWER, E_IN_ANSWER, E_NO_READ, E_HALF, E_PIPELINE, E_LENGTH, E_CONTINUE, E_BAD_XML, E_DEEP, E_HEADERS, E_METHODS, E_KEPT_RESET,
  E_FLOOD_CONN, E_NUL, NEVIL };
static const char* evil_name[] = {"random bytes", "prefix of a request", "idle", "drip", "gone before the answer", "gone in the answer", "does not read", "half close", "several requests at once",
  "wrong length", "continue and gone", "bad XML", "deep XML", "odd headers", "odd methods", "reset of a kept connection", "many connections", "zero bytes"};

static void leave(Rng& r, Peer& p)
{
  switch (r.below(4)) {
  case 0: p.abort(); break;
  case 1: p.close(); break;
  case 2: p.half_close(); break;
  default: break;               // stays
  }
}

static void misbehave(Rng& r, int evil, int port, std::vector<std::unique_ptr<Peer> >& open)
{
  open.emplace_back(new Peer);
  Peer& p = *open.back();
  if (!p.open(port, r.chance(1, 4) ? 4096 : 0)) return;
  if (over_tls() && r.chance(1, 4)) p.plain();
  std::string call = post(call_xml("echo", {str(filler(r, r.below(2000)))}), "", r.chance(1, 2));
  std::string big = post(call_xml("big", {fmt("<int>%d</int>", (int)r.range(100, 2500000))}), "", r.chance(1, 2));
  switch (evil) {
  case E_RANDOM: p.send(bytes(r, r.range(1, 3000))); leave(r, p); break;
  case E_PREFIX: p.send(call.substr(0, r.below(call.size()))); leave(r, p); break;
  case E_IDLE: if (r.chance(1, 2)) leave(r, p); break;
  case E_DRIP: for (size_t k = 0; k < 30 && k < call.size(); ++k) { p.send(call.substr(k, 1)); usleep(50); } leave(r, p); break;
  case E_BEFORE_ANSWER: p.send(r.chance(1, 2) ? post(call_xml("slow", {fmt("<int>%d</int>", (int)r.range(0, 4000))})) : big); if (r.chance(1, 2)) p.abort(); else p.close(); break;
  case E_IN_ANSWER: p.send(big); p.pull(3000, 1 + r.below(5000)); if (r.chance(1, 2)) p.abort(); else p.close(); break;
  case E_NO_READ: p.send(post(call_xml("big", {"<int>5000000</int>"}))); break;
  case E_HALF: p.send(r.chance(1, 2) ? call : big); p.half_close(); if (r.chance(1, 2)) p.pull(15); if (r.chance(1, 2)) p.abort(); break;
  case E_PIPELINE: p.send(call + call + (r.chance(1, 2) ? big : call.substr(0, call.size() / 2))); if (r.chance(1, 2)) p.pull(15); leave(r, p); break;
  case E_LENGTH: {
    std::string body = call_xml("echo", {str("x")});
    std::string len = r.pick(std::vector<std::string>{"-1", "99999999999999999999999", "0", "1", "abc", "", "18446744073709551615", "2147483648", " 5", "5 5", "0x10", "1e3"});
    p.send("POST /RPC HTTP/1.1\r\nContent-Type: text/xml\r\nContent-Length: " + len + "\r\n\r\n" + body);
    if (r.chance(1, 2)) p.pull(15);
    leave(r, p);
    break; }
  case E_CONTINUE: p.send(fmt("POST /RPC HTTP/1.1\r\nContent-Type: text/xml\r\nExpect: %s\r\nContent-Length: 500\r\n\r\n", r.chance(3, 4) ? "100-continue" : "nothing")); if (r.chance(1, 2)) p.pull(15); leave(r, p); break;
  case E_BAD_XML: {
    std::string b = call_xml("echo", {str("x"), "<struct><member><name>a</name><value><array><data/></array></value></member></struct>"});
    for (int k = (int)r.range(1, 6); k > 0; --k) { size_t q = r.below(b.size()); if (r.chance(1, 2)) b[q] = (char)r.below(256); else b.erase(q, r.range(1, 30)); if (b.empty()) b = "<"; }
    p.send(post(b, "", r.chance(1, 2)));
    if (r.chance(1, 2)) p.pull(15);
    leave(r, p);
    break; }
  case E_DEEP: {
    int n = (int)r.range(200, 60000);
    std::string o = r.pick(std::vector<std::string>{"<value><array><data>", "<a>", "<value><struct><member><name>n</name>"}), b = "<methodCall><methodName>echo</methodName><params><param>";
    for (int k = 0; k < n; ++k) b += o;
    p.send(post(b));
    if (r.chance(1, 2)) p.pull(15);
    leave(r, p);
    break; }
  case E_HEADERS: {
    std::string h = r.pick(std::vector<std::string>{"POST", "GET / HTTP/1.1\r\n", "POST  /RPC\r\n", "PUT /RPC HTTP/1.1\r\nContent-Length: 5\r\n", "\r\n\r\n", "POST /RPC HTTP/9.9\r\n", ": :\r\n", "POST /RPC HTTP/1.1\r\n:\r\nContent-Length: 3\r\n"});
    for (int k = (int)r.below(6); k > 0; --k) h += r.pick(std::vector<std::string>{"a:b\r\n", "no colon\r\n", "authorization: Basic !!!!\r\n", "authorization: basic\r\n", "authorization:\r\n", "connection: keep-alive\r\n", "expect: 7\r\n",
      "host:\r\n", " folded\r\n", "x-y: " + filler(r, r.below(5000)) + "\r\n", "content-length: 4\r\n", "content-type:\r\n", "user-agent: \xff\xfe\r\n"});
    p.send(h + "\r\nabcd");
    if (r.chance(1, 2)) p.pull(15);
    leave(r, p);
    break; }
  case E_METHODS: p.send(post(call_xml(r.pick(std::vector<std::string>{"throw", "odd", "nobody", "", "big", "slow"}), {r.pick(std::vector<std::string>{"<int>1</int>", str("not an int"), "<nil/>"})}), "", r.chance(1, 2))); if (r.chance(1, 2)) p.pull(15); leave(r, p); break;
  case E_KEPT_RESET: { p.send(post(call_xml("echo", {str("x")}), "", true)); Msg m; p.message(m, 5000); if (r.chance(1, 2)) p.send(call.substr(0, 20)); p.abort(); break; }
  case E_FLOOD_CONN: for (int k = (int)r.range(5, 60); k > 0; --k) { open.emplace_back(new Peer); if (!open.back()->open(port)) break; if (r.chance(1, 3)) open.back()->send("P"); leave(r, *open.back()); } break;
  case E_NUL: p.send(std::string(r.range(1, 5000), '\0')); leave(r, p); break;
  }
  vh::count(std::string("hostile: ") + evil_name[evil]);
}

struct Inject { shim::Op op; int err; };
static const Inject injections[] = {
  {shim::RECV, ECONNRESET}, {shim::RECV, ETIMEDOUT}, {shim::RECV, EAGAIN}, {shim::RECV, EINTR}, {shim::RECV, ENOBUFS},
  {shim::SEND, EPIPE}, {shim::SEND, ECONNRESET}, {shim::SEND, EAGAIN}, {shim::SEND, EINTR}, {shim::SEND, ENOBUFS},
  {shim::ACCEPT, ECONNABORTED}, {shim::ACCEPT, EMFILE}, {shim::ACCEPT, ENFILE}, {shim::ACCEPT, EAGAIN}, {shim::ACCEPT, EINTR}, {shim::ACCEPT, EPROTO}, {shim::ACCEPT, ENOBUFS},
  {shim::POLL, EINTR}};

//! A well-behaved client with a connection kept open.
struct Good {
  Peer p;
  int n;
  Good(): n(0) {}
  std::string call(Rng& r, int port, const std::string& tag)
  {
    if (p.fd < 0 && !p.open(port)) return "connection refused";
    std::string what = tag + fmt(".%d", n++) + filler(r, r.chance(1, 6) ? r.below(100000) : r.below(100));
    if (!p.send(post(call_xml("echo", {str(what)}), "", true))) { lost(); return "request not taken"; }
    Msg m;
    if (!p.message(m)) { bool e = p.eof; lost(); return e ? "connection ended without a response" : "no response"; }
    Answer a = answer(m.body);
    if (m.status != 200 || !m.problem.empty() || !a.ok || a.text != what) { std::string s = "wrong response " + m.first + " " + vh::esc(m.body, 100); lost(); return s; }
    return "";
  }
  void lost() { p.close(); }
};

static void c10(long i, Rng& r)
{
  shim::calm();
  shim::seed(r.next());
  unsigned threads = r.pick(std::vector<unsigned>{0, 0, 1, 3});
  std::string trace = fmt("%s(%u):", threads ? "pool" : "serial", threads);
  Fixture f(threads);
  methods(f);
  if (r.chance(1, 3)) f.server->set_max_request_sz(200000);
  if (r.chance(1, 4)) f.server->set_verification_level(http::HTTP_CHECK_STRICT);
  bool strict = f.server->get_verification_level() == http::HTTP_CHECK_STRICT;
  f.start();
  shim::st().frag = r.pick(std::vector<int>{0, 30});
  shim::st().cut = r.pick(std::vector<int>{0, 30});
  std::vector<std::unique_ptr<Good> > good;
  for (int k = (int)r.below(3); k >= 0; --k) good.emplace_back(new Good);
  std::vector<std::unique_ptr<Peer> > open;
  bool inject = r.chance(1, 2), bad = false;
  int steps = 1 + (int)r.below(8);
  for (int k = 0; k < steps && !bad; ++k) {
    int failed_port = 0;
    std::string what;
    if (inject && r.chance(1, 2)) {
      const Inject& in = injections[r.below(sizeof injections / sizeof *injections)];
      long nth = r.range(1, 4), len = in.op == shim::ACCEPT || in.op == shim::POLL ? r.range(1, 5) : 1;
      trace += fmt(" %s#%ld x%ld=%d,", shim::op_name(in.op), nth, len, in.err);
      vh::mark(trace);
      shim::st().target_port = f.port;
      shim::st().failed_peer = 0;
      long before = shim::st().failed[in.op] = 0;
      shim::fail_nth(in.op, nth, in.err, len);
      // calls by the known clients and new ones until the failure has happened
      for (int q = 0; q < 6; ++q) {
        Good fresh;
        Good& g = q % 2 || in.op == shim::ACCEPT ? fresh : *good[r.below(good.size())];
        if (g.p.fd < 0 && !g.p.open(f.port)) { what = "connection refused"; break; }
        int mine = g.p.local_port();
        shim::st().failed_peer = 0;
        std::string e = g.call(r, f.port, fmt("%ld.%d", i, k));
        failed_port = shim::st().failed_peer;
        if (!e.empty() && !(failed_port == mine && in.op != shim::ACCEPT && in.op != shim::POLL)) { what = "well-behaved client: " + e; break; }
        if (!e.empty()) vh::count("connections dropped by a failing call");
        else vh::count("calls answered during failures");
        if (shim::st().failed[in.op] >= len) break;
      }
      if (shim::st().failed[in.op] > before) vh::count(fmt("failures of %s injected", shim::op_name(in.op)), shim::st().failed[in.op]);
      for (int o = 0; o < shim::NOPS; ++o) shim::st().fail_at[o] = -1;
      shim::st().target_port = 0;
    } else {
      int evil = (int)r.below(NEVIL);
      trace += std::string(" ") + evil_name[evil] + ",";
      vh::mark(trace);
      misbehave(r, evil, f.port, open);
    }
    if (what.empty() && r.chance(2, 3)) {
      std::string e = good[r.below(good.size())]->call(r, f.port, fmt("%ld.%d", i, k));
      if (!e.empty()) what = "a client connected before: " + e;
      else vh::count("calls of clients connected before");
    }
    if (what.empty()) {
      std::string e = canary(f.port);
      if (!e.empty()) what = "a new client: " + e;
      else vh::count("calls of new clients");
    }
    if (f.returned) what = "the event loop ended: " + f.died;
    if (!what.empty()) { vh::fail("not-served", trace + " " + what); bad = true; }
    if (open.size() > 150) open.clear();
  }
  (void)strict;
  shim::calm();
  if (!bad) {
    // the misbehaving ones are gone: the server must not keep their connections for ever
    open.clear();
    if (!f.stop()) { vh::fail("stop", trace + " the event loop does not end"); vh::finish_now(1); }
    if (!f.died.empty()) vh::fail("loop-threw", trace + " " + f.died);
  } else
    f.stop();
  f.destroy();
  vh::distinct(trace);
  if (i % 61 < 2) vh::sample(trace);
}

// ---------------------------------------------------------------- C17
class Refuse: public iqnet::Firewall_base {
  std::atomic<int>& n;
  std::string text;
public:
  Refuse(std::atomic<int>& c, const std::string& t): n(c), text(t) {}
  bool grant(const iqnet::Inet_addr&) { return ++n % 2 == 0; }
  std::string message() { return text; }
};

static iqnet::ssl::Ctx* tls()
{
  static iqnet::ssl::Ctx* c = [] {
    Identity id("localhost", 9);
    iqnet::ssl::Ctx* x = 0;
    with_files(id, [&](const std::string& cf, const std::string& kf) { x = iqnet::ssl::Ctx::client_server(cf, kf); });
    iqnet::ssl::ctx = x;
    return x;
  }();
  return c;
}

//! A call whose outcome does not matter.
static bool attempt(Client_base& c, const std::string& m, const std::string& arg)
{
  Param_list pl;
  pl.push_back(arg);
  try { return !c.execute(m, pl).is_fault(); } catch (const std::exception&) { return false; }
}

//! A scripted server that treats each connection in one bad way.
struct Scripted {
  Listener l;
  std::atomic<bool> over;
  std::atomic<int> how;
  std::thread t;
  explicit Scripted(int patience): over(false), how(0)
  {
    t = std::thread([this, patience] {
      while (!over) {
        Peer p;
        if (!l.accept(p, 20)) continue;
        Msg m;
        int h = how;
        if (h != 0) p.message(m, patience);
        switch (h) {
        case 0: p.abort(); break;
        case 1: break;
        case 2: p.send("HTTP/1.1 500 No\r\nContent-Length: 2\r\n\r\nno"); break;
        case 3: p.send("garbage\r\n\r\n"); break;
        case 4: p.send("HTTP/1.1 200 OK\r\nContent-Length: 500\r\n\r\n<?xml"); break;
        case 5: p.send("HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\n<xml>"); break;
        case 6: p.send("HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\n<methodResponse><params><param><value><struct><member><name>a</name><value>"); break;
        }
      }
    });
  }
  ~Scripted() { over = true; t.join(); }
};

struct Op17 {
  const char* name;
  std::function<void(Rng&)> run;
};

static void settle_check(const std::string& trace, int fds, int ths)
{
  if (wait_for([&] { return open_fds() <= fds && thread_count() <= ths; }, 8000)) return;
  std::string list;
  int n = open_fds(&list);
  if (n > fds) vh::fail("descriptors", trace + fmt(": %d descriptors, %d before: ", n, fds) + list);
  else vh::fail("threads", trace + fmt(": %d threads, %d before", thread_count(), ths));
}

//! Operations with a server that lives through all of them.
static void c17_running(long i, Rng& r)
{
  shim::calm();
  unsigned threads = r.pick(std::vector<unsigned>{0, 2});
  bool use_tls = r.chance(1, 4);
  if (use_tls) tls();
  Fixture f(Fixture::No_server(), threads);
  if (use_tls) f.server.reset(new Https_server(iqnet::Inet_addr(0), f.factory.get()));
  else f.server.reset(new Http_server(iqnet::Inet_addr(0), f.factory.get()));
  methods(f);
  std::atomic<int> fw(0);
  bool firewall = !use_tls && r.chance(1, 4);
  Refuse refuse(fw, r.chance(1, 2) ? "go away" : "");
  if (firewall) f.server->set_firewall(&refuse);
  f.server->set_max_request_sz(r.chance(1, 3) ? 5000 : 0);
  f.start();
  std::unique_ptr<Scripted> bad(new Scripted(use_tls ? 5 : 2000));
  iqnet::Inet_addr addr("127.0.0.1", f.port), bad_addr("127.0.0.1", bad->l.port), closed("127.0.0.1", 1), unknown("no.such.host.invalid", 80);
  int port = f.port;
  std::vector<Op17> ops;
  auto client = [&](const iqnet::Inet_addr& a) -> Client_base* { if (use_tls) return new Https_client(a); return new Http_client(a); };
  ops.push_back({"call", [&](Rng& q) { std::unique_ptr<Client_base> c(client(addr)); attempt(*c, "echo", filler(q, 300)); }});
  ops.push_back({"kept calls", [&](Rng& q) { std::unique_ptr<Client_base> c(client(addr)); c->set_keep_alive(true); attempt(*c, "echo", "a"); attempt(*c, "echo", filler(q, 2000)); }});
  ops.push_back({"too large", [&](Rng& q) { std::unique_ptr<Client_base> c(client(addr)); attempt(*c, "echo", filler(q, 9000)); }});
  ops.push_back({"exceptions", [&](Rng& q) { std::unique_ptr<Client_base> c(client(addr)); c->set_keep_alive(q.chance(1, 2)); attempt(*c, "throw", "a"); attempt(*c, "odd", "a"); attempt(*c, "nobody", "a"); }});
  ops.push_back({"refused connect", [&](Rng&) { std::unique_ptr<Client_base> c(client(closed)); attempt(*c, "echo", "a"); attempt(*c, "echo", "a"); }});
  ops.push_back({"refused kept connect", [&](Rng&) { std::unique_ptr<Client_base> c(client(closed)); c->set_keep_alive(true); attempt(*c, "echo", "a"); attempt(*c, "echo", "a"); }});
  ops.push_back({"unknown host", [&](Rng&) { std::unique_ptr<Client_base> c(client(unknown)); attempt(*c, "echo", "a"); }});
  for (int h = 0; h < 7; ++h)
    ops.push_back({"bad server", [&, h](Rng& q) { bad->how = h; std::unique_ptr<Client_base> c(client(bad_addr)); c->set_keep_alive(q.chance(1, 2)); attempt(*c, "echo", "a"); attempt(*c, "echo", "a"); }});
  if (!use_tls)
    for (int e = 0; e < NEVIL; ++e) if (e != E_FLOOD_CONN && e != E_NO_READ)
      ops.push_back({evil_name[e], [&, e](Rng& q) { std::vector<std::unique_ptr<Peer> > o; misbehave(q, e, port, o); }});
  else {
    ops.push_back({"plain text", [&](Rng& q) { Peer p(port); p.send(bytes(q, 300)); leave(q, p); }});
    ops.push_back({"connect only", [&](Rng& q) { Peer p(port); leave(q, p); }});
  }
  ops.push_back({"connect timeout", [&](Rng&) { Deaf d; std::unique_ptr<Client_base> c(client(iqnet::Inet_addr("127.0.0.1", d.l.port))); c->set_timeout(1); attempt(*c, "echo", "a"); }});
  ops.push_back({"answer timeout", [&](Rng& q) { Listener l; std::unique_ptr<Client_base> c(client(iqnet::Inet_addr("127.0.0.1", l.port))); c->set_timeout(1); c->set_keep_alive(q.chance(1, 2)); attempt(*c, "echo", "a"); }});
  static const Inject cli_inj[] = {{shim::SOCKET, EMFILE}, {shim::CONNECT, ENETUNREACH}, {shim::CONNECT, ECONNREFUSED}, {shim::SEND, EPIPE}, {shim::RECV, ECONNRESET}, {shim::RECV, EINTR}, {shim::SEND, EAGAIN},
    {shim::ACCEPT, EMFILE}};
  for (auto& in : cli_inj)
    ops.push_back({"failing system call", [&, in](Rng& q) {
      // of the server's peers or of anything the client does
      shim::st().target_port = in.op == shim::ACCEPT || q.chance(1, 2) ? port : 0;
      if (in.op == shim::RECV || in.op == shim::SEND) shim::st().target_port = port;
      shim::fail_nth(in.op, q.range(1, 3), in.err);
      std::unique_ptr<Client_base> c(client(addr));
      attempt(*c, "echo", "a");
      attempt(*c, "echo", filler(q, 500));
      shim::calm();
    }});
  // one operation many times
  const Op17& op = r.pick(ops);
  std::string trace = fmt("%s%s, %s(%u)%s", use_tls ? "TLS " : "", op.name, threads ? "pool" : "serial", threads, firewall ? ", firewall" : "");
  vh::mark(trace);
  uint64_t seed = r.next();
  int instant = r.chance(1, 2) ? 100 : 0;
  if (instant) trace += ", connections decided at once";
  long instant0 = shim::st().instant_connects;
  auto rounds = [&](int n) { for (int k = 0; k < n; ++k) { Rng q(seed + k % 10); shim::st().instant = instant; op.run(q); } };
  bool slow = use_tls || !strcmp(op.name, "unknown host");
  int warm = slow ? 10 : 20, n = slow ? 20 : 60;
  if (strstr(op.name, " timeout")) warm = n = 1;
  int fds = open_fds(), ths = thread_count();
  rounds(warm);
  settle_check(trace, fds, ths);
  usleep(2000);
  // what leaks grows every time; a table that gets its final size grows once
  size_t b0 = __sanitizer_get_current_allocated_bytes(), b1 = 0;
  bool flat = false;
  for (int phase = 0; phase < 3 && !flat; ++phase) {
    rounds(n);
    settle_check(trace, fds, ths);
    // buffers of connections just being freed may still be counted
    flat = wait_for([&] { b1 = __sanitizer_get_current_allocated_bytes(); return b1 < b0 + 3000 + (use_tls ? 40000 : 0); }, 3000);
    vh::count("operations", n);
    if (!flat && phase < 2) b0 = b1;
  }
  if (!flat) vh::fail("growth", trace + fmt(": %zd bytes more after %d times, repeatedly", (ssize_t)(b1 - b0), n));
  if (f.returned) vh::fail("loop-ended", trace + ": " + f.died);
  vh::count("connections decided at once", shim::st().instant_connects - instant0);
  vh::count("operations", warm);
  vh::count(std::string("repeated: ") + (use_tls ? "TLS " : "") + op.name);
  bad.reset();
  if (!f.stop()) { vh::fail("stop", trace + ": the event loop does not end"); vh::finish_now(1); }
  f.destroy();
  vh::distinct(trace + fmt(" %d", (int)(seed % 50)));
  if (i % 41 < 2) vh::sample(trace + fmt(": %d times", warm + n));
}

//! Servers, pools and clients that come and go.
static void c17_objects(long i, Rng& r)
{
  shim::calm();
  int fds = open_fds(), ths = thread_count();
  std::string trace = "objects:";
  int steps = 3 + (int)r.below(10);
  for (int k = 0; k < steps; ++k) {
    int kind = (int)r.below(9);
    bool use_tls = r.chance(1, 3);
    if (use_tls) tls();
    trace += fmt(" %d%s", kind, use_tls ? "s" : "");
    vh::mark(trace);
    auto make = [&](Executor_factory_base* e, const iqnet::Inet_addr& a) -> Server* { if (use_tls) return new Https_server(a, e); return new Http_server(a, e); };
    switch (kind) {
    case 0: { Serial_executor_factory e; std::unique_ptr<Server> s(make(&e, iqnet::Inet_addr(0))); break; }
    case 1: { std::unique_ptr<Pool_executor_factory> e(new Pool_executor_factory(1 + r.below(4))); std::unique_ptr<Server> s(make(e.get(), iqnet::Inet_addr(0))); e.reset(); break; }
    case 2: {
      // the port is taken
      Listener l;
      Serial_executor_factory e;
      std::unique_ptr<Server> s(make(&e, iqnet::Inet_addr("127.0.0.1", l.port)));
      bool threw = false;
      try { s->work(); } catch (const std::exception&) { threw = true; }
      if (!threw) { vh::fail("taken-port", trace + ": work() returned on a taken port"); return; }
      try { s->work(); } catch (const std::exception&) {}
      vh::count("servers on a taken port");
      break; }
    case 3: {
      // a failing system call while the server is made
      static const Inject inj[] = {{shim::SOCKET, EMFILE}, {shim::BIND, EADDRINUSE}, {shim::LISTEN, EADDRINUSE}, {shim::CONNECT, ECONNREFUSED}, {shim::ACCEPT, EMFILE}};
      const Inject& in = inj[r.below(5)];
      Serial_executor_factory e;
      shim::fail_nth(in.op, r.range(1, 2), in.err);
      try { std::unique_ptr<Server> s(make(&e, iqnet::Inet_addr(0))); s->set_exit_flag(); s->work(); } catch (const std::exception&) { vh::count("servers that could not be made or started"); }
      shim::calm();
      break; }
    case 4: {
      Fixture f(Fixture::No_server(), r.pick(std::vector<unsigned>{0, 2}));
      f.server.reset(make(f.factory.get(), iqnet::Inet_addr(0)));
      methods(f);
      f.start();
      std::vector<std::unique_ptr<Peer> > o;
      for (int q = (int)r.below(6); q > 0; --q) { o.emplace_back(new Peer(f.port)); if (r.chance(1, 2)) o.back()->send("POST / HTTP"); }
      if (!use_tls) { std::string c = canary(f.port); if (!c.empty()) vh::fail("serve", trace + ": " + c); }
      if (!f.stop()) { vh::fail("stop", trace); vh::finish_now(1); }
      f.destroy();
      for (auto& p : o) if (!p->ended()) { vh::fail("open-connection", trace + ": a connection outlives its server"); return; }
      vh::count("servers destroyed with open connections");
      break; }
    case 5: { Http_client c(iqnet::Inet_addr("127.0.0.1", 1)); Https_client d(iqnet::Inet_addr("127.0.0.1", 1)); c.set_keep_alive(true); break; }
    case 6: {
      Fixture f(0);
      methods(f);
      f.start();
      Http_client* c = new Http_client(iqnet::Inet_addr("127.0.0.1", f.port));
      c->set_keep_alive(true);
      attempt(*c, "echo", "a");
      if (r.chance(1, 2)) c->set_keep_alive(false);
      if (r.chance(1, 2)) { delete c; c = 0; }
      if (!f.stop()) { vh::fail("stop", trace); vh::finish_now(1); }
      f.destroy();
      delete c;
      break; }
    case 7: {
      // several runs of one server
      Fixture f(r.pick(std::vector<unsigned>{0, 3}));
      methods(f);
      for (int q = 0; q < 3; ++q) { f.start(); std::string c = canary(f.port); if (!c.empty()) vh::fail("serve", trace + ": " + c); if (!f.stop()) { vh::fail("stop", trace); vh::finish_now(1); } }
      break; }
    case 8: {
      if (!use_tls) break;
      Identity id("other", 77);
      try { with_files(id, [&](const std::string& c, const std::string& key) { std::unique_ptr<iqnet::ssl::Ctx> x(r.chance(1, 2) ? iqnet::ssl::Ctx::client_server(c, key) : iqnet::ssl::Ctx::server_only(c, key)); }); }
      catch (const std::exception& e) { vh::fail("context", trace + ": " + e.what()); }
      std::unique_ptr<iqnet::ssl::Ctx> y(iqnet::ssl::Ctx::client_only());
      break; }
    }
    vh::count("objects made and destroyed");
  }
  settle_check(trace, fds, ths);
  vh::distinct(trace);
  if (i % 41 < 2) vh::sample(trace);
}

static void c17(long i, Rng& r)
{
  if (r.chance(1, 2)) c17_running(i, r); else c17_objects(i, r);
}

int main(int argc, char** argv)
{
  vh::init(argc, argv, "C10");
  init_xml();
  heart();
  tls();
  const std::string p = vh::opts().prop;
  if (p == "C10") vh::run_cases(c10, 100);
  else if (p == "C17") vh::run_cases(c17, 25);
  else vh::broken("no such property " + p);
  shim::calm();
  return vh::finish();
}
