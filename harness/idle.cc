// What waiting costs: C27.
#include "net.h"

#include <mutex>
#include <time.h>

#include "libiqxmlrpc/firewall.h"

using namespace net;
using namespace iqxmlrpc;

//! Processor time this process has used, in milliseconds.
static double used_ms()
{
  timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return t.tv_sec * 1e3 + t.tv_nsec / 1e6;
}

static double clock_ms()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1e3 + t.tv_nsec / 1e6;
}

static const double SHARE = 0.08;   // of one processor; a loop that does not sleep takes all it can get

//! The share of one processor the process takes while this thread sleeps.
static double share(int ms, long& wakes)
{
  long p = shim::st().calls[shim::POLL];
  double u = used_ms(), c = clock_ms();
  usleep(ms * 1000);
  double r = (used_ms() - u) / (clock_ms() - c);
  wakes = shim::st().calls[shim::POLL] - p;
  return r;
}

//! Judges a situation in which nothing happens any more. What led to it may
//! still be under way for a moment; a loop that does not sleep never gets quiet.
static void quiet(const std::string& trace)
{
  long wakes = 0;
  double s = 1;
  int calm = 0;
  for (int k = 0, ms = 20; k < 24; ++k) {
    s = share(ms, wakes);
    calm = s < SHARE ? calm + 1 : 0;
    if (calm == 3) { vh::count("quiet situations measured"); return; }
    ms = calm ? 30 : std::min(ms * 2, 700);
  }
  vh::fail("spins", trace + fmt(": %.0f %% of a processor and %ld waits in 700 ms although nothing happens", s * 100, wakes));
}

//! Where methods wait without using the processor.
struct Gate {
  std::mutex m;
  std::condition_variable c;
  bool open;
  int inside;
  Gate(): open(false), inside(0) {}
  void pass()
  {
    std::unique_lock<std::mutex> l(m);
    ++inside;
    c.wait(l, [this] { return open; });
    --inside;
  }
  int waiting() { std::lock_guard<std::mutex> l(m); return inside; }
  void let_go() { std::lock_guard<std::mutex> l(m); open = true; c.notify_all(); }
  void shut() { std::lock_guard<std::mutex> l(m); open = false; }
};

static Gate* gate;

static void methods(Fixture& f)
{
  f.method("echo", [](Method*, const Param_list& p, Value& v) { v = p.at(0); });
  f.method("big", [](Method*, const Param_list& p, Value& v) { v = Value(std::string(p.at(0).get_int(), 'B')); });
  f.method("wait", [](Method*, const Param_list& p, Value& v) { gate->pass(); v = p.at(0); });
}

class Some: public iqnet::Firewall_base {
  std::atomic<bool>& refuse;
public:
  explicit Some(std::atomic<bool>& r): refuse(r) {}
  bool grant(const iqnet::Inet_addr&) { return !refuse; }
  std::string message() { return "HTTP/1.0 403 Forbidden\r\nContent-Length: 0\r\n\r\n"; }
};

// ---------------------------------------------------------------- server
enum { NOTHING, OPEN, PART_HEADER, PART_BODY, KEPT, UNREAD, UNREAD_HALF, HALF_BEFORE, HALF_KEPT, REFUSED, REFUSED_OPEN, CONTINUE, WAITING, WAITING_GONE, WAITING_HALF, PIPELINED,
  FORBIDDEN, INTERRUPTED, GARBAGE, CLOSED, TLS_HALF, TLS_CLOSED, NSTATES };
static const char* state_name[] = {"no connection", "silent connection", "part of a header", "part of a body", "kept connection", "answer not read", "answer not read, half closed", "half closed", "kept, half closed",
  "refused request", "refused, more sent", "awaiting the body", "method waits", "method waits, peer gone", "method waits, half closed", "second request waits", "refused peer", "interrupted", "garbage", "closed",
  "half a handshake", "closed by TLS"};

static void server_case(long i, Rng& r)
{
  unsigned threads = r.pick(std::vector<unsigned>{0, 1, 3});
  std::string trace = fmt("%s(%u):", threads ? "pool" : "serial", threads);
  Gate g;
  gate = &g;
  std::atomic<bool> refuse(false);
  Fixture f(threads);
  methods(f);
  f.server->set_max_request_sz(100000);
  bool wall = r.chance(1, 2);
  Some some(refuse);
  if (wall) f.server->set_firewall(&some);
  f.start();
  if (threads && r.chance(1, 3)) f.pool->add_threads(1 + r.below(2));
  std::vector<std::unique_ptr<Peer> > open;
  int held = 0;
  bool bad = false;
  for (int k = 1 + (int)r.below(4); k > 0 && !bad; --k) {
    int s = (int)r.below(NSTATES);
    if (s >= TLS_HALF && !over_tls()) s = CLOSED;
    if (s >= WAITING && s <= PIPELINED && (!threads || held >= (int)threads)) s = threads ? OPEN : KEPT;
    if (threads && held >= (int)threads && (s == KEPT || s == HALF_KEPT || s == CLOSED)) s = PART_BODY;   // nobody would answer
    if (s == FORBIDDEN && !wall) s = OPEN;
    trace += std::string(" ") + state_name[s] + ",";
    vh::mark(trace);
    open.emplace_back(new Peer);
    Peer& p = *open.back();
    std::string call = post(call_xml("echo", {str("some text")}), "", true);
    std::string big = post(call_xml("big", {fmt("<int>%d</int>", (int)r.range(3000000, 5000000))}), "", r.chance(1, 2));
    std::string wait = post(call_xml("wait", {str("w")}), "", r.chance(1, 2));
    Msg m;
    if (s == FORBIDDEN) refuse = true;
    if (s != NOTHING && s != INTERRUPTED && !p.open(f.port, s == UNREAD || s == UNREAD_HALF ? 4096 : 0)) { vh::fail("refused", trace + " connection refused"); bad = true; break; }
    switch (s) {
    case NOTHING: break;
    case OPEN: if (over_tls() && r.chance(1, 2)) p.handshake(LONG_MS); break;
    case PART_HEADER: p.send(call.substr(0, 1 + r.below(20))); break;
    case PART_BODY: p.send(call.substr(0, call.size() - 1 - r.below(40))); break;
    case KEPT: p.send(call); if (!p.message(m)) { vh::fail("no-answer", trace + " no response"); bad = true; } break;
    case UNREAD: p.send(big); p.pull(3000, 1000); break;
    case UNREAD_HALF: p.send(big); p.half_close(); break;
    case HALF_BEFORE: if (r.chance(1, 2)) p.send(call.substr(0, r.below(call.size()))); p.half_close(); break;
    case HALF_KEPT: p.send(call); p.message(m); p.half_close(); break;
    case REFUSED: p.send(r.chance(1, 2) ? "GET / HTTP/1.1\r\n\r\n" : "POST / HTTP/1.1\r\nContent-Length: 200000\r\n\r\n"); break;
    case REFUSED_OPEN: p.send("PUT / HTTP/1.1\r\nContent-Length: 5\r\n\r\n"); p.send(std::string(r.below(3000), 'x'), 500); break;
    case CONTINUE: p.send("POST / HTTP/1.1\r\nContent-Type: text/xml\r\nExpect: 100-continue\r\nContent-Length: 50\r\n\r\n"); if (r.chance(1, 2)) p.message(m, 2000); break;
    case WAITING: case WAITING_GONE: case WAITING_HALF: case PIPELINED:
      p.send(s == PIPELINED ? wait + wait : wait);
      ++held;
      if (!wait_for([&] { return g.waiting() >= held; })) { vh::fail("not-run", trace + " the method does not run"); bad = true; break; }
      if (s == WAITING_GONE) { if (r.chance(1, 2)) p.abort(); else p.close(); }
      if (s == WAITING_HALF) p.half_close();
      break;
    case FORBIDDEN: p.ended(5000); break;
    case INTERRUPTED: for (int q = (int)r.below(40); q >= 0; --q) f.server->interrupt(); break;
    case GARBAGE: p.plain(); p.send(std::string("\x16\x03\x01") + "garbage that is neither HTTP nor TLS\r\n\r\n"); break;
    case CLOSED: p.send(call); if (r.chance(1, 2)) p.message(m); if (r.chance(1, 2)) p.abort(); else p.close(); break;
    case TLS_HALF: { ERR_clear_error(); SSL_do_handshake(p.ssl); char b[64]; int n = BIO_read(p.wr, b, sizeof b); p.send_raw(std::string(b, n > 0 ? n : 0)); break; }
    case TLS_CLOSED: p.handshake(LONG_MS); SSL_shutdown(p.ssl); p.flush(2000); break;
    }
    if (s == FORBIDDEN) refuse = false;
    if (bad) break;
    vh::count(std::string("situation: ") + state_name[s]);
    quiet(trace);
  }
  g.let_go();
  if (!bad) {
    std::string e = canary(f.port);
    if (!e.empty()) vh::fail("not-served", trace + " afterwards: " + e);
  }
  if (held) quiet(trace + " methods went on,");
  vh::count("quiet situations of servers");
  if (!f.stop()) { vh::fail("stop", trace + " the event loop does not end"); vh::finish_now(1); }
  f.destroy();
  gate = 0;
  vh::distinct(trace);
  if (i % 29 < 2) vh::sample(trace);
}

// ---------------------------------------------------------------- client
enum { C_CONNECT, C_SILENT, C_STATUS, C_HEADER, C_BODY, C_INTERIM, C_NO_READ, C_REAL, NCLIENT };
static const char* cstate_name[] = {"connecting", "no answer", "part of a status line", "part of a header", "part of a body", "only an interim answer", "request not read", "slow method"};

static void client_case(long i, Rng& r)
{
  int s = over_tls() ? r.pick(std::vector<int>{C_CONNECT, C_SILENT, C_REAL, C_REAL}) : (int)r.below(NCLIENT);
  bool timed = r.chance(1, 2), keep = r.chance(1, 2);
  std::string trace = fmt("client%s%s%s: %s", over_tls() ? ", TLS" : "", timed ? ", timeout" : "", keep ? ", kept" : "", cstate_name[s]);
  vh::mark(trace);
  Gate g;
  gate = &g;
  std::unique_ptr<Fixture> f;
  std::unique_ptr<Listener> l;
  std::unique_ptr<Deaf> deaf;
  int port = 0;
  if (s == C_REAL) {
    f.reset(new Fixture(r.pick(std::vector<unsigned>{1, 2})));
    methods(*f);
    f->start();
    port = f->port;
  } else if (s == C_CONNECT) { deaf.reset(new Deaf); port = deaf->l.port; }
  else { l.reset(new Listener); port = l->port; }
  if (over_tls()) need_tls_context();
  std::unique_ptr<Client_base> c(lib_client(port));
  if (timed) c->set_timeout(s == C_CONNECT ? 2 : 600);
  c->set_keep_alive(keep);
  std::string arg = s == C_NO_READ ? std::string(r.range(4000000, 6000000), 'a') : "w", got;
  std::atomic<bool> over(false);
  std::thread t([&] {
    try {
      Param_list pl;
      pl.push_back(arg);
      Response x = c->execute("wait", pl);
      got = x.is_fault() ? "fault " + x.fault_string() : "value " + x.value().get_string().substr(0, 40);
    } catch (const std::exception& e) { got = std::string("exception ") + e.what(); }
    over = true;
  });
  Peer p;
  p.plain();
  Msg m;
  std::string body = "<?xml version=\"1.0\"?><methodResponse><params><param><value><string>w</string></value></param></params></methodResponse>";
  std::string ans = fmt("HTTP/1.1 200 OK\r\nContent-Type: text/xml\r\nContent-Length: %zu\r\n\r\n", body.size()) + body;
  size_t sent = 0;
  if (l) {
    if (!l->accept(p)) { vh::fail("no-connection", trace + " no connection"); vh::finish_now(1); }
    if (!over_tls() && s != C_NO_READ && !p.message(m)) { vh::fail("no-request", trace + " no request"); vh::finish_now(1); }
    size_t h = ans.find("\r\n\r\n") + 4;
    switch (s) {
    case C_STATUS: sent = 1 + r.below(14); break;
    case C_HEADER: sent = 20 + r.below(h - 21); break;
    case C_BODY: sent = h + r.below(body.size()); break;
    case C_INTERIM: p.send("HTTP/1.1 100 Continue\r\n\r\n"); break;
    }
    p.send(ans.substr(0, sent));
  }
  if (f && !wait_for([&] { return g.waiting() == 1; })) { vh::fail("not-run", trace + " the method does not run"); vh::finish_now(1); }
  vh::count(std::string("situation: client, ") + cstate_name[s]);
  if (over && s != C_CONNECT && s != C_INTERIM) vh::fail("early", trace + ": the call ended before it was answered: " + got);
  quiet(trace);
  vh::count("quiet situations of clients");
  // the end of it
  g.let_go();
  if (l && !over_tls()) {
    if (s == C_NO_READ) p.message(m);
    p.send(ans.substr(sent));
  }
  if (over_tls() && l) p.close();
  if (deaf) { for (int x : deaf->fill) sys::close(x); deaf->fill.clear(); deaf->l.close(); }
  if (!wait_for([&] { return over.load(); }, 120000)) { vh::fail("waits-on", trace + ": the call does not end"); vh::finish_now(1); }
  t.join();
  if (!over_tls() && s != C_CONNECT && s != C_INTERIM && got != "value w") vh::fail("answer", trace + ": " + got);
  c.reset();
  if (f && !f->stop()) { vh::fail("stop", trace + " the event loop does not end"); vh::finish_now(1); }
  f.reset();
  gate = 0;
  vh::distinct(trace);
  if (i % 29 < 2) vh::sample(trace);
}

static void c27(long i, Rng& r)
{
  shim::calm();
  shim::seed(r.next());
  if (r.chance(1, 3)) client_case(i, r); else server_case(i, r);
}

int main(int argc, char** argv)
{
  vh::init(argc, argv, "C27");
  signal(SIGPIPE, SIG_IGN);
  init_xml();
  heart();
  vh::run_cases(c27, 40);
  return vh::finish();
}
