// Concurrency of a server: C09 (exactly once, own response), C13 (races,
// deadlocks), C14 (stopping and restarting), C25 (no delay while a thread is free).
#include "net.h"
#include "net.h"

#include <sys/resource.h>
#include <sstream>

using namespace net;
using namespace iqxmlrpc;

typedef Client<Http_client_connection> Http_client;
typedef Client<Https_client_connection> Https_client;

// ---------------------------------------------------------------- ports
//! A port nobody uses; the range of each process is its own.
static int free_port()
{
  static int n = 0;
  for (int k = 0; k < 2000; ++k) {
    int port = 15000 + (vh::opts().shard % 16) * 1000 + (n++ % 1000);
    int f = sys::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1;
    setsockopt(f, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    bool ok = !sys::bind(f, (sockaddr*)&a, sizeof a) && !sys::listen(f, 1);
    sys::close(f);
    if (ok) return port;
  }
  vh::broken("no free port");
  return 0;
}

// ---------------------------------------------------------------- problems and runs
struct Notes {
  std::mutex m;
  std::vector<std::pair<std::string, std::string> > problems;
  std::map<std::string, std::vector<uint64_t> > runs;      // call id -> digests of the arguments seen
  void bad(const std::string& key, const std::string& what) { std::lock_guard<std::mutex> g(m); problems.push_back(std::make_pair(key, what)); }
  void ran(const std::string& id, uint64_t d) { std::lock_guard<std::mutex> g(m); runs[id].push_back(d); }
  bool report(const std::string& trace)
  {
    std::lock_guard<std::mutex> g(m);
    for (auto& p : problems) vh::fail(p.first, trace + ": " + p.second);
    return !problems.empty();
  }
};

static uint64_t digest(const std::string& id, const std::string& payload, int pause, int mode)
{
  return vh::fnv(payload, vh::fnv(id + fmt("/%d/%d", pause, mode)));
}

static std::string expected(const std::string& id, const std::string& payload, int pause, int mode)
{
  return id + fmt(":%llx:", (unsigned long long)digest(id, payload, pause, mode)) + (mode == 1 ? payload : "");
}

struct Own_error { std::string text; };

//! What a method may throw besides a fault.
static void raise(const std::string& id)
{
  switch (vh::fnv(id) % 10) {
  case 0: throw std::bad_alloc();
  case 1: throw std::bad_cast();
  case 2: throw std::out_of_range(id);
  case 3: throw std::logic_error(id);
  case 4: throw iqnet::network_error(id, false);
  case 5: throw Exception(id, 5);
  case 6: throw Own_error{id};
  case 7: throw 7;
  case 8: throw Client_timeout();
  default: throw std::runtime_error(id);
  }
}

//! A fault in place of a result must be the one of this very call.
static bool own_fault(const std::string& id, int mode, int code, const std::string& text)
{
  if (mode == 2) return text == id && code == (int)(vh::fnv(id) % 10000);
  switch (vh::fnv(id) % 10) {
  case 2: case 3: case 4: case 5: case 9: return text.find(id) != std::string::npos;
  default: return true;
  }
}

static Body work_method(Notes& notes)
{
  return [&notes](Method*, const Param_list& p, Value& v) {
    std::string id = p.at(0).get_string(), payload = p.at(1).get_string();
    int pause = p.at(2).get_int(), mode = p.at(3).get_int();
    notes.ran(id, digest(id, payload, pause, mode));
    if (pause > 0) usleep(pause);
    else if (pause < 0) sched_yield();
    if (mode == 2) throw Fault((int)(vh::fnv(id) % 10000), id);
    if (mode == 3) raise(id);
    v = Value(expected(id, payload, pause, mode));
  };
}

static std::string work_xml(const std::string& id, const std::string& payload, int pause, int mode)
{
  return call_xml("work", {str(id), str(payload), fmt("<int>%d</int>", pause), fmt("<int>%d</int>", mode)});
}

static size_t payload_size(Rng& r)
{
  switch (r.below(12)) {
  case 0: return 0;
  case 1: case 2: return r.below(70000);
  case 3: return r.chance(1, 6) ? r.below(3000000) : r.below(200000);
  default: return r.below(800);
  }
}

static std::string payload_of(Rng& r, size_t n)
{
  std::string s(n, ' ');
  for (size_t i = 0; i < n; ++i) s[i] = "abcdefghijklmnop0123456789ABCDEF"[r.next() & 31];
  return s;
}

enum Client_kind { RAW_KEEP, RAW_ONCE, RAW_SPLIT, RAW_ABORT, RAW_PARTIAL, LIB_KEEP, LIB_ONCE, NCLIENTS };

struct Traffic {
  int port;
  Notes& notes;
  bool tls, lax, small;         // lax: the server may be stopped meanwhile, calls may fail; small: only small and fast calls
  std::atomic<long> answered, failed;
  std::mutex m;
  std::map<std::string, int> once;    // id -> 1: exactly once, 0: never, 2: at most once
  Traffic(int p, Notes& n): port(p), notes(n), tls(over_tls()), lax(false), small(false), answered(0), failed(0) {}
  void expect(const std::string& id, int n) { std::lock_guard<std::mutex> g(m); once[id] = n; }

  template <class C> void lib(Rng& r, const std::string& name, bool keep, int calls, const iqnet::Inet_addr& addr)
  {
    C cl(addr);
    cl.set_keep_alive(keep);
    for (int k = 0; k < calls; ++k) {
      std::string id = name + fmt(".%d", k), payload = payload_of(r, small ? r.below(30) : payload_size(r));
      int pause = small ? 0 : r.pick(std::vector<int>{0, 0, -1, 200, 2000}), mode = (int)r.below(4);
      expect(id, lax ? 2 : 1);
      Param_list pl;
      pl.push_back(id); pl.push_back(payload); pl.push_back(pause); pl.push_back(mode);
      try {
        Response resp = cl.execute("work", pl);
        if (mode >= 2) {
          if (!resp.is_fault() || !own_fault(id, mode, resp.fault_code(), resp.fault_string())) { notes.bad("wrong-response", id + ": no fault of its own"); return; }
        } else if (resp.is_fault() || !resp.value().is_string() || resp.value().get_string() != expected(id, payload, pause, mode)) {
          notes.bad("wrong-response", id + ": " + (resp.is_fault() ? "fault " + resp.fault_string() : vh::esc(resp.value().get_string(), 100)));
          return;
        }
        ++answered;
      } catch (const std::exception& e) {
        ++failed;
        if (!lax) { notes.bad("client-error", id + fmt(" (%zu bytes): ", payload.size()) + typeid(e).name() + " " + e.what()); return; }
        usleep(1000);
      }
    }
  }

  void raw(Rng& r, const std::string& name, int kind, int calls)
  {
    Peer p;
    for (int k = 0; k < calls; ++k) {
      std::string id = name + fmt(".%d", k), payload = payload_of(r, small ? r.below(30) : payload_size(r));
      int pause = small ? 0 : r.pick(std::vector<int>{0, 0, -1, 200, 2000}), mode = (int)r.below(4);
      bool keep = kind == RAW_KEEP;
      std::string req = post(work_xml(id, payload, pause, mode), "", keep);
      expect(id, lax || kind == RAW_ABORT ? 2 : kind == RAW_PARTIAL ? 0 : 1);
      if (p.fd < 0 && !p.open(port)) {
        ++failed;
        if (!lax) { notes.bad("refused", id + fmt(": connection refused (%s)", strerror(errno))); return; }
        usleep(1000);
        continue;
      }
      if (kind == RAW_PARTIAL) {
        p.send(req.substr(0, r.below(req.size() - 1) + 1));
        if (r.chance(1, 2)) usleep(r.below(2000));
        if (r.chance(1, 2)) p.abort(); else p.close();
        continue;
      }
      bool ok = true;
      if (kind == RAW_SPLIT) {
        size_t cut = r.below(req.size());
        ok = p.send(req.substr(0, cut));
        usleep(r.below(3000));
        ok = ok && p.send(req.substr(cut));
      } else
        ok = p.send(req);
      if (kind == RAW_ABORT) {
        if (r.chance(1, 2)) usleep(r.below(1500));
        if (r.chance(1, 2)) p.abort(); else p.close();
        continue;
      }
      Msg m;
      if (!ok || !p.message(m)) {
        ++failed;
        bool silent = !p.eof;
        p.close();
        if (!lax) { notes.bad(silent ? "no-answer" : "dropped", id + (silent ? ": no response" : ": connection ended without a response")); return; }
        continue;
      }
      Answer a = answer(m.body);
      if (m.status != 200 || !m.problem.empty() || (mode >= 2 ? !a.fault || !own_fault(id, mode, a.code, a.text) : !a.ok || a.text != expected(id, payload, pause, mode))) {
        notes.bad("wrong-response", id + ": " + m.first + " " + vh::esc(m.body, 300) + " expected " + vh::esc(expected(id, payload, pause, mode), 100));
        return;
      }
      ++answered;
      if (!keep) p.close();
    }
    if (!p.in.empty()) notes.bad("surplus", name + ": bytes beyond the responses: " + vh::esc(p.in, 200));
  }

  void client(uint64_t seed, const std::string& name, int kind, int calls, const iqnet::Inet_addr& addr)
  {
    Rng r(seed);
    if (kind == LIB_KEEP || kind == LIB_ONCE) {
      if (tls) lib<Https_client>(r, name, kind == LIB_KEEP, calls, addr);
      else lib<Http_client>(r, name, kind == LIB_KEEP, calls, addr);
    } else
      raw(r, name, kind, calls);
  }

  //! Every call exactly as often as it must be run, with its own arguments.
  void settle()
  {
    std::lock_guard<std::mutex> g(m), h(notes.m);
    for (auto& o : once) {
      auto i = notes.runs.find(o.first);
      size_t n = i == notes.runs.end() ? 0 : i->second.size();
      if (o.second == 1 ? n != 1 : o.second == 0 ? n != 0 : n > 1)
        notes.problems.push_back(std::make_pair("runs", o.first + fmt(" was executed %zu times", n)));
    }
    for (auto& x : notes.runs) if (!once.count(x.first)) notes.problems.push_back(std::make_pair("unknown-run", "a call nobody made was executed: " + vh::esc(x.first, 60)));
  }
};

static void join_all(std::vector<std::thread>& ts) { for (auto& t : ts) t.join(); ts.clear(); }

static void noise(Rng& r)
{
  shim::calm();
  shim::seed(r.next());
  shim::st().frag = r.pick(std::vector<int>{0, 0, 10, 50});
  shim::st().cut = r.pick(std::vector<int>{0, 0, 10, 50});
  shim::st().delay = r.pick(std::vector<int>{0, 0, 5, 30});
  shim::st().delay_us = r.pick(std::vector<int>{0, 50, 500});
}

// ---------------------------------------------------------------- C09
//! Many more calls than usual on few kept connections and few threads.
static void many_calls(long i, Rng& r)
{
  unsigned threads = r.below(3);
  shim::calm();
  Notes notes;
  Fixture f(threads);
  f.method("work", work_method(notes));
  f.surround(r);
  f.begin(r);
  Traffic t(f.port, notes);
  t.small = true;
  int clients = 1 + (int)r.below(2), calls = over_tls() ? 1100 : 2600;
  std::string trace = fmt("%s(%u), %d kept connections x %d calls", threads ? "pool" : "serial", threads, clients, calls);
  vh::mark(trace);
  iqnet::Inet_addr addr("127.0.0.1", f.port);
  std::vector<std::thread> ts;
  for (int c = 0; c < clients; ++c) {
    uint64_t seed = r.next();
    int kind = r.chance(1, 2) ? RAW_KEEP : LIB_KEEP;
    ts.emplace_back([&t, &addr, seed, kind, i, c, calls] { t.client(seed, fmt("%ld.%d", i, c), kind, calls, addr); });
  }
  join_all(ts);
  if (f.returned) notes.bad("loop-ended", "work() ended: " + f.died);
  if (!f.stop()) { vh::fail("stop", trace + ": the event loop does not end"); vh::finish_now(1); }
  f.destroy();
  t.settle();
  notes.report(trace);
  vh::count("calls answered", t.answered);
  vh::count("connections with a thousand calls", clients);
  vh::distinct(trace);
  vh::sample(trace);
}

//! Hundreds of connections at once, all used.
static void crowd(long i, Rng& r)
{
  unsigned threads = r.pick(std::vector<unsigned>{0, 1, 4});
  size_t n = over_tls() ? 150 : r.pick(std::vector<int>{300, 600, 1200});
  struct rlimit lim;
  if (!getrlimit(RLIMIT_NOFILE, &lim) && lim.rlim_cur < 4096) {
    lim.rlim_cur = lim.rlim_max == RLIM_INFINITY || lim.rlim_max > 4096 ? 4096 : lim.rlim_max;
    setrlimit(RLIMIT_NOFILE, &lim);
  }
  if (!getrlimit(RLIMIT_NOFILE, &lim) && lim.rlim_cur < 2 * n + 200) n = (lim.rlim_cur - 200) / 2;
  shim::calm();
  Notes notes;
  Fixture f(threads);
  f.method("work", work_method(notes));
  f.surround(r);
  f.begin(r);
  Traffic t(f.port, notes);
  t.small = true;
  std::string trace = fmt("%s(%u), %zu connections at once", threads ? "pool" : "serial", threads, n);
  vh::mark(trace);
  {
    std::vector<std::unique_ptr<Peer> > ps;
    bool ok = true;
    for (size_t k = 0; k < n && ok; ++k) {
      ps.emplace_back(new Peer);
      if (!ps.back()->open(f.port)) { notes.bad("refused", fmt("connection %zu is refused (%s)", k, strerror(errno))); ok = false; }
    }
    for (int round = 0; round < 2 && ok; ++round) {
      std::vector<size_t> order(n);
      for (size_t k = 0; k < n; ++k) order[k] = k;
      for (size_t k = n; k > 1; --k) std::swap(order[k - 1], order[r.below(k)]);
      auto name = [&](size_t k) { return fmt("%ld.%zu.%d", i, k, round); };
      for (size_t k : order) {
        t.expect(name(k), 1);
        if (!ps[k]->send(post(work_xml(name(k), "p", 0, 0), "", true))) { notes.bad("dropped", fmt("connection %zu of %zu is dropped", k, n)); ok = false; break; }
      }
      for (size_t k = 0; k < n && ok; ++k) {
        Msg m;
        if (!ps[k]->message(m)) { notes.bad(ps[k]->eof ? "dropped" : "no-answer", fmt("connection %zu of %zu: no response", k, n)); ok = false; break; }
        Answer a = answer(m.body);
        if (m.status != 200 || !a.ok || a.text != expected(name(k), "p", 0, 0)) { notes.bad("wrong-response", name(k) + ": " + m.first + " " + vh::esc(m.body, 300)); ok = false; }
        else ++t.answered;
      }
      if (ok && !round) {
        iqnet::Inet_addr addr("127.0.0.1", f.port);
        t.client(r.next(), fmt("%ld.lib", i), r.chance(1, 2) ? LIB_KEEP : LIB_ONCE, 3, addr);
      }
    }
  }
  if (f.returned) notes.bad("loop-ended", "work() ended: " + f.died);
  if (!f.stop()) { vh::fail("stop", trace + ": the event loop does not end"); vh::finish_now(1); }
  f.destroy();
  t.settle();
  notes.report(trace);
  vh::count("calls answered", t.answered);
  vh::count("crowds of connections");
  if (n > 1000) vh::count("crowds of more than a thousand connections");
  vh::distinct(trace);
  vh::sample(trace);
}

static void c09(long i, Rng& r)
{
  long turn = i % 800 / 8;
  if (turn == 10) { many_calls(i, r); return; }
  if (turn == 20) { crowd(i, r); return; }
  unsigned threads = r.pick(std::vector<unsigned>{0, 1, 2, 3, 4, 8});
  noise(r);
  Notes notes;
  Fixture f(threads);
  f.method("work", work_method(notes));
  f.surround(r);
  f.begin(r);
  Traffic t(f.port, notes);
  int clients = 1 + (int)r.below(8), calls = 1 + (int)r.below(5);
  std::string trace = fmt("%s(%u)%s, %d clients x %d:", threads ? "pool" : "serial", threads, f.around.c_str(), clients, calls);
  iqnet::Inet_addr addr("127.0.0.1", f.port);
  std::vector<std::thread> ts;
  std::vector<std::pair<uint64_t, int> > cs;
  for (int c = 0; c < clients; ++c) {
    cs.push_back(std::make_pair(r.next(), (int)r.below(NCLIENTS)));
    trace += fmt(" %d", cs.back().second);
  }
  trace += fmt(" frag %u cut %u delay %u/%u", shim::st().frag.load(), shim::st().cut.load(), shim::st().delay.load(), shim::st().delay_us.load());
  vh::mark(trace);
  for (int c = 0; c < clients; ++c)
    ts.emplace_back([&, c] { t.client(cs[c].first, fmt("%ld.%d", i, c), cs[c].second, calls, addr); });
  join_all(ts);
  std::string died = f.returned ? "work() ended: " + f.died : "";
  if (!died.empty()) notes.bad("loop-ended", died);
  if (!f.stop()) { vh::fail("stop", trace + ": the event loop does not end"); vh::finish_now(1); }
  f.destroy();
  t.settle();
  notes.report(trace);
  vh::count("calls answered", t.answered);
  vh::count("executions logged", (long)notes.runs.size());
  if (threads) vh::count("pool histories"); else vh::count("serial histories");
  if (clients > 1 && t.answered > 1) vh::count("concurrent histories");
  vh::distinct(trace);
  if (i % 101 < 2) vh::sample(trace);
}

// ---------------------------------------------------------------- C13
class Log_interceptor: public Interceptor {
  std::atomic<long>& n;
public:
  explicit Log_interceptor(std::atomic<long>& c): n(c) {}
  void process(Method* m, const Param_list& p, Value& v)
  {
    ++n;
    yield(m, p, v);
  }
};

class Plugin: public Auth_Plugin_base {
public:
  bool do_authenticate(const std::string& u, const std::string&) const { return u != "no"; }
  bool do_authenticate_anonymous() const { return true; }
};

static iqnet::ssl::Ctx* tls_ctx()
{
  static iqnet::ssl::Ctx* c = [] {
    iqnet::ssl::Ctx* x = 0;
    Identity id("localhost", 7);
    with_files(id, [&](const std::string& cf, const std::string& kf) { x = iqnet::ssl::Ctx::client_server(cf, kf); });
    return x;
  }();
  return c;
}

static void c13(long i, Rng& r)
{
  unsigned threads = r.pick(std::vector<unsigned>{0, 1, 2, 4, 6});
  bool tls = r.chance(1, 3), restart = r.chance(1, 2), introspect = r.chance(1, 2);
  noise(r);
  Notes notes;
  std::atomic<long> seen(0);
  Plugin plugin;
  std::ostringstream log;
  int port = free_port();
  Fixture f(Fixture::No_server(), threads);
  if (tls) {
    iqnet::ssl::ctx = tls_ctx();
    f.server.reset(new Https_server(iqnet::Inet_addr(port), f.factory.get()));
  } else
    f.server.reset(new Http_server(iqnet::Inet_addr(port), f.factory.get()));
  f.method("work", work_method(notes));
  std::atomic<long> logged(0), stops(0);
  f.method("log", [&](Method* m, const Param_list&, Value& v) { m->server().log_message("a message"); ++logged; v = Value(1); });
  f.method("stop", [&](Method* m, const Param_list&, Value& v) { m->server().set_exit_flag(); ++stops; v = Value(1); });
  f.method("throw", [&](Method*, const Param_list&, Value&) { throw std::runtime_error("text"); });
  f.server->push_interceptor(new Log_interceptor(seen));
  if (r.chance(1, 2)) f.server->push_interceptor(new Log_interceptor(seen));
  if (introspect) f.server->enable_introspection();
  if (r.chance(1, 2)) f.server->log_errors(&log);
  if (r.chance(1, 2)) f.server->set_auth_plugin(plugin);
  f.start();
  int clients = 2 + (int)r.below(6), calls = 2 + (int)r.below(4);
  int stoppers = restart ? 1 + (int)r.below(3) : 0, interrupters = (int)r.below(3);
  std::string trace = fmt("%s %s(%u), %d clients x %d, %d stoppers, %d interrupters", tls ? "https" : "http", threads ? "pool" : "serial", threads, clients, calls, stoppers, interrupters);
  vh::mark(trace);
  Traffic t(port, notes);
  t.tls = tls;
  t.lax = restart;
  // another server of the same process, which has nothing to do with the first one
  std::unique_ptr<Fixture> other;
  Notes notes2;
  std::unique_ptr<Traffic> t2;
  int others = 0;
  if (r.chance(1, 3)) {
    int port2 = free_port();
    other.reset(new Fixture(Fixture::No_server(), r.pick(std::vector<unsigned>{0, 2})));
    if (tls) other->server.reset(new Https_server(iqnet::Inet_addr(port2), other->factory.get()));
    else other->server.reset(new Http_server(iqnet::Inet_addr(port2), other->factory.get()));
    other->method("work", work_method(notes2));
    other->start();
    t2.reset(new Traffic(port2, notes2));
    t2->tls = tls;
    others = 1 + (int)r.below(3);
    trace += fmt(", another server with %d clients", others);
    vh::count("two servers at a time");
  }
  iqnet::Inet_addr addr("localhost", port);      // resolved by whichever client comes first
  std::vector<std::thread> ts, control;
  std::atomic<bool> over(false);
  std::atomic<int> running(clients + 2 + others);
  for (int c = 0; c < clients; ++c) {
    uint64_t seed = r.next();
    int kind = tls ? (r.chance(1, 2) ? LIB_KEEP : LIB_ONCE) : (int)r.below(NCLIENTS);
    ts.emplace_back([&, seed, kind, c] { t.client(seed, fmt("%ld.%d", i, c), kind, calls, addr); --running; });
  }
  for (int c = 0; c < others; ++c) {
    uint64_t seed = r.next();
    int kind = tls ? (r.chance(1, 2) ? LIB_KEEP : LIB_ONCE) : (int)r.below(NCLIENTS);
    ts.emplace_back([&, seed, kind, c] {
      iqnet::Inet_addr a("localhost", t2->port);
      t2->client(seed, fmt("%ld.o%d", i, c), kind, calls, a);
      --running;
    });
  }
  // callers of the other methods
  for (int c = 0; c < 2; ++c) {
    uint64_t seed = r.next();
    ts.emplace_back([&, seed] {
      Rng q(seed);
      for (int k = 0; k < calls; ++k) {
        try {
          std::string m = q.pick(std::vector<std::string>{"log", "log", "throw", "nobody", restart ? "stop" : "log", introspect ? "system.listMethods" : "log"});
          Param_list pl;
          if (tls) { Https_client cl(addr); cl.set_authinfo(q.pick(std::vector<std::string>{"", "u", "no"}), "p"); cl.execute(m, pl); }
          else { Http_client cl(addr); cl.set_authinfo(q.pick(std::vector<std::string>{"", "u", "no"}), "p"); cl.execute(m, pl); }
          vh::count("calls of methods that use the server");
        } catch (const std::exception&) {}
      }
      --running;
    });
  }
  for (int c = 0; c < interrupters; ++c)
    control.emplace_back([&] { while (!over) { f.server->interrupt(); vh::count("interrupts"); usleep(700); } });
  for (int c = 0; c < stoppers; ++c)
    control.emplace_back([&] { while (!over) { usleep(4000); f.server->set_exit_flag(); vh::count("stop requests"); } });
  // the loop is run again whenever it ended
  Deadline d(LONG_MS * 3);
  std::string broke;
  while (running > 0 && !d.over()) {
    if (f.returned) {
      f.thread.join();
      if (!f.died.empty()) { broke = f.died; f.died.clear(); }
      vh::count("restarts");
      f.returned = false;
      f.thread = std::thread([&f] {
        try { f.server->work(); } catch (const std::exception& e) { f.died = e.what(); }
        f.returned = true;
      });
    }
    usleep(500);
  }
  if (running > 0) { vh::fail("no-progress", trace + fmt(": %d clients do not come to an end", running.load())); vh::finish_now(1); }
  over = true;
  join_all(ts);
  join_all(control);
  if (!f.stop()) { vh::fail("stop", trace + ": the event loop does not end"); vh::finish_now(1); }
  if (!f.died.empty()) broke = f.died;
  if (other) {
    if (!other->stop()) { vh::fail("stop", trace + ": the event loop of the other server does not end"); vh::finish_now(1); }
    if (!other->died.empty()) notes.bad("loop-threw", "work() of the other server threw " + other->died);
    other->destroy();
    t2->settle();
    notes2.report(trace + " (other server)");
    vh::count("calls answered by the other server", t2->answered);
  }
  if (!broke.empty()) notes.bad("loop-threw", "work() threw " + broke);
  f.destroy();
  t.settle();
  notes.report(trace);
  vh::count("calls answered", t.answered);
  if (tls) vh::count("calls answered over TLS", t.answered);
  vh::count("messages logged from methods", logged);
  vh::count("stops by methods", stops);
  vh::count("interceptor runs", seen);
  vh::distinct(trace + fmt(" %ld", i));
  if (i % 13 < 2) vh::sample(trace + fmt(": %ld answered", t.answered.load()));
}

// ---------------------------------------------------------------- C14
//! Runs `f` in a thread; false when it does not end.
template <class F> bool ends(F f)
{
  std::atomic<bool> done(false);
  std::thread t([&] { f(); done = true; });
  if (!wait_for([&] { return done.load(); })) { t.detach(); return false; }
  t.join();
  return true;
}

static void c14_pool(long i, Rng& r)
{
  int rounds = 1 + (int)r.below(6);
  std::string trace = "pools:";
  for (int k = 0; k < rounds; ++k) {
    unsigned n = r.pick(std::vector<unsigned>{0, 1, 1, 2, 4, 16, 40}), more = r.chance(1, 3) ? (unsigned)r.below(5) : 0;
    int wait = r.pick(std::vector<int>{-1, 0, 100, 3000});
    trace += fmt(" %u+%u/%d", n, more, wait);
    vh::mark(trace);
    int before = thread_count();
    Pool_executor_factory* p = new Pool_executor_factory(n);
    if (wait >= 0) usleep(wait);
    p->add_threads(more);
    if (r.chance(1, 2) && wait > 0) usleep(r.below(wait));
    if (!ends([p] { delete p; })) { vh::fail("pool-destructor", trace + ": the destructor does not end"); vh::finish_now(1); }
    if (!wait_for([&] { return thread_count() <= before; })) { vh::fail("threads-left", trace + fmt(": %d threads, %d before", thread_count(), before)); return; }
    vh::count("idle pools destroyed");
  }
  vh::distinct(trace);
}

//! Holds the calls of the current round; those of earlier rounds pass.
struct Gate {
  std::mutex m;
  std::condition_variable c;
  int held;                     // round whose calls wait
  std::atomic<int> inside;
  Gate(): held(-1), inside(0) {}
  void pass(int round)
  {
    std::unique_lock<std::mutex> l(m);
    if (held != round) return;
    ++inside;
    c.wait(l, [&] { return held != round; });
    --inside;
  }
  void release() { std::lock_guard<std::mutex> g(m); held = -1; c.notify_all(); }
  void shut(int round) { std::lock_guard<std::mutex> g(m); held = round; }
};

enum Stop_kind { BEFORE_START, AT_START, LISTENING, FROM_METHOD, MANY_THREADS, IN_TRAFFIC, POOL_BUSY, AFTER_SILENCE, NSTOPS };
static const char* stop_name[] = {"before start", "at start", "listening", "from a method", "many threads", "in traffic", "pool busy", "after silence"};

static bool refused(int port)
{
  Peer p;
  return !p.open(port);
}

//! Whether something listens at 127.0.0.host.
static bool listens(int port, int host)
{
  int fd = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a;
  memset(&a, 0, sizeof a);
  a.sin_family = AF_INET;
  a.sin_port = htons(port);
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK - 1 + host);
  bool ok = ::connect(fd, (sockaddr*)&a, sizeof a) == 0;
  ::close(fd);
  return ok;
}

static void c14(long i, Rng& r)
{
  if (r.chance(1, 4)) { c14_pool(i, r); return; }
  unsigned threads = r.pick(std::vector<unsigned>{0, 0, 1, 2, 4});
  noise(r);
  int fds = open_fds(), ths = thread_count();
  std::string trace = fmt("%s(%u):", threads ? "pool" : "serial", threads);
  {
    int port = free_port();
    Gate gate;
    Notes notes;
    const char* at = r.pick(std::vector<const char*>{"", "", "127.0.0.1", "localhost"});
    Fixture f(threads, *at ? iqnet::Inet_addr(at, port) : iqnet::Inet_addr(port));
    if (*at) trace += std::string(" at ") + at;
    f.method("echo", [](Method*, const Param_list& p, Value& v) { v = p.at(0); });
    f.method("stop", [](Method* m, const Param_list&, Value& v) { m->server().set_exit_flag(); v = Value(1); });
    f.method("gate", [&](Method*, const Param_list& p, Value& v) { gate.pass(p.at(0).get_int()); v = Value(1); });
    f.method("work", work_method(notes));
    std::vector<std::unique_ptr<Peer> > kept;
    int rounds = 1 + (int)r.below(4);
    for (int k = 0; k < rounds; ++k) {
      int kind = (int)r.below(NSTOPS);
      if (kind == POOL_BUSY && !threads) kind = LISTENING;
      bool serve = kind != BEFORE_START && kind != AT_START && r.chance(3, 4);
      trace += std::string(" ") + stop_name[kind] + (serve ? "+" : "") + ",";
      vh::mark(trace);
      gate.shut(k);
      f.returned = false;
      f.died.clear();
      shim::st().listen_port = 0;
      shim::st().wanted_port = port;
      auto hung = [&](const char* what) { vh::fail(std::string("stop:") + stop_name[kind], trace + " " + what); vh::finish_now(1); };
      if (kind == BEFORE_START) { f.server->set_exit_flag(); if (r.chance(1, 3)) f.server->set_exit_flag(); }
      f.thread = std::thread([&f] {
        try { f.server->work(); } catch (const std::exception& e) { f.died = std::string(typeid(e).name()) + " " + e.what(); }
        f.returned = true;
      });
      std::vector<std::thread> ts;
      Traffic t(port, notes);
      t.lax = true;
      if (kind != BEFORE_START && kind != AT_START) {
        if (!wait_for([&] { return shim::st().listen_port == port || f.returned; })) hung("does not listen");
        if (f.returned) { vh::fail("loop-ended", trace + " work() returned unasked: " + f.died); f.thread.join(); return; }
        if (serve) {
          std::string c = canary(port);
          if (!c.empty()) { vh::fail("serve", trace + " " + c); f.stop(); return; }
          vh::count("rounds that served");
          if (k) vh::count("restarts that served");
          if (listens(port, 7) != !*at) { vh::fail("address", trace + (*at ? ": also listens at another address" : ": does not listen at every address")); f.stop(); return; }
          vh::count(*at ? "servers at one address" : "servers at all addresses");
          // a connection that stays open
          kept.emplace_back(new Peer);
          Msg m;
          if (!kept.back()->open(port) || !kept.back()->send(post(call_xml("echo", {str("k")}), "", true)) || !kept.back()->message(m)) { vh::fail("serve", trace + " no answer on a kept connection"); f.stop(); return; }
        }
      }
      switch (kind) {
      case AT_START: if (r.chance(1, 2)) usleep(r.below(400)); f.server->set_exit_flag(); break;
      case LISTENING: f.server->set_exit_flag(); break;
      case AFTER_SILENCE: usleep(r.below(60000)); f.server->set_exit_flag(); break;
      case FROM_METHOD: {
        kept.emplace_back(new Peer);
        if (!kept.back()->open(port) || !kept.back()->send(post(call_xml("stop", {}), "", r.chance(1, 2)))) { vh::fail("serve", trace + " connection refused"); f.stop(); return; }
        break; }
      case MANY_THREADS:
        for (int q = 0; q < 4; ++q) ts.emplace_back([&f] { f.server->set_exit_flag(); });
        break;
      case IN_TRAFFIC: {
        iqnet::Inet_addr addr("127.0.0.1", port);
        for (int q = 0; q < 3; ++q) { uint64_t s = r.next(); ts.emplace_back([&t, s, addr, i, k, q] { Rng x(s); t.client(s, fmt("%ld.%d.%d", i, k, q), (int)x.below(LIB_KEEP), 4, addr); }); }
        usleep(r.below(3000));
        f.server->set_exit_flag();
        break; }
      case POOL_BUSY: {
        int busy = 1 + (int)r.below(threads + 2);
        for (int q = 0; q < busy; ++q) { kept.emplace_back(new Peer); if (kept.back()->open(port)) kept.back()->send(post(call_xml("gate", {fmt("<int>%d</int>", k)}), "", true)); }
        if (!wait_for([&] { return gate.inside >= std::min(busy, (int)threads); })) hung("methods do not start");
        f.server->set_exit_flag();
        break; }
      default: break;
      }
      if (!wait_for([&] { return f.returned.load(); })) hung("the event loop does not end");
      f.thread.join();
      gate.release();
      if (kind == IN_TRAFFIC) for (auto& p : kept) p->close();
      // peers of the traffic are waiting for answers that do not come: let the loop run once more
      if (kind == IN_TRAFFIC) {
        std::atomic<bool> done(false);
        std::thread again([&] { while (!done) { try { f.server->work(); } catch (const std::exception& e) { if (f.died.empty()) f.died = e.what(); } } });
        join_all(ts);
        done = true;
        f.server->set_exit_flag();
        if (!ends([&] { again.join(); })) hung("the event loop does not end after traffic");
      } else
        join_all(ts);
      if (kind == IN_TRAFFIC || kind == MANY_THREADS) {
        // a stop request may still be pending: it ends the next run at once
        f.server->set_exit_flag();
        if (!ends([&] { f.server->work(); })) hung("a pending stop request does not end the event loop");
      }
      if (!f.died.empty()) { vh::fail("loop-threw", trace + " " + f.died); return; }
      if (!refused(port)) { vh::fail("port", trace + " the port still takes connections"); return; }
      vh::count("stops");
      vh::count(std::string("stop: ") + stop_name[kind]);
      if (kind == POOL_BUSY && !wait_for([&] { return gate.inside == 0; })) hung("methods do not end");
      // threads that stopped the loop late would stop the next one
    }
    // the end: with connections open, and perhaps calls running
    if (threads && r.chance(1, 2)) {
      gate.shut(rounds);
      f.start();
      int busy = 1 + (int)r.below(threads + 3);
      for (int q = 0; q < busy; ++q) { kept.emplace_back(new Peer); if (kept.back()->open(port)) kept.back()->send(post(call_xml("gate", {fmt("<int>%d</int>", rounds)}), "", true)); }
      if (!wait_for([&] { return gate.inside >= std::min(busy, (int)threads); })) { vh::fail("start", trace + " methods do not start"); vh::finish_now(1); }
      if (!f.stop()) { vh::fail("stop:pool busy", trace + " the event loop does not end"); vh::finish_now(1); }
      std::thread opener([&] { usleep(2000); gate.release(); });
      if (!ends([&] { f.factory.reset(); })) { vh::fail("pool-destructor", trace + " the destructor of a busy pool does not end"); vh::finish_now(1); }
      opener.join();
      vh::count("busy pools destroyed");
      trace += " busy end";
    }
    int open = 0;
    for (auto& p : kept) if (p->fd >= 0) ++open;
    if (!ends([&] { f.destroy(); })) { vh::fail("destroy", trace + " destruction does not end"); vh::finish_now(1); }
    for (auto& p : kept)
      if (p->fd >= 0 && !p->ended()) { vh::fail("open-connection", trace + " a connection outlives its server"); return; }
    vh::count("connections open at the end", open);
    vh::count("servers destroyed");
  }
  if (!wait_for([&] { return open_fds() <= fds && thread_count() <= ths; }, 5000)) {
    std::string list;
    int n = open_fds(&list);
    vh::fail("left-behind", trace + fmt(" %d descriptors (%d before), %d threads (%d before): ", n, fds, thread_count(), ths) + list);
  }
  vh::distinct(trace);
  if (i % 41 < 2) vh::sample(trace);
}

// ---------------------------------------------------------------- C25
//! Methods that wait for their own release, with a log of starts.
struct Gates {
  std::mutex m;
  std::condition_variable c;
  std::vector<std::string> started;
  std::set<std::string> released, running;
  int peak;
  Gates(): peak(0) {}
  void enter(const std::string& id)
  {
    std::unique_lock<std::mutex> l(m);
    started.push_back(id);
    running.insert(id);
    peak = std::max(peak, (int)running.size());
    c.wait(l, [&] { return released.count(id) != 0; });
    running.erase(id);
  }
  void release(const std::string& id) { std::lock_guard<std::mutex> g(m); released.insert(id); c.notify_all(); }
  size_t starts() { std::lock_guard<std::mutex> g(m); return started.size(); }
  std::string start(size_t k) { std::lock_guard<std::mutex> g(m); return k < started.size() ? started[k] : ""; }
  std::vector<std::string> now_running() { std::lock_guard<std::mutex> g(m); return std::vector<std::string>(running.begin(), running.end()); }
};

//! Makes the event loop busy while a method object is made.
class Holding_factory: public Method_factory_base {
  struct M: Method { void execute(const Param_list&, Value& v) { v = 1; } };
  std::atomic<bool>& hold;
  std::atomic<bool>& held;
public:
  Holding_factory(std::atomic<bool>& a, std::atomic<bool>& b): hold(a), held(b) {}
  Method* create() { held = true; while (hold) usleep(50); return new M; }
};

static void c25(long i, Rng& r)
{
  shim::calm();
  shim::seed(r.next());
  shim::st().delay = r.pick(std::vector<int>{0, 0, 10, 40});
  shim::st().delay_us = r.pick(std::vector<int>{0, 100, 1000});
  Gates g;
  unsigned threads = 1 + (unsigned)r.below(5);
  Fixture f(threads);
  f.method("gate", [&g](Method*, const Param_list& p, Value& v) { g.enter(p.at(0).get_string()); v = p.at(0); });
  f.method("echo", [](Method*, const Param_list& p, Value& v) { v = p.at(0); });
  std::atomic<bool> hold(false), held(false);
  f.server->register_method("hold", new Holding_factory(hold, held));
  f.surround(r);
  f.begin(r);
  std::string trace = fmt("pool of %u%s:", threads, f.around.c_str());
  std::map<std::string, std::unique_ptr<Peer> > peers;
  std::vector<std::string> waiting;       // sent, not started, in order
  int made = 0;
  unsigned running = 0;
  size_t starts = 0;
  bool bad = false;
  auto give_up = [&](const std::string& key, const std::string& what) { vh::fail(key, trace + " " + what); bad = true; };
  auto idle = [&] { if (r.chance(1, 6)) usleep(r.below(40000)); };
  bool rush = i % 40 == 39;               // many calls wait
  int steps = rush ? 120 + (int)r.below(200) : 4 + (int)r.below(14), turn = steps * 3 / 4;
  for (int k = 0; k < steps && !bad; ++k) {
    if (!rush) idle();
    int what = !rush ? (int)r.below(12) : r.chance(1, k < turn ? 25 : 2) ? 5 : 0;
    vh::mark(trace);
    if (what < 4) {
      // one more call
      std::string id = fmt("g%ld.%d", i, made++);
      std::string req = post(call_xml("gate", {str(id)}), "", r.chance(1, 2));
      auto& p = peers[id];
      p.reset(new Peer);
      if (!p->ready(f.port)) { give_up("refused", "connection refused"); break; }
      long before = shim::st().bytes_in;
      p->send(req);
      trace += " +";
      if (running < threads) {
        if (!wait_for([&] { return g.starts() > starts; })) { give_up("not-started", fmt("a call is not started although %u of %u threads are free", threads - running, threads)); break; }
        if (g.start(starts) != id) { give_up("order", "started " + g.start(starts) + " instead of " + id); break; }
        ++starts;
        ++running;
        vh::count("calls started at once");
      } else {
        // arrived when the server has read it
        if (!wait_for([&] { return shim::st().bytes_in - before >= (long)req.size(); })) { give_up("not-read", "the request is not read while all threads are busy"); break; }
        waiting.push_back(id);
        vh::count("calls that had to wait");
        if (waiting.size() == 70) vh::count("queues of seventy calls");
      }
    } else if (what < 7 && running) {
      // one running call ends: its response must come although nothing else happens
      std::vector<std::string> now = g.now_running();
      std::string id = r.pick(now);
      idle();
      g.release(id);
      trace += " -";
      Msg m;
      if (!peers[id]->message(m)) { give_up("not-delivered", "the response of a finished call does not arrive"); break; }
      Answer a = answer(m.body);
      if (m.status != 200 || !a.ok || a.text != id) { give_up("wrong-response", "response " + m.first + " " + a.text); break; }
      vh::count("responses delivered on a silent server");
      peers.erase(id);
      --running;
      if (!waiting.empty()) {
        if (!wait_for([&] { return g.starts() > starts; })) { give_up("not-started", "a waiting call is not started when a thread becomes free"); break; }
        if (g.start(starts) != waiting.front()) { give_up("order", "started " + g.start(starts) + " before " + waiting.front()); break; }
        waiting.erase(waiting.begin());
        ++starts;
        ++running;
        vh::count("waiting calls started in order");
      }
    } else if (what == 7) {
      unsigned n = 1 + (unsigned)r.below(3);
      f.pool->add_threads(n);
      threads += n;
      trace += fmt(" add %u", n);
      size_t can = std::min<size_t>(n, waiting.size());
      if (!wait_for([&] { return g.starts() >= starts + can; })) { give_up("not-started", "added threads do not take waiting calls"); break; }
      // these start at the same moment, so only the set is determined
      std::set<std::string> got, want(waiting.begin(), waiting.begin() + can);
      for (size_t q = 0; q < can; ++q) got.insert(g.start(starts + q));
      if (got != want) { give_up("order", "added threads took other calls"); break; }
      waiting.erase(waiting.begin(), waiting.begin() + can);
      starts += can;
      running += can;
      vh::count("threads added", n);
      if (can) vh::count("waiting calls taken by added threads", can);
    } else if (what >= 10) {
      // several calls that arrive at the same moment, as the event loop was busy
      size_t room = threads - running, n = room ? 1 + r.below(room) : 0;
      if (n < 2) continue;
      std::vector<std::string> got, ids;
      hold = true;
      held = false;
      Peer first;
      if (!first.ready(f.port)) { give_up("refused", "connection refused"); break; }
      for (size_t q = 0; q < n; ++q) {
        ids.push_back(fmt("g%ld.%d", i, made++));
        auto& p = peers[ids.back()];
        p.reset(new Peer);
        if (!p->ready(f.port)) { give_up("refused", "connection refused"); break; }
      }
      std::string warm = bad ? "" : canary(f.port);          // all of them are accepted
      if (!warm.empty()) give_up("delayed", warm);
      if (!bad) first.send(post(call_xml("hold", {}), "", false));
      if (!bad && !wait_for([&] { return held.load(); })) give_up("not-created", "no method object is made");
      if (!bad) for (auto& id : ids) peers[id]->send(post(call_xml("gate", {str(id)}), "", r.chance(1, 2)));
      usleep(300);
      hold = false;
      trace += fmt(" %zu at once", n);
      Msg m;
      if (!bad && !first.message(m)) give_up("not-delivered", "the response of a call does not arrive");
      if (bad) break;
      if (!wait_for([&] { return g.starts() >= starts + n; })) { give_up("not-started", fmt("only %zu of %zu calls are started that came at the same moment, %zu threads are free", g.starts() - starts, n, room)); break; }
      for (size_t q = 0; q < n; ++q) got.push_back(g.start(starts + q));
      std::sort(got.begin(), got.end());
      std::sort(ids.begin(), ids.end());
      if (got != ids) { give_up("order", "other calls were started"); break; }
      starts += n;
      running += n;
      vh::count("calls started that came at the same moment", n);
    } else {
      // another connection while some methods are blocked
      if (running < threads) {
        std::string c = canary(f.port);
        if (!c.empty()) { give_up("delayed", fmt("another call while %u of %u threads are blocked: ", running, threads) + c); break; }
        trace += " c";
        vh::count(running ? "other calls answered while methods block" : "other calls answered");
      }
    }
    if (!bad && g.starts() != starts) give_up("order", "a call was started that had to wait");
    if (!bad && g.peak > (int)threads) give_up("too-many", "more calls at a time than threads");
    if (!bad && running == threads) vh::count("moments with all threads in use");
  }
  for (auto& p : peers) g.release(p.first);
  for (auto& p : peers) {
    Msg m;
    if (bad) break;
    if (!p.second->message(m)) give_up("not-delivered", "a response does not arrive at the end");
    else if (answer(m.body).text != p.first) give_up("wrong-response", "response " + answer(m.body).text + " for " + p.first);
  }
  if (!bad && (g.starts() != (size_t)made)) give_up("runs", fmt("%zu starts of %d calls", g.starts(), made));
  { std::lock_guard<std::mutex> l(g.m); for (int k = 0; k < made; ++k) g.released.insert(fmt("g%ld.%d", i, k)); g.c.notify_all(); }
  if (!f.stop()) { vh::fail("stop", trace + " the event loop does not end"); vh::finish_now(1); }
  if (!ends([&] { f.destroy(); })) { vh::fail("destroy", trace + " destruction does not end"); vh::finish_now(1); }
  vh::distinct(trace);
  if (i % 41 < 2) vh::sample(trace);
}

int main(int argc, char** argv)
{
  vh::init(argc, argv, "C09");
  init_xml();
  heart();
  const std::string p = vh::opts().prop;
  if (p == "C09") vh::run_cases(c09, 100);
  else if (p == "C13") vh::run_cases(c13, 0);
  else if (p == "C14") vh::run_cases(c14, 100);
  else if (p == "C25") vh::run_cases(c25, 100);
  else vh::broken("no such property " + p);
  shim::calm();
  return vh::finish();
}
