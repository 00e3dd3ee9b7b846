// TLS: C20. The raw peers use OpenSSL on memory buffers, so that the harness
// decides which bytes travel when and no signal of theirs hides one of the library's.
#include "net.h"

#include <algorithm>

using namespace net;
using namespace iqxmlrpc;

typedef Client<Https_client_connection> Https_client;

// ---------------------------------------------------------------- raw TLS peer
struct Tls_peer {
  Peer p;
  SSL_CTX* cx;
  SSL* s;
  BIO *rd, *wr;
  std::string in;               // decrypted
  bool closed;                  // close_notify or end of stream
  bool clean;
  std::string error;

  Tls_peer(): cx(0), s(0), rd(0), wr(0), closed(false), clean(false) {}
  ~Tls_peer() { drop(); }
  Tls_peer(const Tls_peer&) = delete;
  Tls_peer& operator=(const Tls_peer&) = delete;

  void drop()
  {
    if (s) SSL_free(s);
    if (cx) SSL_CTX_free(cx);
    s = 0;
    cx = 0;
    p.close();
  }

  void init(bool server, Identity* id, int version = 0)
  {
    cx = SSL_CTX_new(server ? TLS_server_method() : TLS_client_method());
    if (!cx) vh::broken("no SSL_CTX");
    if (version) { SSL_CTX_set_min_proto_version(cx, version); SSL_CTX_set_max_proto_version(cx, version); }
    SSL_CTX_set_verify(cx, SSL_VERIFY_NONE, 0);
    if (id && (SSL_CTX_use_certificate(cx, id->cert) != 1 || SSL_CTX_use_PrivateKey(cx, id->key) != 1)) vh::broken("certificate of a peer");
    s = SSL_new(cx);
    rd = BIO_new(BIO_s_mem());
    wr = BIO_new(BIO_s_mem());
    SSL_set_bio(s, rd, wr);
    if (server) SSL_set_accept_state(s); else SSL_set_connect_state(s);
  }

  bool flush()
  {
    char b[16384];
    std::string o;
    int n;
    while ((n = BIO_read(wr, b, sizeof b)) > 0) o.append(b, n);
    return o.empty() || p.send(o);
  }

  //! Takes what came from the network; false at its end.
  bool feed(int ms)
  {
    p.pull(ms);
    if (!p.in.empty()) { BIO_write(rd, p.in.data(), (int)p.in.size()); p.in.clear(); return true; }
    return !p.eof;
  }

  bool handshake(int ms = LONG_MS)
  {
    Deadline d(ms);
    for (;;) {
      ERR_clear_error();
      int r = SSL_do_handshake(s);
      flush();
      if (r == 1) return true;
      int e = SSL_get_error(s, r);
      if (e != SSL_ERROR_WANT_READ) { error = fmt("handshake error %d", e); return false; }
      if (!feed(d.left_ms() + 1)) { error = "ended in the handshake"; return false; }
      if (d.over()) { error = "handshake takes no end"; return false; }
    }
  }

  bool send(const std::string& m)
  {
    size_t pos = 0;
    while (pos < m.size()) {
      ERR_clear_error();
      int r = SSL_write(s, m.data() + pos, (int)std::min<size_t>(m.size() - pos, 16384));
      if (r <= 0) { error = "write"; return false; }
      pos += r;
      if (!flush()) return false;
    }
    return true;
  }

  //! As send, with a pause in the middle of a record.
  bool send_split(const std::string& m, size_t at, int us)
  {
    ERR_clear_error();
    if (SSL_write(s, m.data(), (int)m.size()) != (int)m.size()) { error = "write"; return false; }
    std::string o;
    char b[16384];
    int n;
    while ((n = BIO_read(wr, b, sizeof b)) > 0) o.append(b, n);
    at %= o.size();
    if (!p.send(o.substr(0, at))) return false;
    usleep(us);
    return p.send(o.substr(at));
  }

  //! Decrypts what is there or comes within `ms`.
  bool pull(int ms)
  {
    Deadline d(ms);
    for (;;) {
      char b[16384];
      ERR_clear_error();
      int r = SSL_read(s, b, sizeof b);
      flush();
      if (r > 0) { in.append(b, r); return true; }
      int e = SSL_get_error(s, r);
      if (e == SSL_ERROR_ZERO_RETURN) { closed = clean = true; return false; }
      if (e != SSL_ERROR_WANT_READ) { closed = true; error = fmt("read error %d", e); return false; }
      if (!feed(d.left_ms() + 1)) { closed = true; return false; }
      if (d.over()) return false;
    }
  }

  bool message(Msg& m, int ms = LONG_MS)
  {
    Deadline d(ms);
    for (;;) {
      if (take(in, m)) return true;
      if (!pull(d.left_ms() + 1) && (closed || d.over())) return take(in, m);
    }
  }

  bool ended(int ms = LONG_MS)
  {
    Deadline d(ms);
    while (!p.eof && !d.over()) { if (!closed) pull(d.left_ms() + 1); else p.pull(d.left_ms() + 1); }
    return p.eof;
  }
};

// ---------------------------------------------------------------- identities and verifiers
static std::vector<Identity*>& ids()
{
  static std::vector<Identity*>* v = [] {
    auto* x = new std::vector<Identity*>;
    for (int i = 0; i < 4; ++i) x->push_back(new Identity(fmt("peer%d", i), 100 + i));
    return x;
  }();
  return *v;
}

struct Verifier: public iqnet::ssl::ConnectionVerifier {
  std::set<std::string> good;           // digests accepted
  bool all, throws;
  mutable std::mutex m;
  mutable std::vector<std::string> seen;
  Verifier(): all(false), throws(false) {}
  int do_verify(bool, X509_STORE_CTX* c) const
  {
    std::string f = cert_finger_sha256(c);
    { std::lock_guard<std::mutex> g(m); seen.push_back(f); }
    if (all || good.count(f)) return 1;
    if (throws) throw std::runtime_error("no");
    return 0;
  }
  std::vector<std::string> log() const { std::lock_guard<std::mutex> g(m); return seen; }
};

//! The context of the library for one case.
struct Scope {
  std::unique_ptr<iqnet::ssl::Ctx> cx;
  explicit Scope(Identity& id)
  {
    with_files(id, [&](const std::string& c, const std::string& k) { cx.reset(iqnet::ssl::Ctx::client_server(c, k)); });
    iqnet::ssl::ctx = cx.get();
  }
  ~Scope() { iqnet::ssl::ctx = 0; }
};

struct Runs {
  std::mutex m;
  std::map<std::string, int> n;
  void add(const std::string& id) { std::lock_guard<std::mutex> g(m); ++n[id]; }
  int of(const std::string& id) { std::lock_guard<std::mutex> g(m); return n.count(id) ? n[id] : 0; }
};

static std::string filler(Rng& r, size_t n)
{
  std::string s(n, ' ');
  for (size_t i = 0; i < n; ++i) s[i] = "abcdefghijklmnop0123456789ABCDEF"[r.next() & 31];
  return s;
}

static size_t some_size(Rng& r)
{
  switch (r.below(8)) {
  case 0: return 0;
  case 1: return 16384 * r.range(1, 4) - r.below(900);
  case 2: return r.below(400000);
  case 3: return 65536 * r.range(1, 3) - r.below(700);
  default: return r.below(2000);
  }
}

static void more_of(Rng& q, std::string& payload, int& more)
{
  if (q.chance(1, 3)) payload.append(2000000 + q.below(4000000), 'l');
  else more += 2000000 + q.below(6000000);
  vh::count("calls of several megabytes");
}

static void server_for(Fixture& f, Runs& runs)
{
  f.server.reset(new Https_server(iqnet::Inet_addr(0), f.factory.get()));
  f.method("echo", [&runs](Method*, const Param_list& p, Value& v) {
    runs.add(p.at(0).get_string());
    if (p.size() > 2 && p.at(2).get_int()) usleep(p.at(2).get_int());
    std::string s = p.at(0).get_string() + ":" + p.at(1).get_string();
    if (p.size() > 3) s += std::string(p.at(3).get_int(), 'r');
    v = Value(s);
  });
}

static std::string echo_xml(const std::string& id, const std::string& payload, int pause = 0, int more = 0)
{
  return call_xml("echo", {str(id), str(payload), fmt("<int>%d</int>", pause), fmt("<int>%d</int>", more)});
}

static void noise(Rng& r)
{
  shim::calm();
  shim::seed(r.next());
  shim::st().frag = r.pick(std::vector<int>{0, 0, 20, 60});
  shim::st().cut = r.pick(std::vector<int>{0, 0, 20, 60});
  shim::st().delay = r.pick(std::vector<int>{0, 0, 10});
  shim::st().delay_us = r.pick(std::vector<int>{0, 300});
}

struct Notes {
  std::mutex m;
  std::vector<std::pair<std::string, std::string> > problems;
  void bad(const std::string& key, const std::string& what) { std::lock_guard<std::mutex> g(m); problems.push_back(std::make_pair(key, what)); }
  bool report(const std::string& trace)
  {
    std::lock_guard<std::mutex> g(m);
    for (auto& p : problems) vh::fail(p.first, trace + ": " + p.second);
    return !problems.empty();
  }
};

//! What a call through the library client gives.
static std::string lib_call(Https_client& cl, const std::string& id, const std::string& payload, int pause, int more, std::string& err)
{
  Param_list pl;
  pl.push_back(id); pl.push_back(payload); pl.push_back(pause); pl.push_back(more);
  err.clear();
  try {
    Response resp = cl.execute("echo", pl);
    if (resp.is_fault()) { err = "fault " + resp.fault_string(); return ""; }
    return resp.value().get_string();
  }
  catch (const Client_timeout& e) { err = std::string("Client_timeout ") + e.what(); }
  catch (const std::exception& e) { err = std::string(typeid(e).name()) + " " + e.what(); }
  return "";
}

static bool stop(Fixture& f, const std::string& trace)
{
  if (f.returned) { vh::fail("loop-ended", trace + ": work() ended: " + f.died); f.thread.join(); return false; }
  if (!f.stop()) { vh::fail("stop", trace + ": the event loop does not end"); vh::finish_now(1); }
  return true;
}

// ---------------------------------------------------------------- same results as over plain HTTP
static void results(long i, Rng& r)
{
  unsigned threads = r.pick(std::vector<unsigned>{0, 0, 1, 3});
  noise(r);
  Identity& id = *r.pick(ids());
  Scope scope(id);
  Runs runs;
  Notes notes;
  Fixture f(Fixture::No_server(), threads);
  server_for(f, runs);
  f.begin(r);
  int clients = 1 + (int)r.below(4), calls = 1 + (int)r.below(4);
  bool large = r.chance(1, 12);
  if (large) { clients = calls = 1; shim::calm(); }
  std::string trace = fmt("results%s %s(%u) %d x %d frag %u cut %u", large ? " large" : "", threads ? "pool" : "serial", threads, clients, calls, shim::st().frag.load(), shim::st().cut.load());
  std::vector<std::thread> ts;
  std::atomic<long> answered(0);
  for (int c = 0; c < clients; ++c) {
    uint64_t seed = r.next();
    int kind = (int)r.below(4);
    trace += fmt(" %d", kind);
    ts.emplace_back([&, seed, kind, c] {
      Rng q(seed);
      if (kind < 2) {
        Https_client cl(iqnet::Inet_addr("127.0.0.1", f.port));
        cl.set_keep_alive(kind == 1);
        for (int k = 0; k < calls; ++k) {
          std::string cid = fmt("%ld.%d.%d", i, c, k), payload = filler(q, some_size(q)), err;
          int more = q.chance(1, 2) ? (int)some_size(q) : 0;
          if (large) more_of(q, payload, more);
          std::string got = lib_call(cl, cid, payload, q.chance(1, 3) ? 500 : 0, more, err);
          if (!err.empty()) { notes.bad("client-error", cid + fmt(" %zu+%d bytes: ", payload.size(), more) + err); return; }
          if (got != cid + ":" + payload + std::string(more, 'r')) { notes.bad("wrong-response", cid + ": " + vh::esc(got, 80)); return; }
          if (runs.of(cid) != 1) { notes.bad("runs", cid + fmt(" executed %d times", runs.of(cid))); return; }
          ++answered;
        }
      } else {
        Tls_peer p;
        bool keep = kind == 3;
        for (int k = 0; k < calls; ++k) {
          std::string cid = fmt("%ld.%d.%d", i, c, k), payload = filler(q, some_size(q));
          int more = q.chance(1, 2) ? (int)some_size(q) : 0;
          if (large) more_of(q, payload, more);
          if (p.p.fd < 0) {
            p.drop();
            p.in.clear();
            p.closed = p.clean = false;
            if (!p.p.open(f.port)) { notes.bad("refused", cid); return; }
            p.init(false, 0, q.pick(std::vector<int>{0, TLS1_2_VERSION, TLS1_3_VERSION}));
            if (!p.handshake()) { notes.bad("handshake", cid + ": " + p.error); return; }
          }
          if (!p.send(post(echo_xml(cid, payload, 0, more), "", keep))) { notes.bad("send", cid); return; }
          Msg m;
          if (!p.message(m)) { notes.bad(p.closed ? "dropped" : "no-answer", cid + fmt(" %zu+%d bytes: no response, received %zu ", payload.size(), more, p.in.size()) + p.error); return; }
          Answer a = answer(m.body);
          if (m.status != 200 || !m.problem.empty() || !a.ok || a.text != cid + ":" + payload + std::string(more, 'r')) { notes.bad("wrong-response", cid + ": " + m.first + " " + vh::esc(a.text, 60)); return; }
          ++answered;
          if (!keep) {
            if (!p.ended()) { notes.bad("not-closed", cid + ": a one-shot connection stays open"); return; }
            p.drop();
          }
        }
      }
    });
  }
  vh::mark(trace);
  for (auto& t : ts) t.join();
  stop(f, trace);
  f.destroy();
  notes.report(trace);
  vh::count("TLS calls with the right result", answered);
  vh::distinct(trace + fmt(" %ld", i));
  if (i % 31 < 2) vh::sample(trace);
}

// ---------------------------------------------------------------- verification of clients
static void verify_clients(long i, Rng& r)
{
  unsigned threads = r.pick(std::vector<unsigned>{0, 2});
  noise(r);
  for (auto* d : ids()) if (r.chance(1, 3)) d->renumber((long)r.below(1000000) + 1);
  Identity& own = *ids()[0];
  Scope scope(own);
  Verifier v;
  bool require = r.chance(1, 2);
  v.throws = r.chance(1, 3);
  v.all = r.chance(1, 8);
  for (auto* d : ids()) if (r.chance(1, 2)) v.good.insert(d->sha256);
  scope.cx->verify_client(require, &v);
  Runs runs;
  Fixture f(Fixture::No_server(), threads);
  server_for(f, runs);
  f.start();
  std::string trace = fmt("verify clients, %s(%u) %s:", threads ? "pool" : "serial", threads, require ? "required" : "optional");
  int n = 1 + (int)r.below(4);
  for (int k = 0; k < n; ++k) {
    int who = (int)r.range(-1, 3);            // -1: no certificate
    bool lib = r.chance(1, 3);
    if (lib) who = 0;
    Identity* id = who < 0 ? 0 : ids()[who];
    bool ok = id ? v.all || v.good.count(id->sha256) : !require;
    std::string cid = fmt("%ld.%d", i, k), got, err;
    trace += fmt(" %s%d/%s", lib ? "lib" : "raw", who, ok ? "ok" : "no");
    vh::mark(trace);
    size_t seen = v.log().size();
    if (lib) {
      Https_client cl(iqnet::Inet_addr("127.0.0.1", f.port));
      got = lib_call(cl, cid, "x", 0, 0, err);
    } else {
      Tls_peer p;
      if (!p.p.open(f.port)) { vh::fail("refused", trace); break; }
      int version = r.pick(std::vector<int>{0, TLS1_2_VERSION, TLS1_3_VERSION});
      p.init(false, id, version);
      Msg m;
      if (p.handshake() && p.send(post(echo_xml(cid, "x"))) && p.message(m) && m.status == 200) got = answer(m.body).text;
      else err = "no response";
      if (!ok && !p.p.eof && !p.ended()) { vh::fail("not-closed", trace + ": the connection of a refused peer stays open"); break; }
    }
    if (ok && got != cid + ":x") { vh::fail("verify-refused", trace + ": an acceptable peer gets no result: " + err); break; }
    if (!ok && !got.empty()) { vh::fail("verify-answered", trace + ": a peer that was not accepted is answered"); break; }
    if (runs.of(cid) != (ok ? 1 : 0)) { vh::fail("verify-executed", trace + fmt(": executed %d times", runs.of(cid))); break; }
    std::vector<std::string> log = v.log();
    if (id && log.size() == seen) { vh::fail("not-asked", trace + ": the verifier was not asked"); break; }
    for (size_t q = seen; q < log.size(); ++q)
      if (!id || log[q] != id->sha256) { vh::fail("fingerprint", trace + ": " + log[q] + " instead of " + (id ? id->sha256 : "nothing")); }
    vh::count(ok ? "peers accepted by verification" : "peers refused by verification");
    if (id) vh::count("fingerprints compared");
  }
  stop(f, trace);
  f.destroy();
  vh::distinct(trace);
  if (i % 31 < 2) vh::sample(trace);
}

// ---------------------------------------------------------------- verification of servers
static void verify_servers(long i, Rng& r)
{
  noise(r);
  for (auto* d : ids()) if (r.chance(1, 3)) d->renumber((long)r.below(1000000) + 1);
  Identity& own = *ids()[r.below(4)];
  Scope scope(own);
  Verifier v;
  v.throws = r.chance(1, 3);
  bool ok = r.chance(1, 2);
  for (auto* d : ids()) if (d != &own && r.chance(1, 2)) v.good.insert(d->sha256);
  if (ok) v.good.insert(own.sha256);
  scope.cx->verify_server(&v);
  Runs runs;
  Fixture f(Fixture::No_server(), r.pick(std::vector<unsigned>{0, 2}));
  server_for(f, runs);
  f.start();
  std::string trace = fmt("verify server, %s", ok ? "good" : "bad");
  vh::mark(trace);
  Https_client cl(iqnet::Inet_addr("127.0.0.1", f.port));
  cl.set_keep_alive(r.chance(1, 2));
  int n = 1 + (int)r.below(3);
  for (int k = 0; k < n; ++k) {
    std::string cid = fmt("%ld.%d", i, k), err, got = lib_call(cl, cid, "y", 0, 0, err);
    if (ok && got != cid + ":y") { vh::fail("server-refused", trace + ": " + err); break; }
    if (!ok && err.empty()) { vh::fail("server-accepted", trace + ": the call returned"); break; }
    if (runs.of(cid) != (ok ? 1 : 0)) { vh::fail("server-executed", trace + fmt(": executed %d times", runs.of(cid))); break; }
    vh::count(ok ? "servers accepted by verification" : "servers refused by verification");
  }
  std::vector<std::string> log = v.log();
  if (log.empty()) vh::fail("not-asked", trace + ": the verifier was not asked");
  for (auto& l : log) if (l != own.sha256) vh::fail("fingerprint", trace + ": " + l + " instead of " + own.sha256);
  vh::count("fingerprints compared", log.size());
  stop(f, trace);
  f.destroy();
  vh::distinct(trace + fmt(" %d %zu %s", n, v.good.size(), own.sha256.substr(0, 6).c_str()));
}

// ---------------------------------------------------------------- peers that misbehave
enum Evil { PLAIN, RANDOM, HELLO_CUT, HELLO_BROKEN, STALL, CUT_LATER, RESET_AFTER_HS, NO_NOTIFY, HALF_REQUEST, GONE_BEFORE_ANSWER, GONE_IN_ANSWER, NOTIFY_IN_ANSWER, GARBLE, MORE_DATA, NEVIL };
static const char* evil_name[] = {"plain text", "random bytes", "cut hello", "broken hello", "stall", "cut handshake", "reset after handshake", "end without notice", "half a request",
  "gone before the answer", "gone in the answer", "notice before the answer", "garbled records", "more data than a request"};

static std::string hello()
{
  Tls_peer t;
  t.init(false, 0);
  SSL_do_handshake(t.s);
  char b[4096];
  int n = BIO_read(t.wr, b, sizeof b);
  return std::string(b, n > 0 ? n : 0);
}

static void hostile(long i, Rng& r)
{
  unsigned threads = r.pick(std::vector<unsigned>{0, 2});
  noise(r);
  Scope scope(*ids()[0]);
  Runs runs;
  std::string trace = fmt("hostile, %s(%u):", threads ? "pool" : "serial", threads);
  {
    Fixture f(Fixture::No_server(), threads);
    server_for(f, runs);
    f.start();
    int fds = open_fds();
    Tls_peer good;                     // connected before
    bool have = r.chance(1, 2), good_bad = false;
    if (have) {
      good.p.open(f.port);
      good.init(false, 0);
      if (!good.handshake()) { vh::fail("handshake", trace + " " + good.error); have = false; good_bad = true; }
    }
    std::vector<std::unique_ptr<Tls_peer> > open;
    int n = 1 + (int)r.below(5);
    for (int k = 0; k < n && !good_bad; ++k) {
      int evil = (int)r.below(NEVIL);
      trace += std::string(" ") + evil_name[evil] + ",";
      vh::mark(trace);
      open.emplace_back(new Tls_peer);
      Tls_peer& p = *open.back();
      if (!p.p.open(f.port)) { vh::fail("refused", trace); break; }
      bool abort = r.chance(1, 2), stay = r.chance(1, 4);
      auto leave = [&] { if (stay) return; if (abort) p.p.abort(); else p.p.close(); };
      std::string cid = fmt("h%ld.%d", i, k);
      std::string h = hello();
      switch (evil) {
      case PLAIN: p.p.send(post(echo_xml(cid, "x"))); if (r.chance(1, 2)) p.p.pull(50); leave(); break;
      case RANDOM: { std::string g; for (int q = (int)r.range(1, 600); q > 0; --q) g += (char)r.below(256); if (r.chance(1, 2)) g[0] = 22; p.p.send(g); leave(); break; }
      case HELLO_CUT: p.p.send(h.substr(0, r.below(h.size()))); leave(); break;
      case HELLO_BROKEN: { h[r.below(h.size())] ^= (char)(1 << r.below(8)); p.p.send(h); if (r.chance(1, 2)) p.p.pull(50); leave(); break; }
      case STALL: p.p.send(h.substr(0, r.below(h.size() + 1))); stay = true; break;
      case CUT_LATER: p.p.send(h); p.p.pull(1000); leave(); break;
      case RESET_AFTER_HS: p.init(false, 0, r.chance(1, 2) ? TLS1_2_VERSION : 0); if (p.handshake()) leave(); break;
      case NO_NOTIFY: p.init(false, 0); if (p.handshake()) { p.send(post(echo_xml(cid, "x"), "", true)); Msg m; p.message(m); leave(); } break;
      case HALF_REQUEST: p.init(false, 0); if (p.handshake()) { std::string q = post(echo_xml(cid, filler(r, 3000))); p.send(q.substr(0, r.below(q.size()))); leave(); } break;
      case GONE_BEFORE_ANSWER: p.init(false, 0); if (p.handshake()) { p.send(post(echo_xml(cid, "x", 3000, (int)some_size(r)))); if (abort) p.p.abort(); else p.p.close(); } break;
      case GONE_IN_ANSWER: p.init(false, 0); if (p.handshake()) { p.send(post(echo_xml(cid, "x", 0, 3000000), "", r.chance(1, 2))); p.p.pull(2000, 10000); if (abort) p.p.abort(); else p.p.close(); } break;
      case NOTIFY_IN_ANSWER: p.init(false, 0); if (p.handshake()) { p.send(post(echo_xml(cid, "x", r.chance(1, 2) ? 2000 : 0, 2000000), "", r.chance(1, 2))); SSL_shutdown(p.s); p.flush(); if (r.chance(1, 2)) usleep(3000); if (r.chance(1, 2)) { p.p.half_close(); p.p.pull(100); } leave(); } break;
      case GARBLE: p.init(false, 0); if (p.handshake()) { SSL_write(p.s, "POST / HTTP/1.0\r\n", 17); char b[4096]; int l = BIO_read(p.wr, b, sizeof b); std::string g(b, l > 0 ? l : 0); if (!g.empty()) g[r.below(g.size())] ^= 16; p.p.send(g); p.p.send(g); leave(); } break;
      case MORE_DATA: p.init(false, 0); if (p.handshake()) { p.send(post(echo_xml(cid, "x", r.chance(1, 2) ? 1500 : 0))); for (int q = (int)r.below(4); q >= 0; --q) p.send(r.chance(1, 2) ? "more" : filler(r, 20000)); Msg m; if (r.chance(1, 2)) p.message(m, 3000); leave(); } break;
      }
      vh::count(std::string("hostile: ") + evil_name[evil]);
      // the others are not affected
      std::string gid = fmt("c%ld.%d", i, k), what;
      if (have && r.chance(1, 2)) {
        Msg m;
        std::string q = post(echo_xml(gid, "z"), "", true);
        if (!(r.chance(1, 3) ? good.send(q) : good.send_split(q, r.next(), (int)r.below(4000))) || !good.message(m)) what = "a client connected before gets no response " + good.error;
        else if (answer(m.body).text != gid + ":z") what = "a client connected before gets a wrong response";
      } else if (r.chance(1, 2)) {
        Tls_peer c;
        Msg m;
        if (!c.p.open(f.port)) what = "connection refused";
        else {
          c.init(false, 0);
          if (!c.handshake()) what = "new client: " + c.error;
          else if (!(r.chance(1, 3) ? c.send(post(echo_xml(gid, "z"))) : c.send_split(post(echo_xml(gid, "z")), r.next(), (int)r.below(4000))) || !c.message(m)) what = "a new client gets no response " + c.error;
          else if (answer(m.body).text != gid + ":z") what = "a new client gets a wrong response";
        }
      } else {
        Https_client cl(iqnet::Inet_addr("127.0.0.1", f.port));
        std::string err, got = lib_call(cl, gid, "z", 0, 0, err);
        if (got != gid + ":z") what = "a new library client: " + err;
      }
      if (!what.empty()) { vh::fail("canary", trace + " " + what); break; }
      vh::count("canary calls after hostile peers");
    }
    open.clear();
    if (have) good.drop();
    // all connections of this case are closed by now, so the server's ends must go, too
    if (!f.returned && !wait_for([&] { return open_fds() <= fds; }, 12000)) {
      std::string list;
      int now = open_fds(&list);
      vh::fail("descriptors", trace + fmt(" %d descriptors, %d before: ", now, fds) + list);
    }
    stop(f, trace);
    f.destroy();
  }
  vh::distinct(trace);
  if (i % 31 < 2) vh::sample(trace);
}

// ---------------------------------------------------------------- servers that misbehave
enum Bad { B_PLAIN, B_RANDOM, B_CLOSE, B_HS_CUT, B_NOTIFY, B_END, B_RESET, B_PART_NOTIFY, B_PART_END, B_OK, B_OK_PIECES, NBAD };
static const char* bad_name[] = {"plain text", "random bytes", "close", "cut handshake", "notice instead of an answer", "end instead of an answer", "reset instead of an answer",
  "notice in the answer", "end in the answer", "answer", "answer in pieces"};

static void bad_servers(long i, Rng& r)
{
  noise(r);
  Scope scope(*ids()[0]);
  Listener l;
  Https_client cl(iqnet::Inet_addr("127.0.0.1", l.port));
  bool keep = r.chance(1, 2);
  cl.set_keep_alive(keep);
  std::string trace = std::string("bad server") + (keep ? " keep-alive:" : ":");
  std::unique_ptr<Tls_peer> kept;
  int n = 2 + (int)r.below(4);
  for (int k = 0; k < n; ++k) {
    int bad = r.chance(1, 3) ? (int)B_OK : (int)r.below(NBAD);
    trace += std::string(" ") + bad_name[bad] + ",";
    vh::mark(trace);
    std::string cid = fmt("%ld.%d", i, k), got, err, text = cid + filler(r, some_size(r));
    std::atomic<bool> done(false);
    std::thread t([&] { got = lib_call(cl, cid, "x", 0, 0, err); done = true; });
    std::unique_ptr<Tls_peer> p;
    bool reused = false;
    if (kept) { p = std::move(kept); reused = true; }
    else {
      p.reset(new Tls_peer);
      if (!l.accept(p->p)) { vh::fail("no-connection", trace); vh::finish_now(1); }
    }
    std::string body = "<?xml version=\"1.0\"?><methodResponse><params><param><value><string>" + text + "</string></value></param></params></methodResponse>";
    std::string resp = fmt("HTTP/1.1 200 OK\r\nContent-Type: text/xml\r\nConnection: %s\r\nContent-Length: %zu\r\n\r\n", keep ? "keep-alive" : "close", body.size()) + body;
    bool sent = false, is_tls = reused || bad >= B_NOTIFY;
    if (!is_tls) {
      switch (bad) {
      case B_PLAIN: p->p.pull(2000); p->p.send("HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"); break;
      case B_RANDOM: { std::string g; for (int q = (int)r.range(1, 600); q > 0; --q) g += (char)r.below(256); if (r.chance(1, 2)) g[0] = 22; p->p.send(g); break; }
      case B_CLOSE: break;
      case B_HS_CUT: {
        p->p.pull(2000);
        Tls_peer q;
        q.init(true, ids()[1]);
        BIO_write(q.rd, p->p.in.data(), (int)p->p.in.size());
        SSL_do_handshake(q.s);
        char b[8192];
        int m = BIO_read(q.wr, b, sizeof b);
        if (m > 0) p->p.send(std::string(b, r.below(m)));
        break; }
      }
      if (r.chance(1, 3)) p->p.abort(); else p->p.close();
    } else {
      bool ok = reused;
      if (!reused) { p->init(true, ids()[1], r.pick(std::vector<int>{0, TLS1_2_VERSION, TLS1_3_VERSION})); ok = p->handshake(); }
      Msg m;
      if (!ok || !p->message(m)) { vh::fail("no-request", trace + ": no request arrives: " + p->error); p->drop(); t.join(); break; }
      if (m.body.find(cid) == std::string::npos) { vh::fail("wrong-request", trace); p->drop(); t.join(); break; }
      size_t part = r.below(resp.size());
      switch (bad) {
      case B_OK: sent = p->send(resp); break;
      case B_OK_PIECES: {
        size_t pos = 0;
        sent = true;
        while (pos < resp.size()) { size_t c = std::min<size_t>(1 + r.below(r.chance(1, 2) ? 200 : 20000), resp.size() - pos); sent = sent && p->send(resp.substr(pos, c)); pos += c; }
        break; }
      case B_NOTIFY: SSL_shutdown(p->s); p->flush(); if (r.chance(1, 2)) usleep(2000); break;
      case B_PART_NOTIFY: p->send(resp.substr(0, part)); SSL_shutdown(p->s); p->flush(); break;
      case B_PART_END: p->send(resp.substr(0, part)); break;
      case B_RESET: p->p.abort(); break;
      default: break;
      }
      if (sent && keep) kept = std::move(p);
      else p->p.close();
    }
    if (!wait_for([&] { return done.load(); })) { vh::fail(std::string("client-hang:") + bad_name[bad], trace + ": the call does not end"); vh::finish_now(1); }
    t.join();
    if (sent) {
      if (got != text) { vh::fail("client-result", trace + ": " + (err.empty() ? vh::esc(got, 60) : err)); break; }
      vh::count("answers of raw TLS servers returned");
    } else {
      if (err.empty()) { vh::fail("client-returned", trace + ": returned " + vh::esc(got, 60)); break; }
      if (err.compare(0, 14, "Client_timeout") == 0) { vh::fail("client-timeout", trace + ": a timeout is reported although none is set"); break; }
      vh::count("calls to bad TLS servers that raised");
    }
  }
  vh::distinct(trace);
  if (i % 31 < 2) vh::sample(trace);
}

// ---------------------------------------------------------------- through a proxy
static void proxied(long i, Rng& r)
{
  noise(r);
  Scope scope(*ids()[0]);
  Runs runs;
  int fds = open_fds();
  std::string trace = "proxy:";
  {
    Fixture f(Fixture::No_server(), r.pick(std::vector<unsigned>{0, 2}));
    server_for(f, runs);
    f.start();
    Listener l;
    std::atomic<bool> over(false);
    std::mutex m;
    std::vector<std::string> heads;
    bool refuse_one = r.chance(1, 3);
    std::string host = r.pick(std::vector<std::string>{"127.0.0.1", "no.such.host.invalid"});
    int tport = (int)r.range(1, 65535);
    // tunnels to the real server whatever the name says
    std::thread proxy([&] {
      std::vector<std::thread> ts;
      int nth = 0;
      while (!over) {
        struct pollfd q = {l.fd, POLLIN, 0};
        if (sys::poll(&q, 1, 20) <= 0) continue;
        int fd = sys::accept4(l.fd, 0, 0, SOCK_CLOEXEC);
        if (fd < 0) continue;
        int my = nth++;
        ts.emplace_back([&, fd, my] {
          Peer a, b;
          a.adopt(fd);
          Deadline d(LONG_MS);
          while (a.in.find("\r\n\r\n") == std::string::npos && !a.eof && !d.over()) a.pull(50);
          size_t e = a.in.find("\r\n\r\n");
          if (e == std::string::npos) return;
          { std::lock_guard<std::mutex> g(m); heads.push_back(a.in.substr(0, e + 4)); }
          a.in.erase(0, e + 4);
          if (refuse_one && my == 0) { a.send("HTTP/1.1 502 Bad\r\nContent-Length: 0\r\n\r\n"); return; }
          a.send("HTTP/1.1 200 Connection established\r\n\r\n");
          if (!b.open(f.port)) return;
          if (!a.in.empty()) { b.send(a.in); a.in.clear(); }
          while (!over && !a.eof && !b.eof) {
            struct pollfd qq[2] = {{a.fd, POLLIN, 0}, {b.fd, POLLIN, 0}};
            sys::poll(qq, 2, 20);
            if (qq[0].revents) { a.pull(0); if (!a.in.empty()) { b.send(a.in); a.in.clear(); } }
            if (qq[1].revents) { b.pull(0); if (!b.in.empty()) { a.send(b.in); b.in.clear(); } }
          }
        });
      }
      for (auto& t : ts) t.join();
    });
    bool keep = r.chance(1, 2);
    {
      Https_client cl(iqnet::Inet_addr(host, tport));
      cl.set_proxy(iqnet::Inet_addr("127.0.0.1", l.port));
      cl.set_keep_alive(keep);
      int n = 1 + (int)r.below(4);
      trace += fmt(" %d calls%s%s", n, keep ? " keep-alive" : "", refuse_one ? ", first refused" : "");
      for (int k = 0; k < n; ++k) {
        vh::mark(trace + fmt(" call %d", k));
        std::string cid = fmt("%ld.%d", i, k), payload = filler(r, some_size(r)), err, got;
        std::atomic<bool> done(false);
        std::thread t([&] { got = lib_call(cl, cid, payload, 0, 0, err); done = true; });
        if (!wait_for([&] { return done.load(); })) { vh::fail("proxy-hang", trace + fmt(": call %d does not end", k)); vh::finish_now(1); }
        t.join();
        bool want = !(refuse_one && k == 0);
        if (want && got != cid + ":" + payload) { vh::fail("proxy-result", trace + fmt(": call %d: ", k) + (err.empty() ? vh::esc(got, 60) : err)); break; }
        if (!want && err.empty()) { vh::fail("proxy-refusal", trace + ": a refused tunnel gives a result"); break; }
        vh::count(want ? "calls through a proxy" : "refused tunnels");
      }
    }
    over = true;
    proxy.join();
    for (auto& h : heads)
      if (h.compare(0, h.find("\r\n"), "CONNECT " + host + fmt(":%d HTTP/1.0", tport)) != 0 && h.compare(0, h.find("\r\n"), "CONNECT " + host + fmt(":%d HTTP/1.1", tport)) != 0) { vh::fail("proxy-head", trace + ": " + vh::esc(h, 200)); break; }
    stop(f, trace);
    f.destroy();
  }
  if (!wait_for([&] { return open_fds() <= fds; }, 5000)) vh::fail("descriptors", trace + fmt(": %d descriptors, %d before", open_fds(), fds));
  vh::distinct(trace + fmt(" %ld", i % 64));
}

static void c20(long i, Rng& r)
{
  switch (r.below(12)) {
  case 0: case 1: case 2: results(i, r); break;
  case 3: case 4: verify_clients(i, r); break;
  case 5: verify_servers(i, r); break;
  case 6: case 7: case 8: hostile(i, r); break;
  case 9: case 10: bad_servers(i, r); break;
  default: proxied(i, r);
  }
  shim::calm();
}

// ---------------------------------------------------------------- C16 over TLS
// Each case runs many sessions at the same time, each with its own client and server thread.
enum Pause { Z_CONNECT, Z_HANDSHAKE, Z_HS_PART, Z_REQUEST, Z_NOANSWER, Z_HEADER, Z_BODY, Z_RECORD, Z_KEPT, Z_PROXY, Z_PROXY_PART, Z_TUNNEL, Z_P_ANSWER, Z_P_HANDSHAKE, Z_LONG, NPAUSE };
static const char* pause_name[] = {"TLS silent connect", "TLS silent before the handshake", "TLS silent in the handshake", "TLS request not read", "TLS no answer", "TLS silent in the header",
  "TLS silent in the body", "TLS silent in a record", "TLS silent on a kept connection", "proxy silent", "proxy silent in its answer", "TLS silent in a tunnel",
  "TLS progress in the answer", "TLS progress in the handshake", "TLS no timeout"};

struct Timed {
  int kind, timeout, span = 0;
  uint64_t seed;
  std::string problem;
  std::string show() const { return fmt("%s, timeout %d s", pause_name[kind], kind == Z_LONG ? span : timeout); }
};

static void nap(double t) { for (double end = vh::now() + t; vh::now() < end; ) usleep(5000); }

static void timed(Timed& s)
{
  Rng r(s.seed);
  std::unique_ptr<Deaf> deaf;
  std::unique_ptr<Listener> l;
  if (s.kind == Z_CONNECT) deaf.reset(new Deaf); else l.reset(new Listener);
  int port = deaf ? deaf->l.port : l->port;
  bool proxy = s.kind == Z_PROXY || s.kind == Z_PROXY_PART || s.kind == Z_TUNNEL;
  Https_client cl(proxy ? iqnet::Inet_addr("no.such.host.invalid", 443) : iqnet::Inet_addr("127.0.0.1", port));
  if (proxy) cl.set_proxy(iqnet::Inet_addr("127.0.0.1", port));
  bool keep = s.kind == Z_KEPT || r.chance(1, 3);
  cl.set_keep_alive(keep);
  std::atomic<bool> done(false);
  double t0 = 0, t1 = 0;
  long b0 = 0, b1 = 0, beat = -1;
  std::string id = filler(r, 8), got, err;
  std::string payload(s.kind == Z_REQUEST ? 8000000 : 10, 'b');
  auto answer_to = [&](const std::string& text) {
    std::string body = "<?xml version=\"1.0\"?><methodResponse><params><param><value><string>" + text + "</string></value></param></params></methodResponse>";
    return fmt("HTTP/1.1 200 OK\r\nContent-Type: text/xml\r\nConnection: %s\r\nContent-Length: %zu\r\n\r\n", keep ? "keep-alive" : "close", body.size()) + body;
  };
  Tls_peer p;
  auto start = [&](const std::string& id) {
    done = false;
    return std::thread([&, id] {
      b0 = heart().beats;
      t0 = vh::now();
      got = lib_call(cl, id, payload, 0, 0, err);
      t1 = vh::now();
      b1 = heart().beats;
      done = true;
    });
  };
  auto accepted = [&] {
    Deadline d(LONG_MS);
    while (!done && !d.over()) if (l->accept(p.p, 50)) return true;
    return false;
  };
  std::thread t;
  if (s.kind == Z_KEPT) {
    t = start("first");
    Msg m;
    bool ok = accepted();
    if (ok) { p.init(true, ids()[1]); ok = p.handshake() && p.message(m) && p.send(answer_to("first")); }
    if (!ok) p.drop();
    if (!wait_for([&] { return done.load(); })) { vh::fail("hang", s.show() + ": the first call does not end"); vh::finish_now(1); }
    t.join();
    if (got != "first") { s.problem = "the first call: " + err; return; }
  }
  // no timeout and hours or years of it are the same here, also when counted in smaller units
  s.span = s.kind == Z_LONG ? r.pick(std::vector<int>{-1, -1, 600, 86400, 2147483, 2147484, 4294967, 4294968, 8589935, 12884902, 2147483647}) : s.timeout;
  if (s.span > 600) vh::count("calls with a timeout of days or more");
  if (r.chance(1, 2)) { cl.set_timeout(r.pick(std::vector<int>{1, 1, 60, -1})); vh::count("calls with a timeout that was changed"); }
  cl.set_timeout(s.span);
  t = start(id);
  std::vector<std::pair<double, double> > steps;        // before and after what the server does
  auto step = [&](const std::string& bytes, bool raw) {
    double now = vh::now();
    if (raw) p.p.send(bytes); else p.send(bytes);
    steps.push_back({now, vh::now()});
    beat = heart().beats;
  };
  bool want_timeout = s.kind < Z_P_ANSWER;
  std::string ans = answer_to(id);
  Msg m;
  bool up = s.kind == Z_KEPT || (l && accepted());
  if (up && proxy) {
    Deadline d(LONG_MS);
    while (p.p.in.find("\r\n\r\n") == std::string::npos && !p.p.eof && !d.over() && !done) p.p.pull(50);
    p.p.in.clear();
    beat = heart().beats;
    std::string ok = "HTTP/1.1 200 Connection established\r\n\r\n";
    if (s.kind == Z_PROXY_PART) step(ok.substr(0, 1 + r.below(ok.size() - 2)), true);
    if (s.kind == Z_TUNNEL) step(ok, true);
  } else if (up && s.kind == Z_HANDSHAKE) {
    beat = heart().beats;
  } else if (up && (s.kind == Z_HS_PART || s.kind == Z_P_HANDSHAKE)) {
    p.init(true, ids()[1], r.chance(1, 2) ? TLS1_2_VERSION : TLS1_3_VERSION);
    Deadline d(LONG_MS);
    std::string o;
    while (o.empty() && !p.p.eof && !d.over() && !done) {
      p.feed(50);
      ERR_clear_error();
      SSL_do_handshake(p.s);
      char b[8192];
      for (int n; (n = BIO_read(p.wr, b, sizeof b)) > 0; ) o.append(b, n);
    }
    size_t part = o.empty() ? 0 : r.below(o.size() - 1) + 1;
    if (s.kind == Z_HS_PART) { if (part) step(o.substr(0, part), true); }
    else {
      nap(0.6 * s.timeout);
      step(o.substr(0, part), true);
      nap(0.6 * s.timeout);
      step(o.substr(part), true);
      if (p.handshake() && p.message(m)) { nap(0.4 * s.timeout); step(ans, false); }
    }
  } else if (up) {
    bool ok = s.kind == Z_KEPT;
    if (!ok) { p.init(true, ids()[1], r.chance(1, 2) ? TLS1_2_VERSION : TLS1_3_VERSION); ok = p.handshake(); }
    if (ok && s.kind == Z_REQUEST) {
      int had = -1;
      while (!done) {
        int n = 0;
        ioctl(p.p.fd, FIONREAD, &n);
        if (n != had) { had = n; beat = heart().beats; }
        usleep(3000);
      }
    } else if (ok && p.message(m)) {
      beat = heart().beats;
      size_t h = ans.find("\r\n\r\n") + 4;
      switch (s.kind) {
      case Z_HEADER: step(ans.substr(0, 1 + r.below(h - 1)), false); break;
      case Z_BODY: step(ans.substr(0, h + r.below(ans.size() - h)), false); break;
      case Z_RECORD: {
        // all of the answer, but the end of its record
        SSL_write(p.s, ans.data(), (int)ans.size());
        std::string o;
        char b[8192];
        for (int n; (n = BIO_read(p.wr, b, sizeof b)) > 0; ) o.append(b, n);
        step(o.substr(0, r.below(o.size() - 1) + 1), true);
        break; }
      case Z_P_ANSWER:
        for (size_t k = 0, pos = 0; k < 4 && !done; ++k) {
          nap(0.55 * s.timeout);
          size_t e = k == 3 ? ans.size() : pos + 1 + r.below((ans.size() - pos) / 2);
          step(ans.substr(pos, e - pos), false);
          pos = e;
        }
        break;
      case Z_LONG: nap(1.5); step(ans.substr(0, 20), false); nap(1); step(ans.substr(20), false); break;
      default: break;
      }
    }
  }
  bool ended = wait_for([&] { return done.load(); }, s.timeout * 1000 + 20000);
  if (!ended) { t.detach(); vh::fail("hang", s.show() + ": the call does not end"); vh::finish_now(1); }
  t.join();
  double from = t0;
  for (auto& q : steps) if (q.second <= t1) from = std::max(from, q.first);
  bool timeout = err.compare(0, 14, "Client_timeout") == 0;
  if (want_timeout) {
    if (!timeout) { s.problem = fmt("after %.2f s: ", t1 - t0) + (err.empty() ? "a result" : err) + " instead of a timeout"; return; }
    if (t1 - from < s.timeout - 0.02) { s.problem = fmt("timed out after %.3f s", t1 - from); return; }
    if (beat < b0) beat = b0;
    if ((b1 - beat) * 0.01 > s.timeout + 2.5) { s.problem = fmt("timed out only %.2f s after the last progress", (b1 - beat) * 0.01); return; }
    vh::count(std::string("timeouts: ") + pause_name[s.kind]);
  } else {
    if (timeout && s.kind != Z_LONG && t1 - from >= s.timeout - 0.02) { vh::count("sessions on a machine too slow for them"); return; }
    if (got != id) { s.problem = fmt("after %.2f s: ", t1 - t0) + err; return; }
    if (t1 - t0 > s.timeout) vh::count("calls longer than the timeout that succeeded");
    vh::count(std::string("completed: ") + pause_name[s.kind]);
  }
  vh::distinct(s.show() + fmt(" %d %lu", keep, (unsigned long)(s.seed % 8)));
}

static void c16(long i, Rng& r)
{
  shim::calm();
  Scope scope(*ids()[0]);
  std::vector<Timed> ss;
  for (int k = 0; k < NPAUSE; ++k) {
    Timed s;
    s.kind = k;
    s.timeout = r.chance(1, 4) ? 2 : 1;
    s.seed = r.next();
    ss.push_back(s);
  }
  vh::mark("TLS sessions");
  std::vector<std::thread> ts;
  for (auto& s : ss) ts.emplace_back([&s] { timed(s); });
  for (auto& t : ts) t.join();
  for (auto& s : ss)
    if (!s.problem.empty()) vh::fail(std::string("timeout:") + pause_name[s.kind], s.show() + ": " + s.problem);
  vh::count("sessions", ss.size());
  if (i < 3) for (size_t k = 0; k < ss.size(); k += 5) vh::sample(ss[k].show());
}

int main(int argc, char** argv)
{
  vh::init(argc, argv, "C20");
  init_xml();
  heart();
  ids();
  if (vh::opts().prop == "C16") vh::run_cases(c16, 0);
  else vh::run_cases(c20, 100);
  shim::calm();
  return vh::finish();
}
