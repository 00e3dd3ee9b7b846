// The server as seen by raw HTTP peers: C07 (framing), C08 (size limit),
// C21 (Expect: 100-continue), C22 (delivery and persistence), C24 (errors).
#include "net.h"

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static size_t heap_bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t heap_bytes() { return 0; }
#endif

using namespace net;
using namespace iqxmlrpc;

// ---------------------------------------------------------------- what methods saw
struct Seen {
  std::string name, id, payload, authname;
  std::map<std::string, std::string> x;
  size_t nparams;
};

static std::mutex log_m;
static std::vector<Seen> log_v;

static std::vector<Seen> take_log()
{
  std::lock_guard<std::mutex> l(log_m);
  std::vector<Seen> r;
  r.swap(log_v);
  return r;
}

static void note(Method* m, const Param_list& p)
{
  Seen s;
  s.name = m->name();
  s.authname = m->authname();
  s.nparams = p.size();
  if (p.size() > 0 && p[0].is_string()) s.id = p[0].get_string();
  if (p.size() > 1 && p[1].is_string()) s.payload = p[1].get_string();
  for (XHeaders::const_iterator i = m->xheaders().begin(); i != m->xheaders().end(); ++i) s.x[i->first] = i->second;
  std::lock_guard<std::mutex> l(log_m);
  log_v.push_back(s);
}

//! echo(id, payload) returns id + "/" + payload, or id alone
static void echo(Method* m, const Param_list& p, Value& v)
{
  note(m, p);
  std::string r = p.size() ? p[0].get_string() : std::string();
  if (p.size() > 1) r += "/" + p[1].get_string();
  v = r;
}

//! big(id, n) returns n bytes that depend on the id
static std::string pattern(const std::string& id, size_t n)
{
  std::string r;
  r.reserve(n);
  uint64_t h = vh::fnv(id);
  while (r.size() < n) { h = h * 6364136223846793005ull + 1442695040888963407ull; r += (char)('a' + (h >> 40) % 26); }
  return r;
}

static void big(Method* m, const Param_list& p, Value& v)
{
  note(m, p);
  v = pattern(p.at(0).get_string(), p.at(1).get_int());
}

static Fixture* fx = 0;

static void fresh(Rng& r, unsigned threads, unsigned allowed = A_ALL, const std::function<void(Fixture&)>& setup = std::function<void(Fixture&)>())
{
  delete fx;
  fx = new Fixture(threads);
  fx->method("echo", echo);
  fx->method("big", big);
  if (setup) setup(*fx);
  fx->surround(r, allowed);
  fx->begin(r);
}

static void done()
{
  if (!fx) return;
  if (fx->returned && !fx->died.empty()) vh::fail("server-died", "exception out of the event loop: " + fx->died);
  if (!fx->stop()) { vh::fail("hang:stop", "the event loop does not end after set_exit_flag"); vh::finish_now(1); }
  delete fx;
  fx = 0;
}

static bool alive(const std::string& where)
{
  if (!fx->returned) return true;
  vh::fail("server-died", where + ": the event loop ended: " + fx->died);
  vh::finish_now(1);
  return false;
}

static std::string soup(Rng& r, size_t n)
{
  static const char a[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,;:-_+*/()[]{}";
  std::string s;
  while (s.size() < n) s += a[r.below(sizeof a - 1)];
  return s;
}

static std::string token(Rng& r, size_t lo, size_t hi)
{
  static const char a[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
  std::string s;
  size_t n = r.range(lo, hi);
  while (s.size() < n) s += a[r.below(sizeof a - 1)];
  return s;
}

static std::string odd_case(Rng& r, std::string s)
{
  for (char& c : s)
    if (r.chance(1, 2)) c = toupper(c); else c = tolower(c);
  return s;
}

// ---------------------------------------------------------------- C07
struct Http_case {
  std::string bytes, id, payload, what;
  std::map<std::string, std::string> x;
  size_t head;                    // length of the header with its terminator
  bool keep;
  int status;                     // expected; 0: the same error for all splits
};

static Http_case gen_http(Rng& r, bool last, bool small, bool huge = false)
{
  Http_case c;
  std::string eol = r.chance(1, 3) ? "\n" : "\r\n";
  c.id = token(r, 1, 12);
  size_t n = small ? r.below(40) : r.pick(std::vector<int>{0, 10, 300, 3000, 40000, 65400, 70000, 200000});
  bool tens = huge && r.chance(1, 8);
  if (tens) vh::count("messages of about ten megabytes");
  c.payload = huge ? soup(r, 1000) + std::string(tens ? 9000000 + r.below(4000000) : 1000000 + r.below(4000000), 'h') : soup(r, n);
  std::string pre, post_;
  if (r.chance(1, 2)) {                    // text which looks like a header end inside the body
    static const char* t[] = {"\r\n\r\n", "\n\n", "\r\n\r\nPOST / HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc", "\n\r\n", "\n\nX-Evil: 1\n\n"};
    pre = std::string("<!--") + t[r.below(5)] + "-->";
    if (r.chance(1, 2)) post_ = t[r.below(2)];
  }
  std::string body = pre + "<methodCall><methodName>echo</methodName><params><param><value>" + str(c.id) + "</value></param><param><value>"
    + str(c.payload) + "</value></param></params></methodCall>" + post_;
  c.keep = !last;
  c.status = 200;
  std::vector<std::string> f;
  std::string sp[] = {"", " ", "  ", "\t"};
  auto field = [&](const std::string& name, const std::string& v) {
    f.push_back(odd_case(r, name) + (r.chance(1, 6) ? " " : "") + ":" + sp[r.below(4)] + v + sp[r.below(3)]);
  };
  field("content-length", fmt("%zu", body.size()));
  field("connection", c.keep ? "keep-alive" : "close");
  if (r.chance(1, 2)) field("content-type", "text/xml");
  if (r.chance(1, 2)) field("host", "localhost:" + fmt("%d", (int)r.below(60000)));
  if (r.chance(1, 2)) field("user-agent", "a:b : c");
  unsigned nx = r.below(4);
  if (!small && r.chance(1, 8)) { nx = 50 + r.below(150); vh::count("messages with a hundred headers"); }
  for (unsigned i = 0; i < nx; ++i) {
    std::string name = "x-" + lower(token(r, 1, 10)) + (r.chance(1, 3) ? "-q" : "");
    std::string v = r.chance(1, 6) ? "" : trim(soup(r, r.range(1, 30)));
    if (!small && r.chance(1, 20)) { v = std::string(r.pick(std::vector<size_t>{300, 5000, 9000, 70000}), 'v'); vh::count("messages with a long header"); }
    if (c.x.count(name)) continue;
    c.x[name] = v;
    field(name, v);
  }
  std::string first = std::string("POST ") + (r.chance(1, 2) ? "/RPC" : "/") + (r.chance(1, 2) ? " HTTP/1.1" : " HTTP/1.0");
  if (last && !tens && r.chance(1, 2)) {   // something wrong with the last one
    c.status = 0;
    switch (r.below(8)) {
    case 0: f[0] = "content-length: " + std::string(r.chance(1, 2) ? "12a" : "-5"); c.what = "length text"; break;
    case 1: f[0] = "content-length: 99999999999999999999"; c.what = "length overflow"; break;
    case 2: f.erase(f.begin()); c.what = "no length"; break;
    case 3: first = std::string(r.chance(1, 2) ? "GET" : "post") + " / HTTP/1.1"; c.what = "method"; break;
    case 4: f.push_back("a line without the mark"); c.what = "no colon"; break;
    case 5: f.push_back("Expect: something"); c.what = "expectation"; break;
    case 6: first = ""; c.what = "no request line"; break;
    case 7: f[0] = "content-length:"; c.what = "empty length"; break;
    }
  }
  for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[r.below(i)]);
  std::string h = first + eol;
  bool mixed = r.chance(1, 4);
  for (size_t i = 0; i < f.size(); ++i)
    h += f[i] + (i + 1 < f.size() && mixed ? (r.chance(1, 2) ? "\r\n" : "\n") : eol);
  h += eol;
  c.head = h.size();
  c.bytes = h + body;
  return c;
}

struct Http_result {
  int status;
  std::string body, trouble;
  std::vector<Seen> seen;
};

static Http_result exchange(Peer& p, const Http_case& c, const std::vector<int>& plan)
{
  Http_result res;
  res.status = 0;
  // over TLS the pieces are records, which are read one by one
  shim::st().plan_pos = 0;
  if (over_tls()) p.records = plan; else shim::st().plan = &plan;
  // a refused request need not be read to its end
  if (!p.send(c.bytes) && !(over_tls() && c.status == 0)) res.trouble = "request not taken";
  Msg m;
  if (!p.message(m)) res.trouble += fmt("no response (%s), received '%s'", p.eof ? "closed" : "silent", vh::esc(p.in, 200).c_str());
  else {
    res.status = m.status;
    res.body = m.body;
    res.trouble += m.problem;
  }
  shim::st().plan = nullptr;
  res.seen = take_log();
  return res;
}

static std::string judge(const Http_case& c, const Http_result& r)
{
  if (!r.trouble.empty()) return r.trouble;
  if (c.status == 0) {
    if (r.status / 100 != 4) return fmt("wrong request answered with status %d", r.status);
    if (!r.seen.empty()) return "wrong request executed";
    return "";
  }
  if (r.status != 200) return fmt("status %d", r.status);
  if (r.seen.size() != 1) return fmt("%zu executions", r.seen.size());
  const Seen& s = r.seen[0];
  if (s.id != c.id || s.payload != c.payload || s.nparams != 2) return "method saw another body";
  if (s.x != c.x) {
    std::string t = "method saw headers";
    for (auto& i : s.x) t += " " + i.first + "=" + i.second;
    t += ", sent";
    for (auto& i : c.x) t += " " + i.first + "=" + i.second;
    return t;
  }
  Answer a = answer(r.body);
  if (!a.ok || a.text != c.id + "/" + c.payload) return "response is " + vh::esc(r.body, 300) + a.problem;
  return "";
}

static void c07(long i, Rng& r)
{
  if (!fx || (i / vh::opts().nshards) % 40 == 0) { done(); fresh(r, 0); }
  unsigned nmsg = 1 + r.below(3);
  bool small = r.chance(3, 4), huge = r.chance(1, 30);
  if (huge) nmsg = 1;
  std::vector<Http_case> cs;
  for (unsigned k = 0; k < nmsg; ++k) cs.push_back(gen_http(r, k + 1 == nmsg, small, huge));

  // which splits of which messages
  std::vector<std::vector<std::vector<int> > > runs;
  std::vector<std::vector<int> > whole(nmsg);
  runs.push_back(whole);
  unsigned target = r.below(nmsg);
  const Http_case& t = cs[target];
  auto two = [&](size_t k) { auto w = whole; w[target] = {(int)k}; runs.push_back(w); };
  if (t.bytes.size() < 500 && !over_tls()) for (size_t k = 1; k < t.bytes.size(); ++k) two(k);
  else if (huge) {
    two(t.head);
    two(t.bytes.size() - 1);
    vh::count("messages of several megabytes");
  } else {
    for (int d = -6; d <= 3; ++d) if ((long)t.head + d > 0) two(t.head + d);
    two(1);
    two(t.bytes.size() - 1);
    for (int k = 0; k < 6; ++k) two(1 + r.below(t.bytes.size() - 1));
  }
  for (int k = 0; k < (huge ? 2 : 8); ++k) {            // many pieces, every message
    auto w = whole;
    for (unsigned q = 0; q < nmsg; ++q) {
      size_t left = cs[q].bytes.size();
      int style = r.below(4);
      while (left > 1 && w[q].size() < 600) {
        size_t n = style == 0 ? 1 : style == 1 ? 1 + r.below(4) : style == 2 ? 1 + r.below(60) : 1 + r.below(left);
        if (n > left) n = left;
        w[q].push_back(n);
        left -= n;
      }
    }
    runs.push_back(w);
  }
  int ref = 0;
  for (size_t n = 0; n < runs.size(); ++n) {
    Peer p;
    if (!p.open(fx->port)) vh::broken("cannot connect");
    for (unsigned q = 0; q < nmsg; ++q) {
      std::string plan;
      for (size_t z = 0; z < runs[n][q].size() && z < 40; ++z) plan += fmt("%d ", runs[n][q][z]);
      vh::mark("message " + fmt("%u of %u split ", q + 1, nmsg) + plan + " " + vh::esc(cs[q].bytes, 1500));
      Http_result res = exchange(p, cs[q], runs[n][q]);
      std::string bad = judge(cs[q], res);
      if (bad.empty() && cs[q].status == 0) {
        if (n == 0) ref = res.status;
        else if (res.status != ref) bad = fmt("status %d, delivered whole %d", res.status, ref);
      }
      if (!bad.empty()) {
        vh::fail(cs[q].status ? "framing" : "framing-error", fmt("message %u of %u, read in pieces of [%s]: ", q + 1, nmsg, plan.c_str()) + bad + " bytes: " + vh::esc(cs[q].bytes, 900));
        alive("C07");
        return;
      }
      vh::count("messages read in pieces", !runs[n][q].empty());
      vh::count("pieces", runs[n][q].size());
      vh::count(cs[q].status ? "messages executed" : "wrong messages refused");
      if (!runs[n][q].empty()) {
        uint64_t h = vh::fnv(cs[q].bytes);
        for (int k : runs[n][q]) h = h * 1000003 + k;
        vh::distinct(fmt("%llx", (unsigned long long)h));
      }
    }
    if (!p.ended()) { vh::fail("not-closed", "connection stays open after a request without keep-alive: " + vh::esc(cs.back().bytes, 600)); return; }
  }
  vh::maximum("message bytes", t.bytes.size());
  if (i % 97 < 3) vh::sample(fmt("%u messages, %zu splits, first: ", nmsg, runs.size()) + vh::esc(cs[0].bytes, 300));
}

// ---------------------------------------------------------------- C08
static void set_frag(Rng& r)
{
  shim::seed(r.next());
  unsigned m = r.below(4);
  shim::st().frag = m == 0 ? 0 : m == 1 ? 20 : m == 2 ? 60 : 95;
}

static void c08(long i, Rng& r)
{
  size_t limit = r.pick(std::vector<int>{500, 1000, 4000, 20000, 65536, 100000, 300000}) + r.below(300);
  if (!fx || (i / vh::opts().nshards) % 40 == 0) { done(); fresh(r, 0, A_ALL & ~A_LIMIT); }
  fx->server->set_max_request_sz(limit);
  set_frag(r);
  if (limit > 100000) shim::st().frag = r.below(2) * 10;
  Peer p;
  if (!p.open(fx->port)) vh::broken("cannot connect");
  std::string trace = fmt("limit %zu:", limit);
  unsigned steps = 1 + r.below(5);
  for (unsigned s = 0; s < steps; ++s) {
    bool last = s + 1 == steps;
    int kind = last ? r.below(8) : 0;
    std::string id = token(r, 4, 8);
    if (kind <= 2) {
      // honest length, total size chosen relative to the limit
      size_t total;
      if (kind == 0) total = r.chance(1, 2) ? limit * 9 / 10 - r.below(10) : 300 + r.below(limit * 9 / 10 - 300);
      else if (kind == 1) total = limit + 1 + r.below(5);
      else total = limit + 1 + r.below(limit * 3);
      bool over = total > limit;
      std::string body = call_xml("echo", {str(id), str("")});
      std::string req = post(body, "", !last);
      if (req.size() < total) {
        // fill the payload (and account for the digits of the length)
        size_t fill = total - req.size();
        for (int k = 0; k < 3; ++k) {
          body = call_xml("echo", {str(id), str(std::string(fill, 'x'))});
          req = post(body, "", !last);
          if (req.size() > total) fill -= req.size() - total; else if (req.size() < total) fill += total - req.size();
        }
        if (req.size() < total) { req = post(body, "X-P: " + std::string(total - req.size(), 'p') + "\r\n", !last); }
      }
      total = req.size();
      over = total > limit;
      if (!over && total > limit * 19 / 20) { --s; continue; }
      trace += fmt(" %s%zu", over ? "over " : "", total);
      vh::mark(trace);
      p.send(req);
      Msg m;
      if (!p.message(m)) { vh::fail("no-answer", trace + fmt(": no response (%s)", p.eof ? "closed" : "silent")); return; }
      auto seen = take_log();
      if (over) {
        if (m.status != 413) { vh::fail("not-refused", trace + fmt(": request of %zu bytes answered %d", total, m.status)); return; }
        if (!seen.empty()) { vh::fail("executed", trace + ": a too large request was executed"); return; }
        vh::count("too large requests refused");
      } else {
        if (m.status != 200 || seen.size() != 1 || seen[0].id != id) { vh::fail("refused", trace + fmt(": request of %zu bytes answered %d, %zu executions", total, m.status, seen.size())); return; }
        vh::count("requests below the limit served");
        if (s) vh::count("later requests of a connection served");
      }
    } else {
      // hostile: endless header, endless body, or a lie about the length
      std::string head;
      const char* what;
      if (kind == 3 || kind == 4) { head = "POST / HTTP/1.1\r\nX-A: "; what = "endless header"; }
      else if (kind == 5) { head = "POST / HTTP/1.1\r\nContent-Length: 4000000000\r\n\r\n"; what = "huge declared body"; }
      else if (kind == 6) { head = fmt("POST / HTTP/1.1\r\nContent-Length: %zu\r\n\r\n", limit + 1 + r.below(1000)); what = "declared slightly too large"; }
      else { head = fmt("POST / HTTP/1.1\r\nExpect: 100-continue\r\nContent-Length: %zu\r\n\r\n", limit * 50); what = "huge with expectation"; }
      trace += std::string(" ") + what;
      vh::mark(trace);
      size_t before = heap_bytes(), peak = 0, sent = 0;
      std::string chunk(r.chance(1, 2) ? 65536 : 1000 + r.below(3000), 'y');
      p.send(head);
      Msg m;
      bool got = false;
      size_t enough = limit * 2 + (8u << 20);
      if (kind >= 5 && r.chance(1, 2)) {
        // a few bytes of the body are enough to see what was announced
        trace += ", few bytes of it";
        vh::mark(trace);
        Deadline d(LONG_MS);
        while (!got && !d.over() && !p.eof) {
          if (sent < 20) { p.send("y"); ++sent; }
          p.pull(10);
          while (take(p.in, m)) if (m.status != 100) { got = true; break; }
        }
        if (!got && p.reset) { vh::count("answers lost by reset"); return; }
        if (!got) { vh::fail("waits", trace + fmt(": %zu bytes were sent and there is no response (%s)", sent, p.eof ? "closed" : "silent")); return; }
        vh::count("announcements refused");
      }
      while (!got && sent < enough) {
        if (!p.send(chunk)) break;
        sent += chunk.size();
        size_t h = heap_bytes();
        if (h > peak) peak = h;
        while (!got && p.pull(0)) {}
        while (take(p.in, m)) if (m.status != 100) { got = true; break; }
        if (p.eof) break;
      }
      while (!got && p.message(m)) if (m.status != 100) got = true;
      auto seen = take_log();
      if (!seen.empty()) { vh::fail("executed", trace + ": executed"); return; }
      if (!got || m.status != 413) {
        // A reset may overtake the answer when the peer goes on sending.
        if (p.reset && !got) { vh::count("answers lost by reset"); return; }
        vh::fail("not-refused", trace + fmt(": %zu bytes sent, answer %d", sent, got ? m.status : 0));
        return;
      }
      long grown = (long)peak - (long)before;
      vh::maximum("heap growth while flooded", grown);
      if (grown > (long)(limit * 6 + (2u << 20))) { vh::fail("buffered", trace + fmt(": heap grew by %ld bytes while receiving", grown)); return; }
      vh::count("floods refused");
      vh::maximum("flood bytes", sent);
    }
  }
  vh::distinct(trace);
  if (i % 101 < 3) vh::sample(trace);
  shim::calm();
  if (i % 64 == 63) { std::string e; fx->server->set_max_request_sz(0); if (!(e = canary(fx->port)).empty()) vh::fail("canary", e); take_log(); }
  alive("C08");
}

// ---------------------------------------------------------------- C21
static void c21(long i, Rng& r)
{
  static bool pool = false;
  if (!fx || (i / vh::opts().nshards) % 40 == 0) { pool = r.chance(1, 2); done(); fresh(r, pool ? 2 : 0); }
  shim::calm();
  set_frag(r);
  Peer p;
  if (!p.open(fx->port)) vh::broken("cannot connect");
  unsigned steps = 1 + r.below(5);
  std::string trace = pool ? "pool:" : "serial:";
  for (unsigned s = 0; s < steps; ++s) {
    bool last = s + 1 == steps;
    std::string id = token(r, 4, 8);
    std::string body = call_xml("echo", {str(id), str(soup(r, r.pick(std::vector<int>{0, 30, 3000, 70000})))});
    int kind = r.below(last ? 5 : 4);
    Msg m;
    if (kind == 4) {                                   // other expectation
      std::string e = r.pick(std::vector<std::string>{"something", "200-ok", "continue", "10-continue", "99-continue", ""});
      trace += " other'" + e + "'";
      vh::mark(trace);
      std::string req = post(body, odd_case(r, "expect") + ": " + e + "\r\n", r.chance(1, 2));
      if (r.chance(1, 2)) req = req.substr(0, req.find("\r\n\r\n") + 4);
      p.send(req);
      if (!p.message(m) || m.status != 417) { vh::fail("other-expectation", trace + fmt(": answered %d", m.status)); return; }
      if (!take_log().empty()) { vh::fail("other-expectation", trace + ": executed"); return; }
      vh::count("other expectations refused");
      break;
    }
    bool expect = kind != 0, withheld = kind == 1 || kind == 2;
    std::string v = odd_case(r, "100-continue");
    std::string req = post(body, expect ? odd_case(r, "expect") + ": " + v + "\r\n" : "", !last);
    size_t h = req.find("\r\n\r\n") + 4;
    trace += !expect ? " plain" : withheld ? " withheld" : " at-once";
    vh::mark(trace);
    if (withheld) {
      size_t early = kind == 2 ? 1 + r.below(h - 1) : h;       // the header in two packets
      p.send(req.substr(0, early));
      if (early < h) { usleep(200); p.send(req.substr(early, h - early)); }
      if (!p.message(m)) { vh::fail("no-go-ahead", trace + fmt(": request %u: no interim response (%s)", s + 1, p.eof ? "closed" : "silent")); return; }
      if (m.status != 100) { vh::fail("no-go-ahead", trace + fmt(": status %d instead of the interim response", m.status)); return; }
      vh::count("interim responses received");
      if (s) vh::count("interim responses on later requests");
    }
    // the rest in parts that are read one by one
    size_t pos = withheld ? h : 0;
    if (expect && r.chance(1, 2)) {
      if (!withheld) { pos = h + r.below(req.size() - h); p.send(req.substr(0, pos)); }
      for (int parts = r.range(1, 3); parts > 0 && pos < req.size(); --parts) {
        size_t n = std::min<size_t>(1 + r.below(40), req.size() - pos);
        long before = shim::st().bytes_in;
        p.send(req.substr(pos, n));
        pos += n;
        if (withheld && !wait_for([&] { return shim::st().bytes_in - before >= (long)n; })) { vh::fail("not-read", trace + ": a part of the body is not read"); return; }
        if (!withheld) usleep(100);
        vh::count("parts of bodies after the interim response");
      }
    }
    p.send(req.substr(pos));
    int interim = 0;
    bool got = false;
    while ((got = p.message(m)) && m.status == 100) ++interim;
    if (!got) { vh::fail("no-answer", trace + fmt(": request %u: no final response (%s)", s + 1, p.eof ? "closed" : "silent")); return; }
    if (interim > (expect && !withheld ? 1 : 0)) { vh::fail("extra-go-ahead", trace + fmt(": %d superfluous interim responses", interim)); return; }
    auto seen = take_log();
    Answer a = answer(m.body);
    if (m.status != 200 || !m.problem.empty() || seen.size() != 1 || seen[0].id != id || !a.ok || a.text.compare(0, id.size() + 1, id + "/") != 0) {
      vh::fail("final", trace + fmt(": final response %d %s, %zu executions, ", m.status, m.problem.c_str(), seen.size()) + vh::esc(m.body, 200));
      return;
    }
    bool ka = m.get("connection") == "keep-alive";
    if (ka != !last) { vh::fail("final", trace + ": connection is " + m.get("connection")); return; }
    vh::count("final responses");
  }
  if (!p.ended()) { vh::fail("not-closed", trace + ": connection stays open"); return; }
  if (!p.in.empty()) { vh::fail("extra-bytes", trace + ": extra bytes " + vh::esc(p.in, 200)); return; }
  vh::distinct(trace + fmt(" %u", (unsigned)shim::st().frag));
  if (i % 101 < 3) vh::sample(trace);
  alive("C21");
}

// ---------------------------------------------------------------- C22
//! What is wrong with the head of a response sent between the two moments.
static std::string head_problem(const Msg& m, time_t from, time_t to)
{
  if (m.first.compare(0, 7, "HTTP/1.") != 0) return "first line";
  if (m.count("content-length") != 1 || m.count("connection") > 1 || m.count("date") > 1) return "repeated fields";
  if (m.get("content-type").compare(0, 8, "text/xml") != 0) return "content type '" + m.get("content-type") + "'";
  if (!m.count("date")) return "";
  bool ok = false;
  for (time_t t = from - 1; t <= to + 1 && !ok; ++t) {
    struct tm g;
    char b[64];
    gmtime_r(&t, &g);
    strftime(b, sizeof b, "%a, %d %b %Y %H:%M:%S GMT", &g);
    ok = m.get("date") == b;
  }
  vh::count("dates of responses");
  return ok ? "" : "date '" + m.get("date") + fmt("' at %ld", (long)to);
}

static void c22(long i, Rng& r)
{
  static bool pool = false;
  if (!fx || (i / vh::opts().nshards) % 40 == 0) { pool = r.chance(1, 2); done(); fresh(r, pool ? 2 : 0); }
  shim::calm();
  shim::seed(r.next());
  shim::st().cut = r.pick(std::vector<int>{0, 30, 90});
  shim::st().frag = r.pick(std::vector<int>{0, 0, 50});
  shim::st().eintr = r.pick(std::vector<int>{0, 0, 10});
  Peer p;
  int rcvbuf = r.chance(1, 2) ? 4096 : 0;
  bool vast = i % 100 == 51;     // starts with a very large response
  if (vast) { shim::st().cut = 0; shim::st().frag = 0; rcvbuf = 0; }
  if (!p.open(fx->port, rcvbuf)) vh::broken("cannot connect");
  unsigned steps = 1 + r.below(4);
  bool refused = r.chance(1, 4);  // the connection ends with a request that is refused
  std::string trace = std::string(pool ? "pool" : "serial") + fmt(" cut %u frag %u buf %d:", (unsigned)shim::st().cut, (unsigned)shim::st().frag, rcvbuf);
  for (unsigned s = 0; s < steps; ++s) {
    bool last = s + 1 == steps && !refused;
    std::string id = token(r, 6, 10);
    int n = r.pick(std::vector<int>{0, 1, 100, 5000, 65536, 300000});
    if (r.chance(1, 25)) n = 3000000;
    if (shim::st().cut == 90 && n > 300000) n = 300000;
    else if (vast && !s) n = 11000000 + (int)r.below(7000000);
    // how the request asks for persistence
    static const char* keepers[] = {"Connection: keep-alive\r\n", "connection:keep-alive\r\n", "CONNECTION: Keep-Alive\r\n"};
    static const char* closers[] = {"", "Connection: close\r\n", "Connection: Close\r\n"};
    std::string conn = last ? closers[r.below(3)] : keepers[r.below(3)];
    bool heavy = r.chance(1, 25);
    std::string body = call_xml("big", {str(id), fmt("<int>%d</int>", n)}) + (heavy ? std::string(100000 + r.below(2000000), '\n') : "");
    if (heavy) vh::count("large requests");
    int speed = n > 10000000 ? 0 : r.below(4);
    if (n > 10000000) vh::count("responses of more than ten megabytes");
    trace += fmt(" %d/%d/%s", n, speed, trim(conn).c_str());
    vh::mark(trace);
    bool half = last && r.chance(1, 3);
    time_t asked = time(0);
    p.send(post(body, conn));
    if (half) { p.half_close(); trace += "/half-closed"; }
    // read at the chosen speed
    Msg m;
    bool got = false;
    Deadline d(LONG_MS);
    long pauses = 0;
    while (!got && !d.over()) {
      size_t want = speed == 0 ? 65536 : speed == 1 ? 1 + r.below(2000) : 1 + r.below(20000);
      if (!p.pull(d.left_ms() + 1, want) && p.eof) { got = take(p.in, m); break; }
      if (speed == 3 && pauses < 20 && r.chance(1, 2)) { usleep(r.below(3000)); ++pauses; }
      if (speed == 1 && p.received < 20000 && r.chance(1, 4)) { usleep(300); ++pauses; }
      got = take(p.in, m);
    }
    auto seen = take_log();
    if (!got) { vh::fail("truncated", trace + fmt(": %zu bytes then %s", p.in.size(), p.eof ? "closed" : "silence")); return; }
    if (m.status != 200 || !m.problem.empty()) { vh::fail("bad-response", trace + ": " + m.first + " " + m.problem); return; }
    std::string bad = head_problem(m, asked, time(0));
    if (!bad.empty()) { vh::fail("head", trace + ": " + bad); return; }
    Answer a = answer(m.body);
    if (!a.ok || a.text != pattern(id, n)) { vh::fail("wrong-bytes", trace + fmt(": body of %zu bytes is not the response: %s", m.body.size(), vh::esc(m.body, 200).c_str()) + a.problem); return; }
    if (seen.size() != 1) { vh::fail("executions", trace + fmt(": %zu executions", seen.size())); return; }
    std::string said = lower(m.get("connection"));
    if (said != (last ? "close" : "keep-alive")) { vh::fail("persistence-said", trace + ": response says connection '" + said + "'"); return; }
    vh::count("responses read whole");
    vh::count("response bytes", m.body.size());
    if (!last) {
      vh::count("requests on a kept connection");
      if (!p.in.empty()) { vh::fail("extra-bytes", trace + ": extra bytes after the response " + vh::esc(p.in, 200)); return; }
    }
  }
  if (refused) {
    // not POST, no or a wrong length, a line without colon; the connection is not asked to be kept
    static const char* heads[] = {"GET / HTTP/1.1\r\n", "POST / HTTP/1.1\r\n", "POST / HTTP/1.1\r\ncontent-length: x\r\n", "POST / HTTP/1.1\r\nno colon\r\ncontent-length: 1\r\n",
      "POST / HTTP/1.1\r\nexpect: more\r\ncontent-length: 1\r\n"};
    int k = r.below(5);
    trace += fmt(" refused %d", k);
    vh::mark(trace);
    p.send(std::string(heads[k]) + (r.chance(1, 2) ? "Connection: close\r\n\r\n" : "\r\n"));
    Msg m;
    Deadline d(LONG_MS);
    bool got = false;
    while (!(got = take(p.in, m)) && !p.eof && !d.over()) p.pull(d.left_ms() + 1);
    if (!got || m.status < 400 || !m.problem.empty()) { vh::fail("bad-refusal", trace + ": " + (got ? m.first + " " + m.problem : "no response")); return; }
    if (lower(m.get("connection")) != "close") { vh::fail("persistence-said", trace + ": response says connection '" + m.get("connection") + "'"); return; }
    if (!take_log().empty()) { vh::fail("executions", trace + ": a refused request was executed"); return; }
    vh::count("refused requests");
  }
  if (!p.ended()) { vh::fail("not-closed", trace + ": connection stays open although it was not to be kept"); return; }
  if (!p.in.empty()) { vh::fail("extra-bytes", trace + ": extra bytes after the response " + vh::esc(p.in, 200)); return; }
  if (p.reset) { vh::fail("reset", trace + ": connection reset after the response"); return; }
  vh::count("connections closed after the response");
  vh::count("writes cut short", shim::st().cut_writes.exchange(0));
  vh::distinct(trace);
  if (i % 61 < 3) vh::sample(trace);
  alive("C22");
}

// ---------------------------------------------------------------- C24
struct Odd_error: std::runtime_error { Odd_error(const std::string& s): std::runtime_error(s) {} };

static void thrower(Method* m, const Param_list& p, Value& v)
{
  note(m, p);
  int kind = p.at(2).get_int();
  int code = p.at(3).get_int();
  std::string text = p.at(4).get_string();
  switch (kind) {
  case 0: throw Fault(code, text);
  case 1: throw std::runtime_error(text);
  case 2: throw Odd_error(text);
  case 3: throw Exception(text, code);
  case 4: throw 42;
  case 5: throw Invalid_meth_params();
  case 6: p.at(0).get_int(); break;                  // wrong type
  case 7: p.at(77); break;
  }
}

static void c24(long i, Rng& r)
{
  static int mode = -1;
  int want = (i / vh::opts().nshards / 25) % 4;
  if (!fx || mode != want) {
    mode = want;
    done();
    fresh(r, mode & 1 ? 2 : 0, A_ALL, [](Fixture& f) {
      f.method("thrower", thrower);
      f.server->set_verification_level(mode & 2 ? http::HTTP_CHECK_STRICT : http::HTTP_CHECK_WEAK);
    });
  }
  shim::calm();
  set_frag(r);
  bool strict = mode & 2;
  Peer p;
  if (!p.open(fx->port)) vh::broken("cannot connect");
  std::string id = token(r, 4, 8), trace = fmt("%s %s ", mode & 1 ? "pool" : "serial", strict ? "strict" : "weak");
  Msg m;
  if (r.chance(1, 3)) {                                // earlier calls of the connection
    int n = 1 + r.below(3);
    for (int k = 0; k < n; ++k) {
      std::string e = id + fmt("e%d", k);
      bool bad = r.chance(1, 4);
      p.send(post(call_xml(bad ? "nosuch" : "echo", {str(e), str(token(r, 0, 40))}), "", true));
      if (!p.message(m)) { vh::fail("no-answer", trace + fmt("earlier call: no response (%s)", p.eof ? "closed" : "silent")); alive(trace); return; }
      auto seen = take_log();
      Answer a = answer(m.body);
      if (m.status != 200 || a.fault != bad || seen.size() != (bad ? 0 : 1)) { vh::fail(bad ? "error-lost" : "refused", trace + fmt("earlier call: %zu executions, response ", seen.size()) + m.first + " " + vh::esc(m.body, 300)); return; }
    }
    trace += fmt("after %d calls ", n);
    m = Msg();
    vh::count("errors after other calls of the connection");
  }
  int what = r.below(10);
  if (what < 4) {                                      // exceptions of a method
    int kind = r.below(8);
    int code = r.chance(1, 2) ? (int)r.next() : r.range(-40000, 100);
    model::RV tv = model::mk_str(model::gen_text(r, r.below(60)));
    std::string text = tv.s;
    if (kind == 1 || kind == 2) { size_t z = text.find('\0'); if (z != std::string::npos) text.resize(z); }
    Param_list pl;
    pl.push_back(id);
    pl.push_back(std::string());
    pl.push_back(kind);
    pl.push_back(code);
    pl.push_back(text);
    trace += fmt("method throws kind %d code %d text '%s'", kind, code, vh::esc(text, 200).c_str());
    vh::mark(trace);
    p.send(post(dump_request(Request("thrower", pl))));
    if (!p.message(m)) { vh::fail("no-answer", trace + fmt(": no response (%s)", p.eof ? "closed" : "silent")); alive(trace); return; }
    auto seen = take_log();
    if (seen.size() != 1) { vh::fail("executions", trace + fmt(": %zu executions", seen.size())); return; }
    Answer a = answer(m.body);
    if (m.status != 200 || !a.fault) { vh::fail("error-lost", trace + ": response " + m.first + " " + vh::esc(m.body, 400) + a.problem); return; }
    if (kind == 0 && (a.code != code || a.text != text)) { vh::fail("fault-changed", trace + fmt(": arrived as %d '%s'", a.code, vh::esc(a.text, 200).c_str())); return; }
    if ((kind == 1 || kind == 2 || kind == 3) && a.text.find(text) == std::string::npos) { vh::fail("message-lost", trace + fmt(": arrived as %d '%s'", a.code, vh::esc(a.text, 200).c_str())); return; }
    vh::count("faults of methods compared");
    vh::distinct(trace);
  } else if (what < 7) {                               // documents
    struct { const char* what; std::string body; int code; } ds[] = {
      {"unknown method", call_xml("nosuch" + token(r, 0, r.chance(1, 4) ? 200 : 3), {str(id)}), -32601},
      {"unknown method, other case", call_xml("Echo", {str(id)}), -32601},
      {"not XML", soup(r, 1 + r.below(60)), -32700},
      {"truncated", call_xml("echo", {str(id)}).substr(0, 30 + r.below(80)), -32700},
      {"binary", std::string("\0\1\2\xff\xfe<", 6), -32700},
      {"mismatched tags", "<methodCall><methodName>echo</methodCall></methodName>", -32700},
      {"another document", "<html><body>x</body></html>", -32600},
      {"response", "<methodResponse><params><param><value>1</value></param></params></methodResponse>", -32600},
      {"unknown element", "<methodCall><methodName>echo</methodName><params><param><value><foo/></value></param></params></methodCall>", -32600},
      {"no method name", "<methodCall><params/></methodCall>", -32600},
      {"empty body", "", -32700},
    };
    auto& d = ds[r.below(sizeof ds / sizeof *ds)];
    trace += d.what;
    vh::mark(trace + " " + vh::esc(d.body, 500));
    p.send(post(d.body));
    if (!p.message(m)) { vh::fail("no-answer", trace + fmt(": no response (%s)", p.eof ? "closed" : "silent")); alive(trace); return; }
    if (!take_log().empty()) { vh::fail("executed", trace + ": a method ran"); return; }
    Answer a = answer(m.body);
    if (m.status != 200 || !a.fault) { vh::fail("error-lost", trace + " " + vh::esc(d.body, 300) + ": response " + m.first + " " + vh::esc(m.body, 300)); return; }
    if (a.code != d.code) { vh::fail("fault-code", trace + " " + vh::esc(d.body, 300) + fmt(": code %d instead of %d '%s'", a.code, d.code, vh::esc(a.text, 200).c_str())); return; }
    if (a.code == -32601) {
      size_t n = d.body.find("<methodName>") + 12;
      std::string name = d.body.substr(n, d.body.find("</methodName>") - n);
      if (a.text.find(name) == std::string::npos) { vh::fail("name-lost", trace + " " + name + ": the fault says '" + vh::esc(a.text, 300) + "'"); return; }
    }
    vh::count("wrong documents answered");
    vh::distinct(trace + d.body);
  } else {                                             // HTTP
    std::string body = call_xml("echo", {str(id)});
    std::string len = fmt("Content-Length: %zu\r\n", body.size());
    struct { const char* what; std::string req; int status; } hs[] = {
      {"GET", "GET /RPC HTTP/1.1\r\n" + len + "\r\n" + body, 405},
      {"PUT", "PUT /RPC HTTP/1.1\r\n" + len + "\r\n" + body, 405},
      {"lower-case method", "post /RPC HTTP/1.1\r\n" + len + "\r\n" + body, 405},
      {"no length", "POST /RPC HTTP/1.1\r\nHost: x\r\n\r\n" + body, 411},
      {"length not a number", "POST /RPC HTTP/1.1\r\nContent-Length: many\r\n\r\n" + body, 400},
      {"negative length", "POST /RPC HTTP/1.1\r\nContent-Length: -1\r\n\r\n" + body, 400},
      {"length overflow", "POST /RPC HTTP/1.1\r\nContent-Length: 123456789012345\r\n\r\n" + body, 400},
      {"empty length", "POST /RPC HTTP/1.1\r\nContent-Length:\r\n\r\n" + body, 400},
      {"no colon", "POST /RPC HTTP/1.1\r\nnonsense\r\n" + len + "\r\n" + body, 400},
      {"expectation", "POST /RPC HTTP/1.1\r\nExpect: more\r\n" + len + "\r\n" + body, 417},
      {"content type", "POST /RPC HTTP/1.1\r\nContent-Type: text/plain\r\n" + len + "\r\n" + body, strict ? 415 : 200},
      {"no content type", "POST /RPC HTTP/1.1\r\n" + len + "\r\n" + body, 200},
      {"right content type", "POST /RPC HTTP/1.1\r\nContent-Type: Text/XML; charset=utf-8\r\n" + len + "\r\n" + body, 200},
      {"no request line", "\r\n\r\n", 405},
    };
    auto& h = hs[r.below(sizeof hs / sizeof *hs)];
    bool half = r.chance(1, 3);
    trace += std::string(h.what) + (half ? " then half-closed" : "");
    vh::mark(trace);
    std::string req = h.req;
    if (r.chance(1, 3) && h.status != 200) req = req.substr(0, req.find("\r\n\r\n") + 4);
    p.send(req);
    if (half) p.half_close();
    if (!p.message(m)) { vh::fail("no-answer", trace + fmt(": no response (%s)", p.eof ? "closed" : "silent")); alive(trace); return; }
    auto seen = take_log();
    if (m.status != h.status) { vh::fail("status", trace + fmt(": status %d instead of %d", m.status, h.status)); return; }
    if (seen.size() != (h.status == 200 ? 1 : 0)) { vh::fail("executed", trace + fmt(": %zu executions", seen.size())); return; }
    if (!m.problem.empty()) { vh::fail("bad-response", trace + ": " + m.problem); return; }
    vh::count(h.status == 200 ? "acceptable requests served" : "wrong HTTP requests answered");
    vh::distinct(trace + req);
  }
  if (!p.ended()) { vh::fail("not-closed", trace + ": connection stays open"); return; }
  if (i % 61 < 3) vh::sample(trace);
  alive("C24");
}

int main(int argc, char** argv)
{
  vh::init(argc, argv, "C07");
  static const char* zones[] = {"UTC", "XST-3", "YST+5:30", "<+14>-14"};
  setenv("TZ", zones[vh::opts().shard % 4], 1);     // nothing said to a peer depends on it
  tzset();
  init_xml();
  heart();
  const std::string p = vh::opts().prop;
  if (p == "C07") vh::run_cases(c07, 50);
  else if (p == "C08") vh::run_cases(c08, 100);
  else if (p == "C21") vh::run_cases(c21, 100);
  else if (p == "C22") vh::run_cases(c22, 100);
  else if (p == "C24") vh::run_cases(c24, 100);
  else vh::broken("no such property " + p);
  shim::calm();
  done();
  return vh::finish();
}
