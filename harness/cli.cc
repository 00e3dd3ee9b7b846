// The client against a scripted server of the harness: C07 (client side),
// C15 (own response or error), C16 (timeouts), C23 (bytes sent), C24 (statuses).
#include "net.h"

#include <algorithm>

using namespace net;
using namespace iqxmlrpc;

typedef Client<Http_client_connection> Http_client;

static std::string token(Rng& r, size_t lo, size_t hi)
{
  static const char a[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
  std::string s;
  size_t n = r.range(lo, hi);
  while (s.size() < n) s += a[r.below(sizeof a - 1)];
  return s;
}

// ---------------------------------------------------------------- calls
struct Outcome {
  bool returned, fault, timeout, error_response;
  int code;                       // fault code, or HTTP status of an Error_response
  std::string text, type;         // string value or fault text; type and text of the exception
  Outcome(): returned(false), fault(false), timeout(false), error_response(false), code(0) {}
  std::string show() const
  {
    if (returned) return fault ? fmt("fault %d '%s'", code, vh::esc(text, 80).c_str()) : "value '" + vh::esc(text, 80) + fmt("' (%zu)", text.size());
    return "exception " + type + " " + vh::esc(text, 120) + (error_response ? fmt(" status %d", code) : "");
  }
};

static Outcome call(Client_base& c, const std::string& method, const Param_list& pl, const XHeaders& xh = XHeaders())
{
  Outcome o;
  try {
    Response r = c.execute(method, pl, xh);
    o.returned = true;
    o.fault = r.is_fault();
    if (o.fault) { o.code = r.fault_code(); o.text = r.fault_string(); }
    else o.text = r.value().is_string() ? r.value().get_string() : "not a string";
  }
  catch (const Client_timeout& e) { o.timeout = true; o.type = "Client_timeout"; o.text = e.what(); }
  catch (const http::Error_response& e) { o.error_response = true; o.code = e.response_header()->code(); o.type = "Error_response"; o.text = e.what(); }
  catch (const std::exception& e) { o.type = typeid(e).name(); o.text = e.what(); }
  return o;
}

//! A call in its own thread, so that one which never ends can be reported.
struct Running {
  Outcome out;
  std::atomic<bool> done;
  std::thread t;
  Running(): done(false) {}
  void start(Client_base& c, const Param_list& pl, const std::string& method = "m")
  {
    done = false;
    t = std::thread([this, &c, pl, method] { out = call(c, method, pl); done = true; });
  }
  bool join(int ms = LONG_MS)
  {
    if (!wait_for([this] { return done.load(); }, ms)) return false;
    t.join();
    return true;
  }
};

static std::string xml_ok(const std::string& s)
{
  return "<?xml version=\"1.0\"?><methodResponse><params><param><value><string>" + s + "</string></value></param></params></methodResponse>";
}

static std::string xml_fault(int code, const std::string& s)
{
  return fmt("<?xml version=\"1.0\"?><methodResponse><fault><value><struct><member><name>faultCode</name><value><int>%d</int></value></member>"
    "<member><name>faultString</name><value><string>", code) + s + "</string></value></member></struct></value></fault></methodResponse>";
}

//! `nl`: line ending; conn: the connection field, empty for none
static std::string response(const std::string& body, const std::string& status = "HTTP/1.1 200 OK", const std::string& conn = "", const std::string& nl = "\r\n", long len = -1)
{
  return status + nl + "Content-Type: text/xml" + nl + (conn.empty() ? "" : "Connection: " + conn + nl)
    + fmt("Content-Length: %ld", len < 0 ? (long)body.size() : len) + nl + nl + body;
}

//! A listener that can be closed and opened again on the same port.
struct Port {
  int fd, port, held;
  Port(): fd(-1), port(0), held(-1) { open(); }
  ~Port() { close(); if (held >= 0) sys::close(held); }
  //! Refuses connections from now on, and keeps others from taking the port.
  void refuse() { close(); bind(false); held = fd; fd = -1; }
  void open()
  {
    if (fd >= 0) return;
    if (held >= 0) {
      fd = held;
      held = -1;
      if (!sys::listen(fd, 50)) return;
      sys::close(fd);
    }
    bind(true);
  }
  void bind(bool listens)
  {
    for (int i = 0; ; ++i) {
      fd = sys::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
      int one = 1;
      setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
      sockaddr_in a;
      memset(&a, 0, sizeof a);
      a.sin_family = AF_INET;
      a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      a.sin_port = htons(port);
      socklen_t l = sizeof a;
      if (fd >= 0 && !sys::bind(fd, (sockaddr*)&a, sizeof a) && (!listens || !sys::listen(fd, 50)) && !getsockname(fd, (sockaddr*)&a, &l)) { port = ntohs(a.sin_port); return; }
      sys::close(fd);
      if (i > 500) vh::broken(fmt("cannot listen on port %d again: %s", port, strerror(errno)));
      usleep(10000);
    }
  }
  void close() { if (fd >= 0) sys::close(fd); fd = -1; }
};

//! Server side of one call: waits for a complete request on the current or a new connection.
static bool get_request(Port& l, Peer& c, Msg& m, const std::function<bool()>& stop, bool* fresh = 0, int rcvbuf = 0)
{
  Deadline d(LONG_MS);
  if (fresh) *fresh = false;
  for (;;) {
    if (c.fd >= 0 && take(c.in, m)) return true;
    if (d.over() || stop()) return false;
    struct pollfd q[2] = {{l.fd, POLLIN, 0}, {c.fd >= 0 && !c.eof ? c.fd : -1, POLLIN, 0}};
    sys::poll(q, 2, 20);
    if (q[1].revents) c.pull(0);
    if (q[0].revents) {
      if (c.fd >= 0 && !c.eof) c.pull(0);
      int f = sys::accept4(l.fd, 0, 0, SOCK_CLOEXEC);
      if (f >= 0) {
        c.close();
        c.in.clear();
        c.eof = c.reset = false;
        c.adopt(f);
        if (rcvbuf) setsockopt(f, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
        if (fresh) *fresh = true;
      }
    }
  }
}

static void send_pieces(Rng& r, Peer& c, const std::string& s, int pieces, int pause_us)
{
  size_t p = 0;
  for (int k = 0; k < pieces && p < s.size(); ++k) {
    size_t n = k + 1 == pieces ? s.size() - p : r.below(s.size() - p) + 1;
    if (!c.send(s.substr(p, n))) return;
    p += n;
    if (pause_us) usleep(r.below(pause_us)); else sched_yield();
  }
  if (p < s.size()) c.send(s.substr(p));
}

// ---------------------------------------------------------------- C15
enum Kind { OK, FAULT, STATUS, GARBAGE, CUT, CLOSE, RESET, BADXML, SHORTLEN, LONGLEN, NOLEN, SURPLUS, REFUSE, EARLY, NOHEADEND, BADSTATUS, SILENT, NKINDS };
static const char* kind_name[] = {"ok", "fault", "status", "garbage", "cut", "close", "reset", "badxml", "shortlen", "longlen", "nolen", "surplus", "refuse", "early", "noheadend", "badstatus", "silent"};

static void c15(long i, Rng& r)
{
  Port l;
  Peer conn;
  Http_client cl(iqnet::Inet_addr("127.0.0.1", l.port));
  bool keep = r.chance(1, 2);
  cl.set_keep_alive(keep);
  bool timed = r.chance(1, 60);
  shim::calm();
  shim::seed(r.next());
  shim::st().frag = r.pick(std::vector<int>{0, 0, 30, 80});
  shim::st().cut = r.pick(std::vector<int>{0, 0, 30});
  shim::st().instant = r.pick(std::vector<int>{0, 0, 50, 100});
  long instant0 = shim::st().instant_connects;
  std::string trace = std::string(keep ? "keep-alive:" : "one-shot:");
  unsigned calls = 2 + r.below(6);
  bool may_be_stale = false;       // the kept connection may be unusable now
  std::string late;                // a response the client has given up on
  Peer old;
  int silent_at = timed ? (int)r.below(calls - 1) : -1;
  for (unsigned k = 0; k < calls; ++k) {
    if (r.chance(1, 12)) { keep = !keep; cl.set_keep_alive(keep); trace += keep ? " +ka" : " -ka"; if (!keep) may_be_stale = false; }
    Kind kind = (int)k == silent_at ? SILENT : r.chance(1, 2) ? OK : (Kind)r.below(SILENT);
    if (silent_at >= 0 && (int)k == silent_at + 1) kind = OK;
    if (kind == SURPLUS && keep) kind = OK;     // nothing is promised about kept connections on which a server talks unasked
    std::string id = token(r, 8, 8);
    // the text returned: sizes around the reader's buffer matter
    std::string text = id;
    if (!shim::st().frag && !shim::st().cut && r.chance(1, 60)) { text += std::string(1000000 + r.below(5000000), 'm'); vh::count("responses of several megabytes"); }
    else switch (r.below(6)) {
    case 0: text += std::string(r.below(3000), 'x'); break;
    case 1: text += std::string(r.below(300000), 'y'); break;
    case 2: {   // so that the whole response has a length near a multiple of 64 KiB
      long want = 65536 * r.range(1, 3) + r.range(-2, 2);
      std::string probe = response(xml_ok(text));
      if ((long)probe.size() < want) text += std::string(want - probe.size() - 4, 'z');
      for (int q = 0; q < 20 && (long)response(xml_ok(text)).size() < want; ++q) text += 'z';
      break; }
    }
    int fcode = (int)r.range(-40000, 40000), status = r.pick(std::vector<int>{100, 201, 204, 301, 400, 401, 403, 404, 405, 413, 417, 500, 503});
    std::string nl = r.chance(1, 6) ? "\n" : "\r\n";
    std::string connf = r.pick(std::vector<std::string>{"", "keep-alive", "close", "Keep-Alive"});
    bool will_close = connf == "close" || r.chance(1, 6) || !keep;
    std::string line = r.pick(std::vector<std::string>{"HTTP/1.1 200 OK", "HTTP/1.0 200 OK", "HTTP/1.1 200", "HTTP/1.1 200 All is well"});
    trace += std::string(" ") + kind_name[kind] + fmt("/%zu%s", text.size(), will_close ? "c" : "");
    vh::mark(trace);
    if (kind == REFUSE) {
      // nobody listens
      if (conn.fd >= 0) { conn.close(); may_be_stale = false; }
      l.refuse();
    }
    Running run;
    Param_list pl;
    pl.push_back(id);
    // other calls have no timeout, a busy machine may make them slow
    if (timed) cl.set_timeout(kind == SILENT ? 1 : -1);
    run.start(cl, pl);
    Outcome o;
    bool sent_all = false;
    auto hung = [&]() { vh::fail(std::string("hang:") + kind_name[kind], trace + ": the call does not end"); vh::finish_now(1); };
    if (kind == REFUSE) {
      if (!run.join()) hung();
      o = run.out;
      l.open();
    } else {
      Msg m;
      bool got = false, ended_early = false;
      if (kind == EARLY) {
        // an answer before the request was read, then the end
        Deadline d(LONG_MS);
        while (!run.done && !d.over()) {
          struct pollfd qq[2] = {{l.fd, POLLIN, 0}, {conn.fd, POLLIN, 0}};
          sys::poll(qq, 2, 20);
          if (qq[0].revents) { int f = sys::accept4(l.fd, 0, 0, SOCK_CLOEXEC); if (f >= 0) { conn.close(); conn.in.clear(); conn.eof = conn.reset = false; conn.adopt(f); break; } }
          if (conn.fd >= 0 && qq[1].revents) { conn.pull(0); if (!conn.eof) break; conn.close(); }
        }
        if (conn.fd >= 0) { conn.send(response("no", "HTTP/1.1 413 Too large")); if (r.chance(1, 2)) conn.close(); else conn.abort(); }
      } else {
        got = get_request(l, conn, m, [&] { return run.done.load(); });
        ended_early = !got && run.done;
        if (got && m.body.find(id) == std::string::npos) { vh::fail("wrong-request", trace + ": the request does not carry this call's argument"); return; }
        if (got) vh::count("requests received by the scripted server");
      }
      if (got) {
        int pieces = r.pick(std::vector<int>{1, 1, 2, 5, 20}), pause = r.pick(std::vector<int>{0, 0, 300, 3000});
        bool end = will_close;
        switch (kind) {
        case OK: send_pieces(r, conn, response(xml_ok(text), line, connf, nl), pieces, pause); sent_all = true; break;
        case FAULT: send_pieces(r, conn, response(xml_fault(fcode, text), line, connf, nl), pieces, pause); sent_all = true; break;
        case STATUS: send_pieces(r, conn, response(xml_ok(text), fmt("HTTP/1.1 %d Phrase", status), connf, nl), pieces, pause); break;
        case GARBAGE: { std::string g; for (int q = r.range(1, 400); q > 0; --q) g += (char)r.below(256); conn.send(g); end = true; break; }
        case CUT: { std::string s = response(xml_ok(text), line, connf, nl); s.resize(r.below(s.size())); send_pieces(r, conn, s, pieces, pause); end = true; break; }
        case CLOSE: end = true; break;
        case RESET: { std::string s = response(xml_ok(text), line, connf, nl); s.resize(r.below(s.size())); if (r.chance(1, 2)) conn.send(s); conn.abort(); break; }
        case BADXML: { std::string s = xml_ok(text); size_t p = r.below(s.size()); s[p] = s[p] == '<' ? '>' : '<'; send_pieces(r, conn, response(s, line, connf, nl), pieces, pause); break; }
        case SHORTLEN: { std::string b = xml_ok(text); send_pieces(r, conn, response(b, line, connf, nl, r.below(b.size() - 20)), pieces, pause); end = true; break; }
        case LONGLEN: { std::string b = xml_ok(text); send_pieces(r, conn, response(b, line, connf, nl, b.size() + r.range(1, 5000)), pieces, pause); end = true; break; }
        case NOLEN: { std::string b = xml_ok(text); conn.send(line + "\r\nContent-Type: text/xml\r\n\r\n" + b); end = true; break; }
        case SURPLUS: {
          // the answer of this call and, in the same bytes, one nobody asked for
          std::string s = response(xml_ok(text), line, connf, nl);
          conn.send(s + response(xml_ok("stray" + token(r, 4, 4)), line, connf, nl));
          sent_all = true;
          end = true;
          break; }
        case NOHEADEND: conn.send(line + "\r\nContent-Length: 10\r\nX: " + std::string(r.below(100000), 'h')); end = true; break;
        case BADSTATUS: conn.send(r.pick(std::vector<std::string>{"HTTP/1.1\r\n", "200\r\n", "HTTP/1.1 2oo OK\r\n", "HTTP/1.1 99999999999 OK\r\n", "ICY\r\n", "\r\n"}) + fmt("Content-Length: %zu\r\n\r\n", xml_ok(text).size()) + xml_ok(text)); end = true; break;
        case SILENT: late = response(xml_ok("late" + id), line, "keep-alive"); end = false; break;
        default: break;
        }
        if (kind != SILENT && end && conn.fd >= 0) conn.half_close();
        if (!run.join()) hung();
        o = run.out;
        if (kind == SILENT) {
          // the answer comes after the client gave up
          conn.send(late);
          usleep(20000);
          vh::count("late responses");
          may_be_stale = false;
        } else if (end) {
          conn.close();
          may_be_stale = keep;
        } else
          may_be_stale = false;
      } else {
        if (!run.join()) hung();
        o = run.out;
        if (kind != EARLY && ended_early && !may_be_stale && kind != RESET && kind != CLOSE && !(kind == SILENT && o.timeout)) {
          vh::fail("no-call", trace + ": the call ended without sending a request: " + o.show());
          return;
        }
        conn.close();
      }
      if (!got && kind != EARLY) {
        // the kept connection was dead: this call failed, the next is a fresh one
        if (o.returned) { vh::fail("returned-nothing-sent", trace + ": " + o.show() + " although no response was sent"); return; }
        may_be_stale = false;
        vh::count("calls on a dead kept connection");
        continue;
      }
    }
    bool wanted = sent_all && (kind == OK || kind == FAULT || kind == SURPLUS);
    if (o.returned) {
      if (!wanted) {
        vh::fail(std::string("returned:") + kind_name[kind], trace + ": returned " + o.show());
        return;
      }
      if (kind == FAULT ? !o.fault || o.code != fcode || o.text != text : o.fault || o.text != text) {
        vh::fail("wrong-response", trace + ": returned " + o.show() + ", this call's id is " + id);
        return;
      }
      vh::count("responses returned");
      if (text.size() > 60000) vh::count("large responses returned");
    } else {
      if (wanted) { vh::fail(std::string("raised:") + kind_name[kind], trace + ": " + o.show() + " although the response was complete"); return; }
      if (kind == STATUS && (!o.error_response || o.code != status)) { vh::fail("status", trace + fmt(": status %d gave ", status) + o.show()); return; }
      if (kind == SILENT && !o.timeout) { vh::fail("silent", trace + ": " + o.show()); return; }
      vh::count("errors raised");
      vh::count(std::string("raised: ") + kind_name[kind]);
      may_be_stale = false;       // after a failed call the next one must work
      if (kind == STATUS || kind == BADXML) { /* connection may be reused or not */ if (conn.fd >= 0 && conn.eof) conn.close(); }
    }
    vh::count("calls");
  }
  vh::count("connections decided at once", shim::st().instant_connects - instant0);
  vh::distinct(trace);
  if (i % 61 < 3) vh::sample(trace);
}

// ---------------------------------------------------------------- C07, client side
static void c07(long i, Rng& r)
{
  Port l;
  shim::calm();
  std::string nl = r.chance(1, 2) ? "\n" : "\r\n", text = token(r, 0, 60);
  std::string head, body, what;
  auto odd = [&](std::string s) { for (char& c : s) if (r.chance(1, 3)) c = isupper(c) ? tolower(c) : toupper(c); return s; };
  int kind = r.below(8);
  body = xml_ok(text);
  std::string line = "HTTP/1.1 200 OK";
  long len = body.size();
  bool large = r.chance(1, 10);
  if (large) { text += std::string(r.range(60000, 140000), 'L'); body = xml_ok(text); len = body.size(); }
  switch (kind) {
  case 0: case 1: case 2: what = "value"; break;
  case 3: what = "fault"; body = xml_fault((int)r.range(-9, 9), text); len = body.size(); break;
  case 4: what = "status"; line = fmt("HTTP/1.1 %d Gone", (int)r.range(201, 599)); break;
  case 5: what = "announces less"; len = r.below(body.size()); break;
  case 6: what = "announces more"; len = body.size() + r.range(1, 50); break;
  case 7: what = "surplus"; body += std::string(r.range(1, 200), '\n') + "HTTP/1.1 200 OK\n\n"; break;
  }
  head = line + nl;
  for (int k = r.below(4); k > 0; --k) head += "X-" + token(r, 1, 8) + ":" + (r.chance(1, 2) ? " " : "") + token(r, 0, 20) + nl;
  head += odd("content-length") + fmt(": %ld", len) + nl;
  if (r.chance(1, 2)) head += odd("content-type") + ": text/xml" + nl;
  head += nl;
  std::string msg = head + body;
  auto once = [&](const std::vector<int>& plan) -> Outcome {
    Http_client cl(iqnet::Inet_addr("127.0.0.1", l.port));
    shim::st().plan_pos = 0;
    shim::st().plan = plan.empty() ? nullptr : &plan;
    Running run;
    Param_list pl;
    pl.push_back("x");
    run.start(cl, pl);
    Peer c;
    Msg m;
    if (!get_request(l, c, m, [&] { return run.done.load(); })) { vh::fail("no-request", what + ": no request arrives"); vh::finish_now(1); }
    c.send(msg);
    c.half_close();
    if (!run.join()) { vh::fail("hang", what + ": the call does not end"); vh::finish_now(1); }
    shim::st().plan = nullptr;
    return run.out;
  };
  vh::mark(what);
  std::vector<int> none;
  Outcome whole = once(none);
  if (kind <= 2 || kind == 7) {
    if (!whole.returned || whole.fault || whole.text != text) { vh::fail("whole", what + ": " + whole.show() + " for " + vh::esc(msg, 400)); return; }
  } else if (kind == 3) {
    if (!whole.returned || !whole.fault || whole.text != text) { vh::fail("whole", what + ": " + whole.show()); return; }
  } else if (whole.returned) { vh::fail("whole", what + ": " + whole.show()); return; }
  std::vector<std::vector<int> > plans;
  if (!large) {
    size_t upto = std::min(msg.size() - 1, head.size() + 12);
    for (size_t p = 1; p <= upto; p += (p < 40 || p + 20 > head.size()) ? 1 : 1 + r.below(6)) plans.push_back({(int)p});
  }
  for (int k = 0; k < 6; ++k) {
    std::vector<int> p;
    size_t sum = 0;
    int step = r.pick(std::vector<int>{1, 2, 7, 50, 3000});
    while (sum < msg.size() && p.size() < 3000) { p.push_back((int)r.range(1, step)); sum += p.back(); }
    plans.push_back(p);
  }
  if (large) for (int d : {65535, 65536, 65537, 32768}) plans.push_back({d});
  for (auto& p : plans) {
    std::string d = fmt("%s, %zu bytes, header %zu, read as", what.c_str(), msg.size(), head.size());
    for (size_t k = 0; k < p.size() && k < 6; ++k) d += fmt(" %d", p[k]);
    vh::mark(d);
    Outcome o = once(p);
    // whole error texts are not part of the comparison: they may name system errors
    if (o.returned != whole.returned || o.fault != whole.fault || o.code != whole.code || o.type != whole.type || (o.returned && o.text != whole.text)) {
      vh::fail("fragmentation", d + ": " + o.show() + ", whole: " + whole.show() + " message " + vh::esc(msg, 300));
      return;
    }
    vh::count("responses read in pieces");
    vh::count("pieces", p.size() + 1);
    vh::distinct(d + fmt("%lx", (unsigned long)vh::fnv(msg)));
  }
  if (i % 61 < 3) vh::sample(what + fmt(": %zu bytes in %zu ways", msg.size(), plans.size()));
}

// ---------------------------------------------------------------- C23
static void c23(long i, Rng& r)
{
  Port l, other;
  Port* at = &l;                  // where the requests are expected
  bool proxy = r.chance(1, 3);
  std::string uri = r.pick(std::vector<std::string>{"/RPC", "/", "/a/b?c=d&e=%20", "/" + token(r, 1, 300), "RPC2", "/x;y=z#f", "*"});
  std::string vhost = r.pick(std::vector<std::string>{"", "", "example.org", "a-b.c.d", token(r, 1, 60)});
  std::string host = proxy ? r.pick(std::vector<std::string>{"no.such.host.invalid", "127.0.0.1", "10.255.255.1"}) : "127.0.0.1";
  int port = proxy ? (int)r.range(1, 65535) : l.port;
  // line ends in a host name would become fields of the request
  std::string split = "a" + r.pick(std::vector<std::string>{"\r", "\n", "\r\n", "\r\nx-y: z"});
  if (r.chance(1, 2)) split += token(r, 1, 5);
  try {
    iqnet::Inet_addr a(split, port);
    vh::fail("split-host", "a host name with line ends is taken: " + vh::esc(split));
    return;
  } catch (const iqnet::network_error&) {
    vh::count("host names with line ends refused");
  }
  if (r.chance(1, 4)) {
    // so they would in the host's other name and in the URI
    bool in_uri = r.chance(1, 2), refused = false;
    std::string how, where = fmt("%s %s '%s'", proxy ? "proxy," : "direct,", in_uri ? "URI" : "virtual host", vh::esc(split).c_str());
    vh::mark("line ends: " + where);
    try {
      Http_client sc(iqnet::Inet_addr(host, port), in_uri ? "/" + split : uri, in_uri ? vhost : split);
      if (proxy) sc.set_proxy(iqnet::Inet_addr("127.0.0.1", l.port));
      sc.set_timeout(3);
      Param_list none;
      sc.execute("m", none);
    } catch (const Client_timeout&) {
      how = "sent, no answer";
    } catch (const std::exception& e) { refused = true; how = e.what(); }
    Peer z;
    for (int f; (f = sys::accept4(l.fd, 0, 0, SOCK_CLOEXEC)) >= 0; ) {
      z.adopt(f);
      while (!z.eof && z.pull(2000)) {}
      z.close();
    }
    if (!refused || !z.in.empty()) { vh::fail("split-request", where + " is taken (" + how + "), the server receives " + vh::esc(z.in, 300)); return; }
    vh::count("URIs and virtual hosts with line ends refused");
  }
  Http_client cl(iqnet::Inet_addr(host, port), uri, vhost);
  if (proxy) cl.set_proxy(iqnet::Inet_addr("127.0.0.1", l.port));
  std::string vh_ = vhost.empty() ? host : vhost;
  bool keep = r.chance(1, 2);
  cl.set_keep_alive(keep);
  shim::calm();
  shim::seed(r.next());
  shim::st().cut = r.pick(std::vector<int>{0, 0, 30, 90});
  Peer c;
  std::string trace = fmt("%s uri '%s' host '%s'%s", proxy ? "proxy" : "direct", vh::esc(uri, 30).c_str(), vh::esc(vh_, 30).c_str(), keep ? " keep-alive" : "");
  std::string user, pw;
  bool connected = false;
  for (int k = 0; k < 3; ++k) {
    if (r.chance(1, 2)) {
      user = r.pick(std::vector<std::string>{"", "u", "j\xc3\xb6", token(r, 1, 200), "with space", "\xff\xfe"});
      pw = r.pick(std::vector<std::string>{"", "p", "a:b", token(r, 1, 200), "\xff\xfe\x80"});
      cl.set_authinfo(user, pw);
    }
    if (r.chance(1, 6)) {
      // a proxy may be named at any time, and another one later
      proxy = true;
      at = at == &l ? &other : &l;
      cl.set_proxy(iqnet::Inet_addr("127.0.0.1", at->port));
      trace += " [proxy]";
      if (k) vh::count("proxies named between calls");
      if (connected) vh::count("proxies named while a connection is kept");
      connected = false;
    }
    if (r.chance(1, 5)) {
      keep = !keep;
      cl.set_keep_alive(keep);
      if (!keep && connected && !c.ended()) { vh::fail("kept-open", trace + ": the client keeps a connection although told not to"); return; }
      if (!keep) connected = false;
    } else if (r.chance(1, 5))
      cl.set_keep_alive(keep);    // nothing changes
    XHeaders xh;
    std::map<std::string, std::string> sent_x;
    for (int n = r.below(3); n > 0; --n) { std::string nm = "x-" + lower(token(r, 1, 8)), v = token(r, 0, 20); xh[nm] = v; sent_x[nm] = v; }
    std::string payload = token(r, 0, 50), method = token(r, 1, 20);
    bool huge = r.chance(1, 30);
    if (huge) payload += std::string(r.range(200000, 6000000), 'p');
    else if (r.chance(1, 4)) payload += std::string(r.below(70000), 'q');
    bool slow = r.chance(1, 3);
    trace += fmt(" [%zu bytes%s%s%s]", payload.size(), slow ? " slow" : "", user.empty() ? "" : " auth", keep ? "" : " close");
    vh::mark(trace);
    Param_list pl;
    pl.push_back(payload);
    Outcome o;
    std::atomic<bool> done(false);
    std::thread t([&] { o = call(cl, method, pl, xh); done = true; });
    auto hung = [&]() { vh::fail("hang", trace + ": the call does not end"); vh::finish_now(1); };
    Msg m;
    bool fresh = false, ok;
    if (slow) {
      // read in small pieces with pauses
      ok = false;
      Deadline d(LONG_MS);
      std::string none;
      if (!connected) {
        struct pollfd q = {at->fd, POLLIN, 0};
        while (!d.over() && sys::poll(&q, 1, 50) <= 0 && !done) if (c.fd >= 0 && c.pull(0)) break;
        int f = sys::accept4(at->fd, 0, 0, SOCK_CLOEXEC);
        if (f >= 0) { c.close(); c.in.clear(); c.eof = c.reset = false; c.adopt(f); int b = keep || huge ? 60000 : 4096; setsockopt(f, SOL_SOCKET, SO_RCVBUF, &b, sizeof b); fresh = true; }
      }
      long rounds = 0;
      while (c.fd >= 0 && !d.over() && !c.eof) {
        if (take(c.in, m)) { ok = true; break; }
        if (c.pull(50, huge ? 65536 : 1 + r.below(3000))) d = Deadline(LONG_MS);
        if (++rounds < 40) usleep(r.below(1500));
        if (done && c.eof) break;
      }
    } else
      ok = get_request(*at, c, m, [&] { return done.load(); }, &fresh);
    if (!ok) {
      if (!wait_for([&] { return done.load(); })) hung();
      t.join();
      vh::fail("no-request", trace + ": no complete request arrives: " + o.show() + " received " + vh::esc(c.in, 200));
      return;
    }
    std::string bad;
    if (m.first.compare(0, 5, "POST ") != 0) bad = "no POST";
    size_t e = m.first.rfind(" HTTP/1.");
    std::string target = e == std::string::npos || e < 5 ? "" : m.first.substr(5, e - 5);
    std::string want = uri;
    if (proxy) want = "http://" + vh_ + fmt(":%d", port) + (uri[0] == '/' ? "" : "/") + uri;
    if (target != want) bad = "request target '" + target + "' instead of '" + want + "'";
    if (!m.problem.empty()) bad = m.problem;
    if (m.count("host") != 1 || (m.get("host") != vh_ + fmt(":%d", port) && !(port == 80 && m.get("host") == vh_))) bad = "host '" + m.get("host") + "'";
    if (m.get("content-type").compare(0, 8, "text/xml") != 0) bad = "content type '" + m.get("content-type") + "'";
    if (user.empty() ? m.count("authorization") != 0 : m.count("authorization") != 1 || m.get("authorization") != "Basic " + model::b64(user + ":" + pw)) bad = "authorization '" + m.get("authorization") + "'";
    bool says_keep = lower(m.get("connection")) == "keep-alive";
    if (says_keep != keep) bad = "connection '" + m.get("connection") + "'";
    for (auto& x : sent_x) if (m.count(x.first) != 1 || m.get(x.first) != x.second) bad = "header " + x.first + " '" + m.get(x.first) + "'";
    for (auto& f : m.fields) if (f.first.compare(0, 2, "x-") == 0 && !sent_x.count(f.first)) bad = "unasked header " + f.first;
    std::string method_seen, payload_seen;
    try {
      model::Ref_request q = model::read_request(m.body);
      method_seen = q.name;
      if (q.params.size() == 1 && q.params[0].k == model::STR) payload_seen = q.params[0].s; else bad = "wrong parameters";
    } catch (const std::exception& x) { bad = std::string("body: ") + x.what(); }
    if (bad.empty() && (method_seen != method || payload_seen != payload)) bad = "body carries another call";
    if (!c.in.empty()) bad = fmt("%zu bytes beyond the request", c.in.size());
    if (!connected && !fresh) bad = "sent on a connection that is not to be used any more";
    if (connected && fresh) bad = "a kept connection was not used";
    if (!bad.empty()) {
      c.abort();
      if (!wait_for([&] { return done.load(); })) hung();
      t.join();
      vh::fail("request", trace + ": " + bad + " in " + vh::esc(m.first, 200));
      return;
    }
    c.send(response(xml_ok("r"), "HTTP/1.1 200 OK", keep ? "keep-alive" : "close"));
    if (!wait_for([&] { return done.load(); })) hung();
    t.join();
    if (!o.returned || o.text != "r") { vh::fail("answer", trace + ": " + o.show()); return; }
    if (!keep) {
      if (!c.ended()) { vh::fail("not-closed", trace + ": the client keeps a one-shot connection open"); return; }
      c.close();
      connected = false;
    } else
      connected = true;
    vh::count("requests checked");
    if (huge) vh::count("requests of megabytes checked");
    if (slow) vh::count("requests read slowly");
    if (proxy) vh::count("requests to a proxy checked");
    if (!user.empty()) vh::count("credentials checked");
    if (keep && !fresh) vh::count("requests on a kept connection");
  }
  vh::distinct(trace);
  if (i % 61 < 3) vh::sample(trace);
}

// ---------------------------------------------------------------- C24, client side
static void c24(long i, Rng& r)
{
  Port l;
  Http_client cl(iqnet::Inet_addr("127.0.0.1", l.port));
  cl.set_keep_alive(r.chance(1, 2));
  shim::calm();
  shim::seed(r.next());
  shim::st().frag = r.pick(std::vector<int>{0, 60});
  Peer c;
  std::string trace;
  for (int k = 0; k < 3; ++k) {
    bool fault = r.chance(1, 3);
    int code = fault ? (int)r.range(INT32_MIN, INT32_MAX) : (int)r.range(201, 599);
    std::string text = r.pick(std::vector<std::string>{"", "x", "some text", "Grund: \xc3\xa4\xc3\xb6", token(r, 1, 3000)});
    trace += fmt(" %s %d", fault ? "fault" : "status", code);
    vh::mark(trace);
    Running run;
    Param_list pl;
    run.start(cl, pl);
    Msg m;
    if (!get_request(l, c, m, [&] { return run.done.load(); })) { vh::fail("no-request", trace); vh::finish_now(1); }
    c.send(fault ? response(xml_fault(code, text), "HTTP/1.1 200 OK", "keep-alive")
      : response(r.chance(1, 2) ? xml_ok("not this") : "", fmt("HTTP/1.1 %d %s", code, text.substr(0, 20).c_str()), "keep-alive"));
    if (!run.join()) { vh::fail("hang", trace); vh::finish_now(1); }
    Outcome o = run.out;
    if (fault ? !o.returned || !o.fault || o.code != code || o.text != text : o.returned || !o.error_response || o.code != code) {
      vh::fail("client-status", trace + ": " + o.show());
      return;
    }
    vh::count(fault ? "faults seen by a client" : "statuses seen by a client");
  }
  vh::distinct(trace);
  if (i % 61 < 3) vh::sample(trace);
}

// ---------------------------------------------------------------- C16
// Each case runs many sessions at the same time, each with its own client and server thread.
enum Silence { S_CONNECT, S_REQUEST, S_NOANSWER, S_HEADER, S_BODY, S_KEPT, P_ANSWER, P_REQUEST, P_LONG, N_SILENCE };
static const char* sname[] = {"silent connect", "request not read", "no answer", "silent in the header", "silent in the body", "silent on a kept connection",
  "progress in the answer", "progress in the request", "no timeout"};

static void on_signal(int) {}

static double clock_now() { return vh::now(); }

struct Session {
  int kind, timeout, span = 0;
  bool signals;
  uint64_t seed;
  std::string problem;           // set when wrong
  std::string show() const { return fmt("%s, timeout %d s%s", sname[kind], kind == P_LONG ? span : timeout, signals ? ", interrupted by signals" : ""); }
};

static void nap(double s)
{
  double end = clock_now() + s;
  while (clock_now() < end) usleep(5000);
}

static void session(Session& s)
{
  Rng r(s.seed);
  Port l;
  std::vector<int> fill;
  if (s.kind == S_CONNECT) {
    // a listener whose queue is full ignores further connections
    sys::listen(l.fd, 0);
    for (int k = 0; k < 8; ++k) {
      int f = sys::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
      sockaddr_in a;
      memset(&a, 0, sizeof a);
      a.sin_family = AF_INET;
      a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      a.sin_port = htons(l.port);
      sys::connect(f, (sockaddr*)&a, sizeof a);
      fill.push_back(f);
      struct pollfd q = {f, POLLOUT, 0};
      if (sys::poll(&q, 1, 150) == 0) break;      // this one stays outside
    }
  }
  Http_client cl(iqnet::Inet_addr("127.0.0.1", l.port));
  // no timeout and hours or years of it are the same here, also when counted in smaller units
  s.span = s.kind == P_LONG ? r.pick(std::vector<int>{-1, -1, 600, 86400, 2147483, 2147484, 4294967, 4294968, 8589935, 12884902, 2147483647}) : s.timeout;
  if (s.span > 600) vh::count("calls with a timeout of days or more");
  if (r.chance(1, 2)) { cl.set_timeout(r.pick(std::vector<int>{1, 1, 60, -1})); vh::count("calls with a timeout that was changed"); }
  cl.set_timeout(s.span);
  bool keep = s.kind == S_KEPT || r.chance(1, 3);
  cl.set_keep_alive(keep);
  std::string id = token(r, 6, 6);
  Param_list pl;
  pl.push_back(s.kind == S_REQUEST ? id + std::string(8000000, 'b') : s.kind == P_REQUEST ? id + std::string(7000000, 'b') : id);

  std::atomic<bool> done(false), in_call(false);
  Outcome o;
  double t0 = 0, t1 = 0;
  long b0 = 0, b1 = 0;
  auto timed_call = [&] {
    b0 = heart().beats;
    t0 = clock_now();
    in_call = true;
    o = call(cl, "m", pl);
    in_call = false;
    t1 = clock_now();
    b1 = heart().beats;
    done = true;
  };
  std::thread t;
  Peer c;
  Msg m;
  if (s.kind == S_KEPT) {
    t = std::thread([&] { o = call(cl, "m", pl); done = true; });
    if (get_request(l, c, m, [&] { return done.load(); })) c.send(response(xml_ok("first"), "HTTP/1.1 200 OK", "keep-alive"));
    t.join();
    if (o.timeout) { vh::count("sessions on a machine too slow for them"); return; }
    if (!o.returned) { s.problem = "the first call failed: " + o.show(); return; }
    done = false;
  }
  t = std::thread(timed_call);
  pthread_t th = t.native_handle();
  std::atomic<bool> quiet(false);
  std::thread sig;
  if (s.signals) sig = std::thread([&] {
    while (!quiet) {
      if (in_call) pthread_kill(th, SIGUSR1);
      usleep(70000);
    }
  });
  auto stop = [&] { return done.load(); };
  std::string ans = response(xml_ok(id), "HTTP/1.1 200 OK", keep ? "keep-alive" : "close");
  bool expect_timeout = s.kind <= S_KEPT;
  std::vector<std::pair<double, double> > progress;      // before and after the steps of the server
  // how long the client has waited at most since the last step it can have seen
  auto waited = [&] {
    double from = t0;
    for (auto& p : progress) if (p.second <= t1) from = std::max(from, p.first);
    return t1 - from;
  };
  long beat = -1;                  // when the last progress was seen
  switch (s.kind) {
  case S_CONNECT: break;
  case S_REQUEST: {
    // the connection is accepted, nothing is read
    struct pollfd q = {l.fd, POLLIN, 0};
    while (!done && sys::poll(&q, 1, 50) <= 0) {}
    int f = sys::accept4(l.fd, 0, 0, SOCK_CLOEXEC);
    if (f >= 0) c.adopt(f);
    int had = -1;
    while (!done && f >= 0) {
      int n = 0;
      ioctl(f, FIONREAD, &n);
      if (n != had) { had = n; beat = heart().beats; }
      usleep(3000);
    }
    break; }
  case S_NOANSWER: case S_KEPT: get_request(l, c, m, stop); beat = heart().beats; break;
  case S_HEADER: case S_BODY:
    if (get_request(l, c, m, stop)) {
      size_t h = ans.find("\r\n\r\n") + 4;
      if (r.chance(1, 2)) nap(0.4 * s.timeout);
      double now = clock_now();
      c.send(ans.substr(0, s.kind == S_HEADER ? 1 + r.below(h - 1) : h + r.below(ans.size() - h)));
      progress.push_back({now, clock_now()});
      beat = heart().beats;
    }
    break;
  case P_ANSWER:
    if (get_request(l, c, m, stop)) {
      size_t n = 4, p = 0;
      for (size_t k = 0; k < n && !done; ++k) {
        nap(0.55 * s.timeout);
        size_t e = k + 1 == n ? ans.size() : p + 1 + r.below((ans.size() - p) / 2);
        double now = clock_now();
        c.send(ans.substr(p, e - p));
        progress.push_back({now, clock_now()});
        p = e;
      }
    }
    break;
  case P_REQUEST: {
    struct pollfd q = {l.fd, POLLIN, 0};
    while (!done && sys::poll(&q, 1, 50) <= 0) {}
    int f = sys::accept4(l.fd, 0, 0, SOCK_CLOEXEC);
    if (f >= 0) c.adopt(f);
    // bursts of reading with pauses shorter than the timeout
    bool complete = false;
    size_t unseen = 0;             // the client is told of free space only when there is plenty
    while (!done && !complete && f >= 0) {
      nap(0.4 * s.timeout);
      for (size_t got = 0; got < 4000000 && !complete && !c.eof; ) {
        double now = clock_now();
        size_t n = c.pull(100);
        unseen += n;
        if (unseen >= 3000000) { progress.push_back({now, clock_now()}); unseen = 0; }
        got += n;
        complete = take(c.in, m);
        if (!n) break;
      }
      if (c.eof) break;
    }
    if (complete) c.send(ans);
    break; }
  case P_LONG:
    if (get_request(l, c, m, stop)) {
      nap(1.5);
      c.send(ans.substr(0, 20));
      nap(1.0);
      c.send(ans.substr(20));
    }
    break;
  }
  bool ended = wait_for([&] { return done.load(); }, s.timeout * 1000 + 20000);
  quiet = true;
  if (sig.joinable()) sig.join();
  if (!ended) { s.problem = "the call does not end"; t.detach(); vh::fail("hang", s.show() + ": " + s.problem); vh::finish_now(1); }
  t.join();
  for (int f : fill) sys::close(f);
  double took = t1 - t0;
  if (expect_timeout) {
    if (!o.timeout) { s.problem = fmt("after %.2f s: ", took) + o.show() + " instead of a timeout"; return; }
    if (waited() < s.timeout - 0.02) { s.problem = fmt("timed out after %.3f s", waited()); return; }
    // beats are never more than the time that passed, so a stalled machine cannot fail this
    if (beat < b0) beat = b0;
    if ((b1 - beat) * 0.01 > s.timeout + 2.5) { s.problem = fmt("timed out only %.2f s after the last progress", (b1 - beat) * 0.01); return; }
    vh::count(std::string("timeouts: ") + sname[s.kind]);
  } else {
    // pauses may get longer than the timeout on a busy machine
    if (o.timeout && s.kind != P_LONG && waited() >= s.timeout - 0.02) { vh::count("sessions on a machine too slow for them"); return; }
    if (!o.returned || o.text != id) { s.problem = fmt("after %.2f s: ", took) + o.show(); return; }
    if (took > s.timeout) vh::count("calls longer than the timeout that succeeded");
    vh::count(std::string("completed: ") + sname[s.kind]);
  }
  if (s.signals) vh::count("sessions interrupted by signals");
  // the same client makes a correct call afterwards
  if (s.kind != S_CONNECT && s.kind != S_REQUEST) {
    done = false;
    pl[0] = Value("after");
    if (!keep || !o.returned) c.close();
    cl.set_timeout(-1);
    std::thread t2([&] { o = call(cl, "m", pl); done = true; });
    if (get_request(l, c, m, stop)) c.send(response(xml_ok("after"), "HTTP/1.1 200 OK", "close"));
    if (!wait_for([&] { return done.load(); })) { vh::fail("hang", s.show() + ": the call after it does not end"); vh::finish_now(1); }
    t2.join();
    if (!o.returned || o.text != "after") { s.problem = "the next call: " + o.show(); return; }
    vh::count("calls after a timeout or slow call");
  }
  vh::distinct(s.show() + fmt(" %d %lu", keep, (unsigned long)(s.seed % 8)));
}

static void c16(long i, Rng& r)
{
  shim::calm();
  std::vector<Session> ss;
  for (int k = 0; k < N_SILENCE; ++k)
    for (int q = 0; q < 2; ++q) {
      Session s;
      s.kind = k;
      s.timeout = r.chance(1, 4) ? 2 : 1;
      s.signals = q == 1;
      s.seed = r.next();
      ss.push_back(s);
    }
  vh::mark("sessions");
  std::vector<std::thread> ts;
  for (auto& s : ss) ts.emplace_back([&s] { session(s); });
  for (auto& t : ts) t.join();
  for (auto& s : ss)
    if (!s.problem.empty()) vh::fail(std::string("timeout:") + sname[s.kind], s.show() + ": " + s.problem);
  vh::count("sessions", ss.size());
  if (i < 3) for (size_t k = 0; k < ss.size(); k += 5) vh::sample(ss[k].show());
}

int main(int argc, char** argv)
{
  vh::init(argc, argv, "C15");
  init_xml();
  heart();
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;
  sigaction(SIGUSR1, &sa, 0);
  const std::string p = vh::opts().prop;
  if (p == "C15") vh::run_cases(c15, 100);
  else if (p == "C07") vh::run_cases(c07, 50);
  else if (p == "C16") vh::run_cases(c16, 0);
  else if (p == "C23") vh::run_cases(c23, 100);
  else if (p == "C24") vh::run_cases(c24, 200);
  else vh::broken("no such property " + p);
  shim::calm();
  return vh::finish();
}
