// Server fixture, raw HTTP peers and waiting helpers of the network harnesses.
#ifndef NET_H
#define NET_H

#include "shim.h"
#include "model.h"
#include "tlsutil.h"

#include <dirent.h>
#include <signal.h>
#include <condition_variable>
#include <memory>
#include <thread>

#include "libiqxmlrpc/libiqxmlrpc.h"
#include "libiqxmlrpc/auth_plugin.h"
#include "libiqxmlrpc/http_client.h"
#include "libiqxmlrpc/http_errors.h"
#include "libiqxmlrpc/http_server.h"
#include "libiqxmlrpc/xheaders.h"

namespace net {

using vh::Rng;
using vh::fmt;

// ---------------------------------------------------------------- time
// Deadlines count beats of a sleeping thread instead of the clock, so that a
// machine which does not let this process run cannot turn into a "hang".
struct Heart {
  std::atomic<long> beats;
  Heart(): beats(0)
  {
    std::thread([this] {
      for (;;) { usleep(10000); beats.fetch_add(1, std::memory_order_relaxed); }
    }).detach();
  }
};
inline Heart& heart() { static Heart* h = new Heart; return *h; }

//! The messages of libxml2 about wrong documents are of no use here.
inline void no_message(void*, const char*, ...) {}
inline void init_xml()
{
  xmlInitParser();
  xmlThrDefSetGenericErrorFunc(0, no_message);
  xmlSetGenericErrorFunc(0, no_message);
}

struct Deadline {
  long end;
  explicit Deadline(int ms): end(heart().beats.load(std::memory_order_relaxed) + ms / 10 + 1) {}
  bool over() const { return heart().beats.load(std::memory_order_relaxed) >= end; }
  int left_ms() const
  {
    long l = (end - heart().beats.load(std::memory_order_relaxed)) * 10;
    return l < 0 ? 0 : l > 200 ? 200 : (int)l;
  }
};

const int LONG_MS = 25000;          // nothing that works takes this long

template <class F> bool wait_for(F f, int ms = LONG_MS)
{
  Deadline d(ms);
  for (int i = 0; !f(); ++i) {
    if (d.over()) return f();
    if (i < 50) sched_yield(); else usleep(i < 200 ? 200 : 2000);
  }
  return true;
}

// ---------------------------------------------------------------- descriptors
inline int open_fds(std::string* list = 0)
{
  DIR* d = opendir("/proc/self/fd");
  if (!d) vh::broken("no /proc/self/fd");
  int n = 0;
  while (dirent* e = readdir(d)) {
    if (e->d_name[0] == '.') continue;
    int fd = atoi(e->d_name);
    if (fd == dirfd(d)) continue;
    ++n;
    if (list) {
      char b[256];
      ssize_t l = readlink(fmt("/proc/self/fd/%d", fd).c_str(), b, sizeof b - 1);
      *list += fmt("%d=%.*s ", fd, l > 0 ? (int)l : 0, b);
    }
  }
  closedir(d);
  return n;
}

inline int thread_count()
{
  DIR* d = opendir("/proc/self/task");
  if (!d) vh::broken("no /proc/self/task");
  int n = 0;
  while (dirent* e = readdir(d)) if (e->d_name[0] != '.') ++n;
  closedir(d);
  return n;
}

// ---------------------------------------------------------------- HTTP text
inline std::string lower(std::string s)
{
  for (char& c : s) if (c >= 'A' && c <= 'Z') c += 32;
  return s;
}

inline std::string trim(const std::string& s)
{
  size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}

//! An HTTP message as an independent reader sees it.
struct Msg {
  std::string first, body, problem;      // problem: why it is no correct message
  std::vector<std::pair<std::string, std::string> > fields;
  int status;
  bool complete;
  Msg(): status(0), complete(false) {}
  int count(const std::string& name) const
  {
    int n = 0;
    for (auto& f : fields) if (f.first == name) ++n;
    return n;
  }
  std::string get(const std::string& name) const
  {
    for (auto& f : fields) if (f.first == name) return f.second;
    return "";
  }
};

//! Takes one message off the front of `in`; false when more bytes are needed.
//! `no_body`: the message has no body whatever it says.
inline bool take(std::string& in, Msg& m, bool no_body = false)
{
  size_t h = in.find("\r\n\r\n");
  if (h == std::string::npos) return false;
  m = Msg();
  std::string head = in.substr(0, h + 2);
  size_t p = head.find("\r\n");
  m.first = head.substr(0, p);
  p += 2;
  while (p < head.size()) {
    size_t e = head.find("\r\n", p);
    std::string line = head.substr(p, e - p);
    p = e + 2;
    size_t c = line.find(':');
    if (c == std::string::npos || c == 0) { m.problem += "header line without name: " + line + "; "; continue; }
    m.fields.push_back(std::make_pair(lower(trim(line.substr(0, c))), trim(line.substr(c + 1))));
    if (line.find_first_of("\r\n") != std::string::npos) m.problem += "stray line end; ";
  }
  if (m.first.compare(0, 5, "HTTP/") == 0) {
    size_t s = m.first.find(' ');
    m.status = s == std::string::npos ? 0 : atoi(m.first.c_str() + s + 1);
    if (m.status < 100 || m.status > 599) m.problem += "bad status line " + m.first + "; ";
  }
  size_t len = 0;
  if (!no_body && m.status / 100 != 1) {
    if (m.count("content-length") != 1) m.problem += fmt("%d content-length lines; ", m.count("content-length"));
    std::string l = m.get("content-length");
    if (l.empty() || l.find_first_not_of("0123456789") != std::string::npos) m.problem += "bad content-length '" + l + "'; ";
    len = strtoul(l.c_str(), 0, 10);
  }
  if (in.size() < h + 4 + len) return false;
  m.body = in.substr(h + 4, len);
  in.erase(0, h + 4 + len);
  m.complete = true;
  return true;
}

// ---------------------------------------------------------------- raw peer
struct Peer {
  int fd;
  std::string in;                 // received and not yet taken
  bool eof, reset;
  long received;
  SSL* ssl;                       // when the peer speaks TLS
  BIO *rd, *wr;
  std::vector<int> records;       // sizes of the next TLS records to send

  Peer(): fd(-1), eof(false), reset(false), received(0), ssl(0), rd(0), wr(0) {}
  explicit Peer(int port): fd(-1), eof(false), reset(false), received(0), ssl(0), rd(0), wr(0) { open(port); }
  ~Peer() { close(); }
  Peer(const Peer&) = delete;
  Peer& operator=(const Peer&) = delete;

  void adopt(int f)
  {
    fd = f;
    int one = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  }

  //! host: the last byte of the local address
  bool open(int port, int rcvbuf = 0, int host = 1)
  {
    close();
    in.clear();
    records.clear();
    eof = reset = false;
    received = 0;
    int f = sys::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    if (f < 0) vh::broken(fmt("socket: %s", strerror(errno)));
    if (rcvbuf) setsockopt(f, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
    sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (host != 1) {
      sockaddr_in l = a;
      l.sin_port = 0;
      l.sin_addr.s_addr = htonl(INADDR_LOOPBACK + host - 1);
      if (::bind(f, (sockaddr*)&l, sizeof l) != 0) vh::broken(fmt("bind: %s", strerror(errno)));
    }
    if (sys::connect(f, (sockaddr*)&a, sizeof a) != 0) { sys::close(f); return false; }
    adopt(f);
    if (over_tls()) {
      static SSL_CTX* cx = [] { SSL_CTX* c = SSL_CTX_new(TLS_client_method()); if (!c) vh::broken("no SSL_CTX"); SSL_CTX_set_verify(c, SSL_VERIFY_NONE, 0); return c; }();
      ssl = SSL_new(cx);
      rd = BIO_new(BIO_s_mem());
      wr = BIO_new(BIO_s_mem());
      SSL_set_bio(ssl, rd, wr);
      SSL_set_connect_state(ssl);
    }
    return true;
  }

  //! Speaks no TLS; before anything was sent or received.
  void plain() { if (ssl) SSL_free(ssl); ssl = 0; }

  int local_port()
  {
    sockaddr_in a;
    socklen_t l = sizeof a;
    return getsockname(fd, (sockaddr*)&a, &l) == 0 ? ntohs(a.sin_port) : -1;
  }

  //! False when the other side no longer takes bytes.
  bool send(const std::string& s, int ms = LONG_MS)
  {
    if (!ssl) return send_raw(s, ms);
    if (!handshake(ms)) return false;
    size_t p = 0, k = 0;
    while (p < s.size()) {
      size_t n = k < records.size() ? (size_t)records[k++] : 16384;
      n = std::min<size_t>(std::min<size_t>(n, 16384), s.size() - p);
      ERR_clear_error();
      if (SSL_write(ssl, s.data() + p, (int)n) != (int)n) return false;
      p += n;
      if (!flush(ms)) return false;
    }
    records.clear();
    return true;
  }

  bool send_raw(const std::string& s, int ms = LONG_MS)
  {
    Deadline d(ms);
    size_t p = 0;
    while (p < s.size()) {
      ssize_t r = sys::send(fd, s.data() + p, s.size() - p, MSG_NOSIGNAL | MSG_DONTWAIT);
      if (r > 0) { p += r; continue; }
      if (errno == EINTR) continue;
      if (errno != EAGAIN) return false;
      if (d.over()) return false;
      struct pollfd q = {fd, POLLOUT, 0};
      sys::poll(&q, 1, d.left_ms() + 1);
    }
    return true;
  }

  //! Bytes read (0 at the end of the stream or when time is over).
  size_t pull(int ms, size_t max = 65536)
  {
    if (!ssl) return pull_raw(in, ms, max);
    Deadline d(ms);
    if (!handshake(ms)) return 0;
    for (;;) {
      size_t n = decrypt();
      if (n || eof) return n;
      std::string raw;
      if (!pull_raw(raw, d.left_ms() + 1, max)) {
        if (eof || d.over()) return decrypt();
        continue;
      }
      BIO_write(rd, raw.data(), (int)raw.size());
    }
  }

  size_t pull_raw(std::string& to, int ms, size_t max = 65536)
  {
    if (eof || fd < 0) return 0;
    Deadline d(ms);
    std::vector<char> b(max);
    for (;;) {
      ssize_t r = sys::recv(fd, b.data(), max, MSG_DONTWAIT);
      if (r > 0) { to.append(b.data(), r); received += r; return r; }
      if (r == 0) { eof = true; return 0; }
      if (errno == EINTR) continue;
      if (errno != EAGAIN) { eof = reset = true; return 0; }
      if (d.over()) return 0;
      struct pollfd q = {fd, POLLIN, 0};
      sys::poll(&q, 1, d.left_ms() + 1);
    }
  }

  bool flush(int ms)
  {
    char b[16384];
    std::string o;
    int n;
    while ((n = BIO_read(wr, b, sizeof b)) > 0) o.append(b, n);
    return o.empty() || send_raw(o, ms);
  }

  bool handshake(int ms)
  {
    Deadline d(ms);
    while (!SSL_is_init_finished(ssl)) {
      ERR_clear_error();
      int r = SSL_do_handshake(ssl);
      if (!flush(ms)) return false;
      if (r == 1) break;
      if (SSL_get_error(ssl, r) != SSL_ERROR_WANT_READ) { eof = true; return false; }
      std::string raw;
      if (!pull_raw(raw, d.left_ms() + 1)) {
        if (eof || d.over()) return false;
        continue;
      }
      BIO_write(rd, raw.data(), (int)raw.size());
    }
    return true;
  }

  //! Connected, and the TLS handshake done if there is one.
  bool ready(int port) { return open(port) && (!ssl || handshake(LONG_MS)); }

  size_t decrypt()
  {
    size_t all = 0;
    char b[16384];
    for (;;) {
      ERR_clear_error();
      int r = SSL_read(ssl, b, sizeof b);
      flush(1000);
      if (r > 0) { in.append(b, r); all += r; continue; }
      int e = SSL_get_error(ssl, r);
      if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_ZERO_RETURN) eof = true;
      return all;
    }
  }

  //! The next complete message; interim responses count as messages.
  bool message(Msg& m, int ms = LONG_MS)
  {
    Deadline d(ms);
    for (;;) {
      if (take(in, m)) return true;
      if (!pull(d.left_ms() + 1) && (eof || d.over())) return take(in, m);
    }
  }

  //! Waits for the end of the stream; false when it does not come.
  bool ended(int ms = LONG_MS)
  {
    Deadline d(ms);
    while (!eof && !d.over()) pull(d.left_ms() + 1);
    return eof;
  }

  void half_close() { ::shutdown(fd, SHUT_WR); }
  void close() { if (ssl) SSL_free(ssl); ssl = 0; if (fd >= 0) sys::close(fd); fd = -1; }
  void abort()
  {
    if (fd < 0) return;
    struct linger l = {1, 0};
    setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    close();
  }
};

// ---------------------------------------------------------------- raw server
//! A listening socket of the harness for scripted servers.
struct Listener {
  int fd, port;
  explicit Listener(int backlog = 50): fd(-1), port(0)
  {
    fd = sys::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t l = sizeof a;
    if (fd < 0 || sys::bind(fd, (sockaddr*)&a, sizeof a) || sys::listen(fd, backlog) || getsockname(fd, (sockaddr*)&a, &l))
      vh::broken(fmt("listener: %s", strerror(errno)));
    port = ntohs(a.sin_port);
  }
  ~Listener() { close(); }
  void close() { if (fd >= 0) sys::close(fd); fd = -1; }
  bool accept(Peer& p, int ms = LONG_MS)
  {
    Deadline d(ms);
    for (;;) {
      struct pollfd q = {fd, POLLIN, 0};
      if (sys::poll(&q, 1, d.left_ms() + 1) > 0) {
        int f = sys::accept4(fd, 0, 0, SOCK_CLOEXEC);
        if (f >= 0) { p.close(); p.in.clear(); p.eof = p.reset = false; p.received = 0; p.adopt(f); return true; }
      }
      if (d.over()) return false;
    }
  }
};

//! A listener whose queue is full: it ignores further connections.
struct Deaf {
  Listener l;
  std::vector<int> fill;
  Deaf()
  {
    sys::listen(l.fd, 0);
    for (int k = 0; k < 8; ++k) {
      int f = sys::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
      sockaddr_in a;
      memset(&a, 0, sizeof a);
      a.sin_family = AF_INET;
      a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      a.sin_port = htons(l.port);
      sys::connect(f, (sockaddr*)&a, sizeof a);
      fill.push_back(f);
      struct pollfd q = {f, POLLOUT, 0};
      if (sys::poll(&q, 1, 150) == 0) break;      // this one stays outside
    }
  }
  ~Deaf() { for (int f : fill) sys::close(f); }
};

// ---------------------------------------------------------------- requests
inline std::string call_xml(const std::string& method, const std::vector<std::string>& params)
{
  std::string x = "<?xml version=\"1.0\"?><methodCall><methodName>" + method + "</methodName><params>";
  for (auto& p : params) x += "<param><value>" + p + "</value></param>";
  return x + "</params></methodCall>";
}

inline std::string str(const std::string& s) { return "<string>" + s + "</string>"; }

inline std::string post(const std::string& body, const std::string& fields = "", bool keep = false)
{
  return "POST /RPC HTTP/1.1\r\nHost: x\r\nContent-Type: text/xml\r\n" + fields + (keep ? "Connection: keep-alive\r\n" : "")
    + fmt("Content-Length: %zu\r\n\r\n", body.size()) + body;
}

//! What a response body says, read by the reference reader.
struct Answer {
  bool ok, fault;
  int code;
  std::string text;             // fault text, or the string value
  model::RV value;
  std::string problem;
  Answer(): ok(false), fault(false), code(0) {}
};

inline Answer answer(const std::string& body)
{
  Answer a;
  try {
    model::Ref_response r = model::read_response(body);
    a.fault = r.fault;
    if (r.fault) { a.code = r.code; a.text = r.text; }
    else { a.ok = true; a.value = r.v; if (r.v.k == model::STR) a.text = r.v.s; }
  } catch (const std::exception& e) { a.problem = e.what(); }
  return a;
}

// ---------------------------------------------------------------- methods
typedef std::function<void(iqxmlrpc::Method*, const iqxmlrpc::Param_list&, iqxmlrpc::Value&)> Body;

class Fn_method: public iqxmlrpc::Method {
  Body body;
  void execute(const iqxmlrpc::Param_list& p, iqxmlrpc::Value& v) { body(this, p, v); }
public:
  explicit Fn_method(const Body& b): body(b) {}
};

class Fn_factory: public iqxmlrpc::Method_factory_base {
  Body body;
public:
  explicit Fn_factory(const Body& b): body(b) {}
  iqxmlrpc::Method* create() { return new Fn_method(body); }
};

// ---------------------------------------------------------------- server
//! A library server running in its own thread.
//! Features of a server that must make no difference here.
enum Around { A_LIMIT = 1, A_AUTH = 2, A_WRAP = 4, A_LOG = 8, A_WALL = 16, A_LIST = 32, A_DISP = 64, A_ALL = 127 };

struct Open_plugin: iqxmlrpc::Auth_Plugin_base {
  bool do_authenticate(const std::string&, const std::string&) const { return true; }
  bool do_authenticate_anonymous() const { return true; }
};

struct Open_wall: iqnet::Firewall_base {
  bool grant(const iqnet::Inet_addr&) { return true; }
};

//! Who frees a firewall is not settled; this one is neither freed twice nor reported.
inline Open_wall* open_wall()
{
  static std::vector<Open_wall*>* all = new std::vector<Open_wall*>;
  static std::mutex m;
  std::lock_guard<std::mutex> l(m);
  all->push_back(new Open_wall);
  return all->back();
}

struct Wrapper: iqxmlrpc::Interceptor {
  void process(iqxmlrpc::Method* m, const iqxmlrpc::Param_list& p, iqxmlrpc::Value& v) { yield(m, p, v); }
};

struct Empty_dispatcher: iqxmlrpc::Method_dispatcher_base {
  iqxmlrpc::Method* do_create_method(const std::string&) { return 0; }
  void do_get_methods_list(iqxmlrpc::Array&) const {}
};

struct Null_buf: std::streambuf {
  int overflow(int c) { return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char*, std::streamsize n) { return n; }
};

struct Fixture {
  Open_plugin around_plugin;
  Null_buf around_buf;
  std::ostream around_log{&around_buf};
  bool auth = false;
  std::string around;           // names of the features in use
  std::unique_ptr<iqxmlrpc::Executor_factory_base> factory;
  iqxmlrpc::Pool_executor_factory* pool;
  std::unique_ptr<iqxmlrpc::Server> server;
  std::thread thread;
  std::atomic<bool> returned;
  std::string died;             // message of an exception out of work()
  int port;

  //! threads == 0: the serial executor
  explicit Fixture(unsigned threads = 0, const iqnet::Inet_addr& addr = iqnet::Inet_addr(0)): pool(0), returned(true), port(0)
  {
    make_factory(threads);
    if (over_tls()) {
      need_tls_context();
      vh::count("TLS servers");
      server.reset(new iqxmlrpc::Https_server(addr, factory.get()));
    } else
      server.reset(new iqxmlrpc::Http_server(addr, factory.get()));
  }

  struct No_server {};
  Fixture(No_server, unsigned threads): pool(0), returned(true), port(0) { make_factory(threads); }

  void make_factory(unsigned threads)
  {
    if (threads) factory.reset(pool = new iqxmlrpc::Pool_executor_factory(threads));
    else factory.reset(new iqxmlrpc::Serial_executor_factory);
  }

  ~Fixture() { stop(); destroy(); }

  //! Turns on some of the allowed features; none of them may change what clients see.
  void surround(Rng& r, unsigned allowed = A_ALL)
  {
    if (r.chance(1, 3)) return;
    unsigned on = allowed & (unsigned)r.next() & (unsigned)(r.chance(1, 2) ? -1 : r.next());
    if (on & A_LIMIT) { server->set_max_request_sz(500000000); around += " limit"; }
    if (on & A_AUTH) { server->set_auth_plugin(around_plugin); auth = true; around += " auth"; }
    if (on & A_WRAP) { server->push_interceptor(new Wrapper); around += " interceptor"; }
    if (on & A_LOG) { server->log_errors(&around_log); around += " log"; }
    if (on & A_WALL) { server->set_firewall(open_wall()); around += " firewall"; }
    if (on & A_LIST) { server->enable_introspection(); around += " introspection"; }
    if (on & A_DISP) { server->push_dispatcher(new Empty_dispatcher); around += " dispatcher"; }
    if (on) vh::count("servers with further features in use");
  }

  //! Credentials in the requests to a server that takes any.
  std::string credentials(Rng& r)
  {
    if (!auth || r.chance(1, 3)) return "";
    vh::count("requests with credentials to such servers");
    return "Authorization: Basic " + model::b64(fmt("u%u:", (unsigned)r.below(1000)) + (r.chance(1, 4) ? "" : fmt("p%u", (unsigned)r.below(1000)))) + "\r\n";
  }

  void method(const std::string& name, const Body& b) { server->register_method(name, new Fn_factory(b)); }

  void start()
  {
    returned = false;
    died.clear();
    shim::st().listen_port = 0;
    thread = std::thread([this] {
      try { server->work(); }
      catch (const std::exception& e) { died = std::string(typeid(e).name()) + ": " + e.what(); }
      catch (...) { died = "unknown exception"; }
      returned = true;
    });
    if (!wait_for([this] { return shim::st().listen_port != 0 || returned; }))
      vh::broken("the server does not listen");
    port = shim::st().listen_port;
    if (!port) { thread.join(); vh::broken("the server ended at once: " + died); }
  }

  //! Starts the server, sometimes after an earlier run: what was set up holds for every run.
  void begin(Rng& r)
  {
    start();
    if (!r.chance(1, 4)) return;
    if (!stop()) { vh::fail("stop", "a server that has done nothing does not stop"); vh::finish_now(1); }
    start();
    vh::count("servers started again");
  }

  //! False when the event loop does not end.
  bool stop(int ms = LONG_MS)
  {
    if (!thread.joinable()) return true;
    server->set_exit_flag();
    if (!wait_for([this] { return returned.load(); }, ms)) return false;
    thread.join();
    return true;
  }

  void destroy()
  {
    factory.reset();
    server.reset();
  }
};

//! A client of the library for the server of the fixture.
inline iqxmlrpc::Client_base* lib_client(int port)
{
  iqnet::Inet_addr a("127.0.0.1", port);
  if (over_tls()) return new iqxmlrpc::Client<iqxmlrpc::Https_client_connection>(a);
  return new iqxmlrpc::Client<iqxmlrpc::Http_client_connection>(a);
}

//! A fresh call on a fresh connection must be answered: the server is alive.
inline std::string canary(int port, const std::string& method = "echo", const std::string& what = "canary")
{
  Peer p;
  if (!p.open(port)) return fmt("connection refused: %s", strerror(errno));
  if (!p.send(post(call_xml(method, {str(what)})))) return "request not taken";
  Msg m;
  if (!p.message(m)) return std::string("no response") + (p.eof ? ", connection closed" : "") + " received: " + vh::esc(p.in, 200);
  if (m.status != 200 || !m.problem.empty()) return "response " + m.first + " " + m.problem;
  Answer a = answer(m.body);
  if (!a.ok || a.text != what) return "wrong response " + vh::esc(m.body, 300);
  return "";
}

} // namespace net

#endif
