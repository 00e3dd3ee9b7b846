// What the server's owner configures: C11 (authentication), C12 (firewall),
// C18 (dispatch and interceptors), C19 (X- headers), C26 (context and log).
#include "net.h"

#include "libiqxmlrpc/dispatcher_manager.h"

using namespace net;
using namespace iqxmlrpc;

static std::string token(Rng& r, size_t lo, size_t hi)
{
  static const char a[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
  std::string s;
  size_t n = r.range(lo, hi);
  while (s.size() < n) s += a[r.below(sizeof a - 1)];
  return s;
}

static std::string odd_case(Rng& r, std::string s)
{
  for (char& c : s)
    if (r.chance(1, 2)) c = toupper(c); else c = tolower(c);
  return s;
}

static Fixture* fx = 0;

static void done()
{
  if (!fx) return;
  if (fx->returned && !fx->died.empty()) vh::fail("server-died", "exception out of the event loop: " + fx->died);
  if (!fx->stop()) { vh::fail("hang:stop", "the event loop does not end after set_exit_flag"); vh::finish_now(1); }
  delete fx;
  fx = 0;
}

static bool alive(const std::string& where)
{
  if (!fx->returned) return true;
  vh::fail("server-died", where + ": the event loop ended: " + fx->died);
  vh::finish_now(1);
  return false;
}

// ---------------------------------------------------------------- C11
struct Run { std::string id, authname; bool authenticated; };
struct Asked { bool anonymous; std::string user, pw; bool answer; };

static std::mutex m11;
static std::vector<Run> runs11;
static std::vector<Asked> asked11;

struct Plugin: Auth_Plugin_base {
  std::set<std::pair<std::string, std::string> > good;
  std::atomic<bool> anonymous;
  Plugin(): anonymous(false) {}
  bool do_authenticate(const std::string& u, const std::string& p) const
  {
    std::lock_guard<std::mutex> l(m11);
    bool a = good.count(std::make_pair(u, p)) != 0;
    asked11.push_back(Asked{false, u, p, a});
    return a;
  }
  bool do_authenticate_anonymous() const
  {
    std::lock_guard<std::mutex> l(m11);
    asked11.push_back(Asked{true, "", "", anonymous});
    return anonymous;
  }
};
static Plugin plugin11;

static void who(Method* m, const Param_list& p, Value& v)
{
  std::lock_guard<std::mutex> l(m11);
  runs11.push_back(Run{p.at(0).get_string(), m->authname(), m->authenticated()});
  v = p[0].get_string();
}

static std::string secret(Rng& r, bool user)
{
  std::string s;
  switch (r.below(6)) {
  case 0: s = token(r, 1, 8); break;
  case 1: s = token(r, 0, 3); break;
  case 2: s = "j\xc3\xb6rg " + token(r, 0, 4); break;
  case 3: s = token(r, 100, 3000); break;
  case 4: for (int k = r.below(12); k >= 0; --k) s += (char)r.range(1, 255); break;
  case 5: s = token(r, 1, 4) + ":" + token(r, 0, 4) + ":"; break;
  }
  if (user) for (char& c : s) if (c == ':') c = '_';
  return s;
}

struct Creds { std::string header, user, pw, what; int kind; };   // 0 anonymous, 1 well-formed, 2 malformed, 3 either

static Creds gen_creds(Rng& r, const std::vector<std::pair<std::string, std::string> >& users)
{
  Creds c;
  c.kind = 1;
  auto basic = [&](const std::string& s) { return odd_case(r, "authorization") + ": " + odd_case(r, "basic") + " " + model::b64(s) + "\r\n"; };
  switch (r.below(9)) {
  case 0: c.kind = 0; c.what = "none"; break;
  case 1: case 2: case 3: {
    auto& u = users[r.below(users.size())];
    c.user = u.first; c.pw = u.second; c.what = "known user";
    break; }
  case 4: c.user = users[r.below(users.size())].first; c.pw = users[r.below(users.size())].second + (r.chance(1, 2) ? "x" : ""); c.what = "other password"; break;
  case 5: c.user = secret(r, true); c.pw = secret(r, false); c.what = "random"; break;
  case 6: {
    c.kind = 2;
    c.what = "malformed";
    auto& u = users[r.below(users.size())];
    std::string b = model::b64(u.first + ":" + u.second);
    std::string v = r.pick(std::vector<std::string>{"Basic", "Basic " + b + " x", "Digest " + b, b, "", "Basic %%%%", "Basic " + b + "*", "Basic =" + b, "Basi " + b, "Basic a", "xBasic " + b});
    c.header = "Authorization: " + v + "\r\n";
    c.what += " '" + v.substr(0, 40) + "'";
    break; }
  case 7: c.kind = 3; c.what = "no colon"; c.user = users[r.below(users.size())].first; c.header = basic(c.user); break;
  case 8: { auto& u = users[r.below(users.size())]; c.user = u.first; c.pw = u.second; std::swap(c.user, c.pw); for (char& q : c.user) if (q == ':') q = '_'; c.what = "swapped"; break; }
  }
  if (c.kind == 1) c.header = basic(c.user + ":" + c.pw);
  return c;
}

static void c11(long i, Rng& r)
{
  static bool pool = false;
  if (!fx || (i / vh::opts().nshards) % 30 == 0) {
    done();
    pool = r.chance(1, 2);
    fx = new Fixture(pool ? 3 : 0);
    fx->method("who", who);
    fx->server->set_auth_plugin(plugin11);
    fx->surround(r, A_ALL & ~A_AUTH);
    fx->begin(r);
  }
  shim::calm();
  shim::seed(r.next());
  shim::st().frag = r.pick(std::vector<int>{0, 0, 40});
  std::vector<std::pair<std::string, std::string> > users;
  for (int k = r.range(1, 4); k > 0; --k) users.push_back(std::make_pair(secret(r, true), secret(r, false)));
  plugin11.good = std::set<std::pair<std::string, std::string> >(users.begin(), users.end());
  plugin11.anonymous = r.chance(1, 2);
  bool concurrent = r.chance(1, 4), through_client = !concurrent && r.chance(1, 3);
  std::string trace = std::string(pool ? "pool" : "serial") + fx->around + (plugin11.anonymous ? " anonymous allowed:" : " anonymous refused:");

  if (concurrent) {
    // several connections, each with its own user, at the same time
    unsigned n = 4;
    std::vector<std::thread> ts;
    std::mutex fm;
    std::string bad;
    std::map<std::string, std::string> expect;       // id -> user, for the ones that must run
    std::set<std::string> never;
    for (unsigned t = 0; t < n; ++t) {
      uint64_t sd = r.next();
      ts.emplace_back([&, t, sd] {
        Rng q(sd);
        Peer p;
        for (int k = 0; k < 6; ++k) {
          Creds c = gen_creds(q, users);
          if (c.kind >= 2) continue;
          bool ok = c.kind == 0 ? plugin11.anonymous.load() : plugin11.good.count(std::make_pair(c.user, c.pw)) != 0;
          std::string id = fmt("%u-%d-", t, k) + token(q, 4, 6);
          { std::lock_guard<std::mutex> l(fm); if (ok) expect[id] = c.kind ? c.user : ""; else never.insert(id); }
          if (p.fd < 0 && !p.open(fx->port)) { std::lock_guard<std::mutex> l(fm); bad = "connection refused"; return; }
          p.send(post(call_xml("who", {str(id)}), c.header, true));
          Msg m;
          if (!p.message(m)) { std::lock_guard<std::mutex> l(fm); bad = "no response for " + c.what; return; }
          if (m.status != (ok ? 200 : 401)) { std::lock_guard<std::mutex> l(fm); bad = fmt("status %d for ", m.status) + c.what; return; }
          if (m.get("connection") != "keep-alive") p.close();
        }
      });
    }
    for (auto& t : ts) t.join();
    std::vector<Run> ran;
    { std::lock_guard<std::mutex> l(m11); ran.swap(runs11); asked11.clear(); }
    if (!bad.empty()) { vh::fail("concurrent", trace + " concurrent: " + bad); return; }
    std::map<std::string, int> times;
    for (auto& x : ran) {
      times[x.id]++;
      if (never.count(x.id)) { vh::fail("executed", trace + " concurrent: a refused request was executed"); return; }
      if (!expect.count(x.id) || expect[x.id] != x.authname) { vh::fail("authname", trace + " concurrent: method saw user '" + vh::esc(x.authname, 80) + "' instead of '" + vh::esc(expect[x.id], 80) + "'"); return; }
    }
    for (auto& e : expect) if (times[e.first] != 1) { vh::fail("executions", trace + fmt(" concurrent: %d executions of an accepted request", times[e.first])); return; }
    vh::count("accepted requests", expect.size());
    vh::count("refused requests", never.size());
    vh::count("concurrent histories");
    vh::distinct(trace + fmt("c%lu/%lu/%lx", expect.size(), never.size(), (unsigned long)r.next()));
    alive("C11");
    return;
  }

  Peer p;
  std::unique_ptr<Client_base> cl;
  if (through_client) {
    cl.reset(lib_client(fx->port));
    cl->set_keep_alive(r.chance(1, 2));
  }
  unsigned steps = 1 + r.below(6);
  for (unsigned s = 0; s < steps; ++s) {
    Creds c = gen_creds(r, users);
    std::string id = token(r, 6, 8);
    int status = 0;
    if (through_client) {
      if (c.kind != 1 || c.user.empty()) continue;
      trace += " client " + c.what;
      vh::mark(trace);
      cl->set_authinfo(c.user, c.pw);
      try {
        Response res = cl->execute("who", Value(id));
        status = res.is_fault() ? -1 : 200;
      } catch (const http::Error_response& e) { status = e.response_header()->code(); }
      catch (const std::exception& e) { vh::fail("client", trace + ": " + e.what()); return; }
    } else {
      bool keep = r.chance(3, 4);
      trace += " " + c.what + (keep ? "" : "(close)");
      vh::mark(trace);
      if (p.fd < 0 && !p.open(fx->port)) vh::broken("cannot connect");
      p.send(post(call_xml("who", {str(id)}), c.header, keep));
      Msg m;
      if (!p.message(m)) { vh::fail("no-answer", trace + fmt(": no response (%s)", p.eof ? "closed" : "silent")); alive(trace); return; }
      status = m.status;
      if (status == 200 && answer(m.body).fault) status = -1;
      if (m.get("connection") != "keep-alive") p.close();
    }
    std::vector<Run> ran;
    std::vector<Asked> asked;
    { std::lock_guard<std::mutex> l(m11); ran.swap(runs11); asked.swap(asked11); }
    bool accepted = false;
    for (auto& a : asked) {
      if (c.kind == 2) { vh::fail("asked", trace + ": plugin asked about a malformed header, user '" + vh::esc(a.user, 80) + "'"); return; }
      if (a.anonymous != (c.kind == 0) || a.user != c.user || a.pw != c.pw) {
        vh::fail("asked", trace + ": plugin asked about '" + vh::esc(a.user, 80) + "', '" + vh::esc(a.pw, 80) + "' instead of '" + vh::esc(c.user, 80) + "', '" + vh::esc(c.pw, 80) + "'");
        return;
      }
      accepted = a.answer;
    }
    if (c.kind < 2 && asked.empty()) { vh::fail("not-asked", trace + ": plugin was not asked"); return; }
    if (accepted) {
      if (status != 200 || ran.size() != 1 || ran[0].id != id) { vh::fail("accepted-not-run", trace + fmt(": status %d, %zu executions", status, ran.size())); return; }
      if (ran[0].authname != (c.kind == 0 ? "" : c.user)) { vh::fail("authname", trace + ": method saw user '" + vh::esc(ran[0].authname, 80) + "'"); return; }
      vh::count("accepted requests");
    } else {
      if (!ran.empty()) { vh::fail("executed", trace + ": a refused request was executed"); return; }
      if (status != 401) { vh::fail("status", trace + fmt(": status %d instead of 401", status)); return; }
      vh::count(c.kind == 2 ? "malformed credentials refused" : "refused requests");
    }
  }
  vh::distinct(trace + fmt("%lx", (unsigned long)vh::fnv(users[0].first)));
  if (i % 61 < 3) vh::sample(trace);
  alive("C11");
}

// ---------------------------------------------------------------- C12
static std::mutex m12;
struct Granted { std::string host; int port; bool answer; };
static std::vector<Granted> grants12;
static std::vector<std::string> runs12;

struct Wall: iqnet::Firewall_base {
  std::string msg;                  // protected by m12
  bool use_default;
  unsigned refuse;                  // percent
  uint64_t rnd;
  bool grant(const iqnet::Inet_addr& a)
  {
    std::lock_guard<std::mutex> l(m12);
    int host = 0;
    sscanf(a.get_host_name().c_str(), "127.0.0.%d", &host);
    bool ok = decides(host, a.get_port());
    grants12.push_back(Granted{a.get_host_name(), a.get_port(), ok});
    return ok;
  }
  std::string message()
  {
    if (use_default) return iqnet::Firewall_base::message();
    std::lock_guard<std::mutex> l(m12);
    return msg;
  }
  bool decides(int host, int port) { Rng q(rnd ^ (uint64_t)port * 77 ^ (uint64_t)host << 40); return q.below(100) >= refuse; }
};
static Wall* wall12 = new Wall;     // stays; the server keeps a pointer

static void echo12(Method*, const Param_list& p, Value& v)
{
  std::lock_guard<std::mutex> l(m12);
  runs12.push_back(p.at(0).get_string());
  v = p[0].get_string();
}

static void c12(long i, Rng& r)
{
  static int base_fds = 0;
  static bool pool = false;
  { std::lock_guard<std::mutex> l(m12);
    wall12->rnd = r.next();
    wall12->refuse = r.pick(std::vector<int>{30, 60, 90, 100});
    wall12->use_default = r.chance(1, 3);
    wall12->msg = r.pick(std::vector<std::string>{"", "no\r\n", "HTTP/1.1 403 Go away\r\ncontent-length: 0\r\n\r\n", std::string("a\0b", 3), std::string(5000, 'm')});
  }
  if (!fx || (i / vh::opts().nshards) % 30 == 0) {
    done();
    pool = r.chance(1, 2);
    fx = new Fixture(pool ? 2 : 0);
    fx->method("echo", echo12);
    fx->server->set_firewall(wall12);
    fx->surround(r, A_ALL & ~A_WALL);
    fx->begin(r);
    base_fds = open_fds();
  }
  shim::calm();
  std::string message = wall12->message();
  std::string trace = fmt("%s%s refuse %u%% message '%s':", pool ? "pool" : "serial", fx->around.c_str(), wall12->refuse, vh::esc(message, 40).c_str());
  unsigned n = 1 + r.below(12);
  bool overlap = r.chance(1, 2);
  struct One { Peer p; int port, host; bool ok; int act; std::string id; };
  std::vector<std::unique_ptr<One> > ps;
  std::string bad;
  std::map<std::pair<int, int>, int> expect;       // connections by host and port, which may be used again
  auto finish = [&](One& o) -> bool {
    if (o.act == 3) {                              // reset at once
      o.p.abort();
      return true;
    }
    if (!o.ok) {
      if (!o.p.ended()) { vh::fail("not-ended", trace + ": the connection of a refused peer stays open"); return false; }
      if (o.p.in != message) { vh::fail("message", trace + ": refused peer received '" + vh::esc(o.p.in, 200) + "'"); return false; }
      vh::count("refused peers");
      vh::count(message.empty() ? "refused silently" : "refused with a message");
      o.p.close();
      return true;
    }
    if (o.act == 1 || o.act == 2) {
      if (o.act == 2) o.p.send(post(call_xml("echo", {str(o.id)})));
    } else
      o.p.send(post(call_xml("echo", {str(o.id)})));
    Msg m;
    if (!o.p.message(m) || m.status != 200 || answer(m.body).text != o.id) { vh::fail("granted-not-served", trace + fmt(": granted peer got status %d (%s)", m.status, o.p.eof ? "closed" : "open")); return false; }
    vh::count("granted peers served");
    o.p.close();
    return true;
  };
  for (unsigned k = 0; k < n; ++k) {
    ps.emplace_back(new One);
    One& o = *ps.back();
    o.host = 1 + r.below(250);
    if (!o.p.open(fx->port, 0, o.host)) { vh::fail("refused-connect", trace + ": connection refused"); alive(trace); return; }
    o.port = o.p.local_port();
    { std::lock_guard<std::mutex> l(m12); o.ok = wall12->decides(o.host, o.port); }
    if (!o.ok) o.p.plain();                        // the message of the firewall comes in the clear
    ++expect[std::make_pair(o.host, o.port)];
    o.id = token(r, 6, 8);
    o.act = r.below(4);                            // 0 silent first, 1 sends early, 2 silent, 3 resets
    trace += fmt(" %s%d", o.ok ? "g" : "r", o.act);
    vh::mark(trace);
    if (o.act == 1) o.p.send(post(call_xml("echo", {str(o.id)})));
    if (o.act == 3 && r.chance(1, 2)) { o.p.send("POST / HTTP/1.0\r\n"); }
    if (o.act == 3 || !overlap) if (!finish(o)) { alive(trace); return; }
  }
  if (overlap)
    for (auto& o : ps) if (o->act != 3) if (!finish(*o)) { alive(trace); return; }
  // every connection was decided once, with its true address
  if (!wait_for([&] { std::lock_guard<std::mutex> l(m12); return grants12.size() >= n || fx->returned; })) {
    vh::fail("not-asked", trace + fmt(": firewall asked %zu times for %u connections", grants12.size(), n));
    return;
  }
  alive(trace);
  std::string fds;
  if (!wait_for([&] { return open_fds() <= base_fds; })) {
    open_fds(&fds);
    vh::fail("descriptors", trace + fmt(": %d descriptors open, %d before: ", open_fds(), base_fds) + fds);
    return;
  }
  std::vector<Granted> g;
  std::vector<std::string> ran;
  { std::lock_guard<std::mutex> l(m12); g.swap(grants12); ran.swap(runs12); }
  std::map<std::pair<int, int>, int> peers;
  for (auto& x : g) {
    int host = 0;
    sscanf(x.host.c_str(), "127.0.0.%d", &host);
    auto peer = std::make_pair(host, x.port);
    if (x.host != fmt("127.0.0.%d", host) || !expect.count(peer)) { vh::fail("address", trace + fmt(": firewall asked about %s:%d", x.host.c_str(), x.port)); return; }
    if (++peers[peer] > expect[peer]) { vh::fail("asked-twice", trace + ": firewall asked twice about one connection"); return; }
  }
  if (g.size() != n) { vh::fail("not-asked", trace + fmt(": firewall asked %zu times for %u connections", g.size(), n)); return; }
  size_t may = 0;
  for (auto& o : ps) if (o->ok && o->act != 3) ++may;
  if (ran.size() != may) { vh::fail("executed", trace + fmt(": %zu executions for %zu granted calls", ran.size(), may)); return; }
  for (auto& id : ran) {
    bool found = false;
    for (auto& o : ps) if (o->id == id && o->ok) found = true;
    if (!found) { vh::fail("executed", trace + ": a call of a refused peer was executed"); return; }
  }
  vh::count("decisions", g.size());
  vh::distinct(trace);
  if (i % 61 < 3) vh::sample(trace);
}

// ---------------------------------------------------------------- C18
static std::mutex m18;
static std::map<std::string, std::vector<std::string> > trace18;    // call id -> events

static void ev(const Param_list& p, const std::string& e)
{
  std::string id = p.empty() || !p[0].is_string() ? "?" : p[0].get_string();
  std::lock_guard<std::mutex> l(m18);
  trace18[id].push_back(e);
}

struct Ic: Interceptor {
  int no, kind;         // 0 pass, 1 changes a parameter, 2 changes the result, 3 skips, 4 throws before, 5 throws after
  Ic(int n, int k): no(n), kind(k) {}
  void process(Method* m, const Param_list& p, Value& v)
  {
    ev(p, fmt(">%d", no));
    if (kind == 3) { v = fmt("skipped by %d", no); ev(p, fmt("<%d", no)); return; }
    if (kind == 4) throw Fault(7000 + no, "before");
    if (kind == 1) {
      Param_list q(p);
      q.push_back(fmt("p%d", no));
      yield(m, q, v);
    } else
      yield(m, p, v);
    if (kind == 5) throw Fault(8000 + no, "after");
    if (kind == 2) v = v.get_string() + fmt("+r%d", no);
    ev(p, fmt("<%d", no));
  }
};

static Body named(const std::string& tag)
{
  return [tag](Method* m, const Param_list& p, Value& v) {
    ev(p, "run " + tag + " as " + m->name());
    std::string s = tag;
    for (size_t i = 1; i < p.size(); ++i) s += "," + p[i].get_string();
    v = s;
  };
}

// methods that are classes and functions, registered with the templates of the library
template <int K> struct Class_method: Method {
  void execute(const Param_list& p, Value& v) { named(fmt("c%d", K))(this, p, v); }
};

template <int K> static void function_method(Method* m, const Param_list& p, Value& v)
{
  named(fmt("f%d", K))(m, p, v);
}

static std::string registered(Server& s, Rng& r, const std::string& name, const std::string& tag, Fixture& f)
{
  switch (r.below(9)) {
  case 0: register_method<Class_method<0> >(s, name); return "c0";
  case 1: register_method<Class_method<1> >(s, name); return "c1";
  case 2: register_method<Class_method<2> >(s, name); return "c2";
  case 3: register_method(s, name, &function_method<0>); return "f0";
  case 4: register_method(s, name, &function_method<1>); return "f1";
  case 5: register_method(s, name, &function_method<2>); return "f2";
  }
  f.method(name, named(tag));
  return tag;
}

struct Disp: Method_dispatcher_base {
  std::map<std::string, std::string> names;      // name -> tag
  Method* do_create_method(const std::string& n)
  {
    auto i = names.find(n);
    return i == names.end() ? 0 : new Fn_method(named(i->second));
  }
  void do_get_methods_list(Array& a) const { for (auto& i : names) a.push_back(i.first); }
};

static void c18(long i, Rng& r)
{
  bool pool = r.chance(1, 2);
  Fixture f(pool ? 1 + r.below(3) : 0);
  fx = &f;
  f.surround(r, A_LIMIT | A_AUTH | A_LOG | A_WALL);
  std::vector<std::string> base = {"a", "A", "a.b", "a.b.c", "ab", " a", "a ", "", "system.listMethods", "system.listmethods", "\xc3\xa4", "a/b", "x_1", "<a>", "a&b", "a\nb"};
  for (int k = 0; k < 4; ++k) base.push_back(token(r, 1, 10));
  std::vector<std::map<std::string, std::string> > layers(1);        // default dispatcher first
  bool intro = false;
  int serial = 0;
  std::vector<int> ics;                            // in pushed order
  int rounds = r.chance(1, 4) ? 2 : 1;
  for (int round = 0; round < rounds; ++round) {
  if (round) vh::count("servers changed between two runs");
  for (int k = r.below(7); k > 0; --k) {
    std::string n = r.pick(base), tag = fmt("m%d", serial++);
    layers[0][n] = registered(*f.server, r, n, tag, f);
    vh::count("methods registered");
    vh::count("methods registered as classes and functions", layers[0][n] != tag);
  }
  if (r.chance(1, 30)) {
    for (int k = r.range(50, 600); k > 0; --k) {
      std::string n = fmt("bulk.%d", k);
      layers[0][n] = registered(*f.server, r, n, fmt("m%d", serial++), f);
    }
    vh::count("servers with many methods");
  }
  if (r.chance(1, 2)) { intro = true; f.server->enable_introspection(); layers[0]["system.listMethods"] = "list"; }
  for (int d = r.below(4); d > 0; --d) {
    std::map<std::string, std::string> l;
    for (int k = r.below(5); k > 0; --k) l[r.pick(base)] = fmt("m%d", serial++);
    Disp* x = new Disp;
    x->names = l;
    f.server->push_dispatcher(x);
    layers.push_back(l);
    vh::count("dispatchers pushed");
  }
  for (int k = r.below(4); k > 0; --k) {
    int kind = r.chance(1, 2) ? 0 : r.below(6);
    f.server->push_interceptor(new Ic(ics.size(), kind));
    ics.push_back(kind);
    vh::count("interceptors pushed");
  }
  std::vector<std::string> known;
  for (auto& l : layers) for (auto& n : l) known.push_back(n.first);
  std::string conf = fmt("%s%s intro %d layers", pool ? "pool" : "serial", f.around.c_str(), intro);
  for (auto& l : layers) { conf += " {"; for (auto& n : l) if (n.first.compare(0, 5, "bulk.")) conf += "'" + vh::esc(n.first) + "' "; conf += "}"; }
  conf += " interceptors";
  for (int k : ics) conf += fmt(" %d", k);
  vh::mark(conf);
  f.begin(r);

  unsigned threads = r.chance(1, 3) ? 3 : 1, calls = 4;
  std::mutex fm;
  std::string bad, badkey;
  auto caller = [&](unsigned t, uint64_t sd) {
    Rng q(sd);
    Peer p;
    for (unsigned c = 0; c < calls; ++c) {
      std::string name = q.pick(!known.empty() && q.chance(3, 4) ? known : base), id = fmt("%u-%u-", t, c) + token(q, 3, 5);
      bool listing = name == "system.listMethods" && intro && layers[0][name] == "list";
      // what must happen
      std::string tag;
      bool found = false;
      for (auto& l : layers) if (!found && l.count(name)) { found = true; tag = l[name]; }
      std::vector<std::string> want;
      std::string result;
      int fault = 0;
      if (!found) fault = -32601;
      else {
        // last pushed first
        std::vector<std::string> extra;
        bool reached = true;
        std::vector<int> open;
        for (int k = (int)ics.size() - 1; k >= 0 && reached; --k) {
          want.push_back(fmt(">%d", k));
          if (ics[k] == 3) { reached = false; result = fmt("skipped by %d", k); want.push_back(fmt("<%d", k)); break; }
          if (ics[k] == 4) { reached = false; fault = 7000 + k; break; }
          if (ics[k] == 1) extra.push_back(fmt("p%d", k));
          open.push_back(k);
        }
        if (reached) {
          if (!listing) want.push_back("run " + tag + " as " + name);
          result = tag;
          for (auto& e : extra) result += "," + e;
        }
        while (!fault && !open.empty()) {
          int k = open.back();
          open.pop_back();
          if (ics[k] == 5) { fault = 8000 + k; break; }
          if (ics[k] == 2) { result += fmt("+r%d", k); if (listing && reached) { fault = 1; break; } }
          want.push_back(fmt("<%d", k));
        }
      }
      auto set = [&](const std::string& k, const std::string& d) {
        std::lock_guard<std::mutex> l(fm);
        if (bad.empty()) { badkey = k; bad = conf + " call '" + vh::esc(name) + "': " + d; }
      };
      if (p.fd < 0 && !p.open(f.port)) { set("no-answer", "cannot connect"); return; }
      Param_list pl;
      pl.push_back(id);
      p.send(post(dump_request(Request(name, pl)), f.credentials(q), true));
      Msg m;
      if (!p.message(m)) { set("no-answer", fmt("no response (%s)", p.eof ? "closed" : "silent")); return; }
      Answer a = answer(m.body);
      std::vector<std::string> got;
      { std::lock_guard<std::mutex> l(m18); got = trace18[id]; trace18.erase(id); }
      std::string gs, ws;
      for (auto& s : got) gs += s + "; ";
      for (auto& s : want) ws += s + "; ";
      bool skip = false;
      if (found && listing && want.size()) {
        // the built-in method writes no event; result is an array
        bool reached = true;
        for (int k = (int)ics.size() - 1; k >= 0; --k) if (ics[k] == 3 || ics[k] == 4) { reached = false; break; }
        for (int k : ics) if (k == 2 && reached) skip = true;   // string operation on an array: any fault
      }
      if (!skip && gs != ws) { set("order", "events " + gs + " expected " + ws); return; }
      if (skip) { if (!a.fault) set("order", "a failing interceptor did not give a fault"); continue; }
      if (fault) {
        if (m.status != 200 || !a.fault || (fault != 1 && a.code != fault)) { set("fault", fmt("expected fault %d, got ", fault) + vh::esc(m.body, 300)); return; }
        vh::count(fault == -32601 ? "unknown names refused" : "interceptor faults delivered");
      } else if (listing && result == "list" ) {
        std::multiset<std::string> have, should;
        if (!a.ok || a.value.k != model::ARR) { set("list", "no list: " + vh::esc(m.body, 300)); return; }
        for (auto& v : a.value.a) have.insert(v.s);
        std::set<std::string> hs(have.begin(), have.end()), ss;
        for (auto& l : layers) for (auto& n : l) ss.insert(n.first);
        if (hs != ss) { set("list", fmt("%zu names listed, %zu registered: ", hs.size(), ss.size()) + vh::esc(m.body, 600)); return; }
        vh::count("method lists compared");
      } else if (listing && a.ok && a.value.k == model::ARR) {
        vh::count("method lists compared");
      } else {
        if (!a.ok || a.text != result) { set("result", "expected '" + result + "', got " + vh::esc(m.body, 400)); return; }
        vh::count("calls compared");
        vh::count("trace events", got.size());
      }
      if (m.get("connection") != "keep-alive") p.close();
    }
  };
  std::vector<std::thread> ts;
  for (unsigned t = 1; t < threads; ++t) { uint64_t sd = r.next(); ts.emplace_back(caller, t, sd); }
  caller(0, r.next());
  for (auto& t : ts) t.join();
  if (!bad.empty()) vh::fail(badkey, bad);
  if (f.returned) vh::fail("server-died", conf + ": " + f.died);
  if (!f.stop()) { vh::fail("hang:stop", conf); vh::finish_now(1); }
  if (round + 1 == rounds) f.destroy();
  { std::lock_guard<std::mutex> l(m18); if (!trace18.empty()) { vh::fail("extra-events", conf + ": events of unknown call " + trace18.begin()->first + " " + trace18.begin()->second[0]); trace18.clear(); } }
  vh::distinct(conf);
  if (i % 61 < 3) vh::sample(conf);
  if (!bad.empty()) break;
  }
  fx = 0;
}

// ---------------------------------------------------------------- C19
static std::mutex m19;
typedef std::map<std::string, std::string> SMap;
static std::map<std::string, std::vector<SMap> > seen19;

static void heads(Method* m, const Param_list& p, Value& v)
{
  SMap s;
  for (XHeaders::const_iterator i = m->xheaders().begin(); i != m->xheaders().end(); ++i) s[i->first] = i->second;
  std::string id = p.at(0).get_string();
  for (auto& x : s) {
    // the lookup interface must agree with the iteration
    std::string u = x.first;
    for (char& c : u) c = toupper(c);
    if (m->xheaders().find(u) == m->xheaders().end() || m->xheaders().find(u)->second != x.second) s["x-lookup"] = "differs for " + x.first;
  }
  if (m->xheaders().size() != s.size()) s["x-size"] = "differs";
  { std::lock_guard<std::mutex> l(m19); seen19[id].push_back(s); }
  if (p.size() > 1) usleep(p[1].get_int());
  v = id;
}

static std::string hname(Rng& r)
{
  static const char a[] = "abcdefghijklmnopqrstuvwxyz0123456789-_.!#$%&'*+^`|~";
  if (r.chance(1, 2)) return r.pick(std::vector<std::string>{"x-a", "x-b", "x-token", "x-correlation-id"});
  std::string s = "x-";
  for (int n = r.below(10); n > 0; --n) s += a[r.below(sizeof a - 1)];
  return s;
}

static std::string hvalue(Rng& r)
{
  std::string s;
  switch (r.below(5)) {
  case 0: s = token(r, 1, 20); break;
  case 1: s = ""; break;
  case 2: for (int n = r.range(1, 40); n > 0; --n) s += (char)r.range(32, 126); break;
  case 3: s = "\xd0\x96 " + token(r, 1, 4) + "\t: , \"q\" \xf0\x9f\x98\x80"; break;
  case 4: s = token(r, 1000, r.chance(1, 8) ? 40000 : 4000); break;
  }
  return trim(s);
}

static void add(Rng& r, XHeaders& h, SMap& model)
{
  std::string n = hname(r), v = hvalue(r);
  h[odd_case(r, n)] = v;
  model[n] = v;
}

static std::string show(const SMap& m)
{
  std::string s;
  for (auto& x : m) s += x.first + "=" + x.second.substr(0, 60) + "; ";
  return s;
}

static void c19(long i, Rng& r)
{
  static bool pool = false;
  if (!fx || (i / vh::opts().nshards) % 30 == 0) {
    done();
    pool = r.chance(1, 2);
    fx = new Fixture(pool ? 3 : 0);
    fx->method("heads", heads);
    fx->surround(r);
    fx->begin(r);
  }
  shim::calm();
  shim::seed(r.next());
  shim::st().frag = r.pick(std::vector<int>{0, 0, 40});
  unsigned threads = r.chance(1, 2) ? 3 : 1;
  std::mutex fm;
  std::string bad, badkey;
  std::string trace = fmt("%s%s %u clients", pool ? "pool" : "serial", fx->around.c_str(), threads);
  vh::mark(trace);
  auto client = [&](unsigned t, uint64_t sd) {
    Rng q(sd);
    std::unique_ptr<Client_base> owner(lib_client(fx->port));
    Client_base& cl = *owner;
    if (fx->auth && q.chance(2, 3)) cl.set_authinfo(token(q, 1, 5), token(q, 0, 5));
    cl.set_keep_alive(q.chance(1, 2));
    SMap wide;
    for (unsigned k = 0; k < 4; ++k) {
      std::string id = fmt("%u-%u-", t, k) + token(q, 4, 6);
      auto set = [&](const std::string& key, const std::string& d) { std::lock_guard<std::mutex> l(fm); if (bad.empty()) { badkey = key; bad = trace + ": " + d; } };
      if (q.chance(1, 2)) {
        XHeaders h;
        wide.clear();
        if (q.chance(1, 3)) {
          SMap m;                                  // assignment keeps only X- names
          for (int n = q.below(4); n > 0; --n) { std::string nm = hname(q), v = hvalue(q); m[(q.chance(1, 2) ? "X-" : "x-") + nm.substr(2)] = v; }
          SMap folded;
          for (auto& x : m) folded[lower(x.first)] = "";
          if (folded.size() == m.size()) {
            for (auto& x : m) wide[lower(x.first)] = x.second;
            m["Authorization"] = "Basic AAAA"; m["content-length"] = "7"; m["Y-x-a"] = "1"; m["X"] = "1"; m[""] = "1";
            if (q.chance(1, 2)) { h["X-before"] = "1"; h["x-token"] = "before"; }
            h = m;
          }
        } else
          for (int n = q.below(5); n > 0; --n) add(q, h, wide);
        cl.set_xheaders(h);
      }
      XHeaders one;
      SMap per;
      for (int n = q.below(4); n > 0; --n) add(q, one, per);
      if (q.chance(1, 40)) {
        for (int n = 50 + q.below(200); n > 0; --n) { std::string nm = fmt("x-n%d", n), v = q.chance(1, 5) ? "" : token(q, 1, 20); one[nm] = v; per[nm] = v; }
        vh::count("calls with a hundred headers");
      }
      for (const char* n : {"Y-a", "", "X", "a-x-b", "-x-a", "content-length", " X-a"}) {
        bool refused = false;
        try { one[n] = "1"; } catch (const Error_xheader&) { refused = true; }
        if (!refused) set("name-accepted", std::string("name '") + n + "' accepted");
      }
      if (q.chance(1, 6)) {
        // a line end would let a header carry others: refused, nothing is sent
        std::string brk = q.pick(std::vector<std::string>{"\r\n", "\n", "\r", "\r\n\r\n"}), evil = "v" + brk + "x-evil: 1", name = hname(q);
        XHeaders split, none;
        Param_list sp;
        sp.push_back("split-" + id);
        bool in_name = q.chance(1, 4), everywhere = q.chance(1, 3), refused = false;
        std::string how;
        try {
          if (in_name) split[name + ": 1" + brk + "x-evil"] = "1"; else split[name] = q.chance(1, 4) ? "v" + brk : evil;
          if (everywhere) cl.set_xheaders(split);
          cl.execute("heads", sp, everywhere ? none : split);
        } catch (const std::exception& e) { refused = true; how = e.what(); }
        if (everywhere) { wide.clear(); cl.set_xheaders(none); }
        bool ran;
        { std::lock_guard<std::mutex> l(m19); ran = seen19.erase("split-" + id); }
        if (!refused || ran) { set("split-header", fmt("a header %s with a line end (%s) is sent%s %s", in_name ? "name" : "value", vh::esc(brk, 20).c_str(), ran ? " and the call executed" : "", how.c_str())); return; }
        vh::count("headers with line ends refused");
      }
      SMap want = wide;
      for (auto& x : per) want[x.first] = x.second;
      Param_list pl;
      pl.push_back(id);
      if (threads > 1) pl.push_back((int)q.below(2000));
      try {
        Response res = cl.execute("heads", pl, one);
        if (res.is_fault() || res.value().get_string() != id) { set("answer", "wrong answer"); return; }
      } catch (const std::exception& e) { set("call-failed", std::string(e.what()) + " sending " + show(want)); return; }
      std::vector<SMap> got;
      { std::lock_guard<std::mutex> l(m19); got = seen19[id]; seen19.erase(id); }
      if (got.size() != 1) { set("executions", fmt("%zu executions", got.size())); return; }
      if (got[0] != want) { set("headers", "sent " + show(want) + " seen " + show(got[0])); return; }
      vh::count("calls compared");
      vh::count("headers compared", want.size());
      vh::distinct(show(want));
      { std::lock_guard<std::mutex> l(fm); trace += fmt(" [%u: %zu wide %zu own]", t, wide.size(), per.size()); }
    }
  };
  std::vector<std::thread> ts;
  for (unsigned t = 1; t < threads; ++t) { uint64_t sd = r.next(); ts.emplace_back(client, t, sd); }
  client(0, r.next());
  for (auto& t : ts) t.join();
  if (!bad.empty()) vh::fail(badkey, bad);
  if (i % 61 < 3) vh::sample(trace);
  alive("C19");
}

// ---------------------------------------------------------------- C26
struct Ran26 { std::string name, host; int port; };
static std::mutex m26;
static std::map<std::string, Ran26> ran26;                 // by id

//! The sink of the log; notices when two threads use it at once.
struct Sink: std::streambuf {
  std::atomic<int> users;
  std::atomic<bool> overlap;
  std::mutex m;
  std::string text;
  Sink(): users(0), overlap(false) {}
  void put(const char* s, size_t n)
  {
    if (users++) overlap = true;
    { std::lock_guard<std::mutex> l(m); text.append(s, n); }
    if (n > 4) std::this_thread::yield();
    --users;
  }
  int overflow(int c) { if (c != EOF) { char x = c; put(&x, 1); } return 0; }
  std::streamsize xsputn(const char* s, std::streamsize n) { put(s, n); return n; }
  std::string take() { std::lock_guard<std::mutex> l(m); std::string t; t.swap(text); return t; }
};

//! Messages are made of bytes XML cannot carry, too.
static std::string any_bytes(std::string s)
{
  for (char& c : s) c = c == 'Z' ? '\0' : c == 'Q' ? '\xff' : c == 'X' ? '%' : c == 'J' ? '\r' : c == 'K' ? '\x1b' : c;
  return s;
}

static void tell(Method* m, const Param_list& p, Value& v)
{
  std::string id = p.at(0).get_string();
  for (int k = 0; k < p.at(1).get_int(); ++k) m->server().log_message(id + fmt(" %d ", k / 2) + any_bytes(p.at(2).get_string()) + " end");
  if (p.at(3).get_int()) usleep(p.at(3).get_int());
  {
    std::lock_guard<std::mutex> l(m26);
    if (!ran26.insert(std::make_pair(id, Ran26{m->name(), m->peer_addr().get_host_name(), m->peer_addr().get_port()})).second) vh::fail("executed-twice", "call " + id);
    sockaddr_in a = *m->peer_addr().get_sockaddr();
    std::string bin = fmt("%s:%d", inet_ntoa(a.sin_addr), ntohs(a.sin_port));
    if (bin != fmt("%s:%d", m->peer_addr().get_host_name().c_str(), m->peer_addr().get_port())) vh::fail("address-forms", "the address of the peer is " + bin + " in one form and " + m->peer_addr().get_host_name() + fmt(":%d in the other", m->peer_addr().get_port()));
  }
  if (p.at(4).get_int()) throw std::runtime_error("thrown by " + id);
  v = id;
}

static void c26(long i, Rng& r)
{
  static Sink* sink = new Sink;
  static std::ostream* out = new std::ostream(sink);
  static bool pool = false, logging = false;
  static const char* names[] = {"tell", "tell.other", "a", "the-longest-name-of-them-all"};
  if (!fx || (i / vh::opts().nshards) % 20 == 0) {
    done();
    pool = r.chance(2, 3);
    logging = r.chance(4, 5);
    fx = new Fixture(pool ? 2 + r.below(4) : 0);
    for (auto n : names) fx->method(n, tell);
    fx->surround(r, A_ALL & ~A_LOG);
    if (logging || r.chance(1, 2)) fx->server->log_errors(out);
    if (!logging) fx->server->log_errors(0);
    fx->begin(r);
  }
  shim::calm();
  shim::seed(r.next());
  shim::st().frag = r.pick(std::vector<int>{0, 0, 40});
  sink->take();
  sink->overlap = false;
  unsigned n = 1 + r.below(6), calls = 1 + r.below(4);
  std::string trace = fmt("%s%s, %s, %u peers:", pool ? "pool" : "serial", fx->around.c_str(), logging ? "log" : "no log", n);
  vh::mark(trace);
  std::mutex fm;
  std::string bad, badkey;
  struct Want { std::string name, host; int port; std::vector<std::string> lines; };
  std::map<std::string, Want> want;
  std::atomic<long> refused(0);
  auto set = [&](const std::string& key, const std::string& d) { std::lock_guard<std::mutex> l(fm); if (bad.empty()) { badkey = key; bad = trace + ": " + d; } };
  auto client = [&](unsigned t, uint64_t sd) {
    Rng q(sd);
    int host = 1 + q.below(250);
    Peer p;
    for (unsigned k = 0; k < calls; ++k) {
      bool keep = q.chance(3, 4);
      if (p.fd < 0 && !p.open(fx->port, 0, host)) { set("connect", "connection refused"); return; }
      std::string id = fmt("<%ld.%u.%u>", i, t, k), xid = fmt("&lt;%ld.%u.%u&gt;", i, t, k);
      int kind = q.below(8);
      Msg m;
      if (kind == 0) {                             // nothing is executed
        std::string body = q.pick(std::vector<std::string>{call_xml("nobody", {str("1")}), "<methodCall><methodName>tell</methodName>", "text", ""});
        size_t before = 0;
        { std::lock_guard<std::mutex> l(sink->m); before = sink->text.size(); }
        p.send(post(body, "", keep));
        if (!p.message(m)) { set("no-answer", "no response to a refused request"); return; }
        ++refused;
        { std::lock_guard<std::mutex> l(fm); trace += " x"; }
        if (logging && n == 1 && m.status == 200 && !wait_for([&] { std::lock_guard<std::mutex> l(sink->m); return sink->text.size() > before; })) { set("not-logged", "a refused request left nothing in the log"); return; }
      } else {
        Want w;
        w.name = names[q.below(4)];
        w.host = fmt("127.0.0.%d", host);
        w.port = p.local_port();
        int lines = q.below(5), boom = q.chance(1, 5);
        std::string text = token(q, 0, q.chance(1, 10) ? 9000 : 60);
        for (int z = 0; z < lines; ++z) w.lines.push_back(id + fmt(" %d ", z / 2) + any_bytes(text) + " end");
        { std::lock_guard<std::mutex> l(fm); want[id] = w; trace += fmt(" %d%s", lines, boom ? "!" : ""); }
        p.send(post(call_xml(w.name, {str(xid), fmt("<int>%d</int>", lines), str(text), fmt("<int>%d</int>", (int)q.below(2) * (int)q.below(800)), fmt("<int>%d</int>", boom)}), fx->credentials(q), keep));
        if (!p.message(m) || m.status != 200) { set("no-answer", fmt("status %d", m.status)); return; }
        Answer a = answer(m.body);
        if (boom ? !a.fault || a.text.find("thrown by " + id) == std::string::npos : !a.ok || a.fault || a.text != id) { set("answer", "answer " + vh::esc(m.body, 200)); return; }
      }
      if (!keep || m.get("connection") != "keep-alive") p.close();
    }
  };
  std::vector<std::thread> ts;
  for (unsigned t = 1; t < n; ++t) { uint64_t sd = r.next(); ts.emplace_back(client, t, sd); }
  client(0, r.next());
  for (auto& t : ts) t.join();
  // the server may be writing about a connection that ended
  std::string log;
  bool whole = wait_for([&] {
    std::lock_guard<std::mutex> l(sink->m);
    if (!sink->text.empty() && sink->text[sink->text.size() - 1] != '\n') return false;
    log.swap(sink->text);
    return true;
  });
  if (!whole) log = sink->take();
  std::map<std::string, Ran26> ran;
  { std::lock_guard<std::mutex> l(m26); ran.swap(ran26); }
  alive("C26");
  if (!bad.empty()) { vh::fail(badkey, bad); return; }
  for (auto& w : want) {
    if (!ran.count(w.first)) { vh::fail("not-executed", trace + ": call " + w.first); return; }
    const Ran26& x = ran[w.first];
    if (x.name != w.second.name) { vh::fail("name", trace + ": the method called '" + w.second.name + "' is told its name is '" + x.name + "'"); return; }
    if (x.host != w.second.host || x.port != w.second.port) { vh::fail("peer", trace + fmt(": a call from %s:%d is told to be from %s:%d", w.second.host.c_str(), w.second.port, x.host.c_str(), x.port)); return; }
    vh::count("contexts compared");
  }
  if (!logging) {
    if (!log.empty()) { vh::fail("log-off", trace + ": written although logging is off: " + vh::esc(log, 200)); return; }
    vh::count("histories without a log");
  } else {
    if (sink->overlap) { vh::fail("log-overlap", trace + ": two threads used the log at once"); return; }
    std::map<std::string, int> lines;
    for (size_t a = 0, b; a < log.size(); a = b + 1) {
      b = log.find('\n', a);
      if (b == std::string::npos) { vh::fail("log-cut", trace + ": the last line of the log has no end: " + vh::esc(log.substr(a), 200)); return; }
      lines[log.substr(a, b - a)]++;
    }
    for (auto& w : want)
      for (auto& l : w.second.lines) {
        // some are logged twice
        int should = (int)std::count(w.second.lines.begin(), w.second.lines.end(), l);
        if (should > 1) vh::count("messages logged twice");
        if (lines[l] != should) { vh::fail("log-line", trace + fmt(": a message logged %d times is in the log %d times: ", should, lines[l]) + vh::esc(l, 100) + " log: " + vh::esc(log, 600)); return; }
        vh::count("messages found in the log");
      }
    vh::count("refused requests", refused);
  }
  vh::distinct(trace);
  if (i % 61 < 3) vh::sample(trace);
}

int main(int argc, char** argv)
{
  vh::init(argc, argv, "C11");
  init_xml();
  heart();
  const std::string p = vh::opts().prop;
  if (p == "C11") vh::run_cases(c11, 100);
  else if (p == "C12") vh::run_cases(c12, 100);
  else if (p == "C18") vh::run_cases(c18, 100);
  else if (p == "C19") vh::run_cases(c19, 100);
  else if (p == "C26") vh::run_cases(c26, 100);
  else vh::broken("no such property " + p);
  shim::calm();
  done();
  return vh::finish();
}
