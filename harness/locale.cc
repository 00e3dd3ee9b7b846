// C29: what travels does not depend on the language settings of the program.
#include <locale>
#include "net.h"
#include "model.h"

using namespace model;
using namespace net;
using namespace iqxmlrpc;

namespace {

std::string token(Rng& r, int lo, int hi)
{
  std::string s;
  for (int n = (int)r.range(lo, hi); n > 0; --n) s += (char)('a' + r.below(26));
  return s;
}

//! Differences in numbers that stand for themselves: one of each kind is told, the others are counted.
void differs(bool number, const std::string& key, const std::string& other, const std::string& detail)
{
  static std::set<std::string> told;
  if (!number) vh::fail(other, detail);
  else if (told.insert(key).second) vh::fail(key, detail);
  else vh::count("further differences: " + key);
}

struct Punct: std::numpunct<char> {
  char point, sep;
  std::string groups;
  Punct(char p, char s, const std::string& g): point(p), sep(s), groups(g) {}
  char do_decimal_point() const { return point; }
  char do_thousands_sep() const { return sep; }
  std::string do_grouping() const { return groups; }
  std::string do_truename() const { return "vrai"; }
  std::string do_falsename() const { return "faux"; }
};

//! Letters of ISO 8859-1 have two cases.
struct Letters: std::ctype<char> {
  char do_tolower(char c) const { unsigned char u = c; return u >= 0xc0 && u < 0xdf ? (char)(u + 32) : std::ctype<char>::do_tolower(c); }
  const char* do_tolower(char* b, const char* e) const { for (; b != e; ++b) *b = do_tolower(*b); return e; }
  char do_toupper(char c) const { unsigned char u = c; return u >= 0xe0 && u < 0xff ? (char)(u - 32) : std::ctype<char>::do_toupper(c); }
  const char* do_toupper(char* b, const char* e) const { for (; b != e; ++b) *b = do_toupper(*b); return e; }
};

//! Other names of days and months.
struct Names: std::time_put<char> {
  iter_type do_put(iter_type o, std::ios_base& s, char f, const tm* t, char x, char m) const
  {
    if (f == 'a' || f == 'A' || f == 'b' || f == 'B') { for (const char* p = "jour"; *p; ++p) *o++ = *p; return o; }
    return std::time_put<char>::do_put(o, s, f, t, x, m);
  }
};

struct Kind_of_locale {
  char point, sep;
  bool groups;
  std::string name;
  std::locale loc;
};

Kind_of_locale pick(Rng& r)
{
  Kind_of_locale k;
  k.groups = r.chance(1, 2);
  k.point = r.chance(1, 2) ? ',' : '.';
  k.sep = k.point == ',' ? '.' : ',';
  if (r.chance(1, 4)) k.sep = ' ';
  k.loc = std::locale(std::locale::classic(), new Punct(k.point, k.sep, k.groups ? (r.chance(1, 4) ? "\3\2" : "\3") : ""));
  k.name = fmt("point %c", k.point) + (k.groups ? fmt(" groups '%c'", k.sep) : "");
  if (r.chance(1, 2)) { k.loc = std::locale(k.loc, new Letters); k.name += " letters"; }
  if (r.chance(1, 2)) { k.loc = std::locale(k.loc, new Names); k.name += " names"; }
  return k;
}

//! The language settings of the program while it exists.
struct Abroad {
  std::locale old;
  explicit Abroad(const Kind_of_locale& k): old(std::locale::global(k.loc)) {}
  ~Abroad() { std::locale::global(old); }
};

//! Makes numbers small, counts those that were not.
int numbers(RV& v, bool tame, bool& doubles)
{
  int n = 0;
  if (v.k == INT || v.k == I64) { if (v.i >= 1000 || v.i <= -1000) { if (tame) v.i %= 1000; else ++n; } }
  if (v.k == DBL) { if (tame) v = mk_bool(true); else doubles = true; }
  for (size_t i = 0; i < v.a.size(); ++i) n += numbers(v.a[i], tame, doubles);
  for (auto& m : v.m) n += numbers(m.second, tame, doubles);
  return n;
}

void written(long i, Rng& r)
{
  Kind_of_locale k = pick(r);
  RV v = r.chance(1, 3) ? gen_scalar(r) : gen_value(r, (int)r.range(1, 20));
  bool doubles = false;
  int large = numbers(v, r.chance(2, 3), doubles);
  std::string name = gen_text(r, 20), home, abroad, back;
  vh::mark(k.name + " " + show(v, 600));
  try {
    Param_list pl;
    pl.push_back(to_lib(v));
    home = dump_request(Request(name, pl));
    Abroad a(k);
    Param_list again;                 // nothing formatted before
    again.push_back(to_lib(v));
    abroad = dump_request(Request(name, again));
    if (home != abroad) {
      differs(large && k.groups, "number-written", "written", k.name + ": " + vh::esc(abroad, 400) + " instead of " + vh::esc(home, 400));
      return;
    }
    vh::count("documents written");
  } catch (const std::exception& e) { vh::fail("written", k.name + ": " + e.what()); return; }
  try {
    Abroad a(k);
    std::unique_ptr<Request> q(parse_request(home));
    back = q->get_params().size() == 1 ? diff(v, from_lib(q->get_params()[0])) : "other number of parameters";
    if (q->get_name() != name) back = "other name";
  } catch (const std::exception& e) { back = e.what(); }
  bool affected = doubles && (k.point != '.' || (k.groups && k.sep == '.'));
  if (!back.empty()) differs(affected, "double-read", "read", k.name + ": " + back + " reading " + vh::esc(home, 400));
  else vh::count("documents read");
  vh::distinct(k.name + " " + shape(v));
  if (i % 501 == 0) vh::sample(k.name + ": " + show(v, 200));
}

//! Numbers as people write them are not numbers of the protocol.
void grouped(long, Rng& r)
{
  Kind_of_locale k = pick(r);
  std::string t = fmt("%d%c%03d", (int)r.range(1, 999), k.groups ? k.sep : ',', (int)r.below(1000));
  std::string tag = r.pick(std::vector<std::string>{"i4", "int", "i8"});
  vh::mark(k.name + " " + t);
  Abroad a(k);
  try {
    std::unique_ptr<Request> q(parse_request(call_xml("m", {"<" + tag + ">" + t + "</" + tag + ">"})));
    differs(k.groups, "group-read", "read", k.name + ": " + t + " read as a number");
  } catch (const std::exception&) { vh::count("texts refused"); }
  vh::distinct(k.name + tag);
}

bool english_date(const std::string& d)
{
  char day[4], month[4];
  int n, y, h, m, s, end = 0;
  if (sscanf(d.c_str(), "%3[A-Za-z], %d %3[A-Za-z] %d %d:%d:%d GMT%n", day, &n, month, &y, &h, &m, &s, &end) != 7 || end != (int)d.size()) return false;
  return strstr("Sun Mon Tue Wed Thu Fri Sat", day) && strstr("Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec", month);
}

void served(long i, Rng& r)
{
  Kind_of_locale k = pick(r);
  bool pool = r.chance(1, 2);
  std::string trace = k.name + (pool ? " pool:" : " serial:");
  vh::mark(trace);
  Abroad a(k);
  Fixture f(pool ? 2 : 0);
  f.method("echo", [](Method* m, const Param_list& p, Value& v) { XHeaders& x = m->xheaders(); v = p.at(0).get_string() + (x.find("X-Id") == x.end() ? "" : x.find("x-id")->second); });
  f.start();
  for (int n = 1 + (int)r.below(3); n > 0; --n) {
    std::string text = token(r, 1, 10) + std::string(r.pick(std::vector<size_t>{0, 300, 1500, 200000}), 't'), id = token(r, 1, 9);
    int wrong = r.chance(1, 4) ? 1 + (int)r.below(2) : 0;
    Peer p;
    if (!p.open(f.port)) { vh::fail("served", trace + " refused"); break; }
    p.send(wrong == 1 ? "POST /RPC HTTP/1.1\r\ncontent-length: x\r\n\r\n" : post(call_xml(wrong ? "nobody" : "echo", {str(text)}), "X-ID: " + id + "\r\n"));
    size_t reply = wrong ? 0 : text.size();
    trace += fmt(" %zu", text.size());
    Msg m;
    if (!p.message(m)) {
      // a length that is no number ends nowhere
      bool known = k.groups && reply + 150 >= 1000;
      differs(known, "number-header", "served", trace + " no complete response: " + vh::esc(p.in, 250));
      break;
    }
    std::string len = m.get("content-length");
    std::string digits;
    for (char c : len) if (isdigit((unsigned char)c)) digits += c;
    if (m.status == 200 && len != fmt("%zu", m.body.size())) { differs(k.groups && digits.size() > 3, "number-header", "served", trace + " content-length '" + len + "'"); break; }
    if (!english_date(m.get("date"))) { vh::fail("date", trace + " date '" + m.get("date") + "'"); break; }
    vh::count("dates compared");
    Answer an = answer(m.body);
    bool good = wrong == 1 ? m.status == 400 : wrong ? m.status == 200 && !an.ok : m.status == 200 && an.ok && an.text == text + id;
    if (!good) { vh::fail("served", trace + " response " + m.first + " " + vh::esc(m.body, 200)); break; }
    vh::count("requests served");
  }
  if (!f.stop()) { vh::fail("stop", trace); vh::finish_now(1); }
  f.destroy();
  vh::distinct(trace);
  if (i % 101 == 0) vh::sample(trace);
}

void asked(long, Rng& r)
{
  Kind_of_locale k = pick(r);
  std::string trace = k.name + " client";
  vh::mark(trace);
  Listener l;
  std::string text = std::string(r.pick(std::vector<size_t>{1, 200, 3000}), 'q'), problem, got;
  std::atomic<bool> over(false);
  Abroad a(k);
  std::thread t([&] {
    try {
      Client<Http_client_connection> c(iqnet::Inet_addr("127.0.0.1", l.port), "/RPC");
      c.set_authinfo("user", "word");
      XHeaders x;
      x["X-Some"] = "value";
      Param_list pl;
      pl.push_back(text);
      Response p = c.execute("ask", pl, x);
      got = p.is_fault() ? "fault" : p.value().get_string();
    } catch (const std::exception& e) { problem = e.what(); }
    over = true;
  });
  Peer p;
  bool there = l.accept(p);
  std::string body = call_xml("ask", {str(text)});
  auto head_end = [&] { return p.in.find("\r\n\r\n"); };
  Deadline d(LONG_MS);
  while (there && (head_end() == std::string::npos || p.in.find("</methodCall>") == std::string::npos) && !p.eof && !d.over()) p.pull(d.left_ms() + 1);
  usleep(2000);
  while (there && !p.eof && p.pull(1)) ;
  size_t e = head_end();
  if (!there || e == std::string::npos || p.in.find("</methodCall>") == std::string::npos) vh::fail("asked", trace + " no whole request: " + vh::esc(p.in, 200));
  else {
    std::string head = lower(p.in.substr(0, e + 2)), rest = p.in.substr(e + 4);
    auto field = [&](const std::string& n) {
      size_t b = head.find("\r\n" + n + ":");
      return b == std::string::npos ? std::string("(none)") : trim(head.substr(b + n.size() + 3, head.find("\r\n", b + 2) - b - n.size() - 3));
    };
    if (head.compare(0, 18, "post /rpc http/1.0") && head.compare(0, 18, "post /rpc http/1.1")) vh::fail("asked", trace + " first line of " + vh::esc(head));
    if (field("content-length") != fmt("%zu", rest.size())) differs(k.groups && rest.size() >= 1000, "number-header", "asked", trace + " content-length '" + field("content-length") + "' for " + fmt("%zu", rest.size()));
    if (field("host") != fmt("127.0.0.1:%d", l.port)) differs(k.groups, "number-header", "asked", trace + " host '" + field("host") + "'");
    if (field("x-some") != "value" || field("content-type") != "text/xml" || field("authorization") == "(none)") vh::fail("asked", trace + " header " + vh::esc(head));
    vh::count("requests compared");
    std::string xml = "<?xml version=\"1.0\"?><methodResponse><params><param><value><string>" + text + "</string></value></param></params></methodResponse>";
    p.send(fmt("HTTP/1.1 200 OK\r\nContent-Type: text/xml\r\nContent-Length: %zu\r\n\r\n", xml.size()) + xml);
  }
  if (!wait_for([&] { return over.load(); })) { vh::fail("asked", trace + " the call does not end"); vh::finish_now(1); }
  t.join();
  if (!problem.empty() || got != text) vh::fail("answered", trace + ": " + problem + " " + vh::esc(got, 100));
  else vh::count("answers read");
  vh::distinct(trace + fmt(" %zu", text.size()));
}

void one_case(long i, Rng& r)
{
  shim::calm();
  switch (i % 20) {
  case 0: served(i, r); break;
  case 1: asked(i, r); break;
  case 2: case 3: grouped(i, r); break;
  default: written(i, r);
  }
}

} // namespace

int main(int argc, char** argv)
{
  vh::init(argc, argv, "C29");
  vh::run_cases(one_case, 400);
  return vh::finish();
}
