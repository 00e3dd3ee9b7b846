// C04: arbitrary bytes into the document parsers, under the memory and UB sanitizers.
#include <iconv.h>
#include <pthread.h>
#include <sstream>
#include <typeinfo>
#include "model.h"

using namespace model;
using namespace iqxmlrpc;

namespace {

double cpu()
{
  struct timespec t;
  clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

std::string transcode(const std::string& s, const char* to)
{
  iconv_t c = iconv_open(to, "UTF-8");
  if (c == (iconv_t)-1) return s;
  std::string out(s.size() * 4 + 16, '\0');
  char* in = const_cast<char*>(s.data());
  size_t il = s.size(), ol = out.size();
  char* o = &out[0];
  iconv(c, &in, &il, &o, &ol);
  iconv_close(c);
  out.resize(out.size() - ol);
  return out;
}

#define N(a) (sizeof(a) / sizeof(*a))
const char* vocab[] = {"methodCall", "methodName", "params", "param", "value", "i4", "int", "i8", "boolean", "double", "string",
  "base64", "dateTime.iso8601", "array", "data", "struct", "member", "name", "nil", "methodResponse", "fault", "x", "ns:value"};
const char* bits_of_text[] = {"1", "-5", "", " ", "x", "99999999999999", "1e999", "AAAA", "AA==", "A", "20200101T00:00:00", "2020", "&lt;", "&amp;", "&#65;",
  "&#0;", "&#xffffffff;", "&undef;", "<![CDATA[a]]>", "<![CDATA[", "<!-- c -->", "<!--", "<?pi?>", "]]>", "&", "<", ">", "faultCode", "faultString",
  "\xff\xfe", "\xc0\x80", "\xed\xa0\x80", "nan", "inf", "-inf", "0x1p3", "1.7976931348623159e308", "2147483648", "-", "+", "T:::::::::::::::T", "0000000000000000000"};

//! Well-formed, but with elements in wrong places.
std::string misplaced(Rng& g, int depth = 0)
{
  std::string r;
  int n = (int)g.below(depth ? 4 : 3) + (depth < 3);
  for (int i = 0; i < n; ++i) {
    static const char* t[] = {"1", "-5", " ", "x", "99999999999999", "1e999", "AAAA", "AA==", "A", "20200101T00:00:00", "&lt;", "<![CDATA[a]]>", "<!-- c -->", "<?pi?>", "1.5", "", "faultCode", "faultString"};
    if (g.chance(1, 4) || depth > 6) { r += t[g.below(N(t))]; continue; }
    std::string e = vocab[g.below(N(vocab) - 1)];
    if (g.chance(1, 5)) r += "<" + e + "/>";
    else if (e == "value" && g.chance(1, 2)) r += "<value><struct><member><name>" + std::string(t[g.below(N(t))]) + "</name>" + misplaced(g, depth + 2) + "</member></struct></value>";
    else if (e == "value" && g.chance(1, 2)) r += "<value><array><data>" + misplaced(g, depth + 2) + "</data></array></value>";
    else r += "<" + e + ">" + misplaced(g, depth + 1) + "</" + e + ">";
  }
  return r;
}

std::string misplaced_doc(Rng& g)
{
  std::string b = misplaced(g);
  switch (g.below(4)) {
  case 0: return "<methodCall><methodName>m</methodName><params><param><value>" + b + "</value></param></params></methodCall>";
  case 1: return "<methodResponse><params><param><value>" + b + "</value></param></params></methodResponse>";
  case 2: return "<methodResponse><fault><value><struct>" + b + "</struct></value></fault></methodResponse>";
  default: return "<methodCall><methodName>m</methodName>" + b + "</methodCall>";
  }
}

std::string soup(Rng& g)
{
  std::string r = g.chance(1, 2) ? "<?xml version=\"1.0\"?>" : "";
  std::vector<std::string> open;
  int n = (int)g.below(60);
  // usually start like a real document
  if (g.chance(3, 4)) {
    static const char* a[] = {"methodCall", "params", "param", "value"};
    static const char* b[] = {"methodResponse", "params", "param", "value"};
    static const char* c[] = {"methodResponse", "fault", "value", "struct"};
    const char** p = g.chance(1, 3) ? a : g.chance(1, 2) ? b : c;
    for (int i = 0; i < 4; ++i) {
      r += std::string("<") + p[i] + ">";
      open.push_back(p[i]);
      if (p == a && i == 0) r += "<methodName>m</methodName>";
      if (g.chance(1, 8)) break;
    }
  }
  for (int i = 0; i < n; ++i) {
    switch (g.below(8)) {
    case 0: case 1: case 2: { std::string t = vocab[g.below(N(vocab))]; r += "<" + t + ">"; open.push_back(t); break; }
    case 3: case 4: if (!open.empty()) { r += "</" + open.back() + ">"; open.pop_back(); } break;
    case 5: r += std::string("<") + vocab[g.below(N(vocab))] + "/>"; break;
    case 6: r += bits_of_text[g.below(N(bits_of_text))]; break;
    default: r += std::string("<") + vocab[g.below(N(vocab))] + ">" + bits_of_text[g.below(N(bits_of_text))] + "</" + vocab[g.below(N(vocab))] + ">";
    }
  }
  if (g.chance(4, 5)) while (!open.empty()) { r += "</" + open.back() + ">"; open.pop_back(); }
  return r;
}

std::string valid(Rng& g)
{
  Spell sp = gen_spell(g);
  switch (g.below(4)) {
  case 0: return write_fault(gen_int(g), gen_text(g, 10), sp);
  case 1: return write_response(gen_value(g, 10), sp);
  default: {
    std::vector<RV> p;
    for (int n = (int)g.below(4); n > 0; --n) p.push_back(gen_value(g, 8));
    return write_request("m", p, sp);
  }
  }
}

std::string mutate(std::string s, Rng& g)
{
  int n = (int)g.range(1, 6);
  for (int i = 0; i < n && !s.empty(); ++i) {
    size_t p = g.below(s.size());
    switch (g.below(9)) {
    case 0: s[p] = (char)g.below(256); break;
    case 1: s[p] ^= 1 << g.below(8); break;
    case 2: s.erase(p, g.range(1, 20)); break;
    case 3: { std::string c = s.substr(p, g.range(1, 80)); s.insert(g.below(s.size()), c); break; }
    case 4: s.resize(p); break;
    case 5: s.insert(p, bits_of_text[g.below(N(bits_of_text))]); break;
    case 6: s.insert(p, std::string("<") + (g.chance(1, 3) ? "/" : "") + vocab[g.below(N(vocab))] + (g.chance(1, 3) ? "/>" : ">")); break;
    case 7: {                              // exchange one tag for another
      size_t a = s.find('<', p), b = a == std::string::npos ? a : s.find('>', a);
      if (b != std::string::npos) s.replace(a, b - a + 1, std::string("<") + (g.chance(1, 3) ? "/" : "") + vocab[g.below(N(vocab))] + ">");
      break;
    }
    default: s[p] = 0;
    }
  }
  return s;
}

std::string rep(const std::string& s, size_t n) { std::string r; r.reserve(s.size() * n); for (size_t i = 0; i < n; ++i) r += s; return r; }

std::string deep(Rng& g, std::string& kind)
{
  static const size_t sizes[] = {10, 100, 300, 1000, 1023, 1024, 1025, 1500, 3000, 3071, 3072, 3073, 5000, 20000, 100000};
  size_t n = sizes[g.below(N(sizes))];
  static const char* o[] = {"<value><array><data>", "<value><struct><member><name>a</name>", "<value>", "<x>", "<value><string>", "<name>", "<value><array>", "<value><struct><member>", "<params>"};
  static const char* c[] = {"</data></array></value>", "</member></struct></value>", "</value>", "</x>", "</string></value>", "</name>", "</array></value>", "</member></struct></value>", "</params>"};
  int k = (int)g.below(9);
  kind = vh::fmt("deep %s x %zu", o[k], n);
  bool req = g.chance(1, 2);
  std::string r = req ? "<methodCall><methodName>m</methodName><params><param>" : "<methodResponse><params><param>";
  if (g.chance(1, 8)) r = "";
  r += rep(o[k], n);
  if (k == 1 || g.chance(1, 2)) r += "<value><int>1</int></value>";
  if (g.chance(3, 4)) r += rep(c[k], n);
  return r + (req ? "</param></params></methodCall>" : "</param></params></methodResponse>");
}

std::string dtd(Rng& g, std::string& kind)
{
  std::string d, use = "&x;";
  switch (g.below(9)) {
  case 0: {                                // nested expansion
    kind = "dtd nested";
    int levels = (int)g.range(2, 12);
    d = "<!ENTITY x0 \"aaaaaaaaaa\">";
    for (int i = 1; i <= levels; ++i) d += vh::fmt("<!ENTITY x%d \"", i) + rep(vh::fmt("&x%d;", i - 1), 10) + "\">";
    use = vh::fmt("&x%d;", levels);
    break;
  }
  case 1: kind = "dtd wide"; d = "<!ENTITY x \"" + std::string(20000, 'a') + "\">"; use = rep("&x;", 2000); break;
  case 2: kind = "dtd loop"; d = "<!ENTITY x \"&y;\"><!ENTITY y \"&x;\">"; break;
  case 3: kind = "dtd self"; d = "<!ENTITY x \"&x;\">"; break;
  case 4: kind = "dtd param"; d = "<!ENTITY % p \"<!ENTITY x 'q'>\"> %p; %p; %undef;"; break;
  case 5: kind = "dtd markup"; d = "<!ENTITY x \"<value><int>1</int></value>\">"; use = g.chance(1, 2) ? "&x;" : "</value>&x;<value>"; break;
  case 6: kind = "dtd attlist"; d = "<!ELEMENT value ANY><!ATTLIST value a CDATA \"" + std::string(g.below(10000), 'z') + "\">"; use = "t"; break;
  case 7: kind = "dtd external"; d = "<!ENTITY x SYSTEM \"file:///nonexistent/vh\">"; break;
  default: {
    kind = "dtd param nested";
    d = "<!ENTITY % a0 \"aaaaaaaaaa\">";
    for (int i = 1; i < 8; ++i) d += vh::fmt("<!ENTITY %% a%d \"", i) + rep(vh::fmt("%%a%d;", i - 1), 10) + "\">";
    d += "<!ENTITY x \"%a7;\">";
  }
  }
  std::string v = g.chance(1, 2) ? "<string>" + use + "</string>" : use;
  std::string at = g.chance(1, 6) ? " at=\"" + use.substr(0, 200) + "\"" : "";
  return "<?xml version=\"1.0\"?><!DOCTYPE r [" + d + "]><methodCall" + at + "><methodName>" + (g.chance(1, 4) ? use : "m") + "</methodName><params><param><value>" + v
    + "</value></param></params></methodCall>";
}

std::string big(Rng& g, std::string& kind)
{
  size_t n = (size_t)g.range(1000, 300000);
  std::string v;
  switch (g.below(12)) {
  case 0: kind = "big int"; v = "<int>" + std::string(n, '1') + "</int>"; break;
  case 1: kind = "big double"; v = "<double>" + std::string(n, '1') + "." + std::string(n, '2') + "e5</double>"; break;
  case 2: kind = "big base64"; v = "<base64>" + std::string(n, 'A') + "</base64>"; break;
  case 3: kind = "big date"; v = "<dateTime.iso8601>" + std::string(n, '1') + "</dateTime.iso8601>"; break;
  case 4: kind = "big tag"; v = "<" + std::string(n, 'q') + "/>"; break;
  case 5: { kind = "many attributes"; v = "<string"; for (size_t i = 0; i < n / 400; ++i) v += vh::fmt(" a%zu='1'", i); v += ">x</string>"; break; }
  case 6: kind = "many params"; v = "1" + rep("</value></param><param><value>1", n / 30); break;
  case 7: kind = "many members"; { v = "<struct>"; for (size_t i = 0; i < n / 60; ++i) v += vh::fmt("<member><name>%zu</name><value/></member>", i % 1000); v += "</struct>"; } break;
  case 8: kind = "comments"; v = "<string>a" + rep("<!--c-->b", n / 10) + "</string>"; break;
  case 9: kind = "charrefs"; v = "<string>" + rep("&#x1F600;", n / 10) + "</string>"; break;
  case 10: kind = "prefix"; v = "<" + std::string(n / 2, 'p') + ":int>1</" + std::string(n / 2, 'p') + ":int>"; break;
  default: kind = "many cdata"; v = "<string>" + rep("<![CDATA[a]]>", n / 14) + "</string>";
  }
  if (g.chance(1, 8)) v.resize(g.below(v.size()));
  return "<methodCall><methodName>m</methodName><params><param><value>" + v + "</value></param></params></methodCall>";
}

size_t volume(const RV& v)
{
  size_t n = v.s.size();
  for (size_t i = 0; i < v.a.size(); ++i) n += volume(v.a[i]);
  for (std::map<std::string, RV>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) n += i->first.size() + volume(i->second);
  return n;
}

// Deep results are not walked by the recursive model.
bool shallow(const std::string& s) { return s.size() < 400000; }

void parse_once(const std::string& doc, bool request, std::string& outcome)
{
  size_t vol = 0;
  try {
    if (request) {
      std::unique_ptr<Request> q(parse_request(doc));
      outcome = vh::fmt("request with %zu params", q->get_params().size());
      vol += q->get_name().size();
      if (shallow(doc)) for (size_t i = 0; i < q->get_params().size(); ++i) vol += volume(from_lib(q->get_params()[i]));
      try { dump_request(*q); } catch (const Exception&) {}
    } else {
      Response r = parse_response(doc);
      outcome = r.is_fault() ? "fault" : "value";
      vol += r.fault_string().size();
      if (!r.is_fault() && shallow(doc)) vol += volume(from_lib(r.value()));
      try { dump_response(r); } catch (const Exception&) {}
    }
    vh::count("documents accepted");
  } catch (const Bad_view& e) {
    outcome = "bad view";
    vh::fail("bad-view", std::string(e.what()) + " in " + vh::esc(doc, 1500));
  } catch (const std::exception& e) {
    outcome = typeid(e).name();
    vh::count("documents refused");
  } catch (...) {
    outcome = "foreign exception";
    vh::fail("foreign-exception", "not a std::exception for " + vh::esc(doc, 1500));
  }
  if (vol > doc.size() * 4 + 4096)
    vh::fail("expansion", vh::fmt("%zu bytes of text from a document of %zu: ", vol, doc.size()) + vh::esc(doc, 1500));
}

void one_case(long i, Rng& g)
{
  std::string doc, kind;
  switch (g.below(16)) {
  case 0: { kind = "bytes"; size_t n = g.below(300); for (size_t k = 0; k < n; ++k) doc += (char)g.below(256); break; }
  case 1: kind = "soup"; doc = soup(g); break;
  case 2: case 3: case 4: kind = "misplaced"; doc = misplaced_doc(g); break;
  case 11: case 12: case 13: {
    kind = "restructured";
    Spell plain;
    if (g.chance(1, 2)) { std::vector<RV> p; for (int n = (int)g.below(4); n > 0; --n) p.push_back(gen_value(g, 8)); doc = write_request("m", p, plain); }
    else if (g.chance(1, 3)) doc = write_fault(gen_int(g), gen_text(g, 10), plain);
    else doc = write_response(gen_value(g, 8), plain);
    std::string op;
    for (int n = (int)g.range(1, 3); n > 0; --n) doc = corrupt(doc, g, op);
    break;
  }
  case 5: { kind = "splice"; std::string a = valid(g), b = valid(g); doc = a.substr(0, g.below(a.size())) + b.substr(g.below(b.size())); break; }
  case 6: {
    kind = "encoding";
    static const char* enc[] = {"ISO-8859-1", "UTF-16", "UTF-16LE", "UTF-16BE", "UTF-32", "UTF-7", "bogus", "US-ASCII", "EBCDIC-US", "EUC-JP", "UCS-2"};
    std::string e = enc[g.below(N(enc))], v = valid(g);
    size_t p = v.find("?>");
    v = "<?xml version=\"1.0\" encoding=\"" + e + "\"?>" + (p == std::string::npos ? v : v.substr(p + 2));
    doc = g.chance(2, 3) ? transcode(v, e.c_str()) : v;
    if (g.chance(1, 3)) doc = mutate(doc, g);
    break;
  }
  case 7: doc = dtd(g, kind); if (g.chance(1, 4)) doc = mutate(doc, g); break;
  case 8: if (g.chance(1, 6)) doc = deep(g, kind); else { kind = "soup"; doc = soup(g); } break;
  case 9: if (g.chance(1, 6)) doc = big(g, kind); else { kind = "soup"; doc = mutate(soup(g), g); } break;
  case 10: { kind = "prefix"; doc = valid(g); doc.resize(g.below(doc.size() + 1)); break; }
  default: kind = "mutated"; doc = mutate(valid(g), g);
  }
  bool request = doc.find("methodResponse") == std::string::npos ? !g.chance(1, 10) : g.chance(1, 10);
  vh::mark(kind + (request ? " request " : " response ") + vh::esc(doc, 3000));
  std::string outcome;
  double limit = 1.0 + doc.size() * 40e-6, t = 0;
  for (int attempt = 0; attempt < 2; ++attempt) {      // one slow attempt may be an accident
    double t0 = cpu();
    parse_once(doc, request, outcome);
    t = cpu() - t0;
    if (t <= limit) break;
  }
  if (t > limit)
    vh::fail("time", vh::fmt("%.1f s of processor time for %zu bytes, %s: ", t, doc.size(), kind.c_str()) + vh::esc(doc, 800));
  vh::maximum("microseconds per document", (long)(t * 1e6));
  if (doc.size() > 5000) vh::maximum("nanoseconds per byte of a large document", (long)(t * 1e9 / doc.size()));
  vh::count("kind: " + kind.substr(0, kind.find(' ')));
  vh::count("bytes parsed", doc.size());
  vh::distinct(kind + outcome + (doc.size() < 4000 ? doc : vh::fmt("%zu", doc.size())));
  if (i % 1511 == 0) vh::sample(kind + " -> " + outcome + ": " + vh::esc(doc, 300));
}

void quiet(void*, const char*, ...) {}

} // namespace

int main(int argc, char** argv)
{
  vh::init(argc, argv, "C04");
  xmlInitParser();
  xmlSetGenericErrorFunc(0, quiet);
  vh::run_cases(one_case, 1000);
  return vh::finish();
}
