// Reference model of XML-RPC values, independent of the library: generator,
// own XML writer (with the spellings XML allows) and a reader on the libxml2 DOM.
#ifndef MODEL_H
#define MODEL_H

#include <math.h>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <libxml/parser.h>
#include <libxml/tree.h>

#include "vh.h"
#include "libiqxmlrpc/value.h"
#include "libiqxmlrpc/request.h"
#include "libiqxmlrpc/response.h"

namespace model {

using vh::Rng;

enum Kind { NIL, INT, I64, BOOL, DBL, STR, BIN, DATE, ARR, STRUCT, NKINDS };

inline const char* kind_name(Kind k)
{
  static const char* n[] = {"nil", "i4", "i8", "boolean", "double", "string", "base64",
    "dateTime.iso8601", "array", "struct"};
  return n[k];
}

struct RV {
  Kind k;
  int64_t i;
  double d;
  std::string s;                  // text, raw bytes, or the iso8601 text
  std::vector<RV> a;
  std::map<std::string, RV> m;
  RV(Kind kk = NIL): k(kk), i(0), d(0) {}
};

inline RV mk_int(int v) { RV r(INT); r.i = v; return r; }
inline RV mk_i64(int64_t v) { RV r(I64); r.i = v; return r; }
inline RV mk_bool(bool v) { RV r(BOOL); r.i = v; return r; }
inline RV mk_dbl(double v) { RV r(DBL); r.d = v; return r; }
inline RV mk_str(const std::string& s) { RV r(STR); r.s = s; return r; }
inline RV mk_bin(const std::string& s) { RV r(BIN); r.s = s; return r; }
inline RV mk_date(const std::string& s) { RV r(DATE); r.s = s; return r; }

inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }

//! "" when equal, otherwise where and how they differ.
inline std::string diff(const RV& x, const RV& y, const std::string& path = "$")
{
  if (x.k != y.k)
    return path + ": " + kind_name(x.k) + " became " + kind_name(y.k);
  switch (x.k) {
  case NIL: return "";
  case INT: case I64: case BOOL:
    return x.i == y.i ? "" : path + vh::fmt(": %s %lld became %lld", kind_name(x.k), (long long)x.i, (long long)y.i);
  case DBL:
    return bits(x.d) == bits(y.d) ? "" : path + vh::fmt(": double %.17g became %.17g", x.d, y.d);
  case STR: case BIN: case DATE:
    return x.s == y.s ? "" : path + ": " + kind_name(x.k) + " '" + vh::esc(x.s, 200) + "' became '" + vh::esc(y.s, 200) + "'";
  case ARR:
    if (x.a.size() != y.a.size())
      return path + vh::fmt(": array of %zu became %zu", x.a.size(), y.a.size());
    for (size_t i = 0; i < x.a.size(); ++i) {
      std::string d = diff(x.a[i], y.a[i], path + vh::fmt("[%zu]", i));
      if (!d.empty()) return d;
    }
    return "";
  default:
    for (std::map<std::string, RV>::const_iterator i = x.m.begin(); i != x.m.end(); ++i) {
      std::map<std::string, RV>::const_iterator j = y.m.find(i->first);
      if (j == y.m.end()) return path + ": member '" + vh::esc(i->first, 100) + "' lost";
      std::string d = diff(i->second, j->second, path + "." + vh::esc(i->first, 40));
      if (!d.empty()) return d;
    }
    if (x.m.size() != y.m.size())
      return path + vh::fmt(": struct of %zu became %zu", x.m.size(), y.m.size());
    return "";
  }
}

inline std::string show(const RV& v, size_t max = 400)
{
  std::string r;
  switch (v.k) {
  case NIL: return "nil";
  case INT: return vh::fmt("%lld", (long long)v.i);
  case I64: return vh::fmt("%lldL", (long long)v.i);
  case BOOL: return v.i ? "true" : "false";
  case DBL: return vh::fmt("%.17g", v.d);
  case STR: return "\"" + vh::esc(v.s, 60) + "\"";
  case BIN: return vh::fmt("bin(%zu)", v.s.size());
  case DATE: return "d" + v.s;
  case ARR:
    r = "[";
    for (size_t i = 0; i < v.a.size() && r.size() < max; ++i) r += (i ? "," : "") + show(v.a[i], max - r.size());
    return r + "]";
  default:
    r = "{";
    for (std::map<std::string, RV>::const_iterator i = v.m.begin(); i != v.m.end() && r.size() < max; ++i)
      r += (i == v.m.begin() ? "" : ",") + vh::esc(i->first, 30) + ":" + show(i->second, max - r.size());
    return r + "}";
  }
}

//! Shape without contents: which kinds are where.
inline std::string shape(const RV& v, int depth = 0)
{
  static const char c[] = "nilbdsBtAS";
  std::string r(1, c[v.k]);
  if (depth > 40) return r + "~";
  if (v.k == STR || v.k == BIN) r += v.s.empty() ? "0" : v.s.size() < 4 ? vh::fmt("%zu", v.s.size()) : v.s.size() < 100 ? "+" : "#";
  if (v.k == ARR) { for (size_t i = 0; i < v.a.size() && i < 60; ++i) r += shape(v.a[i], depth + 1); r += "."; }
  if (v.k == STRUCT) {
    int n = 0;
    for (std::map<std::string, RV>::const_iterator i = v.m.begin(); i != v.m.end() && n < 60; ++i, ++n)
      r += (i->first.empty() ? "_" : "") + shape(i->second, depth + 1);
    r += ".";
  }
  return r;
}

inline size_t nodes(const RV& v)
{
  size_t n = 1;
  for (size_t i = 0; i < v.a.size(); ++i) n += nodes(v.a[i]);
  for (std::map<std::string, RV>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) n += nodes(i->second);
  return n;
}

// ---------------------------------------------------------------- generator
inline void put_utf8(std::string& r, uint32_t c)
{
  if (c < 0x80) r += (char)c;
  else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
  else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | ((c >> 12) & 63)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
}

inline uint32_t gen_char(Rng& g)
{
  for (;;) {
    uint32_t c;
    switch (g.below(12)) {
    case 0: c = "<>&\"']\r\n\t -"[g.below(12)]; if (!c) c = ' '; break;
    case 1: c = " \t\n\r"[g.below(4)]; break;
    case 2: c = (uint32_t)g.range(0x80, 0x7ff); break;
    case 3: c = (uint32_t)g.range(0x800, 0xffff); break;
    case 4: c = (uint32_t)g.range(0x10000, 0x10ffff); break;
    case 5: { static const uint32_t e[] = {0x7f, 0x80, 0x85, 0x9f, 0xa0, 0x7ff, 0x800, 0x2028, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x10ffff, 0xfeff};
      c = e[g.below(sizeof e / sizeof *e)]; break; }
    default: c = (uint32_t)g.range(0x20, 0x7e);
    }
    if (c >= 0xd800 && c <= 0xdfff) continue;
    if (c == 0xfffe || c == 0xffff) continue;
    return c;
  }
}

//! Sizes next to those at which buffers, counters and limits commonly change behaviour.
inline size_t gen_edge(Rng& g, size_t max)
{
  static const size_t e[] = {16, 32, 64, 76, 100, 128, 255, 256, 300, 500, 512, 1000, 1023, 1024, 2048, 4000, 4096, 8192, 10000, 16384, 32768, 65535, 65536, 100000, 131072, 262144, 1048576};
  size_t n = 0;
  while (n < sizeof e / sizeof *e && e[n] <= max) ++n;
  return n ? e[g.below(n)] - 1 + g.below(3) : g.below(max + 1);
}

inline std::string gen_text(Rng& g, size_t max = 40)
{
  static const std::vector<std::string> special = {
    "", " ", "\n", "\t \n", "   ", "<", "&", "&amp;", "]]>", "<![CDATA[x]]>", "<!-- c -->", "a\rb", "\r\n",
    " lead", "trail ", "0", "-1", "</value>", "<value>", "\"'", "&#65;", "%s%n", "\\", "nil", "\xc3\xa9", "\xe2\x82\xac",
    "\xf0\x9f\x98\x80", "&lt;b&gt;", "<?pi?>", "\n\n", "x", "true" };
  if (g.chance(1, 3)) return g.pick(special);
  std::string r;
  size_t n = g.chance(1, 60) ? g.below(max * 200) : g.chance(1, 25) ? gen_edge(g, max * 110) : g.below(max);
  bool plain = g.chance(1, 3);
  for (size_t i = 0; i < n; ++i) {
    if (plain) r += (char)g.range(0x20, 0x7e);
    else put_utf8(r, gen_char(g));
  }
  return r;
}

inline std::string gen_bytes(Rng& g, size_t max = 64)
{
  size_t n = g.chance(1, 40) ? g.below(max * 100) : g.chance(1, 20) ? gen_edge(g, max * 160) : g.below(max);
  std::string r;
  unsigned mode = g.below(4);
  for (size_t i = 0; i < n; ++i)
    r += mode == 0 ? (char)g.range(0x80, 0xff) : mode == 1 ? (char)(g.chance(1, 2) ? 0 : 0xff) : (char)g.below(256);
  return r;
}

inline int days_in(int y, int m)
{
  static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0) ? 29 : d[m - 1];
}

inline std::string gen_date(Rng& g)
{
  int y = (int)(g.chance(1, 4) ? g.range(0, 1) * 8099 + 1900 : g.range(1900, 9999));
  int m = (int)g.range(1, 12);
  if (g.chance(1, 6)) y = (int)g.range(1968, 2040);
  if (g.chance(1, 6)) m = g.chance(1, 2) ? 2 : g.chance(1, 2) ? 1 : 12;
  int d = (int)(g.chance(1, 4) ? days_in(y, m) : g.chance(1, 6) ? 1 : g.range(1, days_in(y, m)));
  if (g.chance(1, 8)) return vh::fmt("%04d%02d%02dT", y, m, d) + (g.chance(1, 2) ? "00:00:00" : "23:59:59");
  return vh::fmt("%04d%02d%02dT%02d:%02d:%02d", y, m, d, (int)g.range(0, 23), (int)g.range(0, 59), (int)g.range(0, 59));
}

inline double gen_double(Rng& g)
{
  static const double e[] = {0.0, -0.0, 1.0, -1.0, 0.1, 1.0/3, 3.141592653589793, 1e15, 1e16, 1e17, 123456789012345678.0, 1e300, -1e-300,
    2.2250738585072014e-308, 1.7976931348623157e308, 5e-324, 4.35, 0.3, 1e22, 1e23, 9007199254740993.0 };
  switch (g.below(6)) {
  case 0: return e[g.below(sizeof e / sizeof *e)];
  case 1: return (double)g.range(-100000, 100000) / 100.0;
  case 2: return (g.chance(1, 2) ? 1 : -1) * (std::ldexp(1.0, (int)g.range(-60, 64)) + (g.chance(1, 2) ? 0 : (double)g.range(-2, 2)));
  default:
    for (;;) {
      uint64_t u = g.next();
      double d;
      memcpy(&d, &u, 8);
      if (std::isfinite(d)) return d;
    }
  }
}

inline int gen_int(Rng& g)
{
  static const int e[] = {0, 1, -1, 2147483647, (-2147483647 - 1), 255, 256, -128, 65536, 1000000000, -999999999};
  if (g.chance(1, 4)) return (int)((g.chance(1, 2) ? 1 : -1) * ((1LL << g.below(31)) + g.range(-1, 1)));
  return g.chance(1, 2) ? e[g.below(sizeof e / sizeof *e)] : (int)(uint32_t)g.next();
}

inline int64_t gen_i64(Rng& g)
{
  static const int64_t e[] = {0, 1, -1, INT64_MAX, INT64_MIN, 4294967296LL, 2147483648LL, -2147483649LL, 5000000000LL, 999999999999999999LL};
  if (g.chance(1, 4)) return (g.chance(1, 2) ? 1 : -1) * ((1LL << g.below(62)) + g.range(-1, 1));
  return g.chance(1, 2) ? e[g.below(sizeof e / sizeof *e)] : (int64_t)g.next();
}

inline RV gen_scalar(Rng& g)
{
  switch (g.below(9)) {
  case 0: return RV(NIL);
  case 1: return mk_int(gen_int(g));
  case 2: return mk_i64(gen_i64(g));
  case 3: return mk_bool(g.chance(1, 2));
  case 4: return mk_dbl(gen_double(g));
  case 5: return mk_bin(gen_bytes(g));
  case 6: return mk_date(gen_date(g));
  default: return mk_str(gen_text(g));
  }
}

inline RV gen_value(Rng& g, int budget, int depth = 0)
{
  if (budget <= 1 || depth > 12 || g.chance(2, 5))
    return gen_scalar(g);
  bool arr = g.chance(1, 2);
  RV v(arr ? ARR : STRUCT);
  int n = (int)g.below(g.chance(1, 4) ? 9 : 4);
  for (int i = 0; i < n; ++i) {
    RV c = gen_value(g, budget / (n ? n : 1), depth + 1);
    if (arr) v.a.push_back(c);
    else v.m[g.chance(1, 6) ? "" : gen_text(g, 12)] = c;
  }
  return v;
}

//! Shapes a plain recursive generator rarely makes.
inline RV gen_special(Rng& g)
{
  switch (g.below(5)) {
  case 0: {                                   // deep
    RV v = gen_scalar(g);
    int n = (int)g.range(10, g.chance(1, 4) ? 300 : 120);
    for (int i = 0; i < n; ++i) {
      RV o(g.chance(1, 2) ? ARR : STRUCT);
      if (o.k == ARR) {
        if (g.chance(1, 4)) o.a.push_back(gen_scalar(g));
        o.a.push_back(v);
        if (g.chance(1, 4)) o.a.push_back(gen_scalar(g));
      } else {
        if (g.chance(1, 4)) o.m["a"] = gen_scalar(g);
        o.m["b"] = v;
        if (g.chance(1, 4)) o.m["c"] = gen_scalar(g);
      }
      v = o;
    }
    return v;
  }
  case 1: {                                   // wide
    RV v(g.chance(1, 2) ? ARR : STRUCT);
    int n = (int)(g.chance(1, 2) ? gen_edge(g, 2048) : g.range(50, 600));
    if (g.chance(1, 6)) {
      n = (int)gen_edge(g, 70000);
      for (int i = 0; i < n; ++i)
        if (v.k == ARR) v.a.push_back(mk_int(i)); else v.m[vh::fmt("k%d", i)] = mk_int(i);
      return v;
    }
    for (int i = 0; i < n; ++i)
      if (v.k == ARR) v.a.push_back(gen_scalar(g)); else v.m[vh::fmt("k%d", i)] = gen_scalar(g);
    return v;
  }
  case 2: {
    size_t n = g.chance(1, 2) ? gen_edge(g, 1100000) : g.below(200000);
    if (g.chance(1, 4)) return mk_bin(gen_bytes(g, 2) + std::string(n, (char)g.below(256)));
    return mk_str(std::string(n, (char)g.range(32, 126)));
  }
  case 3: {                                   // one kind next to every other kind
    RV v(ARR);
    for (int i = 0; i < 6; ++i) v.a.push_back(g.chance(1, 2) ? RV(NIL) : gen_value(g, 4));
    return v;
  }
  default: {                                  // empties everywhere
    RV v(STRUCT);
    v.m[""] = RV(g.chance(1, 2) ? ARR : STRUCT);
    v.m["e"] = mk_str("");
    v.m["b"] = mk_bin("");
    v.m[" "] = g.chance(1, 2) ? RV(NIL) : mk_str(" ");
    RV o(ARR);
    o.a.push_back(v);
    o.a.push_back(RV(ARR));
    o.a.push_back(RV(STRUCT));
    return o;
  }
  }
}

inline RV gen_any(Rng& g) { return g.chance(1, 12) ? gen_special(g) : gen_value(g, (int)g.range(1, 40)); }

// ---------------------------------------------------------------- library bridge
inline struct tm tm_of(const std::string& s)
{
  struct tm t;
  memset(&t, 0, sizeof t);
  t.tm_year = atoi(s.substr(0, 4).c_str()) - 1900;
  t.tm_mon = atoi(s.substr(4, 2).c_str()) - 1;
  t.tm_mday = atoi(s.substr(6, 2).c_str());
  t.tm_hour = atoi(s.substr(9, 2).c_str());
  t.tm_min = atoi(s.substr(12, 2).c_str());
  t.tm_sec = atoi(s.substr(15, 2).c_str());
  return t;
}

inline iqxmlrpc::Value to_lib(const RV& v)
{
  using namespace iqxmlrpc;
  switch (v.k) {
  case NIL: return Value(Nil());
  case INT: return Value((int)v.i);
  case I64: return Value((int64_t)v.i);
  case BOOL: return Value((bool)v.i);
  case DBL: return Value(v.d);
  case STR: return Value(v.s);
  case BIN: { std::unique_ptr<Binary_data> b(Binary_data::from_data(v.s)); return Value(*b); }
  case DATE: { struct tm t = tm_of(v.s); return Value(Date_time(&t)); }
  case ARR: {
    std::unique_ptr<Array> a(new Array);
    for (size_t i = 0; i < v.a.size(); ++i) { Value_ptr p(new Value(to_lib(v.a[i]))); a->push_back(p); }
    return Value(a.release());
  }
  default: {
    std::unique_ptr<Struct> s(new Struct);
    for (std::map<std::string, RV>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) {
      Value_ptr p(new Value(to_lib(i->second)));
      s->insert(i->first, p);
    }
    return Value(s.release());
  }
  }
}

struct Bad_view: std::runtime_error { Bad_view(const std::string& s): std::runtime_error(s) {} };

inline RV from_lib(const iqxmlrpc::Value& v)
{
  using namespace iqxmlrpc;
  int n = v.is_nil() + v.is_int() + v.is_int64() + v.is_bool() + v.is_double() + v.is_string()
    + v.is_binary() + v.is_datetime() + v.is_array() + v.is_struct();
  if (n != 1) throw Bad_view(vh::fmt("value claims %d types", n));
  RV r;
  if (v.is_nil()) r.k = NIL;
  else if (v.is_int()) { r.k = INT; r.i = v.get_int(); }
  else if (v.is_int64()) { r.k = I64; r.i = v.get_int64(); }
  else if (v.is_bool()) { r.k = BOOL; r.i = v.get_bool(); }
  else if (v.is_double()) { r.k = DBL; r.d = v.get_double(); }
  else if (v.is_string()) { r.k = STR; r.s = v.get_string(); }
  else if (v.is_binary()) { r.k = BIN; r.s = v.get_binary().get_data(); }
  else if (v.is_datetime()) {
    r.k = DATE;
    Date_time d = v.get_datetime();
    r.s = d.to_string();
    const struct tm& t = d.get_tm();
    std::string f = vh::fmt("%04d%02d%02dT%02d:%02d:%02d", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec);
    if (f != r.s) throw Bad_view("date fields " + f + " but text " + r.s);
  }
  else if (v.is_array()) {
    r.k = ARR;
    const Array& a = v.the_array();
    for (Array::const_iterator i = a.begin(); i != a.end(); ++i) r.a.push_back(from_lib(*i));
    if (r.a.size() != v.size()) throw Bad_view("array size differs from iteration");
  } else {
    r.k = STRUCT;
    const Struct& s = v.the_struct();
    for (Struct::const_iterator i = s.begin(); i != s.end(); ++i) r.m[i->first] = from_lib(*i->second);
    if (r.m.size() != s.size()) throw Bad_view("struct size differs from iteration");
  }
  if (v.type_name() != kind_name(r.k)) throw Bad_view("type name " + v.type_name() + " for " + kind_name(r.k));
  return r;
}

// ---------------------------------------------------------------- codecs
inline std::string b64(const std::string& d)
{
  static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r;
  for (size_t i = 0; i < d.size(); i += 3) {
    uint32_t v = (uint32_t)(unsigned char)d[i] << 16;
    size_t n = d.size() - i;
    if (n > 1) v |= (uint32_t)(unsigned char)d[i + 1] << 8;
    if (n > 2) v |= (unsigned char)d[i + 2];
    r += al[v >> 18];
    r += al[(v >> 12) & 63];
    r += n > 1 ? al[(v >> 6) & 63] : '=';
    r += n > 2 ? al[v & 63] : '=';
  }
  return r;
}

//! Strict reference decoder (white space allowed anywhere); false when malformed.
inline bool unb64(const std::string& t, std::string& out)
{
  out.clear();
  std::string s;
  for (size_t i = 0; i < t.size(); ++i) {
    char c = t[i];
    if (c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == '\v' || c == '\f') continue;
    s += c;
  }
  if (s.size() % 4) return false;
  for (size_t i = 0; i < s.size(); i += 4) {
    int v[4], pad = 0;
    for (int j = 0; j < 4; ++j) {
      char c = s[i + j];
      if (c == '=') { v[j] = 0; ++pad; if (j < 2 || i + 4 != s.size()) return false; continue; }
      if (pad) return false;
      if (c >= 'A' && c <= 'Z') v[j] = c - 'A';
      else if (c >= 'a' && c <= 'z') v[j] = 26 + c - 'a';
      else if (c >= '0' && c <= '9') v[j] = 52 + c - '0';
      else if (c == '+') v[j] = 62;
      else if (c == '/') v[j] = 63;
      else return false;
    }
    uint32_t w = v[0] << 18 | v[1] << 12 | v[2] << 6 | v[3];
    out += (char)(w >> 16);
    if (pad < 2) out += (char)(w >> 8 & 255);
    if (pad < 1) out += (char)(w & 255);
  }
  return true;
}

inline bool ref_date(const std::string& s)
{
  if (s.size() != 17) return false;
  for (int i = 0; i < 17; ++i) {
    char c = s[i];
    if (i == 8 ? c != 'T' : (i == 11 || i == 14) ? c != ':' : (c < '0' || c > '9')) return false;
  }
  struct tm t = tm_of(s);
  return t.tm_year >= 0 && t.tm_mon >= 0 && t.tm_mon < 12 && t.tm_mday >= 1 && t.tm_mday <= 31 && t.tm_hour <= 23 && t.tm_min <= 59 && t.tm_sec <= 61;
}

// ---------------------------------------------------------------- writer
//! How a document is spelled; every choice keeps its meaning.
struct Spell {
  Rng* g;                 // 0: the plainest spelling
  bool comments, cdata, prefix, charref, blanks, synonyms, bare;
  std::string pfx;
  Spell(): g(0), comments(false), cdata(false), prefix(false), charref(false), blanks(false), synonyms(false), bare(false) {}
  bool on(bool f, unsigned num = 1, unsigned den = 2) const { return g && f && g->chance(num, den); }
};

inline std::string ws(const Spell& sp)
{
  std::string r;
  if (sp.on(sp.blanks)) { size_t n = sp.g->below(4); for (size_t i = 0; i < n; ++i) r += " \n\t\r"[sp.g->below(4)]; }
  if (sp.on(sp.comments, 1, 6)) r += "<!-- c" + std::string(sp.g->below(5), 'x') + " <int>7</int> -->";
  if (sp.on(sp.comments, 1, 12)) r += "<?pi some data?>";
  if (sp.on(sp.blanks, 1, 4)) r += "\n";
  return r;
}

inline std::string text(const std::string& s, const Spell& sp)
{
  std::string r;
  if (sp.on(sp.cdata, 1, 3) && s.find("]]>") == std::string::npos && s.find('\r') == std::string::npos && !s.empty())
    return "<![CDATA[" + s + "]]>";
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
    if (i && sp.on(sp.comments, 1, 25)) r += sp.g->chance(1, 2) ? "<!--in text-->" : "<?in text?>";
    if (i && sp.on(sp.cdata, 1, 40) && c < 0x80 && c != '\r' && c != ']' && c != '>') { r += std::string("<![CDATA[") + (char)c + "]]>"; ++i; continue; }
    if (c == '<') r += "&lt;";
    else if (c == '&') r += "&amp;";
    else if (c == '>') r += "&gt;";
    else if (c == '\r') r += "&#13;";
    else if (c == '"' && sp.on(sp.charref)) r += "&quot;";
    else if (c == '\'' && sp.on(sp.charref)) r += "&apos;";
    else if (sp.on(sp.charref, 1, 6)) {
      uint32_t u = c;
      if (n == 2) u = (c & 31) << 6 | (s[i + 1] & 63);
      else if (n == 3) u = (c & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63);
      else if (n == 4) u = (c & 7) << 18 | (s[i + 1] & 63) << 12 | (s[i + 2] & 63) << 6 | (s[i + 3] & 63);
      r += sp.g->chance(1, 2) ? vh::fmt("&#%u;", u) : vh::fmt("&#x%x;", u);
    }
    else r += s.substr(i, n);
    i += n;
  }
  return r;
}

inline std::string open(const std::string& t, const Spell& sp)
{
  std::string r = "<" + sp.pfx + t;
  if (sp.on(sp.blanks, 1, 8)) r += sp.g->chance(1, 2) ? " " : "\n ";
  return r + ">";
}
inline std::string close(const std::string& t, const Spell& sp)
{
  return "</" + sp.pfx + t + (sp.on(sp.blanks, 1, 10) ? " >" : ">");
}
inline std::string elem(const std::string& t, const std::string& body, const Spell& sp)
{
  if (body.empty() && sp.on(true))
    return "<" + sp.pfx + t + (sp.g->chance(1, 2) ? "/>" : " />");
  return open(t, sp) + body + close(t, sp);
}

inline bool blank(const std::string& s) { return s.find_first_not_of(" \t\r\n") == std::string::npos; }

inline std::string write_value(const RV& v, const Spell& sp);

inline std::string write_inner(const RV& v, const Spell& sp)
{
  switch (v.k) {
  case NIL: return elem("nil", "", sp);
  case INT: return elem(sp.on(sp.synonyms) ? "int" : "i4", (sp.on(sp.synonyms, 1, 4) && v.i > 0 ? "+" : "") + vh::fmt("%lld", (long long)v.i), sp);
  case I64: return elem("i8", vh::fmt("%lld", (long long)v.i), sp);
  case BOOL: return elem("boolean", v.i ? "1" : "0", sp);
  case DBL: {
    std::string t = vh::fmt("%.17g", v.d);
    if (sp.on(sp.synonyms) && fabs(v.d) < 1e15 && fabs(v.d) > 1e-5) {
      std::string f = vh::fmt("%.17f", v.d);
      if (bits(strtod(f.c_str(), 0)) == bits(v.d)) t = f;
    }
    return elem("double", t, sp);
  }
  case STR: return elem("string", text(v.s, sp), sp);
  case BIN: {
    std::string t = b64(v.s);
    if (sp.on(sp.blanks) && !t.empty()) {
      std::string u;
      size_t line = (size_t)sp.g->range(1, 76);
      for (size_t i = 0; i < t.size(); ++i) { if (i && i % line == 0) u += "\n"; u += t[i]; }
      t = u;
      if (sp.g->chance(1, 2)) t = "\n  " + t + "\n";
    }
    return elem("base64", t, sp);
  }
  case DATE: return elem("dateTime.iso8601", v.s, sp);
  case ARR: {
    std::string b;
    for (size_t i = 0; i < v.a.size(); ++i) b += ws(sp) + write_value(v.a[i], sp);
    b += v.a.empty() ? "" : ws(sp);
    return open("array", sp) + ws(sp) + elem("data", b, sp) + ws(sp) + close("array", sp);
  }
  default: {
    std::string b;
    for (std::map<std::string, RV>::const_iterator i = v.m.begin(); i != v.m.end(); ++i)
      b += ws(sp) + open("member", sp) + ws(sp) + elem("name", text(i->first, sp), sp) + ws(sp)
        + write_value(i->second, sp) + ws(sp) + close("member", sp);
    b += v.m.empty() ? "" : ws(sp);
    return elem("struct", b, sp);
  }
  }
}

inline std::string write_value(const RV& v, const Spell& sp)
{
  // The untagged form cannot carry blank strings when layout blanks are allowed around tags.
  if (v.k == STR && sp.on(sp.bare) && (v.s.empty() || !blank(v.s)))
    return elem("value", text(v.s, sp), sp);
  return open("value", sp) + ws(sp) + write_inner(v, sp) + ws(sp) + close("value", sp);
}

inline std::string prolog(const Spell& sp)
{
  if (!sp.g || sp.g->chance(1, 2)) return "<?xml version=\"1.0\"?>" + ws(sp);
  if (sp.g->chance(1, 3)) return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" + ws(sp);
  if (sp.g->chance(1, 2)) return "<?xml version='1.0' encoding='utf-8' standalone='yes'?>" + ws(sp);
  return "";
}

inline std::string root(const std::string& t, const std::string& body, const Spell& sp)
{
  std::string o = "<" + sp.pfx + t;
  if (!sp.pfx.empty()) o += " xmlns:" + sp.pfx.substr(0, sp.pfx.size() - 1) + "=\"http://example.com/ns\"";
  return o + ">" + body + close(t, sp);
}

inline std::string write_request(const std::string& name, const std::vector<RV>& p, const Spell& sp)
{
  std::string b = ws(sp) + elem("methodName", text(name, sp), sp) + ws(sp);
  if (!p.empty() || !sp.on(true, 1, 3)) {
    std::string ps;
    for (size_t i = 0; i < p.size(); ++i)
      ps += ws(sp) + open("param", sp) + ws(sp) + write_value(p[i], sp) + ws(sp) + close("param", sp);
    b += elem("params", ps, sp) + ws(sp);
  }
  return prolog(sp) + root("methodCall", b, sp) + (sp.on(sp.blanks) ? "\n" : "");
}

inline std::string write_response(const RV& v, const Spell& sp)
{
  return prolog(sp) + root("methodResponse", ws(sp) + open("params", sp) + ws(sp) + open("param", sp) + ws(sp)
    + write_value(v, sp) + ws(sp) + close("param", sp) + ws(sp) + close("params", sp) + ws(sp), sp);
}

inline std::string write_fault(int code, const std::string& s, const Spell& sp)
{
  RV f(STRUCT);
  f.m["faultCode"] = mk_int(code);
  f.m["faultString"] = mk_str(s);
  return prolog(sp) + root("methodResponse", ws(sp) + open("fault", sp) + ws(sp) + write_value(f, sp) + ws(sp) + close("fault", sp) + ws(sp), sp);
}

inline Spell gen_spell(Rng& g)
{
  Spell sp;
  sp.g = &g;
  sp.comments = g.chance(1, 3);
  sp.cdata = g.chance(1, 4);
  sp.charref = g.chance(1, 3);
  sp.blanks = g.chance(1, 2);
  sp.synonyms = g.chance(1, 2);
  sp.bare = g.chance(1, 2);
  if (g.chance(1, 5)) sp.pfx = g.chance(1, 2) ? "x:" : "rpc-2:";
  return sp;
}

// ---------------------------------------------------------------- reader on the DOM
struct Ref_error: std::runtime_error {
  bool undecided;
  Ref_error(const std::string& s, bool u = false): std::runtime_error(s), undecided(u) {}
};
//! Documents the library may take either way: stray text between elements, <boolean>7</boolean>.
inline Ref_error Undecided(const std::string& s) { return Ref_error(s, true); }

struct Doc {
  xmlDocPtr d;
  explicit Doc(const std::string& s)
  {
    d = xmlReadMemory(s.data(), (int)s.size(), 0, 0, XML_PARSE_NONET | XML_PARSE_HUGE | XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
    if (!d) throw Ref_error("not well-formed");
  }
  ~Doc() { xmlFreeDoc(d); }
};

inline std::string name_of(xmlNodePtr n) { return (const char*)n->name; }

inline std::vector<xmlNodePtr> kids(xmlNodePtr n)
{
  std::vector<xmlNodePtr> r;
  for (xmlNodePtr c = n->children; c; c = c->next) {
    if (c->type == XML_ELEMENT_NODE) r.push_back(c);
    else if ((c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE) && !blank((const char*)c->content))
      throw Undecided("text in " + name_of(n));
  }
  return r;
}

inline std::string text_of(xmlNodePtr n)
{
  std::string r;
  for (xmlNodePtr c = n->children; c; c = c->next) {
    if (c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE) r += (const char*)c->content;
    else if (c->type == XML_ELEMENT_NODE) throw Ref_error("element in text of " + name_of(n));
  }
  return r;
}

inline xmlNodePtr only(xmlNodePtr n, const char* name)
{
  std::vector<xmlNodePtr> k = kids(n);
  if (k.size() != 1 || name_of(k[0]) != name) throw Ref_error(std::string("expected one ") + name + " in " + name_of(n));
  return k[0];
}

inline RV read_value(xmlNodePtr n)
{
  xmlNodePtr e = 0;
  for (xmlNodePtr c = n->children; c; c = c->next)
    if (c->type == XML_ELEMENT_NODE) { if (e) throw Ref_error("two elements in value"); e = c; }
  if (!e) {
    std::string t = text_of(n);
    if (!t.empty() && blank(t)) throw Undecided("blank untagged string");
    return mk_str(t);
  }
  kids(n);
  std::string t = name_of(e);
  if (t == "nil") { if (!kids(e).empty()) throw Ref_error("nil content"); return RV(NIL); }
  if (t == "i4" || t == "int" || t == "i8") {
    std::string s = text_of(e);
    char* end;
    errno = 0;
    long long v = strtoll(s.c_str(), &end, 10);
    if (s.empty() || *end || errno || s[0] == ' ') throw Ref_error("bad int " + s);
    if (t == "i8") return mk_i64(v);
    if (v != (int)v) throw Ref_error("int range");
    return mk_int((int)v);
  }
  if (t == "boolean") {
    std::string s = text_of(e);
    if (s != "0" && s != "1") throw s.find_first_not_of("-+0123456789") == std::string::npos ? Undecided("boolean number") : Ref_error("bad boolean");
    return mk_bool(s == "1");
  }
  if (t == "double") {
    std::string s = text_of(e);
    char* end;
    errno = 0;
    double d = strtod(s.c_str(), &end);
    if (s.empty() || *end || s.find_first_not_of("+-0123456789.eE") != std::string::npos) throw Ref_error("bad double " + s);
    if (errno == ERANGE && (d == 0 || d - d != 0)) throw Undecided("double out of range");
    return mk_dbl(d);
  }
  if (t == "string") return mk_str(text_of(e));
  if (t == "base64") { std::string o; if (!unb64(text_of(e), o)) throw Ref_error("bad base64"); return mk_bin(o); }
  if (t == "dateTime.iso8601") { std::string d = text_of(e); if (!ref_date(d)) throw Ref_error("bad date"); return mk_date(d); }
  if (t == "array") {
    RV v(ARR);
    if (kids(e).empty()) return v;            // <array/> is read as an empty array
    std::vector<xmlNodePtr> k = kids(only(e, "data"));
    for (size_t i = 0; i < k.size(); ++i) {
      if (name_of(k[i]) != "value") throw Ref_error("array child");
      v.a.push_back(read_value(k[i]));
    }
    return v;
  }
  if (t == "struct") {
    RV v(STRUCT);
    std::vector<xmlNodePtr> k = kids(e);
    for (size_t i = 0; i < k.size(); ++i) {
      if (name_of(k[i]) != "member") throw Ref_error("struct child");
      std::vector<xmlNodePtr> mk = kids(k[i]);
      if (mk.size() != 2 || name_of(mk[0]) != "name" || name_of(mk[1]) != "value") throw Ref_error("member");
      v.m[text_of(mk[0])] = read_value(mk[1]);
    }
    return v;
  }
  throw Ref_error("type " + t);
}

struct Ref_request { std::string name; std::vector<RV> params; };

inline Ref_request read_request(const std::string& s)
{
  Doc d(s);
  xmlNodePtr r = xmlDocGetRootElement(d.d);
  if (!r || name_of(r) != "methodCall") throw Ref_error("root");
  std::vector<xmlNodePtr> k = kids(r);
  if (k.empty() || k.size() > 2 || name_of(k[0]) != "methodName") throw Ref_error("methodName");
  Ref_request q;
  q.name = text_of(k[0]);
  if (k.size() == 2) {
    if (name_of(k[1]) != "params") throw Ref_error("params");
    std::vector<xmlNodePtr> p = kids(k[1]);
    for (size_t i = 0; i < p.size(); ++i) {
      if (name_of(p[i]) != "param") throw Ref_error("param");
      q.params.push_back(read_value(only(p[i], "value")));
    }
  }
  return q;
}

struct Ref_response { bool fault; int code; std::string text; RV v; };

inline Ref_response read_response(const std::string& s)
{
  Doc d(s);
  xmlNodePtr r = xmlDocGetRootElement(d.d);
  if (!r || name_of(r) != "methodResponse") throw Ref_error("root");
  std::vector<xmlNodePtr> k = kids(r);
  if (k.size() != 1) throw Ref_error("methodResponse content");
  Ref_response q;
  q.fault = false;
  q.code = 0;
  if (name_of(k[0]) == "params") {
    q.v = read_value(only(only(k[0], "param"), "value"));
    return q;
  }
  if (name_of(k[0]) != "fault") throw Ref_error("methodResponse content");
  RV v = read_value(only(k[0], "value"));
  if (v.k != STRUCT || v.m.size() != 2 || !v.m.count("faultCode") || !v.m.count("faultString")
      || v.m["faultCode"].k != INT || v.m["faultString"].k != STR) throw Ref_error("fault");
  q.fault = true;
  q.code = (int)v.m["faultCode"].i;
  q.text = v.m["faultString"].s;
  return q;
}

// One structural corruption of a correct document, made on the DOM.
inline std::string corrupt(const std::string& xml, Rng& g, std::string& op)
{
  Doc d(xml);
  std::vector<xmlNodePtr> el;
  std::vector<xmlNodePtr> st(1, xmlDocGetRootElement(d.d));
  while (!st.empty()) {
    xmlNodePtr n = st.back(); st.pop_back();
    el.push_back(n);
    for (xmlNodePtr c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) st.push_back(c);
  }
  xmlNodePtr n = el[g.below(el.size())];
  static const char* names[] = {"value", "name", "member", "struct", "array", "data", "int", "string", "param", "params", "methodName",
    "methodCall", "bogus", "i4", "nil", "double", "fault", "boolean", "Value", "i2", "base64"};
  switch (g.below(13)) {
  case 10: {
    op = "lift " + name_of(n);
    if (n == el[0] || n->parent == el[0]) { op = "none"; break; }
    xmlNodePtr p = n->parent;
    op += " out of " + name_of(p);
    xmlUnlinkNode(n);
    if (g.chance(1, 2)) xmlAddNextSibling(p, n); else xmlAddPrevSibling(p, n);
    break;
  }
  case 11: {
    op = "sink " + name_of(n);
    xmlNodePtr to = g.chance(1, 2) ? xmlPreviousElementSibling(n) : xmlNextElementSibling(n);
    if (!to) { op = "none"; break; }
    op += " into " + name_of(to);
    xmlUnlinkNode(n);
    if (g.chance(1, 2) && to->children) xmlAddPrevSibling(to->children, n); else xmlAddChild(to, n);
    break;
  }
  case 12: {
    xmlNodePtr c = el[g.below(el.size())];
    op = "copy " + name_of(c) + " into " + name_of(n);
    c = xmlCopyNode(c, 1);
    if (g.chance(1, 2) && n->children) xmlAddPrevSibling(n->children, c); else xmlAddChild(n, c);
    break;
  }
  case 0: {
    op = "rename";
    std::string to = names[g.below(sizeof names / sizeof *names)];
    op += " " + name_of(n) + "->" + to;
    xmlNodeSetName(n, (const xmlChar*)to.c_str());
    break;
  }
  case 1:
    op = "remove " + name_of(n);
    if (n == el[0]) { op = "none"; break; }
    xmlUnlinkNode(n); xmlFreeNode(n);
    break;
  case 2: {
    op = "duplicate " + name_of(n);
    if (n == el[0]) { op = "none"; break; }
    xmlNodePtr c = xmlCopyNode(n, 1);
    xmlAddNextSibling(n, c);
    break;
  }
  case 3: {
    std::string to = names[g.below(sizeof names / sizeof *names)];
    op = "wrap " + name_of(n) + " in " + to;
    if (n == el[0]) { op = "none"; break; }
    xmlNodePtr w = xmlNewNode(0, (const xmlChar*)to.c_str());
    xmlReplaceNode(n, w);
    xmlAddChild(w, n);
    break;
  }
  case 4: {
    op = "unwrap " + name_of(n);
    if (n == el[0]) { op = "none"; break; }
    std::vector<xmlNodePtr> cs;
    for (xmlNodePtr c = n->children; c; c = c->next) cs.push_back(c);
    for (size_t i = 0; i < cs.size(); ++i) { xmlUnlinkNode(cs[i]); xmlAddPrevSibling(n, cs[i]); }
    xmlUnlinkNode(n); xmlFreeNode(n);
    break;
  }
  case 5: {
    op = "swap children of " + name_of(n);
    std::vector<xmlNodePtr> k;
    for (xmlNodePtr c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) k.push_back(c);
    if (k.size() < 2) { op = "none"; break; }
    xmlUnlinkNode(k[0]);
    xmlAddNextSibling(k[1], k[0]);
    break;
  }
  case 6: {
    std::string to = names[g.below(sizeof names / sizeof *names)];
    op = "insert " + to + " into " + name_of(n);
    xmlNodePtr w = xmlNewNode(0, (const xmlChar*)to.c_str());
    if (g.chance(1, 2)) xmlAddChild(w, xmlNewText((const xmlChar*)"1"));
    if (g.chance(1, 2) && n->children) xmlAddPrevSibling(n->children, w); else xmlAddChild(n, w);
    break;
  }
  case 7: {
    op = "empty " + name_of(n);
    while (n->children) { xmlNodePtr c = n->children; xmlUnlinkNode(c); xmlFreeNode(c); }
    break;
  }
  default: {
    // malformed scalar text
    std::vector<xmlNodePtr> s;
    for (size_t i = 0; i < el.size(); ++i) {
      std::string t = name_of(el[i]);
      if (t == "i4" || t == "int" || t == "i8" || t == "boolean" || t == "double" || t == "base64" || t == "dateTime.iso8601") s.push_back(el[i]);
    }
    if (s.empty()) { op = "none"; break; }
    n = s[g.below(s.size())];
    static const char* bad[] = {"", "x", "1x", "- 1", "1 2", "99999999999999999999999", "2147483648", "-2147483649", "0x10", "1.5", "1e", "--1", "1,5", "true",
      "20200101", "20201301T00:00:00", "20200101T24:00:00", "2020-01-01T00:00:00", "20200101t00:00:00", "AAA", "A===", "====", "A-AA", "AA=A", "=AAA", "AAAA=", "AAAAA", "AA==AAAA",
      "1 ", " 1", "20200132T00:00:00", "20200101T00:60:00", "20200101T0a:00:00", "20200101T00:00:0x", "20200101T00000:00", "9223372036854775808"};
    std::string to = bad[g.below(sizeof bad / sizeof *bad)];
    op = "text of " + name_of(n) + " := '" + to + "'";
    while (n->children) { xmlNodePtr c = n->children; xmlUnlinkNode(c); xmlFreeNode(c); }
    if (!to.empty()) xmlAddChild(n, xmlNewText((const xmlChar*)to.c_str()));
  }
  }
  xmlChar* out = 0;
  int len = 0;
  xmlDocDumpMemory(d.d, &out, &len);
  std::string r((const char*)out, len);
  xmlFree(out);
  return r;
}

} // namespace model

#endif
