// C01, C02, C05, C06: serialized documents against the reference model.
#include <iostream>
#include <sstream>
#include <unistd.h>
#include "model.h"

using namespace model;
using namespace iqxmlrpc;

static std::string what(const std::exception& e) { return std::string(typeid(e).name()) + ": " + e.what(); }

static void note(const std::string& prop, const RV& v)
{
  static const char* n[] = {"nil", "int", "i8", "bool", "double", "string", "binary", "date", "array", "struct"};
  std::vector<const RV*> q(1, &v);
  long c[NKINDS] = {0};
  while (!q.empty()) {
    const RV* x = q.back(); q.pop_back();
    c[x->k]++;
    for (size_t i = 0; i < x->a.size(); ++i) q.push_back(&x->a[i]);
    for (std::map<std::string, RV>::const_iterator i = x->m.begin(); i != x->m.end(); ++i) q.push_back(&i->second);
  }
  for (int i = 0; i < NKINDS; ++i) if (c[i]) vh::count(std::string("nodes of type ") + n[i], c[i]);
}

// ------------------------------------------------------------------ C01
static void c01(long i, Rng& g)
{
  std::string name = g.chance(1, 8) ? gen_text(g, 30) : g.chance(1, 2) ? "some.method" : "m" + gen_text(g, 10);
  if (g.chance(1, 40)) name = std::string(gen_edge(g, 70000), 'n') + gen_text(g, 4);
  std::vector<RV> params;
  size_t n = g.below(g.chance(1, 10) ? 20 : 5);
  std::string sig;
  if (g.chance(1, 60)) {
    n = gen_edge(g, 2048);
    for (size_t k = 0; k < n; ++k) params.push_back(gen_scalar(g));
    sig = vh::fmt("%zu scalars", n);
  }
  else for (size_t k = 0; k < n; ++k) { params.push_back(gen_any(g)); sig += shape(params.back()) + "|"; }
  RV all(ARR);
  all.a = params;
  note("C01", all);
  vh::mark("request " + name + " " + show(all, 2000));
  Param_list pl;
  for (size_t k = 0; k < n; ++k) pl.push_back(to_lib(params[k]));
  std::string xml;
  try {
    xml = dump_request(Request(name, pl));
    Ref_request r = read_request(xml);
    vh::count("documents read by the independent parser");
    RV got(ARR);
    got.a = r.params;
    std::string d = diff(all, got);
    if (r.name != name) vh::fail("dump-name", "method name '" + vh::esc(name) + "' written as '" + vh::esc(r.name) + "'");
    else if (!d.empty()) vh::fail("dump-value", d + " in text " + vh::esc(xml));
  } catch (const Ref_error& e) {
    vh::fail("dump-malformed", std::string(e.what()) + " in " + vh::esc(xml, 1500));
    return;
  } catch (const std::exception& e) {
    vh::fail("dump-throws", what(e));
    return;
  }
  try {
    std::unique_ptr<Request> q(parse_request(xml));
    RV got(ARR);
    for (size_t k = 0; k < q->get_params().size(); ++k) got.a.push_back(from_lib(q->get_params()[k]));
    std::string d = diff(all, got);
    if (q->get_name() != name)
      vh::fail("name", "method name '" + vh::esc(name) + "' came back as '" + vh::esc(q->get_name()) + "'");
    if (!d.empty()) vh::fail("value", d + " after round trip of " + vh::esc(xml, 1500));
    vh::count("values compared", nodes(got));
  } catch (const std::exception& e) {
    vh::fail("parse-throws", what(e) + " on " + vh::esc(xml, 1500));
  }
  if (nodes(all) > 1) vh::distinct(sig);
  if (i % 97 == 0) vh::sample("request '" + name + "' " + show(all, 300));
}

// ------------------------------------------------------------------ C02
static void c02(long i, Rng& g)
{
  bool omit = g.chance(1, 2);
  Value::omit_string_tag_in_responses(omit);
  bool fault = g.chance(1, 3);
  int code = fault ? gen_int(g) : 0;
  std::string text;
  RV v;
  if (fault && g.chance(1, 30)) text = std::string(gen_edge(g, 1100000), 't') + gen_text(g, 4);
  else if (fault) text = gen_text(g, 60); else v = gen_any(g);
  vh::mark(std::string(omit ? "omit " : "keep ") + (fault ? vh::fmt("fault %d ", code) + vh::esc(text) : show(v, 2000)));
  std::string xml;
  try {
    xml = fault ? dump_response(Response(code, text)) : dump_response(Response(new Value(to_lib(v))));
    Ref_response r = read_response(xml);
    vh::count("documents read by the independent parser");
    if (r.fault != fault) vh::fail("dump-kind", "fault and value exchanged in " + vh::esc(xml));
    else if (fault && (r.code != code || r.text != text)) vh::fail("dump-fault", vh::fmt("fault %d ", code) + vh::esc(text) + " written as " + vh::esc(xml));
    else if (!fault) { std::string d = diff(v, r.v); if (!d.empty()) vh::fail("dump-value", d + " in " + vh::esc(xml)); }
  } catch (const Ref_error& e) {
    vh::fail("dump-malformed", std::string(e.what()) + " in " + vh::esc(xml, 1500));
    return;
  } catch (const std::exception& e) {
    vh::fail("dump-throws", what(e));
    return;
  }
  try {
    Response r = parse_response(xml);
    if (r.is_fault() != fault) vh::fail("kind", "fault and value exchanged after " + vh::esc(xml));
    else if (fault) {
      if (r.fault_code() != code || r.fault_string() != text)
        vh::fail("fault", vh::fmt("fault %d '%s' came back as %d '%s'", code, vh::esc(text, 300).c_str(), r.fault_code(), vh::esc(r.fault_string(), 300).c_str()));
      bool thrown = false;
      try { r.value(); } catch (const Exception& e) { thrown = true; if (e.code() != code || e.what() != text) vh::fail("fault-exc", "exception of a fault differs"); }
      if (!thrown) vh::fail("fault-value", "a fault has a value");
      vh::count("faults compared");
    } else {
      RV got = from_lib(r.value());
      std::string d = diff(v, got);
      if (!d.empty()) vh::fail("value", std::string(omit ? "(string tags omitted) " : "") + d + " after " + vh::esc(xml, 1500));
      vh::count("values compared", nodes(got));
      vh::count(omit ? "documents without string tags" : "documents with string tags");
    }
  } catch (const std::exception& e) {
    vh::fail("parse-throws", what(e) + " on " + vh::esc(xml, 1500));
  }
  if (fault) { if (!text.empty()) vh::distinct(vh::fmt("f%d ", code) + text.substr(0, 40)); }
  else if (nodes(v) > 1) vh::distinct((omit ? "o" : "k") + shape(v));
  note("C02", v);
  if (i % 97 == 0) vh::sample(fault ? vh::fmt("fault %d '%s'", code, vh::esc(text, 200).c_str()) : show(v, 300));
  Value::omit_string_tag_in_responses(false);
}

// ------------------------------------------------------------------ C05
struct Outcome { bool ok, fault, undecided; std::string name, err; RV v; int code; std::string text; };

static Outcome lib_parse(bool request, const std::string& xml)
{
  Outcome o;
  o.ok = o.fault = o.undecided = false;
  o.code = 0;
  o.v = RV(ARR);
  try {
    if (request) {
      std::unique_ptr<Request> q(parse_request(xml));
      o.name = q->get_name();
      for (size_t k = 0; k < q->get_params().size(); ++k) o.v.a.push_back(from_lib(q->get_params()[k]));
    } else {
      Response r = parse_response(xml);
      if (r.is_fault()) { o.fault = true; o.code = r.fault_code(); o.text = r.fault_string(); }
      else o.v.a.push_back(from_lib(r.value()));
    }
    o.ok = true;
  } catch (const Bad_view&) {
    throw;
  } catch (const std::exception& e) {
    o.err = what(e);
  }
  return o;
}

static Outcome ref_parse(bool request, const std::string& xml)
{
  Outcome o;
  o.ok = o.fault = o.undecided = false;
  o.code = 0;
  o.v = RV(ARR);
  try {
    if (request) {
      Ref_request q = read_request(xml);
      o.name = q.name;
      o.v.a = q.params;
    } else {
      Ref_response r = read_response(xml);
      if (r.fault) { o.fault = true; o.code = r.code; o.text = r.text; }
      else o.v.a.push_back(r.v);
    }
    o.ok = true;
  } catch (const Ref_error& e) {
    o.err = e.what();
    o.undecided = e.undecided;
  }
  return o;
}

static std::string same(const Outcome& x, const Outcome& y)
{
  if (x.name != y.name) return "method name '" + x.name + "' read as '" + y.name + "'";
  if (x.fault != y.fault) return "fault and value exchanged";
  if (x.fault && (x.code != y.code || x.text != y.text)) return vh::fmt("fault %d '%s' read as %d '%s'", x.code, x.text.c_str(), y.code, y.text.c_str());
  return diff(x.v, y.v);
}

static RV gen_small(Rng& g) { return gen_value(g, (int)g.range(1, 12)); }

static void c05_valid(long i, Rng& g)
{
  Spell sp = gen_spell(g);
  bool request = g.chance(1, 2);
  Outcome want;
  want.ok = true; want.fault = false; want.code = 0; want.v = RV(ARR);
  std::string xml;
  if (request) {
    want.name = g.chance(1, 4) ? gen_text(g, 10) : "a.b";
    if (want.name.empty()) want.name = "m";
    size_t n = g.below(4);
    for (size_t k = 0; k < n; ++k) want.v.a.push_back(g.chance(1, 20) ? gen_special(g) : gen_small(g));
    xml = write_request(want.name, want.v.a, sp);
  } else if (g.chance(1, 4)) {
    want.fault = true; want.code = gen_int(g); want.text = gen_text(g, 20);
    xml = write_fault(want.code, want.text, sp);
  } else {
    want.v.a.push_back(gen_small(g));
    xml = write_response(want.v.a[0], sp);
  }
  vh::mark(xml);
  Outcome ref = ref_parse(request, xml);
  if (!ref.ok) vh::broken("reference reader rejects the reference writer: " + ref.err + " " + xml);
  if (!same(want, ref).empty()) vh::broken("reference reader and writer disagree: " + same(want, ref) + " " + xml);
  Outcome got = lib_parse(request, xml);
  if (!got.ok) vh::fail("valid-rejected", got.err + " for " + vh::esc(xml, 2000));
  else { std::string d = same(want, got); if (!d.empty()) vh::fail("valid-misread", d + " in " + vh::esc(xml, 2000)); }
  vh::count("correct documents read", 1);
  vh::count("values compared", nodes(want.v));
  vh::distinct(vh::fmt("v%d%d%d%d%d%d%d%s", request, sp.comments, sp.cdata, sp.charref, sp.blanks, sp.bare, sp.synonyms, sp.pfx.c_str()) + shape(want.v));
  if (i % 193 == 0) vh::sample(xml.substr(0, 400));
}

static void c05_corrupt(long i, Rng& g)
{
  bool request = g.chance(1, 2);
  Spell plain;
  std::string xml, op;
  if (request) {
    std::vector<RV> p;
    size_t n = g.range(0, 3);
    for (size_t k = 0; k < n; ++k) p.push_back(gen_small(g));
    xml = write_request("some.method", p, plain);
  } else if (g.chance(1, 3)) xml = write_fault(gen_int(g), gen_text(g, 10), plain);
  else xml = write_response(gen_small(g), plain);
  std::string bad;
  if (g.chance(1, 8)) {
    size_t p = g.below(xml.size());
    bad = xml;
    if (g.chance(1, 2)) { op = "truncate"; bad.resize(p); }
    else { op = std::string("delete '") + bad[p] + "'"; bad.erase(p, 1); }
  } else
    bad = corrupt(xml, g, op);
  if (op == "none") return;
  vh::mark(bad);
  Outcome ref = ref_parse(request, bad);
  Outcome got = lib_parse(request, bad);
  if (ref.undecided) { vh::count("corrupted documents left undecided"); return; }
  vh::count(ref.ok ? "corrupted documents that stay correct" : "corrupted documents to reject");
  if (!ref.ok && !got.ok) vh::count("corrupted documents rejected");
  if (!ref.ok && got.ok) vh::fail("accepted:" + op.substr(0, op.find(" :=")), op + " (" + ref.err + ") accepted as " + (got.fault ? "fault" : got.name + show(got.v)) + ": " + vh::esc(bad, 2000));
  if (ref.ok && !got.ok) vh::fail("rejected", op + ": " + got.err + " for correct " + vh::esc(bad, 2000));
  if (ref.ok && got.ok) { std::string d = same(ref, got); if (!d.empty()) vh::fail("misread", op + ": " + d + " in " + vh::esc(bad, 2000)); }
  vh::distinct("c" + op + (ref.ok ? "+" : "-") + vh::fmt("%zu", xml.size() / 64));
  if (i % 193 == 1) vh::sample(op + " -> " + (ref.ok ? "correct: " : "rejected: ") + bad.substr(0, 300));
}

static std::string secret_path;

static void c05_entity(long, Rng& g)
{
  static const char secret[] = "SeCrEt-CoNtEnT-0123";
  std::string dtd, use;
  switch (g.below(4)) {
  case 0: dtd = "<!DOCTYPE r [<!ENTITY x SYSTEM \"file://" + secret_path + "\">]>"; use = "&x;"; break;
  case 1: dtd = "<!DOCTYPE r [<!ENTITY x SYSTEM \"" + secret_path + "\">]>"; use = "a&x;b"; break;
  case 2: dtd = "<!DOCTYPE r [<!ENTITY % p SYSTEM \"file://" + secret_path + "\"> %p; <!ENTITY x \"q\">]>"; use = "&x;"; break;
  default: dtd = "<!DOCTYPE r SYSTEM \"file://" + secret_path + ".dtd\">"; use = "&fromdtd;";
  }
  std::string t = g.chance(1, 2) ? "<string>" + use + "</string>" : use;
  bool request = g.chance(1, 2);
  std::string xml = request
    ? "<?xml version=\"1.0\"?>" + dtd + "<methodCall><methodName>" + (g.chance(1, 3) ? use : "m") + "</methodName><params><param><value>" + t + "</value></param></params></methodCall>"
    : "<?xml version=\"1.0\"?>" + dtd + "<methodResponse><params><param><value>" + t + "</value></param></params></methodResponse>";
  vh::mark(xml);
  Outcome o = lib_parse(request, xml);
  vh::count("documents naming external entities");
  std::string all = o.ok ? o.name + show(o.v, 5000) : o.err;
  if (all.find(secret) != std::string::npos) vh::fail("external-entity", "content of an external file appears: " + all + " for " + vh::esc(xml));
  vh::distinct("e" + vh::fmt("%d", request) + dtd.substr(0, 40) + t);
}

static void c05_default(long, Rng& g)
{
  int d4 = gen_int(g);
  int64_t d8 = gen_i64(g);
  bool s4 = g.chance(1, 2), s8 = g.chance(1, 2);
  if (s4) Value::set_default_int(d4); else Value::drop_default_int();
  if (s8) Value::set_default_int64(d8); else Value::drop_default_int64();
  static const char* tags[] = {"int", "i4", "i8", "boolean", "double", "dateTime.iso8601"};
  int t = (int)g.below(6);
  std::string e = g.chance(1, 2) ? std::string("<") + tags[t] + "/>" : std::string("<") + tags[t] + "></" + tags[t] + ">";
  int where = (int)g.below(3);
  std::string v = "<value>" + e + "</value>";
  if (where == 1) v = "<value><array><data>" + v + "<value><int>7</int></value></data></array></value>";
  if (where == 2) v = "<value><struct><member><name>a</name>" + v + "</member><member><name>b</name><value><int>7</int></value></member></struct></value>";
  std::string xml = "<?xml version=\"1.0\"?><methodResponse><params><param>" + v + "</param></params></methodResponse>";
  vh::mark(xml);
  Outcome o = lib_parse(false, xml);
  bool expect = (t < 2 && s4) || (t == 2 && s8);
  vh::count("documents with an empty scalar");
  if (o.ok != expect) vh::fail("default-int", std::string(o.ok ? "accepted " : "rejected ") + xml + vh::fmt(" with defaults %d %d: ", s4, s8) + o.err);
  else if (expect) {
    RV in = t < 2 ? mk_int(d4) : mk_i64(d8), w = in;
    if (where == 1) { w = RV(ARR); w.a.push_back(in); w.a.push_back(mk_int(7)); }
    if (where == 2) { w = RV(STRUCT); w.m["a"] = in; w.m["b"] = mk_int(7); }
    std::string d = diff(w, o.v.a[0]);
    if (!d.empty()) vh::fail("default-int-value", d + " in " + xml);
  }
  vh::distinct(vh::fmt("d%d%d%d%d", t, s4, s8, where));
  Value::drop_default_int();
  Value::drop_default_int64();
}

static void c05(long i, Rng& g)
{
  switch (g.below(12)) {
  case 0: c05_entity(i, g); break;
  case 1: c05_default(i, g); break;
  case 2: case 3: case 4: case 5: case 6: c05_corrupt(i, g); break;
  default: c05_valid(i, g);
  }
}

// ------------------------------------------------------------------ C06
static void check_bin(const std::string& data)
{
  try {
    std::unique_ptr<Binary_data> b(Binary_data::from_data(data));
    std::unique_ptr<Binary_data> b2(Binary_data::from_data(data.data(), data.size()));
    std::string e = b->get_base64(), want = b64(data);
    if (e != want || b2->get_base64() != want) { vh::fail("b64-encode", "'" + vh::esc(data, 200) + "' encoded as '" + e + "'"); return; }
    if (b->get_data() != data) vh::fail("b64-data", "data changed");
    std::unique_ptr<Binary_data> c(Binary_data::from_base64(e));
    if (c->get_data() != data) vh::fail("b64-decode", "'" + e + "' decoded as '" + vh::esc(c->get_data(), 200) + "'");
    vh::count("byte strings encoded and decoded");
  } catch (const std::exception& e) {
    vh::fail("b64-throws", what(e) + " for '" + vh::esc(data, 200) + "'");
  }
}

static void check_b64_text(const std::string& t)
{
  std::string want;
  bool ok = unb64(t, want);
  try {
    std::unique_ptr<Binary_data> c(Binary_data::from_base64(t));
    if (!ok) vh::fail("b64-lax", "'" + vh::esc(t) + "' is not base64 but decoded as '" + vh::esc(c->get_data(), 100) + "'");
    else if (c->get_data() != want) vh::fail("b64-decode", "'" + vh::esc(t) + "' decoded as '" + vh::esc(c->get_data(), 100) + "'");
    vh::count("base64 texts accepted");
  } catch (const Binary_data::Malformed_base64&) {
    if (ok) vh::fail("b64-strict", "valid base64 '" + vh::esc(t) + "' refused");
    vh::count("base64 texts refused");
  } catch (const std::exception& e) {
    vh::fail("b64-exc", what(e) + " for '" + vh::esc(t) + "'");
  }
}

static std::string fields(const struct tm& t)
{
  return vh::fmt("%04d%02d%02dT%02d:%02d:%02d", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec);
}

static void check_date_text(const std::string& s)
{
  bool ok = ref_date(s);
  try {
    Date_time d(s);
    if (!ok) { vh::fail("date-lax", "'" + vh::esc(s) + "' accepted as " + fields(d.get_tm())); return; }
    if (fields(d.get_tm()) != s) vh::fail("date-parse", s + " parsed as " + fields(d.get_tm()));
    if (d.to_string() != s) vh::fail("date-format", s + " formatted as " + vh::esc(d.to_string()));
    Date_time d2(&d.get_tm());
    if (d2.to_string() != s) vh::fail("date-format", s + " formatted from fields as " + vh::esc(d2.to_string()));
    vh::count("date texts accepted");
  } catch (const Date_time::Malformed_iso8601&) {
    if (ok) vh::fail("date-strict", "valid '" + s + "' refused");
    vh::count("date texts refused");
  } catch (const std::exception& e) {
    vh::fail("date-exc", what(e) + " for '" + vh::esc(s) + "'");
  }
}

//! The current time lies between the clock read before and after.
static void check_date_now(Rng& g)
{
  static const char* zones[] = {"UTC", "XST-3", "YST+5:30", "<+14>-14", "EST5EDT,M3.2.0,M11.1.0"};
  const char* z = zones[g.below(5)];
  bool local = g.chance(1, 2);
  setenv("TZ", z, 1);
  tzset();
  time_t t0 = time(0);
  Date_time d(local);
  time_t t1 = time(0);
  bool ok = false;
  for (time_t t = t0 - 1; t <= t1; ++t) {       // clocks of different grain
    struct tm m;
    if (local) localtime_r(&t, &m); else gmtime_r(&t, &m);
    ok = ok || (fields(m) == fields(d.get_tm()) && fields(m) == d.to_string());
  }
  if (!ok) vh::fail("date-now", vh::fmt("at %ld in zone %s the %s time is ", (long)t0, z, local ? "local" : "universal") + d.to_string() + " from " + fields(d.get_tm()));
  vh::count("current times");
  setenv("TZ", "UTC", 1);
  tzset();
}

static void c06(long i, Rng& g)
{
  if (i % 16 == 0) check_date_now(g);
  // The first 256 cases walk all strings of length <= 2 with that first byte, and days.
  if (i < 256) {
    if (i == 0) { check_bin(""); check_b64_text(""); }
    std::string d(1, (char)i);
    check_bin(d);
    for (int k = 0; k < 256; ++k) {
      std::string e = d + (char)k;
      vh::mark("bytes " + vh::esc(e));
      check_bin(e);
      check_bin(e + (char)(k ^ 0x5a));
      check_bin(std::string("\0", 1) + e);
    }
    for (int k = 0; k < 256; ++k) check_b64_text(std::string(1, (char)i) + (char)k + "==");
    for (int k = 0; k < 256; ++k) check_b64_text(std::string("AB") + (char)i + (char)k);
    for (int k = 0; k < 256; ++k) check_b64_text(std::string("AAAA") + (char)i + "A" + (char)k + "A");
    // every day of some years
    int y = 1900 + (int)(i * 8099 / 255);
    for (int m = 1; m <= 12; ++m)
      for (int dd = 1; dd <= days_in(y, m); ++dd)
        check_date_text(vh::fmt("%04d%02d%02dT%02d:%02d:%02d", y, m, dd, (int)(i % 24), dd % 60, m * 4));
    std::string base = "20240229T12:34:56";
    for (size_t p = 0; p < base.size(); ++p) { std::string s = base; s[p] = (char)i; vh::mark("date " + vh::esc(s)); check_date_text(s); }
    vh::distinct(vh::fmt("first byte %ld", i));
    vh::count("first bytes enumerated exhaustively");
    return;
  }
  switch (g.below(4)) {
  case 0: {
    std::string d = gen_bytes(g, 200);
    vh::mark("bytes " + vh::esc(d, 1000));
    check_bin(d);
    vh::distinct("b" + d);
    if (i % 201 == 0) vh::sample("bytes '" + vh::esc(d, 100) + "'");
    break;
  }
  case 1: {
    std::string t = b64(gen_bytes(g, 40));
    int n = (int)g.below(3);
    static const char ch[] = "=AZaz09+/ \n\t-_*.\x80\xff";
    for (int k = 0; k < n; ++k) {
      size_t p = g.below(t.size() + 1);
      char c = g.chance(1, 6) ? (char)g.below(256) : ch[g.below(sizeof ch - 1)];
      if (g.chance(1, 2)) t.insert(p, 1, c);
      else if (p < t.size()) { if (g.chance(1, 2)) t[p] = c; else t.erase(p, 1); }
    }
    vh::mark("base64 " + vh::esc(t));
    check_b64_text(t);
    vh::distinct("t" + t);
    if (i % 201 == 1) vh::sample("base64 '" + vh::esc(t, 100) + "'");
    break;
  }
  case 2: {
    std::string s = gen_date(g);
    check_date_text(s);
    vh::distinct("d" + s);
    break;
  }
  default: {
    std::string s = gen_date(g);
    int n = (int)g.range(1, 2);
    static const char ch[] = "0123456789T:-+. Zt/";
    for (int k = 0; k < n; ++k) {
      size_t p = g.below(s.size() + 1);
      char c = g.chance(1, 8) ? (char)g.below(256) : ch[g.below(sizeof ch - 1)];
      switch (g.below(6)) {
      case 0: s.insert(p, 1, c); break;
      case 1: if (p < s.size()) s.erase(p, 1); break;
      case 2: s = s.substr(0, p); break;
      default: if (p < s.size()) s[p] = c;
      }
    }
    vh::mark("date " + vh::esc(s));
    check_date_text(s);
    vh::distinct("D" + s);
    if (i % 201 == 2) vh::sample("date '" + vh::esc(s, 100) + "'");
  }
  }
}

int main(int argc, char** argv)
{
  vh::init(argc, argv, "C01");
  xmlInitParser();
  const std::string p = vh::opts().prop;
  if (p == "C01") vh::run_cases(c01, 500);
  else if (p == "C02") vh::run_cases(c02, 500);
  else if (p == "C06") vh::run_cases(c06, 500);
  else if (p == "C05") {
    char dir[] = "/tmp/vh-ent-XXXXXX";
    if (!mkdtemp(dir)) vh::broken("mkdtemp");
    secret_path = std::string(dir) + "/s";
    FILE* f = fopen(secret_path.c_str(), "w");
    fputs("SeCrEt-CoNtEnT-0123", f);
    fclose(f);
    f = fopen((secret_path + ".dtd").c_str(), "w");
    fputs("<!ENTITY fromdtd \"SeCrEt-CoNtEnT-0123\">", f);
    fclose(f);
    vh::run_cases(c05, 500);
    unlink(secret_path.c_str());
    unlink((secret_path + ".dtd").c_str());
    rmdir(dir);
  } else vh::broken("no such property " + p);
  return vh::finish();
}
