// C03: random operation sequences on values, arrays and structs against the reference model.
// C28: what visitors are told about values, and what is printed of them.
#include <sstream>
#include <typeinfo>
#include "model.h"
#include "libiqxmlrpc/value_type_visitor.h"

using namespace model;
using namespace iqxmlrpc;

namespace {

struct Slot {
  std::unique_ptr<Value> v;
  RV m;
};

const size_t NSLOTS = 4;
Slot slots[NSLOTS];
std::string trail;
std::string ops_used;

void step(const std::string& s)
{
  trail += s + "; ";
  if (trail.size() > 3000) trail.erase(0, trail.size() - 2500);
  vh::mark(trail.size() > 1800 ? trail.substr(trail.size() - 1800) : trail);
}

void verify(size_t s, const char* op)
{
  try {
    RV got = from_lib(*slots[s].v);
    std::string d = diff(slots[s].m, got);
    if (!d.empty()) { vh::fail(std::string("content after ") + op, d + " after " + trail.substr(trail.size() > 900 ? trail.size() - 900 : 0)); vh::finish_now(1); }
    vh::count("trees compared");
  } catch (const std::exception& e) {
    vh::fail(std::string("view after ") + op, std::string(e.what()) + " after " + trail.substr(trail.size() > 900 ? trail.size() - 900 : 0));
    vh::finish_now(1);
  }
}

//! Walks to a random node, in the value and in the model alike.
void walk(Rng& g, size_t s, Value*& v, RV*& m, std::string& path, bool stay)
{
  v = slots[s].v.get();
  m = &slots[s].m;
  path = vh::fmt("s%zu", s);
  while (!stay && g.chance(2, 3)) {
    if (m->k == ARR && !m->a.empty()) {
      int i = (int)g.below(m->a.size());
      const Value& cv = *v;
      switch (g.below(6)) {
      case 0: v = &(*v)[i]; break;
      case 1: v = &v->the_array()[(unsigned)i]; break;
      case 2: v = const_cast<Value*>(&cv[i]); break;
      case 3: v = const_cast<Value*>(&cv.the_array()[(unsigned)i]); break;
      case 4: {
        Array::const_iterator it = cv.arr_end(), was = it;
        for (int k = (int)m->a.size(); k > i; --k) {
          if (k & 1) { if (&*--it != &cv[k - 1]) vh::fail("iterator", "--i differs from the element after " + trail); }
          else { was = it--; if (was == it || !(was != it)) vh::fail("iterator", "i-- leaves the iterator after " + trail); }
        }
        v = const_cast<Value*>(it.operator->());
        vh::count("walks from the end");
        break;
      }
      default: { Array::const_iterator it = v->arr_begin(); for (int k = 0; k < i; ++k) { if (k & 1) ++it; else it++; } v = const_cast<Value*>(&*it); }
      }
      m = &m->a[i];
      path += vh::fmt("[%d]", i);
    } else if (m->k == STRUCT && !m->m.empty()) {
      std::map<std::string, RV>::iterator it = m->m.begin();
      std::advance(it, g.below(m->m.size()));
      const Value& cv = *v;
      switch (g.below(6)) {
      case 4: v = const_cast<Value*>(&cv[it->first]); break;
      case 5: v = cv.the_struct().find(it->first)->second; break;
      case 0: v = &(*v)[it->first]; break;
      case 1: v = it->first.find('\0') == std::string::npos ? &(*v)[it->first.c_str()] : &(*v)[it->first]; break;
      case 2: v = &v->the_struct()[it->first]; break;
      default: v = v->the_struct().find(it->first)->second;
      }
      m = &it->second;
      path += "." + vh::esc(it->first, 20);
    } else break;
  }
}

template <class E, class F> void must_throw(const char* what, F f)
{
  try { f(); }
  catch (const E&) { vh::count("wrong accesses refused"); return; }
  catch (const std::exception& e) { vh::fail(std::string("exception of ") + what, std::string(typeid(e).name()) + " " + e.what() + " after " + trail); return; }
  vh::fail(std::string("no exception from ") + what, "after " + trail);
}

void wrong_reads(const Value& v, const RV& m)
{
  typedef Value::Bad_cast B;
  if (m.k != INT) { must_throw<B>("get_int", [&] { v.get_int(); }); must_throw<B>("int()", [&] { (void)(int)v; }); }
  if (m.k != I64) { must_throw<B>("get_int64", [&] { v.get_int64(); }); must_throw<B>("int64()", [&] { (void)(int64_t)v; }); }
  if (m.k != BOOL) { must_throw<B>("get_bool", [&] { v.get_bool(); }); must_throw<B>("bool()", [&] { (void)(bool)v; }); }
  if (m.k != DBL) { must_throw<B>("get_double", [&] { v.get_double(); }); must_throw<B>("double()", [&] { (void)(double)v; }); }
  if (m.k != STR) { must_throw<B>("get_string", [&] { v.get_string(); }); must_throw<B>("string()", [&] { (void)(std::string)v; }); }
  if (m.k != BIN) { must_throw<B>("get_binary", [&] { v.get_binary(); }); must_throw<B>("binary()", [&] { (void)(Binary_data)v; }); }
  if (m.k != DATE) { must_throw<B>("get_datetime", [&] { v.get_datetime(); }); must_throw<B>("tm()", [&] { (void)(struct tm)v; }); }
  if (m.k != ARR) {
    must_throw<B>("the_array", [&] { v.the_array(); });
    must_throw<B>("size", [&] { v.size(); });
    must_throw<B>("[int]", [&] { v[0]; });
    must_throw<B>("arr_begin", [&] { v.arr_begin(); });
    must_throw<B>("arr_end", [&] { v.arr_end(); });
  } else {
    must_throw<Array::Out_of_range>("[n]", [&] { v[(int)m.a.size()]; });
    must_throw<Array::Out_of_range>("[-1]", [&] { v[-1]; });
    must_throw<Array::Out_of_range>("array[n+7]", [&] { v.the_array()[(unsigned)m.a.size() + 7]; });
  }
  if (m.k != STRUCT) {
    must_throw<B>("the_struct", [&] { v.the_struct(); });
    must_throw<B>("has_field", [&] { v.has_field("a"); });
    must_throw<B>("[string]", [&] { v[std::string("a")]; });
    must_throw<B>("[char*]", [&] { v["a"]; });
  } else {
    std::string absent = "no such member";
    must_throw<Struct::No_field>("[absent]", [&] { v[absent]; });
    must_throw<Struct::No_field>("[absent char*]", [&] { v["no such member"]; });
    must_throw<Struct::No_field>("struct[absent]", [&] { v.the_struct()[absent]; });
    if (v.has_field(absent) || v.the_struct().find(absent) != v.the_struct().end()) vh::fail("has_field", "absent member reported after " + trail);
    for (std::map<std::string, RV>::const_iterator i = m.m.begin(); i != m.m.end(); ++i)
      if (!v.has_field(i->first)) vh::fail("has_field", "present member not reported after " + trail);
  }
}

void right_reads(const Value& v, const RV& m)
{
  bool ok = true;
  switch (m.k) {
  case INT: ok = (int)v == (int)m.i; break;
  case I64: ok = (int64_t)v == m.i; break;
  case BOOL: ok = (bool)v == (bool)m.i; break;
  case DBL: ok = bits((double)v) == bits(m.d); break;
  case STR: ok = (std::string)v == m.s; break;
  case BIN: {
    Binary_data b = v;
    std::string d;
    ok = b.get_data() == m.s && unb64(b.get_base64(), d) && d == m.s;
    break;
  }
  case DATE: { struct tm t = v; ok = Date_time(&t).to_string() == m.s; break; }
  default:;
  }
  if (!ok) vh::fail("conversion", std::string("to ") + kind_name(m.k) + " differs after " + trail);
}

Value fresh(Rng& g, const RV& m)
{
  switch (m.k) {
  case STR: return g.chance(1, 2) && m.s.find('\0') == std::string::npos ? Value(m.s.c_str()) : Value(m.s);
  case DATE: { struct tm t = tm_of(m.s); if (g.chance(1, 2)) return Value(&t); return Value(Date_time(m.s)); }
  case BIN: { std::unique_ptr<Binary_data> b(Binary_data::from_base64(b64(m.s))); if (g.chance(1, 2)) b->get_base64(); return Value(*b); }
  case INT: return Value(new Int((int)m.i));
  default: return to_lib(m);
  }
}

std::string gen_key(Rng& g)
{
  static const char* k[] = {"", "a", "b", "c", " ", "key"};
  return g.chance(3, 4) ? k[g.below(6)] : gen_text(g, 8);
}

void one_case(long i, Rng& g)
{
  trail.clear();
  std::string sig;
  for (size_t s = 0; s < NSLOTS; ++s) {
    slots[s].m = gen_value(g, 10);
    slots[s].v.reset(new Value(fresh(g, slots[s].m)));
  }
  int n = (int)g.range(10, 60);
  for (int k = 0; k < n; ++k) {
    size_t s = g.below(NSLOTS), t = g.below(NSLOTS);
    Value *v, *w;
    RV *m, *x;
    std::string p, q;
    walk(g, s, v, m, p, g.chance(1, 4));
    walk(g, t, w, x, q, g.chance(1, 4));
    if (nodes(slots[s].m) + nodes(slots[t].m) > 600) {
      slots[s].m = RV(NIL);
      *slots[s].v = Value(Nil());
      step(p + ":=nil");
      continue;
    }
    int op = (int)g.below(20);
    sig += (char)('a' + op);
    switch (op) {
    case 0: case 1: {
      RV y = gen_value(g, 6);
      step(p + " = fresh " + kind_name(y.k));
      *v = fresh(g, y);
      *m = y;
      break;
    }
    case 2: case 3: {                       // also self, ancestor and descendant
      step(p + " = " + q);
      RV y = *x;
      *v = *w;
      *m = y;
      break;
    }
    case 4: {
      step("copy of " + q + " replaces " + vh::fmt("s%zu", s));
      RV y = *x;
      std::unique_ptr<Value> c(new Value(*w));
      slots[s].v.swap(c);
      slots[s].m = y;
      break;
    }
    case 5: {
      RV y = *x;
      if (m->k == ARR) {
        step(p + ".push_back(" + q + ")");
        if (g.chance(1, 2)) v->push_back(*w); else v->the_array().push_back(*w);
        m->a.push_back(y);
      } else { step(p + ".push_back refused"); must_throw<Value::Bad_cast>("push_back", [&] { v->push_back(*w); }); }
      break;
    }
    case 6: {
      RV y = gen_value(g, 3);
      if (m->k == ARR) { step(p + ".push_back(ptr)"); Value_ptr c(new Value(fresh(g, y))); v->the_array().push_back(c); m->a.push_back(y); }
      break;
    }
    case 7: case 8: {
      RV y = *x;
      std::string key = gen_key(g);
      if (m->k == STRUCT) {
        step(p + ".insert(" + vh::esc(key) + ", " + q + ")");
        if (g.chance(1, 2)) v->insert(key, *w); else v->the_struct().insert(key, *w);
        m->m[key] = y;
      } else { step(p + ".insert refused"); must_throw<Value::Bad_cast>("insert", [&] { v->insert(key, *w); }); }
      break;
    }
    case 9: {
      RV y = gen_value(g, 3);
      std::string key = gen_key(g);
      if (m->k == STRUCT) { step(p + ".insert(" + vh::esc(key) + ", ptr)"); Value_ptr c(new Value(fresh(g, y))); v->the_struct().insert(key, c); m->m[key] = y; }
      break;
    }
    case 10: {
      std::string key = gen_key(g);
      if (m->k == STRUCT) {
        if (!m->m.empty() && g.chance(2, 3)) { std::map<std::string, RV>::iterator it = m->m.begin(); std::advance(it, g.below(m->m.size())); key = it->first; }
        step(p + ".erase(" + vh::esc(key) + ")");
        v->the_struct().erase(key);
        m->m.erase(key);
      }
      break;
    }
    case 11:
      if (m->k == STRUCT) { step(p + ".clear"); v->the_struct().clear(); m->m.clear(); }
      else if (m->k == ARR) { step(p + ".clear"); v->the_array().clear(); m->a.clear(); }
      break;
    case 12:                                // swaps need unrelated trees
      if (s != t && m->k == ARR && x->k == ARR) { step(p + ".swap(" + q + ")"); v->the_array().swap(w->the_array()); m->a.swap(x->a); }
      else if (s != t && m->k == STRUCT && x->k == STRUCT) { step(p + ".swap(" + q + ")"); v->the_struct().swap(w->the_struct()); m->m.swap(x->m); }
      break;
    case 13: {                              // container assignment, any relation
      RV y = *x;
      if (m->k == ARR && x->k == ARR) { step(p + ".array = " + q); v->the_array() = w->the_array(); *m = y; }
      else if (m->k == STRUCT && x->k == STRUCT) { step(p + ".struct = " + q); v->the_struct() = w->the_struct(); *m = y; }
      break;
    }
    case 14:
      if (m->k == ARR) {
        if (g.chance(1, 2)) {                // elements of another array
          if (s == t || x->k != ARR) break;
          step(p + ".assign(" + q + ")");
          RV y = *x;
          v->the_array().assign(w->arr_begin(), w->arr_end());
          *m = y;
          break;
        }
        if (g.chance(1, 3)) {
          step(p + ".assign(strings)");
          std::vector<std::string> c;
          RV y(ARR);
          for (int z = (int)g.below(5); z > 0; --z) { c.push_back(gen_text(g, 8)); y.a.push_back(mk_str(c.back())); }
          v->the_array().assign(c.begin(), c.end());
          *m = y;
          break;
        }
        step(p + ".assign(ints)");
        std::vector<int> c;
        RV y(ARR);
        for (int z = (int)g.below(5); z > 0; --z) { c.push_back(gen_int(g)); y.a.push_back(mk_int(c.back())); }
        v->the_array().assign(c.begin(), c.end());
        *m = y;
      }
      break;
    case 15:
      step("read " + p);
      wrong_reads(*v, *m);
      right_reads(*v, *m);
      break;
    case 16: {
      step("print " + p);
      std::ostringstream o;
      print_value(*v, o);
      break;
    }
    case 17: {                              // independent temporaries
      step("temporary copies of " + p);
      Value c1(*v), c2(c1);
      Array ar;
      for (int z = 0; z < 3; ++z) ar.push_back(c1);
      Array ar2(ar);
      ar2 = ar2;
      c1 = Value(ar2);
      c2 = c1;
      c1 = 5;
      if (c2.size() != 3) vh::fail("temporary", "copy changed");
      Struct st;
      st.insert("x", c2);
      Struct st2(st);
      st2.insert("x", 1);
      st2 = st2;
      RV y = from_lib(st["x"][1]);
      std::string d = diff(*m, y);
      if (!d.empty()) vh::fail("temporary", d + " after " + trail);
      std::unique_ptr<Value_type> cl(st.clone());
      break;
    }
    case 18:
      step("bad access leaves " + p);
      if (m->k == ARR) must_throw<Array::Out_of_range>("write past end", [&] { (*v)[(int)m->a.size()] = Value(1); });
      else if (m->k == STRUCT) must_throw<Struct::No_field>("write absent", [&] { (*v)["no such member"] = Value(1); });
      else must_throw<Value::Bad_cast>("write scalar element", [&] { (*v)["x"] = Value(1); });
      break;
    default: {
      step("edit scalar " + p);
      if (m->k == STR) { *v = Value(v->get_string() + "+"); m->s += "+"; }
      else if (m->k == INT) { *v = (int)m->i ^ 1; m->i = (int)m->i ^ 1; }
      else if (m->k == BOOL) { *v = !v->get_bool(); m->i = !m->i; }
      break;
    }
    }
    verify(s, ("op " + vh::fmt("%d", op)).c_str());
    verify(t, ("op " + vh::fmt("%d", op)).c_str());
    vh::count("operations");
    if (k % 8 == 0) for (size_t z = 0; z < NSLOTS; ++z) verify(z, "op elsewhere");
  }
  for (size_t z = 0; z < NSLOTS; ++z) { verify(z, "all"); }
  std::string shp;
  for (size_t z = 0; z < NSLOTS; ++z) { shp += shape(slots[z].m); slots[z].v.reset(); }
  vh::distinct(sig + shp);
  if (i % 311 == 0) vh::sample(trail.substr(0, 500));
}

// ------------------------------------------------------------------ C28
//! Builds a model value from what it is told.
class Builder: public Value_type_visitor {
  RV* to;
  long told;

  void one() { if (told++) throw Bad_view("two nodes visited for one"); }
  void inner(const Value& v, RV& m)
  {
    Builder b(m);
    v.apply_visitor(b);
    if (b.told != 1) throw Bad_view("a node is not visited");
  }

  virtual void do_visit_value(const Value_type& v) { v.apply_visitor(*this); }
  virtual void do_visit_nil() { one(); *to = RV(NIL); }
  virtual void do_visit_int(int i) { one(); *to = mk_int(i); }
  virtual void do_visit_int64(int64_t i) { one(); *to = mk_i64(i); }
  virtual void do_visit_double(double d) { one(); *to = mk_dbl(d); }
  virtual void do_visit_bool(bool b) { one(); *to = mk_bool(b); }
  virtual void do_visit_string(const std::string& s) { one(); *to = mk_str(s); }
  virtual void do_visit_base64(const Binary_data& b) { one(); *to = mk_bin(b.get_data()); }
  virtual void do_visit_datetime(const Date_time& d) { one(); *to = mk_date(d.to_string()); }
  virtual void do_visit_array(const Array& a)
  {
    one();
    *to = RV(ARR);
    for (Array::const_iterator i = a.begin(); i != a.end(); ++i) { to->a.push_back(RV()); RV x; inner(*i, x); to->a.back() = x; }
  }
  virtual void do_visit_struct(const Struct& s)
  {
    one();
    *to = RV(STRUCT);
    for (Struct::const_iterator i = s.begin(); i != s.end(); ++i) { RV x; inner(*i->second, x); to->m[i->first] = x; }
  }

public:
  explicit Builder(RV& m): to(&m), told(0) {}
};

//! The printed form: scalars as a stream writes them, text in quotes, members and elements with commas.
void printed(const RV& v, std::ostream& o)
{
  switch (v.k) {
  case NIL: o << "NIL"; break;
  case INT: o << (int)v.i; break;
  case I64: o << (int64_t)v.i; break;
  case DBL: o << v.d; break;
  case BOOL: o << (v.i != 0); break;
  case STR: case DATE: o << "'" << v.s << "'"; break;
  case BIN: o << "RAWDATA"; break;
  case ARR:
    o << "[";
    for (size_t i = 0; i < v.a.size(); ++i) { o << " "; printed(v.a[i], o); o << ","; }
    o << " ]";
    break;
  case STRUCT:
    o << "{";
    for (std::map<std::string, RV>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) { o << " '" << i->first << "' => "; printed(i->second, o); o << ","; }
    o << " }";
    break;
  default: break;
  }
}

void shown(long i, Rng& g)
{
  RV m = gen_any(g);
  vh::mark(show(m, 2000));
  Value v(to_lib(m));
  try {
    RV got;
    Builder b(got);
    v.apply_visitor(b);
    std::string d = diff(m, got);
    if (!d.empty()) vh::fail("visited", d + " seen by a visitor of " + show(m, 600));
    vh::count("nodes visited", nodes(got));
    bool precise = g.chance(1, 2), names = g.chance(1, 3);
    std::ostringstream want, have;
    if (precise) { want.precision(17); have.precision(17); }
    if (names) { want << std::boolalpha; have << std::boolalpha; }
    printed(m, want);
    print_value(v, have);
    if (want.str() != have.str()) {
      size_t p = 0;
      while (p < want.str().size() && want.str()[p] == have.str()[p]) ++p;
      size_t q = p > 20 ? p - 20 : 0;
      vh::fail("printed", "'" + vh::esc(have.str().substr(q, 80)) + "' printed instead of '" + vh::esc(want.str().substr(q, 80)) + "' for " + show(m, 600));
    }
    vh::count("printed values compared");
    d = diff(m, from_lib(v));
    if (!d.empty()) vh::fail("changed", d + " after visiting " + show(m, 600));
    vh::count("values compared afterwards");
  } catch (const std::exception& e) {
    vh::fail("throws", std::string(e.what()) + " for " + show(m, 600));
  }
  vh::distinct(shape(m));
  if (i % 97 == 0) vh::sample(show(m, 300));
}

} // namespace

int main(int argc, char** argv)
{
  vh::init(argc, argv, "C03");
  if (vh::opts().prop == "C28") vh::run_cases(shown, 2000);
  else vh::run_cases(one_case, 200);
  return vh::finish();
}
