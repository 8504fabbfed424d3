// Conformance driver for /repo/ginv: monomials, polynomials, Janet trees,
// completions and involutive bases, through their public interfaces only.
#include "vt.hpp"
#include <memory>
#include <algorithm>
#include "ginv/monom.h"
#include "ginv/poly_int.h"
#include "ginv/janet.h"
#include "ginv/mcompletion.h"
#include "ginv/gb.h"
#ifdef VT_PICT
#include "pict.hpp"
#endif
using namespace GInv;
using namespace vt;

// a system of few variables can be run in a ring of many: where its variables are;
// the others must never show up
static std::vector<int> EMB; static int WIDE = 0;
static std::vector<int> POSS;                     // and its components among many
static int toPos(int p) { return WIDE && p >= 0 && p < (int)POSS.size() ? POSS[p] : p; }
static int ofPos(int p) {
  if (!WIDE || p < 0 || POSS.empty()) return p;
  auto i = std::find(POSS.begin(), POSS.end(), p);
  return i == POSS.end() ? -99 : (int)(i - POSS.begin());
}
static std::vector<int> narrow(const std::function<int(int)>& f, int size) {
  std::vector<int> v;
  if (!WIDE) { for (int i = 0; i < size; i++) v.push_back(f(i)); return v; }
  for (int i : EMB) v.push_back(f(i));
  if (size != WIDE) v.push_back(-1);
  for (int i = 0; i < size; i++) if (f(i) && std::find(EMB.begin(), EMB.end(), i) == EMB.end()) { v.push_back(i); break; }
  return v;
}
// ------------------------------------------------------------- projections
static std::string pm(const Monom& m) {           // [pos, e1, ..., en]
  std::vector<int> v = narrow([&](int i) { return (int)m[i]; }, m.size());
  v.insert(v.begin(), ofPos(m.pos()));
  return jints(v);
}
static std::string pmd(const Monom& m) {          // [pos, degree, e1, ..., en]
  std::vector<int> v; v.push_back(m.pos()); v.push_back(m.degree());
  for (int i = 0; i < m.size(); i++) v.push_back(m[i]);
  return jints(v);
}
static std::string pc(const Integer& a) { return jbig(a.get_str(10)); }
static std::string pp(const PolyInt& p) {
  std::vector<std::string> v;
  for (PolyInt::ConstIterator i(p.begin()); i; ++i)
    v.push_back("[" + pm(i.monom()) + "," + pc(i.coeff()) + "]");
  return jlist(v);
}
static std::string nmflags(const Wrap& w) {
  return jints(narrow([&](int i) { return w.NM(i) ? 1 : 0; }, w.lm().size()));
}
static std::string pw(const Wrap& w) { std::ostringstream ss; ss << w; return jstr(ss.str()); }
static std::string php(const HilbertPoly& h) {    // [num, den] per power
  std::vector<std::string> v;
  for (int i = 0; i <= h.dim(); i++) {
    std::string s = h[i], n = s, d = "1";
    size_t k = s.find('/');
    if (k != std::string::npos) { n = s.substr(0, k); d = s.substr(k + 1); }
    v.push_back("[" + jbig(n) + "," + jbig(d) + "]");
  }
  return jlist(v);
}
// builds into an existing zero monomial of the right size by public operations
static void fill(Allocator* al, Monom& m, const std::vector<int>& e) {
  for (size_t v = 0; v < e.size(); v++)
    if (e[v] > 0) { Monom x(al, (int)v, (int)e.size(), -1); Monom y(al, x, e[v]); m.mult(y); }
}
static std::vector<int> exps(Cmd& c, int n) { std::vector<int> e; for (int i = 0; i < n; i++) e.push_back((int)c.i()); return e; }
static std::vector<int> wide(const std::vector<int>& e) {
  if (!WIDE) return e;
  std::vector<int> r(WIDE, 0);
  for (size_t i = 0; i < e.size(); i++) r[EMB[i]] = e[i];
  return r;
}

// every exponent vector of a box, last variable fastest
static void eachOf(int n, int b, const std::function<void(const std::vector<int>&)>& f) {
  std::vector<int> e(n, 0);
  for (;;) { f(e); int k = n - 1; while (k >= 0 && e[k] == b) e[k--] = 0; if (k < 0) return; e[k]++; }
}

// ------------------------------------------------------------------ monoms
struct MonomM {
  std::vector<std::unique_ptr<Allocator>> al;
  std::vector<Monom*> r;
  std::vector<Allocator*> own;     // allocator of the register object itself is plain new
  Allocator A, B;                   // registers by turns in two allocators: an object goes back to its own
  Allocator* al2(int k) { return k % 2 ? &B : &A; }
  std::string st() {
    std::vector<std::string> v;
    for (auto m : r) v.push_back(m && m->size() ? pmd(*m) : (m ? "[-9]" : "[]"));
    return jlist(v);
  }
  void put(int k, Monom* m) { delete r[k]; r[k] = m; }
  void run(Trace& t) {
    int n = 0;
    RandPermutation_mt19937* perm = nullptr;
    for (auto& c : t) {
      const std::string op = c.op();
      Obj o; o.str("op", op);
      if (op == "begin") { c.s(); o.i("id", std::stoll(c.t[1])); c.s(); r.assign((size_t)c.i(), nullptr); n = (int)c.i(); o.i("n", n).i("nr", (long long)r.size()); }
      else if (op == "zero") { int k = c.i(); int pos = c.i(); put(k, new Monom(al2(k), n, pos)); o.i("d", k).i("pos", pos); }
      else if (op == "var") { int k = c.i(); int v = c.i(); int pos = c.i(); put(k, new Monom(al2(k), v, n, pos)); o.i("d", k).i("v", v).i("pos", pos); }
      else if (op == "set") { int k = c.i(); int pos = c.i(); auto e = exps(c, n); put(k, new Monom(al2(k), n, pos)); fill(al2(k + 1), *r[k], e); o.i("d", k).i("pos", pos).raw("e", jints(e)); }
      else if (op == "copy") { int k = c.i(), a = c.i(); put(k, new Monom(al2(k), *r[a])); o.i("d", k).i("a", a); }
      else if (op == "prol") { int k = c.i(), v = c.i(), a = c.i(); put(k, new Monom(al2(k), v, *r[a])); o.i("d", k).i("v", v).i("a", a); }
      else if (op == "prod") { int k = c.i(), a = c.i(), b = c.i(); Monom* m = new Monom(al2(k), *r[a], *r[b]); put(k, m); o.i("d", k).i("a", a).i("b", b); }
      else if (op == "prodm") { int k = c.i(), a = c.i(), b = c.i(); Monom x(&A, *r[a]); Monom* m = new Monom(std::move(x) * *r[b]); put(k, m); o.i("d", k).i("a", a).i("b", b); }
      else if (op == "power") { int k = c.i(), a = c.i(), e = c.i(); Monom* m = new Monom(al2(k), *r[a], e); put(k, m); o.i("d", k).i("a", a).i("x", e); }
      else if (op == "movec") { int k = c.i(), a = c.i(); Monom* m = new Monom(std::move(*r[a])); put(a, nullptr); put(k, m); o.i("d", k).i("a", a); }
      else if (op == "moveassign") { int k = c.i(), a = c.i(); if ((k + a) % 2) { Monom out(std::move(*r[k])); } /* the target may itself be moved from */ *r[k] = std::move(*r[a]); put(a, nullptr); o.i("d", k).i("a", a); }
      else if (op == "assign") { int k = c.i(), a = c.i(); *r[k] = *r[a]; o.i("d", k).i("a", a); }
      else if (op == "swap") { int k = c.i(), a = c.i(); r[k]->swap(*r[a]); o.i("d", k).i("a", a); }
      else if (op == "mult") { int k = c.i(), a = c.i(); r[k]->mult(*r[a]); o.i("d", k).i("a", a); }
      else if (op == "multv") { int k = c.i(), v = c.i(), a = c.i(); r[k]->mult(v, *r[a]); o.i("d", k).i("v", v).i("a", a); }
      else if (op == "div") { int k = c.i(), a = c.i(); r[k]->div(*r[a]); o.i("d", k).i("a", a); }
      else if (op == "setpos") { int k = c.i(), p = c.i(); r[k]->setPos(p); o.i("d", k).i("pos", p); }
      else if (op == "perm") {
        int k = c.i(), a = c.i();
        if (!perm) perm = new RandPermutation_mt19937(n);
        perm->next();
        std::vector<int> pv; for (int i = 0; i < n; i++) pv.push_back((*perm)[i]);
        r[k]->permutation(*r[a], *perm);
        o.i("d", k).i("a", a).raw("perm", jints(pv));
      }
      else if (op == "gc") {   // copy through the garbage collected wrapper
        int k = c.i(), a = c.i();
        GC<Monom> g(*r[a]); g.reallocate(); GC<Monom> h(g); g.swap(h);
        put(k, new Monom(al2(k), g)); o.i("d", k).i("a", a);
      }
      else if (op == "rand") { int k = c.i(), d1 = c.i(), d2 = c.i(); Monom::rand_init(n, d1, d2); Monom::rand_next(*r[k]); o.i("d", k).i("d1", d1).i("d2", d2).raw("got", pmd(*r[k])); }
      else if (op == "q") {     // all pairwise queries of two monomials
        int a = c.i(), b = c.i(); const Monom &x = *r[a], &y = *r[b];
        o.i("a", a).i("b", b);
        o.b("eq", x == y).b("ne", x != y).b("div", x.divisiable(y));
        o.i("lex", x.lex(y)).i("deglex", x.deglex(y)).i("alex", x.alex(y));
        o.b("bool", (bool)x).b("zero", x.isZero()).i("size", x.size());
        std::ostringstream ss; ss << x; o.str("txt", ss.str());
      }
      else if (op == "gl") { int a = c.i(), b = c.i(); o.i("a", a).i("b", b).i("gcd", r[a]->gcd(*r[b])).i("lcm", r[a]->lcm(*r[b])); }
      else if (op == "q3") {
        int a = c.i(), b = c.i(), d = c.i(); const Monom &x = *r[a], &y = *r[b], &z = *r[d];
        o.i("a", a).i("b", b).i("c", d).i("lex", x.lex(y, z)).i("deglex", x.deglex(y, z)).i("alex", x.alex(y, z));
      }
      else if (op == "porder") { // module order through Poly::cmp
        int ord = c.i(), a = c.i(), b = c.i(); Poly p(ord, n);
        o.i("ord", ord).i("a", a).i("b", b).i("cmp", p.cmp(*r[a], *r[b]));
      }
      else if (op == "free") { int k = c.i(); put(k, nullptr); o.i("d", k); }
      else if (op == "end") { for (size_t k = 0; k < r.size(); k++) put((int)k, nullptr); o.i("live", (long long)(A.size() | B.size())); }
      else { fprintf(stderr, "driver: unknown %s\n", op.c_str()); _exit(97); }
      if (op != "begin") o.raw("st", st());
      emit(o.done());
    }
    delete perm;
  }
};

// -------------------------------------------------------------- polynomials
struct FindList {                       // first-divisor search, the spec's NF uses the same
  std::vector<WrapPolyInt*> w;
  WrapPolyInt* find(const Monom& m) const {
    for (auto x : w) if (m.pos() == x->lm().pos() && m.divisiable(x->lm())) return x;
    return nullptr;
  }
};

struct PolyM {
  Allocator A, B;                   // by turns, as for monomials
  Allocator* al2(int k) { return k % 2 ? &B : &A; }
  std::vector<PolyInt*> r;
  int n = 0, order = 0;
  std::string st() {
    std::vector<std::string> v;
    for (auto m : r) v.push_back(m ? pp(*m) : "[]");
    return jlist(v);
  }
  void put(int k, PolyInt* m) { delete r[k]; r[k] = m; }
  PolyInt* fresh(int k = 0) { return new PolyInt(al2(k), order, n); }
  bool skip(Cmd c, const std::string& op);
  // "set" reads  nterms { coeff pos e1..en } and sums them with the public API
  static void load(Cmd& c, Allocator* A, PolyInt& p, int order, int n, std::string* in) {
    int k = c.i();
    std::vector<std::string> js;
    for (int i = 0; i < k; i++) {
      std::string co = c.s(); int pos = c.i(); auto e = exps(c, n);
      Monom m(A, WIDE ? WIDE : n, toPos(pos)); fill(A, m, wide(e));
      PolyInt q(A, order, m);
      q.mult(co.c_str());
      p.add(q);
      std::vector<int> v; v.push_back(pos); v.insert(v.end(), e.begin(), e.end());
      Integer ci(A, co.c_str());
      js.push_back("[" + jints(v) + "," + pc(ci) + "]");
    }
    *in = jlist(js);
  }
  void run(Trace& t);
};

static void pattrs(Obj& o, const PolyInt& p) {
  o.i("len", p.length()).b("iszero", p.isZero()).b("bool", (bool)p).i("maxpos", p.maxPos());
  o.b("ispp", p.isPp());
  if (!p.isZero()) {
    o.raw("lm", pm(p.lm())).raw("lc", pc(p.lc())).i("deg", p.degree());
    o.i("norm", p.norm());
  }
  std::ostringstream ss; ss << p; o.str("txt", ss.str());
}

// preconditions of the API; the size limits keep the programs cheap
static bool ringOnly(const PolyInt& p) { for (PolyInt::ConstIterator i(p.begin()); i; ++i) if (i.monom().pos() != -1) return false; return true; }
static long words(const PolyInt& p) { long s = 0; for (PolyInt::ConstIterator i(p.begin()); i; ++i) s += std::string(i.coeff().get_str(10)).size(); return s; }
static long roomy = 1;
static bool canMult(const PolyInt& a, const PolyInt& b) {
  if (!(ringOnly(a) || ringOnly(b))) return false;
  return a.length() * b.length() <= 80 * roomy && words(a) + words(b) <= 700 * roomy;
}
bool PolyM::skip(Cmd c, const std::string& op) {
  if (op == "mult") { int k = c.i(), a = c.i(); return !canMult(*r[k], *r[a]); }
  if (op == "opmult") { c.i(); int a = c.i(), b = c.i(); return !canMult(*r[a], *r[b]); }
  if (op == "pow") { int k = c.i(), e = c.i(); return e > 1 && (!ringOnly(*r[k]) || r[k]->length() > 5 || words(*r[k]) > 60); }
  if (op == "red") { int k = c.i(), a = c.i(); return !*r[k] || !*r[a] || k == a || !r[k]->lm().divisiable(r[a]->lm()) || (r[k]->lm().pos() != r[a]->lm().pos() && !ringOnly(*r[a])) || words(*r[k]) > 900 * roomy; }
  if (op == "redmaybe") { int k = c.i(), a = c.i(); return !*r[k] || !*r[a] || k == a || words(*r[k]) > 900 * roomy; }
  if (op == "cmp") { int a = c.i(), b = c.i(); return !*r[a] || !*r[b]; }
  if (op == "nf" || op == "nfhead" || op == "nftail") { int k = c.i(); if (words(*r[k]) > 60 * roomy || order % 16 == 4) return true; while (c.more()) { int x = c.i(); if (x == k || !*r[x] || words(*r[x]) > 30 * roomy) return true; } return false; }
  return false;
}

void PolyM::run(Trace& t) {
  FindList G;
  for (auto& c : t) {
    const std::string op = c.op();
    Obj o; o.str("op", op);
    if (op != "begin" && skip(c, op)) { Obj z; z.str("op", "skip").str("of", op); emit(z.done()); continue; }
    if (op == "begin") { c.s(); o.i("id", std::stoll(c.t[1])); c.s(); r.assign((size_t)c.i(), nullptr); order = c.i(); n = c.i(); roomy = c.more() ? c.i() : 1; o.i("n", n).i("order", order);
      for (size_t k = 0; k < r.size(); k++) r[k] = fresh((int)k); o.i("nr", (long long)r.size()); }
    else if (op == "set") { int k = c.i(); PolyInt* p = fresh(k); std::string in; load(c, al2(k + 1), *p, order, n, &in); put(k, p); o.i("d", k).raw("in", in); }
    else if (op == "const") { int k = c.i(); std::string h = c.s(); put(k, new PolyInt(al2(k), order, n, h.c_str())); Integer ci(&A, h.c_str()); o.i("d", k).raw("c", pc(ci)); }
    else if (op == "mono") { int k = c.i(); int pos = c.i(); auto e = exps(c, n); { Monom m(&A, n, pos); fill(&A, m, e); put(k, new PolyInt(al2(k), order, m)); } o.i("d", k).i("pos", pos).raw("e", jints(e)); }
    else if (op == "copy") { int k = c.i(), a = c.i(); put(k, new PolyInt(al2(k), *r[a])); o.i("d", k).i("a", a); }
    else if (op == "prol") { int k = c.i(), v = c.i(), a = c.i(); PolyInt* p = new PolyInt(al2(k), v, *r[a]); put(k, p); o.i("d", k).i("v", v).i("a", a); }
    else if (op == "assign") { int k = c.i(), a = c.i(); *r[k] = *r[a]; o.i("d", k).i("a", a); }
    else if (op == "moveassign") { int k = c.i(), a = c.i(); *r[k] = std::move(*r[a]); put(a, fresh(a)); o.i("d", k).i("a", a); }
    else if (op == "movec") { int k = c.i(), a = c.i(); PolyInt* p = new PolyInt(std::move(*r[a])); put(a, fresh(a)); put(k, p); o.i("d", k).i("a", a); }
    else if (op == "swap") { int k = c.i(), a = c.i(); r[k]->swap(*r[a]); o.i("d", k).i("a", a); }
    else if (op == "minus") { int k = c.i(); r[k]->minus(); o.i("d", k); }
    else if (op == "add" || op == "sub" || op == "mult") {
      int k = c.i(), a = c.i(); o.i("d", k).i("a", a);
      if (op == "add") r[k]->add(*r[a]); else if (op == "sub") r[k]->sub(*r[a]); else r[k]->mult(*r[a]);
    }
    else if (op == "opadd" || op == "opsub" || op == "opmult") {   // operator forms
      int k = c.i(), a = c.i(), b = c.i(); o.i("d", k).i("a", a).i("b", b);
      PolyInt x(al2(k), *r[a]); PolyInt* p;
      if (op == "opadd") p = new PolyInt(std::move(x) + *r[b]);
      else if (op == "opsub") p = new PolyInt(std::move(x) - *r[b]);
      else p = new PolyInt(std::move(x) * *r[b]);
      put(k, p);
    }
    else if (op == "opneg") { int k = c.i(), a = c.i(); o.i("d", k).i("a", a); PolyInt x(al2(k), *r[a]); PolyInt* p = new PolyInt(-std::move(x)); put(k, p); }
    else if (op == "addc" || op == "subc" || op == "multc") {
      int k = c.i(); std::string h = c.s(); { Integer ci(&A, h.c_str()); o.i("d", k).raw("c", pc(ci)); }
      if (op == "addc") r[k]->add(h.c_str()); else if (op == "subc") r[k]->sub(h.c_str()); else r[k]->mult(h.c_str());
    }
    else if (op == "pow") { int k = c.i(), e = c.i(); o.i("d", k).i("x", e); r[k]->pow(e); }
    else if (op == "red") { int k = c.i(), a = c.i(); o.i("d", k).i("a", a); r[k]->reduction(*r[a]); }
    else if (op == "redmaybe") { int k = c.i(), a = c.i(); o.i("d", k).i("a", a); r[k]->redMaybe(*r[a]); }
    else if (op == "pp") { int k = c.i(); o.i("d", k); r[k]->pp(); }
    else if (op == "gc") { int k = c.i(), a = c.i(); o.i("d", k).i("a", a);
      GCPolyInt g(*r[a]); g.reallocate(); GCPolyInt h(g); 
      PolyInt junk(&A, order, n, "0x1"); 
      for (int z = 0; z < 12; z++) { g.mult(h); if (g.length() > 60) break; }     // make garbage
      g = h; g.reallocate(); h.swap(g);
      put(k, new PolyInt(al2(k), h)); }
    else if (op == "q") { int k = c.i(); o.i("a", k); pattrs(o, *r[k]); }
    else if (op == "cmp") { int a = c.i(), b = c.i(); o.i("a", a).i("b", b).i("cmp", r[a]->cmp(*r[b])).b("comparable", r[a]->comparable(*r[b])); }
    else if (op == "nf" || op == "nfhead" || op == "nftail") {   // d, then divisor registers
      int k = c.i(); std::vector<int> ds; while (c.more()) ds.push_back((int)c.i());
      o.i("d", k).raw("ds", jints(ds));
      { FindList L; for (int x : ds) L.w.push_back(new WrapPolyInt(*r[x]));
        int h = 0, tl = 0;
        if (op != "nftail") h = r[k]->nf(L);
        if (op != "nfhead") { tl = r[k]->nfTail(L); }
        o.b("isnf", r[k]->isNf(L)).b("redh", h > 0).b("redt", tl > 0);
        for (auto w : L.w) delete w; }
    }
    else if (op == "end") { for (auto& x : r) { delete x; x = nullptr; } o.i("live", (long long)(A.size() | B.size())); }
    else { fprintf(stderr, "driver: unknown %s\n", op.c_str()); _exit(97); }
    if (op != "begin" && op != "q" && op != "cmp") o.raw("st", st());
    emit(o.done());
  }
}

// ------------------------------------------------------------- Janet trees
static void walk(Janet::ConstIterator j, std::vector<const Wrap*>& v) {
  while (j) { if (j.wrap()) v.push_back(j.wrap()); if (j.nextVar()) walk(j.nextVar(), v); j.deg(); }
}
struct JanetM {
  void run(Trace& t) {
    int n = 0; Allocator A;
    std::vector<Wrap*> ws;
    GCJanet* J = nullptr; Allocator* JA = nullptr; Janet* P = nullptr; bool gc = false;
    auto tree = [&]() -> Janet& { return gc ? (Janet&)*J : *P; };
    auto idx = [&](const Wrap* w) { for (size_t i = 0; i < ws.size(); i++) if (ws[i] == w) return (int)i + 1; return w ? -1 : 0; };
    for (auto& c : t) {
      const std::string op = c.op(); Obj o; o.str("op", op);
      if (op == "begin") { o.i("id", std::stoll(c.s())); c.s(); n = c.i(); gc = c.i(); o.i("n", n);
        if (gc) J = new GCJanet; else { JA = new Allocator; P = new Janet(JA); } }
      else if (op == "ins") {
        int pos = c.i(); auto e = exps(c, n);
        Monom m(&A, n, pos); fill(&A, m, e);
        const Wrap* w = tree().find(m);
        o.raw("e", jints(e)).i("found", idx(w));
        if (!w) { ws.push_back(new Wrap(m)); tree().insert(ws.back()); }
      }
      else if (op == "find") { auto e = exps(c, n); Monom m(&A, n, -1); fill(&A, m, e); o.raw("e", jints(e)).i("found", idx(tree().find(m))); }
      else if (op == "findbox") { int b = c.i(); std::vector<int> f; o.i("b", b);
        eachOf(n, b, [&](const std::vector<int>& e) { Monom m(&A, n, -1); fill(&A, m, e); f.push_back(idx(tree().find(m))); });
        o.raw("found", jints(f)); }
      else if (op == "copytree") {
        if (gc) { GCJanet* K = new GCJanet(*J); delete J; J = K; }
        else { Allocator* B = new Allocator; Janet* K = new Janet(B, *P); delete P; delete JA; P = K; JA = B; }
      }
      else if (op == "swaptree") {
        if (gc) { GCJanet* K = new GCJanet; K->swap(*J); delete J; J = K; J->reallocate(); }
        else { Allocator* B = new Allocator; Janet* K = new Janet(B); K->swap(*P); delete P; delete B; P = K; }
      }
      else if (op == "hp") { HilbertPoly h; 
        if (gc) { HilbertPoly* hh = new HilbertPoly; tree().buildHP(*hh); o.raw("hp", php(*hh)); delete hh; }
        else { tree().buildHP(h); o.raw("hp", php(h)); } }
#ifdef VT_PICT
      else if (op == "pict") pict::forest(o, pict::Graph([&](const char* f) { tree().draw("dot", f); }));
#endif
      else if (op == "end") {
        if (gc) delete J; else { delete P; o.i("live", (long long)JA->size()); delete JA; }
        for (auto w : ws) delete w; ws.clear(); emit(o.done()); continue; }
      else { fprintf(stderr, "driver: unknown %s\n", op.c_str()); _exit(97); }
      if (op != "find" && op != "findbox") {
        std::vector<std::string> v; std::vector<int> mu;
        for (auto w : ws) { v.push_back("[" + pm(w->lm()) + "," + nmflags(*w) + "," + pw(*w) + "]"); mu.push_back(w->multi()); }
        std::vector<const Wrap*> in; if (tree().begin()) walk(tree().begin(), in);
        std::vector<int> ii; for (auto w : in) ii.push_back(idx(w)); std::sort(ii.begin(), ii.end());
        o.raw("ws", jlist(v)).raw("multi", jints(mu)).raw("reach", jints(ii)).i("size", tree().size());
      }
      emit(o.done());
    }
  }
};

// ------------------------------------------------------- monomial completion
struct ComplM {
  void run(Trace& t) {
    int n = 0; std::string kind;
    Allocator* A = new Allocator; Allocator B;
    MCompletion* M = nullptr; MJanet* MJ = nullptr;
    typedef int (*Cmp)(const Wrap&, const Wrap&);
    for (auto& c : t) {
      const std::string op = c.op(); Obj o; o.str("op", op);
      auto dump = [&]() {
        std::vector<const Wrap*> v;
        if (M) for (ListWrap::ConstIterator j(M->T().begin()); j; ++j) v.push_back(j.data());
        else if (MJ->tree().begin()) walk(MJ->tree().begin(), v);
        std::vector<std::string> s;
        for (auto w : v) s.push_back("[" + pm(w->lm()) + "," + nmflags(*w) + "," + pm(w->ansector()) + "]");
        o.raw("T", jlist(s)).i("size", M ? M->length() : MJ->tree().size());
      };
      if (op == "begin") { o.i("id", std::stoll(c.s())); c.s(); kind = c.s(); n = c.i(); o.str("kind", kind).i("n", n);
        Cmp f = kind == "lex" ? MCompletion::lex : kind == "deglex" ? MCompletion::deglex : kind == "alex" ? MCompletion::alex :
          kind == "lexGB" ? MCompletion::lexGB : kind == "deglexGB" ? MCompletion::deglexGB : kind == "alexGB" ? MCompletion::alexGB : kind == "GB" ? MCompletion::GB : nullptr;
        if (kind == "janet") MJ = new MJanet(A); else M = new MCompletion(A, f); }
      else if (op == "push") { auto e = exps(c, n); Monom m(&B, n, -1); fill(&B, m, e); o.raw("e", jints(e)); 
        bool done = true;
        if (MJ) { if (MJ->tree().find(m)) done = false; else MJ->push(m); } else M->push(m);
        o.b("done", done); dump(); }
      else if (op == "build") { if (M) M->build(); else MJ->build(); dump(); }
      else if (op == "find") { auto e = exps(c, n); Monom m(&B, n, -1); fill(&B, m, e); const Wrap* w = M ? M->find(m) : MJ->tree().find(m);
        o.raw("e", jints(e)).raw("found", w ? pm(w->lm()) : "[]"); }
      else if (op == "findbox") { int b = c.i(); std::vector<std::string> f; o.i("b", b);
        eachOf(n, b, [&](const std::vector<int>& e) { Monom m(&B, n, -1); fill(&B, m, e); const Wrap* w = M ? M->find(m) : MJ->tree().find(m); f.push_back(w ? pm(w->lm()) : "[]"); });
        o.raw("found", jlist(f)); }
      else if (op == "hp") { HilbertPoly h; MJ->tree().buildHP(h); o.raw("hp", php(h)); }
      else if (op == "end") { delete M; delete MJ; o.i("live", (long long)A->size()); delete A; }
      else { fprintf(stderr, "driver: unknown %s\n", op.c_str()); _exit(97); }
      emit(o.done());
    }
  }
};

// ------------------------------------------------------------- GB forest
struct GBM {
  void run(Trace& t) {
    int n = 0; Allocator* A = new Allocator; Allocator B; GB* g = new GB(A);
    std::vector<Wrap*> ws;
    auto idx = [&](const Wrap* w) { for (size_t i = 0; i < ws.size(); i++) if (ws[i] == w) return (int)i + 1; return w ? -1 : 0; };
    for (auto& c : t) {
      const std::string op = c.op(); Obj o; o.str("op", op);
      if (op == "begin") { o.i("id", std::stoll(c.s())); c.s(); n = c.i(); o.i("n", n); }
      else if (op == "ins") { auto e = exps(c, n); Monom m(&B, n, -1); fill(&B, m, e); const Wrap* w = g->find(m);
        o.raw("e", jints(e)).i("found", idx(w)); if (!w) { ws.push_back(new Wrap(m)); g->insert(ws.back()); } }
      else if (op == "prol") {      // prolong wrap k by v (nonmultiplicative), insert unless found
        int k = c.i(), v = c.i(); bool did = false; int f = 0;
        if (k <= (int)ws.size() && (ws[k-1]->NM(v) || ws[k-1]->NMd(v)) && !ws[k-1]->build(v)) {
          Wrap* w = new Wrap(v, ws[k-1]); f = idx(g->find(w->lm()));
          if (f) delete w; else { ws.push_back(w); g->insert(w); } did = true; }
        o.i("k", k).i("v", v).b("did", did).i("found", f); }
      else if (op == "find") { auto e = exps(c, n); Monom m(&B, n, -1); fill(&B, m, e); o.raw("e", jints(e)).i("found", idx(g->find(m))); }
      else if (op == "findbox") { int b = c.i(); std::vector<int> f; o.i("b", b);
        eachOf(n, b, [&](const std::vector<int>& e) { Monom m(&B, n, -1); fill(&B, m, e); f.push_back(idx(g->find(m))); });
        o.raw("found", jints(f)); }
#ifdef VT_PICT
      else if (op == "pict") pict::forest(o, pict::Graph([&](const char* f) { g->draw("dot", f); }));
#endif
      else if (op == "end") { delete g; o.i("live", (long long)A->size()); delete A; for (auto w : ws) delete w; emit(o.done()); continue; }
      else { fprintf(stderr, "driver: unknown %s\n", op.c_str()); _exit(97); }
      std::vector<std::string> s;
      for (auto w : ws) { std::vector<int> d; for (int i = 0; i < n; i++) d.push_back(w->NMd(i) ? 1 : 0);
        s.push_back("[" + pm(w->lm()) + "," + nmflags(*w) + "," + jints(d) + "," + pm(w->ansector()) + "," + pw(*w) + "," + jbool(w->isGB()) + "," + std::to_string(w->multi()) + "]"); }
      o.raw("ws", jlist(s)).i("size", g->size());
      emit(o.done());
    }
  }
};

// -------------------------------------------------------- involutive bases
struct SysM {
  void run(Trace& t) {
    int n = 0, N = 0, order = 0; Allocator* A = new Allocator;
    JanetPolyInt* J = new JanetPolyInt;
    size_t cm0 = 0;
    for (auto& c : t) {
      const std::string op = c.op(); Obj o; o.str("op", op);
      if (op == "begin") { o.i("id", std::stoll(c.s())); c.s(); order = c.i(); n = c.i();
        WIDE = 0; EMB.clear(); POSS.clear(); if (c.more()) { WIDE = c.i(); for (int i = 0; i < n; i++) EMB.push_back(c.i()); while (c.more()) POSS.push_back(c.i()); }
        N = WIDE ? WIDE : n; o.i("n", n).i("order", order); }
      else if (op == "push") { PolyInt p(A, order, N); std::string in; PolyM::load(c, A, p, order, n, &in); bool cmp = J->comparable(p); J->push(p); o.raw("p", pp(p)).b("cmp", cmp); }
      else if (op == "build") { int alg = c.i(); 
        if (alg == 0) J->build(); else if (alg == 1) J->algorithmTQ(); else if (alg == 2) J->algorithmTQ1(); else if (alg == 3) J->algorithmTQ2(); else J->algorithmBlockTQ();
        o.i("alg", alg).i("size", J->size()).b("one", J->isOne()).i("maxpos", ofPos(J->maxPos()));
        std::vector<std::string> v; std::vector<const Wrap*> inT; std::vector<int> mk;
        for (GCListWrapPolyInt::ConstIterator j(J->begin()); j; ++j) {
          v.push_back("[" + pm(j.data()->lm()) + "," + nmflags(*j.data()) + "," + pm(j.data()->ansector()) + "," + pp(j.data()->poly()) + "]");
          inT.push_back(j.data()); mk.push_back(j.data()->isGB()); }
        o.raw("T", jlist(v)).raw("mk", jints(mk));
        // the trees hold exactly the elements of T, each under its own component
        bool ok = true; size_t cnt = 0;
        if (!J->isOne() && J->size() > 0)
          for (int p = -1; p <= J->maxPos(); p++) {
            std::vector<const Wrap*> in; if (J->janet(p).begin()) walk(J->janet(p).begin(), in);
            if ((int)in.size() != J->janet(p).size()) ok = false;
            for (auto w : in) { cnt++; if (w->lm().pos() != p || std::find(inT.begin(), inT.end(), w) == inT.end()) ok = false; } }
        if (cnt != inT.size()) ok = false;
        o.b("trees", ok);
      }
      else if (op == "nf") { PolyInt p(A, order, N); std::string in; PolyM::load(c, A, p, order, n, &in); o.raw("p", pp(p)); J->nf(p); o.raw("r", pp(p)); }
      else if (op == "find") { int pos = c.i(); auto e = exps(c, n); Monom m(A, N, toPos(pos)); fill(A, m, wide(e)); WrapPolyInt* w = J->find(m); std::vector<int> v; v.push_back(pos); v.insert(v.end(), e.begin(), e.end());
        o.raw("m", jints(v)).raw("found", w ? pm(w->lm()) : "[]"); }
      else if (op == "hp") { bool has = !J->isOne() && J->size() > 0; o.b("has", has); if (has) { HilbertPoly* h = new HilbertPoly; J->buildHP(*h); o.raw("hp", php(*h)); delete h; } else o.raw("hp", "[]");
        std::vector<std::string> hs;          // each component by its own tree
        if (has) for (int p = -1; p <= J->maxPos(); p++) if (J->janet(p).size()) { HilbertPoly h; J->janet(p).buildHP(h); hs.push_back("[" + std::to_string(p) + "," + php(h) + "]"); }
        o.raw("hps", jlist(hs)); }
      else if (op == "end") { delete J; o.i("live", (long long)A->size()); delete A; o.i("curr", (long long)Allocator::currMemory() - (long long)cm0); }
      else { fprintf(stderr, "driver: unknown %s\n", op.c_str()); _exit(97); }
      emit(o.done());
    }
  }
};

int main(int argc, char** argv) {
  memory() = [] { return (long)Allocator::currMemory(); };
  return main_loop(argc, argv, [](Trace& t) {
    WIDE = 0;
    std::string k = t[0].t.size() > 2 ? t[0].t[2] : "";
    if (k == "monom") { MonomM m; m.run(t); }
    else if (k == "poly") { PolyM m; m.run(t); }
    else if (k == "janet") { JanetM m; m.run(t); }
    else if (k == "compl") { ComplM m; m.run(t); }
    else if (k == "gb") { GBM m; m.run(t); }
    else if (k == "sys") { SysM m; m.run(t); }
    else { fprintf(stderr, "driver: unknown section %s\n", k.c_str()); _exit(97); }
  });
}
