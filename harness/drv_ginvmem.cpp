// Driver for garbage-collected values of every container and algebraic type
// (GInv::GC<T>, GCPolyInt): each value owns an arena; the log shows the value, the
// bytes used in and reserved by its arena, and the process-wide counter.
#include "vt.hpp"
#include "util/integer.h"
#include "util/list.h"
#include "util/rbtree.h"
#include "ginv/monom.h"
#include "ginv/poly_int.h"
#include "ginv/janet.h"
using namespace GInv;
using namespace vt;

static int order = 0x12, nv = 3;
static std::string pm(const Monom& m) {
  std::vector<int> v; v.push_back(m.pos());
  for (int i = 0; i < m.size(); i++) v.push_back(m[i]);
  return jints(v);
}
static std::vector<int> exps(Cmd& c) { std::vector<int> e; for (int i = 0; i < nv; i++) e.push_back((int)c.i()); return e; }
static void fill(Allocator* al, Monom& m, const std::vector<int>& e) {
  for (size_t v = 0; v < e.size(); v++)
    if (e[v] > 0) { Monom x(al, (int)v, (int)e.size(), -1); Monom y(al, x, e[v]); m.mult(y); }
}

struct Box {
  virtual ~Box() {}
  virtual std::string val() = 0;
  virtual bool empty() { return false; }
  virtual size_t used() = 0;
  virtual size_t reserved() = 0;
  virtual void mut(Cmd& c, Box* b) = 0;
  virtual Box* copy() = 0;
  virtual void assign(Box* b) = 0;
  virtual void swap(Box* b) = 0;
  virtual void collect() = 0;
};
template <typename T, typename D> struct GBox: Box {
  T* g;
  GBox(T* x): g(x) {}
  ~GBox() { delete g; }
  static T& of(Box* b) { return *((GBox*)b)->g; }
  size_t used() { return g->size(); }
  size_t reserved() { return g->alloc(); }
  Box* copy() { return new D(new T(*g)); }
  void assign(Box* b) { *g = of(b); }
  void swap(Box* b) { g->swap(of(b)); }
  void collect() { g->reallocate(); }
};

typedef GC<Integer> GI;
struct IBox: GBox<GI, IBox> {
  IBox(GI* x): GBox(x) {}
  std::string val() { return g->get_str(16); }
  void mut(Cmd& c, Box* b) {
    std::string k = c.s();
    Allocator A[1];
    if (k == "set") { std::string s = c.s(); Integer x(A, s.c_str()); *(Integer*)g = (const Integer&)x; }
    else if (k == "add") g->add(of(b)); else if (k == "sub") g->sub(of(b));
    else if (k == "mult") { if (g->norm() + of(b).norm() < 60) g->mult(of(b)); }
    else if (k == "div") { if (!of(b).isZero() && g->divisible(of(b))) g->div(of(b)); }
    else if (k == "neg") g->set_neg();
    else if (k == "si") g->set_si((long)c.i());
  }
};
typedef GC<Monom> GM;
struct MBox: GBox<GM, MBox> {
  MBox(GM* x): GBox(x) {}
  std::string val() { return pm(*g) + std::to_string(g->degree()); }
  void mut(Cmd& c, Box* b) {
    std::string k = c.s();
    Allocator A[1];
    if (k == "set") { int p = c.i(); auto e = exps(c); Monom m(A, nv, p); fill(A, m, e); *(Monom*)g = (const Monom&)m; }
    else if (k == "mult") { if (of(b).pos() == -1 && g->degree() + of(b).degree() < 100000) g->mult(of(b)); }
    else if (k == "div") { if (of(b).pos() == -1 && g->divisiable(of(b))) g->div(of(b)); }
  }
};
struct GP: GCPolyInt {
  GP(const PolyInt& p): GCPolyInt(p) {}
  GP(const GP& p): GCPolyInt(p) {}
  void operator=(const GP& a) { GCPolyInt::operator=(a); }
  size_t size() { return allocator()->size(); }
  size_t alloc() { return allocator()->alloc(); }
};
struct PBox: GBox<GP, PBox> {
  PBox(GP* x): GBox(x) {}
  std::string val() { std::string s; for (PolyInt::ConstIterator i(g->begin()); i; ++i) s += pm(i.monom()) + i.coeff().get_str(16) + " "; return s; }
  bool empty() { return g->isZero(); }
  static void load(Cmd& c, Allocator* A, PolyInt& p) {
    int k = c.i();
    for (int i = 0; i < k; i++) {
      std::string co = c.s(); int pos = c.i(); auto e = exps(c);
      Monom m(A, nv, pos); fill(A, m, e); PolyInt q(A, order, m); q.mult(co.c_str()); p.add(q);
    }
  }
  void mut(Cmd& c, Box* b) {
    std::string k = c.s();
    Allocator A[1];
    if (k == "set") { PolyInt p(A, order, nv); load(c, A, p); *(PolyInt*)g = (const PolyInt&)p; }
    else if (k == "add") g->add(of(b)); else if (k == "sub") { if (this != b) g->sub(of(b)); }
    else if (k == "mult") { if (g->length() * of(b).length() < 60 && g->norm() + of(b).norm() < 60) g->mult(of(b)); }
    else if (k == "hex") { std::string s = c.s(); if (g->norm() < 60) g->mult(s.c_str()); }
    else if (k == "addhex") { std::string s = c.s(); g->add(s.c_str()); }
    else if (k == "subhex") { std::string s = c.s(); g->sub(s.c_str()); }
    else if (k == "neg") g->minus(); else if (k == "pp") { if (!g->isZero()) g->pp(); }
    else if (k == "pow") { int d = c.i(); if (g->length() < 4 && g->norm() < 10) g->pow(d); }
    else if (k == "red") { if (this != b && !g->isZero() && !of(b).isZero() && g->norm() + of(b).norm() < 80 && g->lm().divisiable(of(b).lm())) g->reduction(of(b)); }
    else if (k == "redmaybe") { if (this != b && !g->isZero() && !of(b).isZero() && g->norm() + of(b).norm() < 80) g->redMaybe(of(b)); }
  }
};
typedef GC<List<int> > GL;
struct LBox: GBox<GL, LBox> {
  LBox(GL* x): GBox(x) {}
  std::string val() { std::string s; for (List<int>::ConstIterator i(((const GL*)g)->begin()); i; ++i) s += std::to_string(i.data()) + " "; return s; }
  bool empty() { return !*g; }
  void mut(Cmd& c, Box* b) {
    std::string k = c.s();
    if (k == "push") g->push((int)c.i());
    else if (k == "pop") { if (*g) g->pop(); }
    else if (k == "ins" || k == "del") { int at = c.i(); List<int>::Iterator i(g->begin()); while (i && at-- > 0) ++i; if (k == "ins") i.insert((int)c.i()); else if (i) i.del(); }
    else if (k == "clear") { for (List<int>::Iterator i(g->begin()); i; i.del()) ; }
  }
};
static int cmpi(const int a, const int b) { return a < b ? -1 : a > b; }
typedef RBTree<int, cmpi> RT;
struct GT: AllocatorPtr {             // the tree in an arena of its own, collected by copying
  RT* t;
  GT() { t = new RT(allocator()); }
  GT(const GT& a) { t = new RT(*a.t, allocator()); }
  ~GT() { delete t; }
  void operator=(const GT& a) { *t = *a.t; }
  void swap(GT& a) { AllocatorPtr::swap(a); t->swap(*a.t); }
  void reallocate() { if (allocator()->isGC()) { GT a(*this); swap(a); } }
  size_t size() { return allocator()->size(); }
  size_t alloc() { return allocator()->alloc(); }
};
struct TBox: GBox<GT, TBox> {
  TBox(GT* x): GBox(x) {}
  std::string val() { std::string s; for (RT::ConstIterator i = g->t->minimum(); i; ++i) s += std::to_string(i.key()) + " "; return s + std::to_string(g->t->length()); }
  bool empty() { return !*g->t; }
  void mut(Cmd& c, Box* b) {
    std::string k = c.s();
    if (k == "ins") { int x = c.i(); if (!g->t->find(x)) g->t->insert(x); }
    else if (k == "del") { int x = c.i(); if (g->t->find(x)) g->t->remove(x); }
    else if (k == "clear") g->t->clear();
  }
};
static std::vector<Wrap*> ws;         // the elements of the Janet trees, in arenas of their own
static long wsbytes = 0;
struct JBox: GBox<GCJanet, JBox> {
  JBox(GCJanet* x): GBox(x) {}
  static void walk(Janet::ConstIterator i, std::string& s) {
    s += "(";
    while (i) {
      s += std::to_string(i.degree());
      if (i.wrap()) s += pm(i.wrap()->lm());
      if (i.nextVar()) walk(i.nextVar(), s);
      if (!i.nextDeg()) break;
      i.deg();
    }
    s += ")";
  }
  std::string val() { std::string s; walk(g->begin(), s); return s; }
  bool empty() { return !g->begin(); }
  void mut(Cmd& c, Box* b) {
    std::string k = c.s();
    if (k == "ins") { Allocator A[1]; auto e = exps(c); Monom m(A, nv, -1); fill(A, m, e);
      if (!g->find(m)) { long b0 = (long)Allocator::currMemory(); ws.push_back(new Wrap(m)); wsbytes += (long)Allocator::currMemory() - b0; g->insert(ws.back()); } }
  }
};

static void run(Trace& t) {
  std::vector<Box*> r; std::string kind; long base = (long)Allocator::currMemory();
  for (auto& c : t) {
    const std::string op = c.op();
    Obj o; o.str("op", op);
    if (op == "begin") { o.i("id", std::stoll(c.s())); c.s(); r.assign((size_t)c.i(), nullptr); kind = c.s(); order = c.i(); nv = c.i(); o.i("nr", (long long)r.size()).str("kind", kind); }
    else if (op == "new") { int d = c.i(); o.i("d", d); delete r[d]; r[d] = nullptr;
      if (kind == "int") r[d] = new IBox(new GI);
      else if (kind == "mon") { Allocator A[1]; Monom m(A, nv, -1); r[d] = new MBox(new GM(m)); }
      else if (kind == "poly") { Allocator A[1]; PolyInt p(A, order, nv); r[d] = new PBox(new GP(p)); }
      else if (kind == "list") r[d] = new LBox(new GL);
      else if (kind == "tree") r[d] = new TBox(new GT);
      else r[d] = new JBox(new GCJanet); }
    else if (op == "mut") { int d = c.i(), a = c.i(); o.i("d", d).i("a", a); r[d]->mut(c, r[a]); }
    else if (op == "copy") { int d = c.i(), a = c.i(); o.i("d", d).i("a", a); Box* x = r[a]->copy(); delete r[d]; r[d] = x; }
    else if (op == "assign") { int d = c.i(), a = c.i(); o.i("d", d).i("a", a); r[d]->assign(r[a]); }
    else if (op == "swap") { int d = c.i(), a = c.i(); o.i("d", d).i("a", a); r[d]->swap(r[a]); }
    else if (op == "collect") { int d = c.i(); o.i("d", d); r[d]->collect(); }
    else if (op == "drop") { int d = c.i(); o.i("d", d); delete r[d]; r[d] = nullptr; }
    else if (op == "end") { for (auto& x : r) { delete x; x = nullptr; } for (auto w : ws) delete w; ws.clear(); wsbytes = 0; }
    else { fprintf(stderr, "driver: unknown %s\n", op.c_str()); _exit(97); }
    std::vector<std::string> v;
    for (auto x : r)
      if (!x) v.push_back("[]");
      else { Obj q; q.str("val", x->val()).b("empty", x->empty()).i("used", (long long)x->used()).i("alloc", (long long)x->reserved()); v.push_back("[" + q.done() + "]"); }
    o.raw("st", jlist(v));
    o.i("curr", (long long)Allocator::currMemory() - base - wsbytes);
    emit(o.done());
  }
}
int main(int argc, char** argv) {
  memory() = [] { return (long)Allocator::currMemory(); }; return main_loop(argc, argv, [](Trace& t) { run(t); }); }
