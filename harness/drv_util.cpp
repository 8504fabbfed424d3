// Conformance driver for /repo/util: lists, red-black trees, stacks, arenas,
// integers, Hilbert polynomials, permutations and timers, through their public
// interfaces only.
#include "vt.hpp"
#include <memory>
#include <map>
#include <cmath>
#include <sys/times.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include "util/allocator.h"
#include "util/list.h"
#include "util/rbtree.h"
#include "util/stack.h"
#include "util/integer.h"
#include "util/hilbertpoly.h"
#include "util/randpermutation.h"
#include "util/timer.h"
#ifdef VT_PICT
#include "pict.hpp"
#endif
using namespace GInv;
using namespace vt;

// ------------------------------------------------------------ virtual clock
// While `virt` is set every clock of the process reads these ticks (1/100 s).
static bool virt = false;
static long long vr = 0, vu = 0, vs = 0;
static const long long R0 = 178000000LL;      // uptime before the trace starts
extern "C" clock_t times(struct tms* b) {
  if (!virt) return (clock_t)syscall(SYS_times, b);
  if (b) { b->tms_utime = (clock_t)(1000 + vu); b->tms_stime = (clock_t)(500 + vs); b->tms_cutime = 70 + 3 * vu; b->tms_cstime = 40 + 5 * vs; }
  return (clock_t)(R0 + vr);
}
static void ts(struct timespec* t, long long ticks) { t->tv_sec = ticks / 100; t->tv_nsec = (ticks % 100) * 10000000L; }
extern "C" int clock_gettime(clockid_t id, struct timespec* t) {
  if (!virt) return (int)syscall(SYS_clock_gettime, id, t);
  if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) ts(t, 1500 + vu + vs); else ts(t, R0 + vr);
  return 0;
}
extern "C" int gettimeofday(struct timeval* t, void*) {
  struct timespec x; clock_gettime(CLOCK_REALTIME, &x); t->tv_sec = x.tv_sec; t->tv_usec = x.tv_nsec / 1000; return 0;
}
extern "C" int getrusage(int who, struct rusage* r) {
  if (!virt) return (int)syscall(SYS_getrusage, who, r);
  memset(r, 0, sizeof *r);
  r->ru_utime.tv_sec = (1000 + vu) / 100; r->ru_utime.tv_usec = (1000 + vu) % 100 * 10000;
  r->ru_stime.tv_sec = (500 + vs) / 100; r->ru_stime.tv_usec = (500 + vs) % 100 * 10000;
  return 0;
}

// -------------------------------------------------------------------- lists
struct ListM {
  typedef List<int> L;
  Allocator A, B;
  std::vector<L*> l;
  std::vector<L::Iterator> it;
  std::vector<L::ConstIterator> ci;
  static std::string rest(L::ConstIterator i) {
    std::vector<int> v;
    for (int n = 0; i && n < 10000; ++i, n++) v.push_back(i.data());
    return jints(v);
  }
  std::string st() {
    std::vector<std::string> v;
    for (auto x : l) {
      if (!x) { v.push_back("[]"); continue; }
      const L& cx = *x;
      std::vector<int> byit;
      for (L::Iterator i = x->begin(); i; ++i) byit.push_back(i.data());
      v.push_back("[" + rest(cx.begin()) + "," + jints(byit) + "," + jint((long long)x->length()) + "," + jbool((bool)*x) + "," + jint(*x ? x->head() : -1) + "]");
    }
    return jlist(v);
  }
  void run(Trace& t) {
    for (auto& c : t) {
      const std::string op = c.op();
      Obj o; o.str("op", op);
      if (op == "begin") { o.i("id", c.i()); c.s(); l.assign(c.i(), nullptr); it.assign(c.i(), L::Iterator()); ci.assign(c.i(), L::ConstIterator()); o.i("nl", l.size()).i("ni", it.size()).i("nc", ci.size()); emit(o.done()); continue; }
      if (op == "end") {
        for (auto& x : l) { delete x; x = nullptr; }
        o.i("a", A.size()).i("b", B.size());
      }
      else if (op == "new") { int d = c.i(), ar = c.i(); delete l[d]; l[d] = new L(ar ? &B : &A); o.i("d", d).i("ar", ar); }
      else if (op == "copy") { int d = c.i(), a = c.i(), ar = c.i(); L* x = new L(ar ? &B : &A, *l[a]); delete l[d]; l[d] = x; o.i("d", d).i("a", a).i("ar", ar); }
      else if (op == "movec") { int d = c.i(), a = c.i(); L* x = new L(std::move(*l[a])); delete l[d]; l[d] = x; o.i("d", d).i("a", a); }
      else if (op == "movea") { int d = c.i(), a = c.i(); *l[d] = std::move(*l[a]); o.i("d", d).i("a", a); }
      else if (op == "assign") { int d = c.i(), a = c.i(); *l[d] = (const L&)*l[a]; o.i("d", d).i("a", a); }
      else if (op == "swap") { int d = c.i(), a = c.i(); l[d]->swap(*l[a]); o.i("d", d).i("a", a); }
      else if (op == "clear") { int d = c.i(); l[d]->clear(); o.i("d", d); }
      else if (op == "push") { int d = c.i(), v = c.i(); l[d]->push(v); o.i("d", d).i("v", v); }
      else if (op == "pushn") { int d = c.i(), v = c.i(), n = c.i(); for (int k = 0; k < n; k++) l[d]->push(v + k); o.i("d", d).i("v", v).i("n", n); }
      else if (op == "inextn") { int k = c.i(), n = c.i(); for (int h = 0; h < n; h++) ++it[k]; o.i("k", k).i("n", n); }
      else if (op == "pop") { int d = c.i(); o.i("d", d).i("got", l[d]->pop()); }
      else if (op == "ibegin") { int k = c.i(), a = c.i(); it[k] = l[a]->begin(); o.i("k", k).i("a", a); }
      else if (op == "icopy") { int k = c.i(), j = c.i(); L::Iterator x(it[j]); it[k] = x; o.i("k", k).i("j", j).b("eq", it[k] == it[j]).b("ne", it[k] != it[j]); }
      else if (op == "inext") { int k = c.i(); ++it[k]; o.i("k", k); }
      else if (op == "iset") { int k = c.i(), v = c.i(); it[k].data() = v; o.i("k", k).i("v", v); }
      else if (op == "ins") { int k = c.i(), v = c.i(); it[k].insert(v); o.i("k", k).i("v", v); }
      else if (op == "del") { int k = c.i(); it[k].del(); o.i("k", k); }
      else if (op == "iclear") { int k = c.i(); it[k].clear(); o.i("k", k); }
      else if (op == "get") { int k = c.i(), j = c.i(); ci[j] = it[k].get(); o.i("k", k).i("j", j).raw("held", rest(ci[j])); }
      else if (op == "splice") { int k = c.i(), j = c.i(); it[k].insert(ci[j]); o.i("k", k).i("j", j); }
      else if (op == "cbegin") { int j = c.i(), a = c.i(); ci[j] = ((const L*)l[a])->begin(); o.i("j", j).i("a", a); }
      else if (op == "cfrom") { int j = c.i(), k = c.i(); L::ConstIterator y(it[k]), z(y); ci[j] = z; o.i("j", j).i("k", k); }
      else if (op == "cnext") { int j = c.i(); ++ci[j]; o.i("j", j); }
      else if (op == "cset") { int j = c.i(), v = c.i(); ci[j].data() = v; o.i("j", j).i("v", v); }
      else if (op == "qi") { int k = c.i(); o.i("k", k).b("on", (bool)it[k]).raw("rest", rest(it[k])); }
      else if (op == "qc") { int j = c.i(); o.i("j", j).b("on", (bool)ci[j]).raw("rest", rest(ci[j])); }
      else if (op == "ieq") { int k = c.i(), j = c.i(); o.i("k", k).i("j", j).b("eq", it[k] == it[j]).b("ne", it[k] != it[j]); }
      else if (op == "ceq") { int k = c.i(), j = c.i(); o.i("k", k).i("j", j).b("eq", ci[k] == ci[j]).b("ne", ci[k] != ci[j]); }
      else { fprintf(stderr, "list: %s\n", op.c_str()); _exit(97); }
      o.raw("st", st());
      emit(o.done());
    }
  }
};

// --------------------------------------------------------- red-black trees
static int icmp(const int a, const int b) { return a < b ? -7 : a > b ? 3 : 0; }
struct TreeM {
  typedef RBTree<int, icmp> T;
  Allocator A, B;
  std::vector<T*> r;
  static std::string shape(T::ConstIterator i, int depth) {
    if (!i || depth > 60) return "[]";
    return "[" + jint(i.color() == T::Red ? 1 : 0) + "," + jint(i.key()) + "," + shape(i.left(), depth + 1) + "," + shape(i.right(), depth + 1) + "]";
  }
  std::string st() {
    std::vector<std::string> v;
    for (auto x : r) {
      if (!x) { v.push_back("[]"); continue; }
      std::vector<int> up, down;
      size_t n = 0;
      for (T::ConstIterator i = x->minimum(); i && n < 20000; ++i, n++) up.push_back(i.key());
      n = 0;
      for (T::ConstIterator i = x->maximum(); i && n < 20000; --i, n++) down.push_back(i.key());
      v.push_back("[" + shape(x->root(), 0) + "," + jints(up) + "," + jints(down) + "," + jint(x->length()) + "," + jbool((bool)*x) + "]");
    }
    return jlist(v);
  }
  static std::string k(T::ConstIterator i) { return i ? jint(i.key()) : "-1"; }
  void run(Trace& t) {
    for (auto& c : t) {
      const std::string op = c.op();
      Obj o; o.str("op", op);
      if (op == "begin") { o.i("id", c.i()); c.s(); r.assign(c.i(), nullptr); o.i("nt", r.size()); emit(o.done()); continue; }
      if (op == "end") { for (auto& x : r) { delete x; x = nullptr; } o.i("a", A.size()).i("b", B.size()); }
      else if (op == "new") { int d = c.i(), ar = c.i(); delete r[d]; r[d] = new T(ar ? &B : &A); o.i("d", d); }
      else if (op == "copy") { int d = c.i(), a = c.i(), ar = c.i(); T* x = new T(*r[a], ar ? &B : &A); delete r[d]; r[d] = x; o.i("d", d).i("a", a); }
      else if (op == "movec") { int d = c.i(), a = c.i(); T* x = new T(std::move(*r[a])); delete r[d]; r[d] = x; o.i("d", d).i("a", a); }
      else if (op == "assign") { int d = c.i(), a = c.i(); *r[d] = (const T&)*r[a]; o.i("d", d).i("a", a); }
      else if (op == "swap") { int d = c.i(), a = c.i(); r[d]->swap(*r[a]); o.i("d", d).i("a", a); }
      else if (op == "clear") { int d = c.i(); r[d]->clear(); o.i("d", d); }
      else if (op == "ins") { int d = c.i(), x = c.i(); r[d]->insert(x); o.i("d", d).i("x", x); }
      else if (op == "rem") { int d = c.i(), x = c.i(); r[d]->remove(x); o.i("d", d).i("x", x); }
      else if (op == "inss" || op == "rems") { int d = c.i(); std::vector<int> v; while (c.more()) v.push_back(c.i()); for (int x : v) if (op == "inss") r[d]->insert(x); else r[d]->remove(x); o.i("d", d).raw("xs", jints(v)); }
      else if (op == "remit") { int d = c.i(), x = c.i(); r[d]->remove(r[d]->find(x)); o.i("d", d).i("x", x); }
      else if (op == "remmin") { int d = c.i(); r[d]->remove(r[d]->minimum()); o.i("d", d); }
      else if (op == "remmax") { int d = c.i(); r[d]->remove(r[d]->maximum()); o.i("d", d); }
      else if (op == "probe") {
        int d = c.i(); std::vector<std::string> v;
        while (c.more()) { int x = c.i(); v.push_back("[" + jint(x) + "," + k(r[d]->find(x)) + "," + k(r[d]->findPrev(x)) + "," + k(r[d]->findNext(x)) + "]"); }
        o.i("d", d).raw("p", jlist(v)).raw("min", k(r[d]->minimum())).raw("max", k(r[d]->maximum()))
         .i("mink", *r[d] ? r[d]->minimumKey() : -1).i("maxk", *r[d] ? r[d]->maximumKey() : -1);
      }
#ifdef VT_PICT
      else if (op == "pict") { int d = c.i(); o.i("d", d); pict::tree(o, pict::Graph([&](const char* f) { r[d]->draw("dot", f); })); }
#endif
      else { fprintf(stderr, "tree: %s\n", op.c_str()); _exit(97); }
      o.raw("st", st());
      emit(o.done());
    }
  }
};

// ------------------------------------------------------------------- stacks
struct StackM {
  typedef Stack<long> S;
  Allocator A, B;
  std::vector<S*> r;
  std::string st() {
    std::vector<std::string> v;
    for (auto x : r) {
      if (!x) { v.push_back("[]"); continue; }
      std::vector<long> e;
      for (size_t i = 0; i < x->deep(); i++) e.push_back((*x)[i]);
      v.push_back("[" + jints(e) + "," + jint(x->deep()) + "," + jint(x->size()) + "," + jbool((bool)*x) + "," + jint(x->deep() ? x->top() : -1) + "]");
    }
    return jlist(v);
  }
  void run(Trace& t) {
    for (auto& c : t) {
      const std::string op = c.op();
      Obj o; o.str("op", op);
      if (op == "begin") { o.i("id", c.i()); c.s(); r.assign(c.i(), nullptr); o.i("ns", r.size()); emit(o.done()); continue; }
      if (op == "end") { for (auto& x : r) { delete x; x = nullptr; } o.i("a", A.size()).i("b", B.size()); }
      else if (op == "new") { int d = c.i(), cap = c.i(), ar = c.i(); delete r[d]; r[d] = new S(cap, ar ? &B : &A); o.i("d", d).i("cap", cap); }
      else if (op == "copy") { int d = c.i(), a = c.i(), ar = c.i(); S* x = new S(*r[a], ar ? &B : &A); delete r[d]; r[d] = x; o.i("d", d).i("a", a); }
      else if (op == "assign") { int d = c.i(), a = c.i(); *r[d] = (const S&)*r[a]; o.i("d", d).i("a", a); }
      else if (op == "swap") { int d = c.i(), a = c.i(); r[d]->swap(*r[a]); o.i("d", d).i("a", a); }
      else if (op == "push") { int d = c.i(), v = c.i(); r[d]->push(v); o.i("d", d).i("v", v); }
      else if (op == "pushn") { int d = c.i(), v = c.i(), n = c.i(); for (int k = 0; k < n; k++) r[d]->push(v + k); o.i("d", d).i("v", v).i("n", n); }
      else if (op == "popn") { int d = c.i(), n = c.i(); for (int k = 0; k < n; k++) r[d]->pop(); o.i("d", d).i("n", n); }
      else if (op == "pop") { int d = c.i(); r[d]->pop(); o.i("d", d); }
      else if (op == "reset") { int d = c.i(); r[d]->reset(); o.i("d", d); }
      else { fprintf(stderr, "stack: %s\n", op.c_str()); _exit(97); }
      o.raw("st", st());
      emit(o.done());
    }
  }
};

// ------------------------------------------------------------------- arenas
struct Tracked { static int alive; unsigned char b[24]; Tracked() { alive++; } ~Tracked() { alive--; } };
int Tracked::alive = 0;
struct ArenaM {
  struct Blk { unsigned char* p; size_t n; int ar; int pat; int kind; int cnt; };   // kind 0 raw, 1 object, 2 array, 3 array with destructor
  std::vector<Allocator*> a;
  std::vector<Blk> b;
  unsigned char* base = nullptr;
  static int look(const Blk& x) {
    for (size_t i = 1; i < x.n; i++) if (x.p[i] != x.p[0]) return -1;
    return x.p[0];
  }
  std::string st() {
    std::vector<std::string> v;
    for (auto x : a) v.push_back(x ? "[" + jint(x->alloc()) + "," + jint(x->size()) + "," + jbool(x->isGC()) + "]" : "[]");
    std::vector<int> seen;
    for (auto& x : b) seen.push_back(x.p ? look(x) : -2);
    return "[" + jlist(v) + "," + jints(seen) + "," + jint(Allocator::currMemory()) + "," + jint(Allocator::maxMemory()) + "]";
  }
  void addr(Obj& o, unsigned char* p) {
    if (!base) base = p;
    long long d = (long long)((long long)(uintptr_t)p - (long long)(uintptr_t)base);
    long long hi = d >= 0 ? d >> 24 : -((-d + 0xffffff) >> 24), lo = d - hi * (1LL << 24);
    o.i("hi", hi).i("lo", lo).i("al", (long long)((uintptr_t)p % 16));
  }
  Blk get(Cmd& c, int ar, int kind, long n, int pat) {
    Blk x; x.ar = ar; x.kind = kind; x.pat = pat; x.cnt = 1;
    if (kind == 0) { x.p = (unsigned char*)a[ar]->allocate(n); x.n = n; }
    else if (kind == 1) { struct O { unsigned char b[40]; }; O* q = new (a[ar]) O; x.p = (unsigned char*)q; x.n = sizeof(O); }
    else if (kind == 2 || kind == 4) { x.p = (unsigned char*)(new (a[ar]) unsigned long[n]); x.n = n * sizeof(unsigned long); x.cnt = n; }   // kind 4 is given back by destroy
    else { x.p = (unsigned char*)(new (a[ar]) Tracked[n]); x.n = n * sizeof(Tracked); x.cnt = n; }
    return x;
  }
  void run(Trace& t) {
    long P = getpagesize() + 32;
    size_t c0 = Allocator::currMemory(), m0 = Allocator::maxMemory();
    for (auto& c : t) {
      const std::string op = c.op();
      Obj o; o.str("op", op);
      if (op == "begin") { o.i("id", c.i()); c.s(); a.assign(c.i(), nullptr); o.i("na", a.size()).i("page", P).i("curr", c0).i("max", m0); emit(o.done()); continue; }
      if (op == "end") {
        for (auto& x : b) if (x.p) { fr(x); }
        for (auto& x : a) { delete x; x = nullptr; }
        b.clear();
        o.i("curr", Allocator::currMemory()).i("alive", Tracked::alive);
        emit(o.done());
        continue;
      }
      else if (op == "new") { int d = c.i(); a[d] = new Allocator; o.i("d", d); }
      else if (op == "copy") { int d = c.i(), s = c.i(); a[d] = new Allocator(*a[s]); o.i("d", d).i("a", s); }
      else if (op == "swap") { int d = c.i(), s = c.i(); a[d]->swap(*a[s]); for (auto& x : b) x.ar = x.ar == d ? s : x.ar == s ? d : x.ar; o.i("d", d).i("a", s); }
      else if (op == "drop") { int d = c.i(); for (auto& x : b) if (x.p && x.ar == d) fr(x); delete a[d]; a[d] = nullptr; for (auto& x : b) if (x.ar == d) x.ar = -1; o.i("d", d); }
      else if (op == "get") {
        int d = c.i(), kind = c.i(); long n = c.i(); int pat = c.i();
        Blk x = get(c, d, kind, n, pat);
        memset(x.p, pat, x.n);
        // a destructor cookie, if any, lies in front of the array
        b.push_back(x);
        o.i("d", d).i("kind", kind).i("n", kind == 3 ? (long long)x.n + 8 : (long long)x.n).i("len", x.n).i("pat", pat);
        addr(o, kind == 3 ? x.p - 8 : x.p);
      }
      else if (op == "free") { int k = c.i(); o.i("k", k).i("d", b[k].ar); fr(b[k]); }
      else if (op == "write") { int k = c.i(), pat = c.i(); memset(b[k].p, pat, b[k].n); b[k].pat = pat; o.i("k", k).i("pat", pat); }
      else if (op == "limit") {            // in a child: set a limit (current memory + room) and allocate
        int d = c.i(); long room = c.i(), n = c.i();
        fflush(out());
        pid_t p = fork();
        if (p == 0) {
          Allocator::setLimitMemory(Allocator::currMemory() + room);
          a[d]->allocate(n);
          _exit(55);
        }
        int s = 0; while (waitpid(p, &s, 0) < 0) {}
        o.i("d", d).i("room", room).i("n", n).b("ended", !(WIFEXITED(s) && WEXITSTATUS(s) == 55)).b("clean", WIFEXITED(s));
      }
      else { fprintf(stderr, "arena: %s\n", op.c_str()); _exit(97); }
      o.raw("st", st());
      emit(o.done());
    }
  }
  void fr(Blk& x) {
    struct O { unsigned char b[40]; };
    if (x.kind == 0) a[x.ar]->deallocate(x.p, x.n);
    else if (x.kind == 1) a[x.ar]->destroy((O*)x.p);
    else if (x.kind == 2) a[x.ar]->dealloc((unsigned long*)x.p, (size_t)x.cnt);
    else if (x.kind == 4) a[x.ar]->destroy((unsigned long*)x.p, (size_t)x.cnt);
    else a[x.ar]->destroy((Tracked*)x.p, (size_t)x.cnt);
    x.p = nullptr;
  }
};

// ----------------------------------------------------------------- integers
struct IntM {
  Allocator A, B;
  std::vector<Integer*> r;
  static int dig(char ch, int base) {
    if (ch >= '0' && ch <= '9') return ch - '0';
    if (base <= 36) { if (ch >= 'a' && ch <= 'z') return ch - 'a' + 10; if (ch >= 'A' && ch <= 'Z') return ch - 'A' + 10; return 99; }
    if (ch >= 'A' && ch <= 'Z') return ch - 'A' + 10;
    if (ch >= 'a' && ch <= 'z') return ch - 'a' + 36;
    return 99;
  }
  // [sign, digit...] most significant first
  static std::string digits(const std::string& s, int base) {
    std::vector<int> v; size_t i = 0; v.push_back(1);
    if (i < s.size() && s[i] == '-') { v[0] = -1; i++; }
    for (; i < s.size(); i++) v.push_back(dig(s[i], base));
    return jints(v);
  }
  std::string st() {
    std::vector<std::string> v;
    for (auto x : r) v.push_back(x ? jbig(x->get_str(10)) : "[]");
    return jlist(v);
  }
  void put(int k, Integer* x) { delete r[k]; r[k] = x; }
  void run(Trace& t) {
    for (auto& c : t) {
      const std::string op = c.op();
      Obj o; o.str("op", op);
      if (op == "begin") { o.i("id", c.i()); c.s(); r.assign(c.i(), nullptr); o.i("nr", r.size()); emit(o.done()); continue; }
      if (op == "end") { for (auto& x : r) { delete x; x = nullptr; } o.i("a", A.size()).i("b", B.size()); }
      else if (op == "new") { int k = c.i(), ar = c.i(); put(k, new Integer(ar ? &B : &A)); o.i("d", k); }
      else if (op == "str") {
        int k = c.i(), ar = c.i(); std::string s = c.s();
        put(k, new Integer(ar ? &B : &A, s.c_str()));
        std::string b = s; int neg = 0, base = 10; if (b[0] == '-') { neg = 1; b = b.substr(1); }
        if (b.size() > 2 && b[0] == '0' && (b[1] == 'x' || b[1] == 'X')) { base = 16; b = b.substr(2); }
        else if (b.size() > 2 && b[0] == '0' && (b[1] == 'b' || b[1] == 'B')) { base = 2; b = b.substr(2); }
        else if (b.size() > 1 && b[0] == '0') { base = 8; b = b.substr(1); }
        o.i("d", k).i("base", base).raw("dg", digits((neg ? "-" : "") + b, base));
      }
      else if (op == "si") { int k = c.i(); std::string s = c.s(); r[k]->set_si(std::stol(s)); o.i("d", k).raw("v", jbig(s)); }
      else if (op == "ui") { int k = c.i(); std::string s = c.s(); r[k]->set_ui(std::stoul(s)); o.i("d", k).raw("v", jbig(s)); }
      else if (op == "copy") { int k = c.i(), a = c.i(), ar = c.i(); Integer* x = new Integer(ar ? &B : &A, *r[a]); put(k, x); o.i("d", k).i("a", a); }
      else if (op == "movec") { int k = c.i(), a = c.i(); Integer* x = new Integer(std::move(*r[a])); put(k, x); delete r[a]; r[a] = nullptr; o.i("d", k).i("a", a); }
      else if (op == "movea") { int k = c.i(), a = c.i(); if ((k + a) % 2) { Integer out(std::move(*r[k])); } /* the target may itself be moved from */ *r[k] = std::move(*r[a]); delete r[a]; r[a] = nullptr; o.i("d", k).i("a", a); }
      else if (op == "assign") { int k = c.i(), a = c.i(); *r[k] = (const Integer&)*r[a]; o.i("d", k).i("a", a); }
      else if (op == "swap") { int k = c.i(), a = c.i(); r[k]->swap(*r[a]); o.i("d", k).i("a", a); }
      else if (op == "free") { int k = c.i(); put(k, nullptr); o.i("d", k); }
      else if (op == "neg") { int k = c.i(); r[k]->set_neg(); o.i("d", k); }
      else if (op == "add2" || op == "sub2" || op == "mul2" || op == "div2" || op == "gcd2") {
        int k = c.i(), a = c.i();
        if (op == "add2") r[k]->add(*r[a]); else if (op == "sub2") r[k]->sub(*r[a]); else if (op == "mul2") r[k]->mult(*r[a]);
        else if (op == "div2" || op == "gcd2") {
          bool ok = op == "div2" ? (!r[a]->isZero() && r[k]->divisible(*r[a])) : (!r[a]->isZero() && !r[k]->isZero());
          if (!ok) { o = Obj(); o.str("op", "skip").str("of", op).raw("st", st()); emit(o.done()); continue; }
          if (op == "div2") r[k]->div(*r[a]); else r[k]->gcd(*r[a]);
        }
        o.i("d", k).i("a", a);
      }
      else if (op == "add3" || op == "sub3" || op == "mul3" || op == "div3" || op == "gcd3") {
        int k = c.i(), a = c.i(), b = c.i();
        if (op == "add3") r[k]->add(*r[a], *r[b]); else if (op == "sub3") r[k]->sub(*r[a], *r[b]); else if (op == "mul3") r[k]->mult(*r[a], *r[b]);
        else {
          bool ok = op == "div3" ? (!r[b]->isZero() && r[a]->divisible(*r[b])) : (!r[a]->isZero() && !r[b]->isZero());
          if (!ok) { o = Obj(); o.str("op", "skip").str("of", op).raw("st", st()); emit(o.done()); continue; }
          if (op == "div3") r[k]->div(*r[a], *r[b]); else r[k]->gcd(*r[a], *r[b]);
        }
        o.i("d", k).i("a", a).i("b", b);
      }
      else if (op == "q") { int k = c.i(); Integer& x = *r[k]; o.i("d", k); Obj q; q.b("zero", x.isZero()).b("one", x.isOne()).b("aone", x.isAbsOne()).i("sgn", x.sgn() > 0 ? 1 : x.sgn() < 0 ? -1 : 0).i("norm", x.norm()); o.raw("q", q.done()); }
      else if (op == "divis") { int k = c.i(), a = c.i(); o.i("d", k).i("a", a).b("ans", r[k]->divisible(*r[a])); }
      else if (op == "echo") {             // a long text read and printed in the same base
        int k = c.i(); long n = c.i(), seed = c.i(); int base = c.i(); std::string s, b;
        unsigned long long x = seed * 2654435761ULL + 12345;
        for (long j = 0; j < n; j++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; int d = (x >> 40) % base; if (j == 0 && d == 0) d = 1; s += "0123456789abcdef"[d]; }
        b = base == 16 ? "0x" + s : base == 2 ? "0b" + s : s;
        Integer y(&A, b.c_str()); std::string g = y.get_str(base);
        std::vector<int> v, w; for (size_t j = 0; j < s.size(); j++) { if (j % 4 == 0) v.push_back(0); v.back() = v.back() * 16 + dig(s[j], 16); }
        for (size_t j = 0; j < g.size(); j++) { if (j % 4 == 0) w.push_back(0); w.back() = w.back() * 16 + dig(g[j], 16); }
        o.i("len", g.size()).i("n", n).raw("in", jints(v)).raw("out", jints(w)); (void)k;
      }
      else if (op == "get") { int k = c.i(), base = c.i(); std::string s = r[k]->get_str(base); o.i("d", k).i("base", base).raw("dg", digits(s, base)); }
      else { fprintf(stderr, "integer: %s\n", op.c_str()); _exit(97); }
      o.raw("st", st());
      emit(o.done());
    }
  }
};

// ------------------------------------------------------- Hilbert polynomials
struct HpM {
  std::vector<HilbertPoly*> r;
  static std::string rat(const std::string& s) {
    std::string n = s, d = "1"; size_t k = s.find('/');
    if (k != std::string::npos) { n = s.substr(0, k); d = s.substr(k + 1); }
    return "[" + jbig(n) + "," + jbig(d) + "]";
  }
  std::string st() {
    std::vector<std::string> v;
    for (auto x : r) {
      if (!x) { v.push_back("[]"); continue; }
      std::vector<std::string> w;
      for (int k = 0; k <= x->dim(); k++) w.push_back(rat((*x)[k]));
      v.push_back(jlist(w));
    }
    return jlist(v);
  }
  // "c1s^k1 + c2s^k2 - c3" -> [[k, [num, den]], ...]
  static std::string terms(const std::string& s) {
    std::vector<std::string> v; std::istringstream in(s); std::string w; int sg = 1; bool want = true;
    while (in >> w) {
      if (w == "+" || w == "-") { if (want) return "[[-9,[[9],[9]]]]"; sg = w == "-" ? -1 : 1; want = true; continue; }
      if (!want) return "[[-9,[[9],[9]]]]";
      size_t k = w.find("s^"); std::string cf = w, ex = "0";
      if (k != std::string::npos) { cf = w.substr(0, k); ex = w.substr(k + 2); }
      if (ex.empty() || ex.find_first_not_of("0123456789") != std::string::npos) return "[[-9,[[9],[9]]]]";
      if (sg < 0) cf = cf.empty() || cf[0] == '-' ? "x" : "-" + cf;
      v.push_back("[" + ex + "," + rat(cf) + "]"); want = false;
    }
    if (want && !v.empty()) return "[[-9,[[9],[9]]]]";
    return jlist(v);
  }
  void run(Trace& t) {
    for (auto& c : t) {
      const std::string op = c.op();
      Obj o; o.str("op", op);
      if (op == "begin") { o.i("id", c.i()); c.s(); r.assign(c.i(), nullptr); o.i("nr", r.size()); emit(o.done()); continue; }
      if (op == "end") { for (auto& x : r) { delete x; x = nullptr; } }
      else if (op == "new") { int k = c.i(), d = c.i(), late = c.i(); delete r[k]; if (late) { r[k] = new HilbertPoly; r[k]->setDim(d); } else r[k] = new HilbertPoly(d); o.i("d", k).i("dim", d); }
      else if (op == "bin") { int k = c.i(); long a = c.i(); int b = c.i(); r[k]->binomial(a, b); o.i("d", k).i("a", a).i("b", b); }
      else if (op == "add") { int k = c.i(), a = c.i(); r[k]->add(*r[a]); o.i("d", k).i("a", a); }
      else if (op == "sub") { int k = c.i(), a = c.i(); r[k]->sub(*r[a]); o.i("d", k).i("a", a); }
      else if (op == "mul") { int k = c.i(), x = c.i(); r[k]->mult(x); o.i("d", k).i("x", x); }
      else if (op == "q") {
        int k = c.i(); std::vector<std::string> z; for (int j = 0; j <= r[k]->dim(); j++) z.push_back(jbool(r[k]->isZero(j)));
        std::ostringstream ss; ss << *r[k];
        o.i("d", k).i("dim", r[k]->dim()).raw("zero", jlist(z)).raw("out", terms(ss.str()));
      }
      else { fprintf(stderr, "hp: %s\n", op.c_str()); _exit(97); }
      o.raw("st", st());
      emit(o.done());
    }
  }
};

// ------------------------------------------------------------- permutations
struct Script {                       // a source of values 0..M-1 under our control
  typedef unsigned long result_type;
  static unsigned long M;
  std::vector<unsigned long> v; size_t used = 0; bool over = false;
  static constexpr unsigned long min() { return 0; }
  unsigned long operator()() { if (used >= 64) { over = true; return 0; } if (used >= v.size()) v.push_back(0); return v[used++]; }
};
unsigned long Script::M = 2;
template <unsigned long MAXV> struct ScriptN: Script { static constexpr unsigned long max() { return MAXV; } };
struct PermM {
  static std::string perm(const RandPermutation& p) { std::vector<int> v; for (int i = 0; i < p.size(); i++) v.push_back(p[i]); return jints(v); }
  // every sequence of draws from L equally likely values (value L is a redraw and left out)
  template <unsigned long L> std::string all(int n, int warm) {
    std::map<std::string, std::map<size_t, long>> cnt; long runs = 0; bool over = false;
    std::vector<unsigned long> v;
    for (;;) {
      RandPermutation p(n);
      for (int k = 0; k < warm; k++) { ScriptN<L> w; for (int j = 0; j < 64; j++) w.v.push_back((unsigned long)(7 * k + 3 * j + 1) % L); p.next(w); }
      ScriptN<L> g; g.v = v; p.next(g); over = over || g.over;
      if (++runs > 3000000 || over) return "[]";
      cnt[perm(p)][g.used]++;
      v = g.v; v.resize(g.used);
      while (!v.empty() && v.back() == L - 1) v.pop_back();
      if (v.empty()) break;
      v.back()++;
    }
    std::vector<std::string> o;
    for (auto& x : cnt) { std::vector<std::string> h; for (auto& y : x.second) h.push_back("[" + jint(y.first) + "," + jint(y.second) + "]"); o.push_back("[" + x.first + "," + jlist(h) + "]"); }
    return jlist(o);
  }
  void run(Trace& t) {
    for (auto& c : t) {
      const std::string op = c.op();
      Obj o; o.str("op", op);
      if (op == "begin") { o.i("id", c.i()); }
      else if (op == "all") { int n = c.i(), warm = c.i(); o.i("n", n).i("warm", warm).i("L", n <= 2 ? 2 : n == 3 ? 6 : n == 4 ? 12 : 60)
        .raw("table", n <= 2 ? all<2>(n, warm) : n == 3 ? all<6>(n, warm) : n == 4 ? all<12>(n, warm) : all<60>(n, warm)); }
      else if (op == "walk") {            // successive permutations of one object
        int n = c.i(), k = c.i(); RandPermutation_mt19937 p(n); std::vector<std::string> v; std::vector<std::string> pr;
        v.push_back(perm(p)); for (int j = 0; j < k; j++) { p.next(); v.push_back(perm(p)); }
        std::ostringstream ss; ss << p; std::string s = ss.str(); std::vector<long> w;
        if (s.size() >= 2 && s[0] == '(' && s.back() == ')') { std::istringstream in(s.substr(1, s.size() - 2)); long x; while (in >> x) w.push_back(x); }
        o.i("n", n).i("size", p.size()).raw("perms", jlist(v)).raw("out", jints(w));
      }
      else if (op == "freq") {
        int n = c.i(); long k = c.i(); RandPermutation_mt19937 p(n); std::map<std::string, long> cnt; for (long j = 0; j < k; j++) { p.next(); cnt[perm(p)]++; }
        std::vector<std::string> v; for (auto& x : cnt) v.push_back("[" + x.first + "," + jint(x.second) + "]");
        o.i("n", n).i("k", k).raw("table", jlist(v));
      }
      else if (op == "marg") {            // element against place, place before against place after, difference of neighbours
        int n = c.i(); long k = c.i(); RandPermutation_mt19937 p(n);
        std::vector<std::vector<long>> A(n, std::vector<long>(n)), B(A), D(n, std::vector<long>(n));
        std::vector<int> old(n); for (int j = 0; j < n; j++) old[p[j]] = j;
        bool ok = true;
        for (long h = 0; h < k; h++) {
          p.next(); std::vector<int> at(n, -1);
          for (int j = 0; j < n; j++) { int x = p[j]; if (x < 0 || x >= n || at[x] != -1) { ok = false; x = 0; } at[x] = j; A[x][j]++; D[j][((p[(j + 1) % n] - x) % n + n) % n]++; }
          for (int x = 0; x < n; x++) if (at[x] >= 0) { B[old[x]][at[x]]++; old[x] = at[x]; }
        }
        auto tab = [](const std::vector<std::vector<long>>& M) { std::vector<std::string> v; for (auto& r : M) v.push_back(jints(r)); return jlist(v); };
        o.i("n", n).i("k", k).b("ok", ok).raw("place", tab(A)).raw("moved", tab(B)).raw("diff", tab(D));
      }
      else if (op == "end") {}
      else { fprintf(stderr, "perm: %s\n", op.c_str()); _exit(97); }
      emit(o.done());
    }
  }
};

// ------------------------------------------------------------------- timers
struct TimerM {
  std::vector<Timer> r;
  static std::string tk(double x) { double y = std::floor(x * 100 + 0.5); return std::fabs(x * 100 - y) < 1e-3 ? jint((long long)y) : "-999999"; }
  std::string st() {
    std::vector<std::string> v;
    for (auto& x : r) v.push_back("[" + tk(x.realTime()) + "," + tk(x.userTime()) + "," + tk(x.sysTime()) + "]");
    return jlist(v);
  }
  void run(Trace& t) {
    virt = true;
    for (auto& c : t) {
      const std::string op = c.op();
      Obj o; o.str("op", op);
      if (op == "begin") { o.i("id", c.i()); c.s(); r.assign(c.i(), Timer()); o.i("nt", r.size()); }
      else if (op == "tick") { int a = c.i(), b = c.i(), d = c.i(); vr += a; vu += b; vs += d; o.i("r", a).i("u", b).i("s", d); }
      else if (op == "start") { int k = c.i(); r[k].start(); o.i("k", k); }
      else if (op == "cont") { int k = c.i(); r[k].cont(); o.i("k", k); }
      else if (op == "stop") { int k = c.i(); r[k].stop(); o.i("k", k); }
      else if (op == "copy") { int k = c.i(), a = c.i(); r[k] = r[a]; o.i("k", k).i("a", a); }
      else if (op == "print") {
        int k = c.i(); std::ostringstream ss; ss << r[k]; std::string s = ss.str(); std::vector<std::string> v;
        const char* names[] = {"real time: ", "user time: ", "system time: "};
        for (auto nme : names) { size_t p = s.find(nme); v.push_back(p == std::string::npos ? "-999999" : tk(atof(s.c_str() + p + strlen(nme)))); }
        o.i("k", k).raw("out", jlist(v));
      }
      else if (op == "end") {}
      else { fprintf(stderr, "timer: %s\n", op.c_str()); _exit(97); }
      o.raw("st", st());
      emit(o.done());
    }
    virt = false;
  }
};

// the process ends without tearing the objects down, unless the memory they use is what is looked at
template <typename M> static void go(Trace& t) { M* m = new M; m->run(t); if (memOnly()) delete m; }
static void dispatch(Trace& t) {
  const std::string& what = t[0].t.size() > 2 ? t[0].t[2] : t[0].t[0];
  if (what == "list") go<ListM>(t);
  else if (what == "tree") go<TreeM>(t);
  else if (what == "stack") go<StackM>(t);
  else if (what == "arena") go<ArenaM>(t);
  else if (what == "int") go<IntM>(t);
  else if (what == "hp") go<HpM>(t);
  else if (what == "perm") go<PermM>(t);
  else if (what == "timer") go<TimerM>(t);
  else { fprintf(stderr, "section %s\n", what.c_str()); _exit(97); }
}
int main(int argc, char** argv) {
  memory() = [] { return (long)Allocator::currMemory(); }; return main_loop(argc, argv, dispatch); }
