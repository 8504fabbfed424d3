// Conformance driver for /repo/ginv/bmonom.h (not part of the project's own
// build): a store of Boolean monomials, each with an allocator of its own.
#include "vt.hpp"
#include <memory>
#include "ginv/bmonom.h"
using namespace GInv;
using namespace vt;

struct Reg { std::unique_ptr<Allocator> al; std::unique_ptr<BMonom> m; };

static std::string pb(const BMonom& m) {
  std::vector<int> v;
  for (int i = 0; i < m.degree(); i++) v.push_back(m[i]);
  return jints(v);
}
static std::string text(const BMonom& m) {          // the printed form, as the list of its variables
  std::ostringstream o; o << m;
  std::string s = o.str();
  if (s == "1") return "[]";
  if (s.size() < 3 || s[0] != '[' || s.back() != ']') return jstr(s);
  for (char& c : s) if (c == ' ') c = ',';
  return s;
}

static void run(Trace& t) {
  std::vector<Reg> r;
  // allocators outlive the monomials, which may trade them by swap
  std::vector<std::unique_ptr<Allocator>> pool;
  auto put = [&](int d, BMonom* m, Allocator* al) { (void)al; r[d].m.reset(m); };
  auto st = [&]() {
    std::vector<std::string> v;
    for (auto& x : r) v.push_back(x.m ? "[" + pb(*x.m) + "]" : "[]");
    return jlist(v);
  };
  for (auto& c : t) {
    const std::string& op = c.op();
    Obj o; o.str("op", op);
    auto fresh = [&]() { pool.emplace_back(new Allocator()); return pool.back().get(); };
    if (op == "begin") { o.i("id", c.i()); c.s(); int n = c.i(); o.i("nr", n); r.clear(); r.resize(n); emit(o.done()); continue; }
    if (op == "one") { int d = c.i(); o.i("d", d); auto al = fresh(); put(d, new BMonom(al), al); }
    else if (op == "var") { int d = c.i(), v = c.i(); o.i("d", d).i("v", v); auto al = fresh(); put(d, new BMonom(v, al), al); }
    else if (op == "copy") { int d = c.i(), a = c.i(); o.i("d", d).i("a", a); auto al = fresh(); put(d, new BMonom(*r[a].m, al), al); }
    else if (op == "addv") { int d = c.i(), a = c.i(), v = c.i(); o.i("d", d).i("a", a).i("v", v); auto al = fresh(); put(d, new BMonom(*r[a].m, v, al), al); }
    else if (op == "prod") { int d = c.i(), a = c.i(), b = c.i(); o.i("d", d).i("a", a).i("b", b); auto al = fresh(); put(d, new BMonom(*r[a].m, *r[b].m, al), al); }
    else if (op == "assign") { int d = c.i(), a = c.i(); o.i("d", d).i("a", a); *r[d].m = *r[a].m; }
    else if (op == "swap") { int d = c.i(), a = c.i(); o.i("d", d).i("a", a); r[d].m->swap(*r[a].m); }
    else if (op == "div") { int d = c.i(), a = c.i(), b = c.i(); o.i("d", d).i("a", a).i("b", b); r[d].m->div(*r[a].m, *r[b].m); }
    else if (op == "free") { int d = c.i(); o.i("d", d); r[d].m.reset(); }
    else if (op == "q") {
      int a = c.i(), b = c.i(); o.i("a", a).i("b", b);
      const BMonom &x = *r[a].m, &y = *r[b].m;
      Obj q; int k = x.compare(y);
      q.i("cmp", k > 0 ? 1 : k < 0 ? -1 : 0).b("div", x.divisible(y)).b("bool", (bool)x).b("zero", x.isZero()).i("deg", x.degree());
      o.raw("q", q.done()).raw("text", text(x));
    }
    else if (op == "end") { for (auto& x : r) x.m.reset(); long live = 0; for (auto& p : pool) live += (long)p->size(); o.i("live", live); }
    else { fprintf(stderr, "bmonom: %s\n", op.c_str()); _exit(97); }
    o.raw("st", st());
    emit(o.done());
  }
}

int main(int argc, char** argv) { return main_loop(argc, argv, run); }
