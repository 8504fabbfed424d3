// Reads a picture back: what the drawing functions wrote, by graphviz's own reader.
#pragma once
#include <graphviz/cgraph.h>
#include <unistd.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <sstream>
#include "vt.hpp"
namespace pict {
using namespace vt;
struct Graph {
  struct Edge { int to; std::string style; };
  struct Node { std::string name, label, color; std::vector<Edge> out; int in = 0; };
  std::vector<Node> v; int edges = 0; bool ok = false;
  explicit Graph(const std::function<void(const char*)>& draw) {
    std::string f = "/tmp/vt_pict_" + std::to_string(getpid()) + ".dot";
    draw(f.c_str());
    FILE* h = fopen(f.c_str(), "r");
    if (!h) return;
    Agraph_t* g = agread(h, nullptr);
    fclose(h); unlink(f.c_str());
    if (!g) return;
    std::map<Agnode_t*, int> id;
    auto get = [](void* o, const char* k) { char* s = agget(o, (char*)k); return std::string(s ? s : ""); };
    for (Agnode_t* n = agfstnode(g); n; n = agnxtnode(g, n)) {
      Node x; x.name = agnameof(n); x.label = get(n, "label"); x.color = get(n, "color");
      if (x.label == "\\N" || x.label.empty()) x.label = x.name;
      id[n] = v.size(); v.push_back(x);
    }
    for (Agnode_t* n = agfstnode(g); n; n = agnxtnode(g, n))
      for (Agedge_t* e = agfstout(g, n); e; e = agnxtout(g, e)) {
        int t = id[aghead(e)];
        v[id[n]].out.push_back({t, get(e, "style")}); v[t].in++; edges++;
      }
    agclose(g); ok = true;
  }
};
static std::vector<std::string> parts(const std::string& s, const std::string& a, const std::string& b) {
  std::vector<std::string> r; size_t k = 0;
  while ((k = s.find(a, k)) != std::string::npos) { size_t e = s.find(b, k); if (e == std::string::npos) break; r.push_back(s.substr(k + a.size(), e - k - a.size())); k = e; }
  return r;
}
// a chain of nodes: [[wrap?, degree, rows of the table, chain of the next variable], ...]
static std::string chain(const Graph& g, int n, int depth = 0) {
  std::vector<std::string> r;
  for (int steps = 0; n >= 0 && steps < 5000 && depth < 200; steps++) {
    const auto& x = g.v[n];
    std::string sub = "[]"; int next = -1;
    for (auto& e : x.out) if (e.style == "dotted") sub = chain(g, e.to, depth + 1); else next = e.to;
    if (x.label.find("<table") != std::string::npos) {
      std::vector<std::string> rows;
      for (auto& row : parts(x.label, "<tr>", "</tr>")) { std::vector<std::string> cells; for (auto& c : parts(row, "<td>", "</td>")) cells.push_back(jstr(c)); rows.push_back(jlist(cells)); }
      r.push_back("[1,\"\"," + jlist(rows) + "," + sub + "]");
    } else r.push_back("[0," + jstr(x.label) + ",[]," + sub + "]");
    n = next;
  }
  return jlist(r);
}
// a picture of Janet trees: the headline and the trees
static void forest(Obj& o, const Graph& g) {
  std::vector<std::string> heads, trees;
  for (size_t i = 0; i < g.v.size(); i++)
    if (g.v[i].label[0] == '#') { std::vector<std::string> l; std::stringstream ss(g.v[i].label); std::string x; while (std::getline(ss, x)) l.push_back(jstr(x)); heads.push_back(jlist(l)); }
    else if (g.v[i].in == 0) trees.push_back(chain(g, i));
  o.b("ok", g.ok).i("nodes", g.v.size()).i("edges", g.edges).raw("heads", jlist(heads)).raw("trees", jlist(trees));
}
// a picture of a binary tree: [red?, key, left, right]
static std::string binary(const Graph& g, int n, int depth = 0) {
  const auto& x = g.v[n];
  if (x.label == "nullptr" || depth > 100) return "[]";
  long key = strtol(x.label.c_str(), nullptr, 10);
  std::string l = "[]", r = "[]";
  for (auto& e : x.out) if (g.v[e.to].label != "nullptr") {
    std::string s = binary(g, e.to, depth + 1);
    if (strtol(g.v[e.to].label.c_str(), nullptr, 10) < key) l = s; else r = s;
  }
  return "[" + jint(x.color.empty() || x.color == "black" ? 0 : 1) + "," + jint(key) + "," + l + "," + r + "]";
}
static void tree(Obj& o, const Graph& g) {
  std::vector<std::string> roots; int odd = 0;
  for (size_t i = 0; i < g.v.size(); i++) {
    if (g.v[i].in == 0) roots.push_back(binary(g, i));
    if (g.v[i].out.size() != (g.v[i].label == "nullptr" ? 0u : 2u)) odd++;
  }
  o.b("ok", g.ok).i("nodes", g.v.size()).i("edges", g.edges).i("odd", odd).raw("trees", jlist(roots));
}
}
