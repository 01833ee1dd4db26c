// Stand-in for the parts of opencv/ade this project uses (the library itself is not present in this sandbox): a graph of
// nodes and edges with typed metadata, and a topological sort.
#pragma once
#include <algorithm>
#include <cstddef>
#include <functional>
#include <iterator>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
namespace ade {
struct Node; struct Edge;
struct MetaMap {
  std::vector<std::pair<const void *, std::shared_ptr<void>>> m;
  template <class T> static const void *key() { static char k; return &k; }
  template <class T> void set(const T &v) { for (auto &p : m) if (p.first == key<T>()) { p.second = std::make_shared<T>(v); return; } m.emplace_back(key<T>(), std::make_shared<T>(v)); }
  template <class T> T *find() { for (auto &p : m) if (p.first == key<T>()) return static_cast<T *>(p.second.get()); return nullptr; }
};
template <class T> struct HandleT {
  T *p = nullptr;
  T *operator->() const { return p; } T *get() const { return p; }
  bool operator==(const HandleT &o) const { return p == o.p; } bool operator!=(const HandleT &o) const { return p != o.p; } bool operator==(std::nullptr_t) const { return !p; } bool operator!=(std::nullptr_t) const { return p; }
};
using NodeHandle = HandleT<Node>; using EdgeHandle = HandleT<Edge>;
template <class T> struct HandleHasher { size_t operator()(const HandleT<T> &h) const { return (size_t)h.p; } };
struct Edge { NodeHandle src, dst; MetaMap meta; NodeHandle srcNode() const { return src; } NodeHandle dstNode() const { return dst; } };
struct Node {
  std::vector<EdgeHandle> in, out; MetaMap meta;
  std::vector<EdgeHandle> inEdges() const { return in; } std::vector<EdgeHandle> outEdges() const { return out; }
  std::vector<NodeHandle> inNodes() const { std::vector<NodeHandle> r; for (auto &e : in) r.push_back(e->src); return r; }
  std::vector<NodeHandle> outNodes() const { std::vector<NodeHandle> r; for (auto &e : out) r.push_back(e->dst); return r; }
};
struct Graph {
  std::vector<std::unique_ptr<Node>> ns; std::vector<std::unique_ptr<Edge>> es; MetaMap meta;
  Graph() = default; Graph(const Graph &) = delete;
  NodeHandle createNode() { ns.emplace_back(new Node()); return {ns.back().get()}; }
  EdgeHandle link(NodeHandle a, NodeHandle b) { es.emplace_back(new Edge()); EdgeHandle e{es.back().get()}; e->src = a; e->dst = b; a->out.push_back(e); b->in.push_back(e); return e; }
  std::vector<NodeHandle> nodes() const { std::vector<NodeHandle> r; for (auto &n : ns) r.push_back({n.get()}); return r; }
};
struct TypedMeta {
  MetaMap *m;
  template <class T> T &get() const { return *m->find<T>(); }
  template <class T> T get(const T &d) const { T *p = m->find<T>(); return p ? *p : d; }
  template <class T> void set(const T &v) const { m->set(v); }
  template <class T> bool contains() const { return m->find<T>() != nullptr; }
};
template <class... Types> struct TypedGraph {
  Graph *g; TypedGraph(Graph &x) : g(&x) {}
  NodeHandle createNode() { return g->createNode(); } EdgeHandle link(NodeHandle a, NodeHandle b) { return g->link(a, b); }
  TypedMeta metadata() const { return {&g->meta}; } TypedMeta metadata(NodeHandle n) const { return {&n->meta}; } TypedMeta metadata(EdgeHandle e) const { return {&e->meta}; }
  std::vector<NodeHandle> nodes() const { return g->nodes(); }
};
namespace passes {
struct PassContext { Graph &graph; };
struct TopologicalSortData { std::vector<NodeHandle> n; static const char *name() { return "TopologicalSortData"; } const std::vector<NodeHandle> &nodes() const { return n; } };
// Any topological order is a correct one: the harness picks between two.
inline int &order() { static int o = 0; return o; }
struct TopologicalSort {
  static void visit(NodeHandle h, std::vector<NodeHandle> &out, std::unordered_set<Node *> &seen) { if (!seen.insert(h.p).second) return; auto in = h->inNodes(); if (order()) std::reverse(in.begin(), in.end()); for (auto &i : in) visit(i, out, seen); out.push_back(h); }
  void operator()(PassContext &c) const { TopologicalSortData d; std::unordered_set<Node *> seen; auto all = c.graph.nodes(); if (order()) std::reverse(all.begin(), all.end()); for (auto &n : all) visit(n, d.n, seen); c.graph.meta.set(d); }
  static const char *name() { return "TopologicalSort"; }
};
}
namespace util {
template <class T> struct Indexed { size_t i; T v; };
template <class R> auto indexed(R &&r) { using T = std::decay_t<decltype(*std::begin(r))>; std::vector<Indexed<T>> o; size_t k = 0; for (auto &&x : r) o.push_back({k++, x}); return o; }
template <class T> size_t index(const Indexed<T> &x) { return x.i; }
template <class T> const T &value(const Indexed<T> &x) { return x.v; }
template <class T> T &value(Indexed<T> &x) { return x.v; }
template <class R, class P> auto filter(R &&r, P p) { std::vector<std::decay_t<decltype(*std::begin(r))>> o; for (auto &&x : r) if (p(x)) o.push_back(x); return o; }
template <class R, class O, class F> void transform(R &&r, O o, F f) { std::transform(std::begin(r), std::end(r), o, f); }
template <class R> auto toRange(R &&r) { return r; }
}
}
namespace std { template <class T> struct hash<ade::HandleT<T>> { size_t operator()(const ade::HandleT<T> &h) const { return (size_t)h.p; } }; }
