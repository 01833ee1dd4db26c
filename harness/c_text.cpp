#include "common.hpp"
#include <deepworks/model.hpp>
#include <deepworks/shape.hpp>
#include <deepworks/serialization.hpp>
#include <fstream>
#include <sstream>
#include <map>
#include "ade/ade_standin.hpp"
// What an insertion wrote.  Symbolic values are recorded as @k (floats) and #k (integers).
struct Sink { std::ostringstream os; Sink() { dw_text_begin(static_cast<std::ostream *>(&os)); }
  std::string text() { if (!dw_symbolic()) return os.str(); std::ostream *o = &os; long n = dw_text_take(o, nullptr, 0); std::string s((size_t)n, ' '); if (n) dw_text_take(o, &s[0], n); return s; } };
static bool digit(char c) { return c >= '0' && c <= '9'; }
static double number(const std::string &t, size_t &i) { bool neg = false; if (t[i] == '-') { neg = true; i++; } double v = 0, f = 1; while (i < t.size() && digit(t[i])) v = v * 10 + (t[i++] - '0'); if (i < t.size() && t[i] == '.') { i++; while (i < t.size() && digit(t[i])) v += (t[i++] - '0') * (f /= 10); }
  if (i < t.size() && t[i] == 'e') { i++; bool en = t[i] == '-'; if (t[i] == '-' || t[i] == '+') i++; int e = 0; while (i < t.size() && digit(t[i])) e = e * 10 + (t[i++] - '0'); for (; e; e--) v = en ? v / 10 : v * 10; } return neg ? -v : v; }
static VF floats(const std::string &t) { VF r; for (size_t i = 0; i < t.size();) { if (t[i] == '@') { i++; r.push_back(dw_text_float((long)number(t, i))); } else if (digit(t[i]) || (t[i] == '-' && i + 1 < t.size() && digit(t[i + 1]))) r.push_back((float)number(t, i)); else i++; } return r; }
static std::vector<long> ints(const std::string &t) { std::vector<long> r; for (size_t i = 0; i < t.size();) { if (t[i] == '#') { i++; r.push_back(dw_text_int((long)number(t, i))); } else if (digit(t[i]) || (t[i] == '-' && i + 1 < t.size() && digit(t[i + 1]))) r.push_back((long)number(t, i)); else i++; } return r; }
static void printed(const Shape &s) {
  Tensor t = sym_tensor("x", s); if (dw_vast) for (size_t n = t.total(), i = 1; i + 1 < n; i++) if (i != n / 2) t.data()[i] = (float)(i * 7 % 997); VF X = values(t); bounded(X, 1e5f); Sink k; k.os << t; VF got = floats(k.text());
  dw_check(got.size() == X.size(), "a printed tensor shows every element once"); for (size_t i = 0; i < X.size(); i++) dw_check_eqf(got[i], X[i], "a printed tensor shows its elements in order"); check_all(t, X, "printing leaves the tensor alone");
}
ENTRY e_print_tensor() { int r = size_in("rank", 1, 4); Shape s; for (int i = 0; i < r; i++) s.push_back(size_in("dim", 1, DEEP(3, 4))); printed(s); }
ENTRY e_print_big() { printed(flag("flat") ? Shape{1, 67} : Shape{3, 5, 7}); }
ENTRY e_print_empty() { Tensor t; Sink k; k.os << t; dw_check(floats(k.text()).empty(), "a printed empty tensor shows no element"); }
ENTRY e_print_shape() { int r = size_in("rank", 0, DEEP(6, 12)); Shape s; for (int i = 0; i < r; i++) s.push_back((int)dw_sym_int("dim", -1, 2147483647)); Sink k; k.os << s; auto got = ints(k.text()); dw_check((int)got.size() == r, "a printed shape shows every dimension once"); for (int i = 0; i < r; i++) dw_check(got[i] == s[i], "a printed shape shows its dimensions in order"); }
// the .dot file of a model
struct Tok { std::string s; bool quoted; };
static std::vector<Tok> lex(const std::string &t) {
  std::vector<Tok> r; for (size_t i = 0; i < t.size();) { char c = t[i]; if (c == ' ' || c == '\n' || c == '\t' || c == '\r') { i++; continue; }
    if (c == '"') { std::string s; for (i++; i < t.size() && t[i] != '"'; i++) { if (t[i] == '\\' && i + 1 < t.size() && (t[i + 1] == '"' || t[i + 1] == '\\')) i++; s += t[i]; } if (i >= t.size()) dw_fail("the file is well-formed (unterminated string)"); i++; r.push_back({s, true}); continue; }
    if (c == '-' && i + 1 < t.size() && (t[i + 1] == '>' || t[i + 1] == '-')) { r.push_back({t.substr(i, 2), false}); i += 2; continue; }
    bool alpha = c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (unsigned char)c >= 128, num = digit(c) || c == '.' || c == '-';
    if (alpha) { size_t j = i; while (j < t.size() && (t[j] == '_' || digit(t[j]) || (t[j] >= 'a' && t[j] <= 'z') || (t[j] >= 'A' && t[j] <= 'Z') || (unsigned char)t[j] >= 128)) j++; r.push_back({t.substr(i, j - i), false}); i = j; continue; }
    if (num) { size_t j = i + 1; while (j < t.size() && (digit(t[j]) || t[j] == '.')) j++; r.push_back({t.substr(i, j - i), false}); i = j; continue; }
    if (c == '{' || c == '}' || c == '[' || c == ']' || c == '=' || c == ';' || c == ',') { r.push_back({std::string(1, c), false}); i++; continue; }
    dw_fail("the file is well-formed (unexpected character)"); }
  return r;
}
struct Edge { std::string a, b, label; };
struct Dot { std::map<std::string, std::string> nodes; std::vector<Edge> edges; };
static Dot parse(const std::string &t) {
  auto k = lex(t); size_t i = 0; Dot d; auto is = [&](const char *s) { return i < k.size() && !k[i].quoted && k[i].s == s; }; auto need = [&](bool c) { if (!c) dw_fail("the file is well-formed"); };
  auto id = [&] { need(i < k.size()); if (!k[i].quoted) { const std::string &s = k[i].s; need(s != "->" && s != "--" && s != "node" && s != "edge" && s != "graph" && s != "digraph" && s != "subgraph" && s != "strict" && s.find_first_of("{}[]=;,") == std::string::npos); } return k[i++].s; };
  auto attrs = [&] { std::string l; while (is("[")) { i++; while (!is("]")) { std::string n = id(); need(is("=")); i++; std::string v = id(); if (n == "label") l = v; if (is(",") || is(";")) i++; } i++; } return l; };
  if (is("strict")) i++; need(is("digraph")); i++; if (!is("{")) id(); need(is("{")); i++;
  while (!is("}")) {
    need(i < k.size()); if (is(";")) { i++; continue; } if (is("node") || is("edge") || is("graph")) { i++; attrs(); continue; }
    std::vector<std::string> c{id()}; if (is("=")) { i++; id(); continue; }
    while (is("->")) { i++; c.push_back(id()); } std::string l = attrs(); if (c.size() == 1) { d.nodes[c[0]] = l; continue; }
    for (size_t j = 0; j + 1 < c.size(); j++) d.edges.push_back({c[j], c[j + 1], l});
  }
  i++; need(i == k.size()); return d;
}
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::in | std::ios::binary); std::string b; char c; for (;;) { f.read(&c, 1); if (!f) break; b += c; } return b; }
static void described(const dw::Model::Config &c) {
  dw::save_dot(c, "g"); Dot d = parse(slurp("g")); dw_check(d.nodes.size() == c.ph_map.size() + c.sorted_ops.size(), "one node per placeholder and operation");
  auto ph = [](int i) { return "Placeholder_" + std::to_string(i); };
  for (auto &p : c.ph_map) { auto it = d.nodes.find(ph(p.first)); dw_check(it != d.nodes.end(), "every placeholder is a node"); auto n = ints(it->second); bool ok = n.size() >= p.second.shape.size(); for (size_t i = 0; ok && i < p.second.shape.size(); i++) ok = n[n.size() - p.second.shape.size() + i] == p.second.shape[i]; dw_check(ok, "a placeholder shows its shape"); }
  std::vector<bool> seen(d.edges.size()); auto edge = [&](const std::string &a, const std::string &b, int port) { for (size_t i = 0; i < d.edges.size(); i++) if (!seen[i] && d.edges[i].a == a && d.edges[i].b == b) { auto n = ints(d.edges[i].label); if (!n.empty() && n.back() == port) { seen[i] = true; return; } } dw_fail("every connection is an edge with its port"); };
  size_t E = 0; for (auto &o : c.sorted_ops) {
    auto it = d.nodes.find(o.name); dw_check(it != d.nodes.end(), "every operation is a node"); dw_check(it->second.find(o.name) != std::string::npos && it->second.find(o.type) != std::string::npos, "an operation shows its name and type");
    for (size_t i = 0; i < o.in_ids.size(); i++) edge(ph(o.in_ids[i]), o.name, (int)i); for (size_t i = 0; i < o.out_ids.size(); i++) edge(o.name, ph(o.out_ids[i]), (int)i); E += o.in_ids.size() + o.out_ids.size(); }
  dw_check(d.edges.size() == E, "no other edges");
}
ENTRY e_dot_graphs() { // every small graph, through a model
  int nin = size_in("inputs", 1, 2), nops = size_in("ops", 1, DEEP(2, 3)); dw::Placeholders ph, in, out; std::vector<bool> u(nin + nops); for (int i = 0; i < nin; i++) ph.push_back(dw::Placeholder(Shape{1, 2})); in = ph; bool named = flag("named"); ade::passes::order() = flag("order");
  for (int j = 0; j < nops; j++) { bool sum = flag("sum"); int a = size_in("a", 0, nin + j - 1), b = sum ? size_in("b", 0, nin + j - 1) : a; u[a] = u[b] = true; std::string n = named ? "op " + std::to_string(j) : ""; ph.push_back(sum ? dw::Add(n)(ph[a], ph[b]) : dw::Linear(2, n)(ph[a])); }
  for (int j = 0; j < nin + nops; j++) { if (j < nin) dw_assume(u[j]); else if (!u[j]) out.push_back(ph[j]); } dw::Model m(in, out); described(m.cfg());
}
ENTRY e_dot_names() { // any layer name
  static const char *N[] = {"fc", "conv-1", "block 1", "1st", "node", "a.b", "layer\"x\"", "2", "[x]", "a->b", "back\\"}; std::string n = N[size_in("name", 0, 10)]; dw::Placeholder x(Shape{1, 2}); dw::Model m(x, dw::Sigmoid("last")(dw::ReLU(n)(x))); described(m.cfg());
}
ENTRY e_dot_any() { // hand-made configurations
  dw::Model::Config c; int np = size_in("placeholders", 0, 3), nops = size_in("ops", 0, 2); for (int i = 0; i < np; i++) { Shape s; for (int j = 0; j < i * 2; j++) s.push_back((int)dw_sym_int("dim", -1, 2147483647)); c.ph_map.emplace(i * 11, dw::Model::Config::PlaceholderInfo{s, i * 11}); } dw_assume(np || !nops);
  for (int i = 0; i < nops; i++) { dw::Model::Config::OperationInfo o; o.name = i ? "second" : "first"; o.type = i ? "Add" : "Linear"; int a = size_in("ins", 0, 2), b = size_in("outs", 0, 2); for (int j = 0; j < a; j++) o.in_ids.push_back(11 * size_in("id", 0, np - 1)); for (int j = 0; j < b; j++) o.out_ids.push_back(11 * ((i + j) % np)); c.sorted_ops.push_back(o); }
  described(c);
}
ENTRY e_dot_large() { dw::Placeholder in(Shape{2, 3}), x = in; for (int i = 0; i < 13; i++) x = i % 3 == 2 ? dw::Add("")(x, in) : dw::Sigmoid("s" + std::to_string(i))(x); described(dw::Model(in, x).cfg()); }
ENTRY e_dot_fails() { dw::Placeholder x(Shape{1, 2}); dw::Model m(x, dw::ReLU("r")(x)); std::string p = flag("full") ? "/dev/full" : "no-such-directory/file"; dw_check(throws([&] { dw::save_dot(m.cfg(), p); }), "a file that cannot be written is reported"); }
ENTRY e_print_vast() { Vast v; printed(flag("flat") ? Shape{1030} : Shape{2, 33, 17}); }
