#include "common.hpp"
#include <deepworks/deepworks.hpp>
#include <deepworks/image_reader.hpp>
#include <fstream>
#include <filesystem>
#include <set>
#include <map>
#include <dw_image.h>
#define custom custom_mnist
#include <mnist/utility.hpp>
#undef custom
#define custom custom_cifar10
#include <cifar10/utility.hpp>
#undef custom
#define custom custom_cifar100
#include <cifar100/utility.hpp>
#undef custom
#define custom custom_iris
#include <iris/utility.hpp>
#undef custom
static void put(const std::string &p, const std::vector<char> &b) {
#ifdef DW_BC
  dwstub::fs()[p].b = b;
#else
  std::filesystem::path q(p); if (q.has_parent_path()) std::filesystem::create_directories(q.parent_path()); std::ofstream f(p, std::ios::binary); f.write(b.data(), (long)b.size());
#endif
}
static void order() {
  bool r = flag("reversed");
#ifdef DW_BC
  dwstub::reversed() = r;
#else
  (void)r;
#endif
}
static std::vector<unsigned char> image(int w, int h, int c) { std::vector<unsigned char> b(w * h * c); dw_sym_bytes("byte", b.data(), b.size()); dwimg = DwImage{}; dwimg.exists = dwimg.signature = true; dwimg.w = w; dwimg.h = h; dwimg.c = c; dwimg.depth = 8; return b; }
// one directory per class; every file is delivered once, with the label of its directory
template <class S> static void folder(S &d, const std::map<std::string, int> &want, int w, int c, const Shape &xs) {
  dw_check(d.size() == want.size(), "a data set has one sample per file"); auto sh = d.shape(); dw_check(same(sh.first, xs) && same(sh.second, {1}), "sample shapes"); std::set<std::string> seen; int n = w * w * c;
  for (int i = (int)want.size() - 1; i >= 0; i--) {
    auto b = image(w, w, c); dwimg.bytes = b.data(); Tensor X = sym_tensor("old", xs), y = sym_tensor("oldy", {1}); float *p = X.data(); d.pull(i, X, y);
    std::string f = dwimg.path; dw_check(want.count(f) == 1, "the file of a sample is one of the data set"); dw_check(seen.insert(f).second, "every index has its own file"); dw_check(y.data()[0] == (float)want.at(f), "a sample carries the label of its directory");
    dw_check(X.data() == p && same(X.shape(), xs), "the caller's tensor is filled in place");
    VF e(n); for (int q = 0; q < w * w; q++) for (int k = 0; k < c; k++) e[k * w * w + q] = (float)b[q * c + k] / 255; check_all(X, e, "a sample is the image, channel by channel, scaled to [0, 1]");
  }
}
ENTRY e_mnist() { std::map<std::string, int> m; order(); for (const char *p : {"t/7/a.png", "t/0/x.png"}) { put(p, {}); m[p] = p[2] - '0'; } if (flag("two")) { put("t/7/b.png", {}); m["t/7/b.png"] = 7; } custom_mnist::Dataset d("t"); folder(d, m, 28, 1, {784}); }
ENTRY e_cifar10() { static const char *N[] = {"airplane", "automobile", "bird", "cat", "deer", "dog", "frog", "horse", "ship", "truck"}; std::map<std::string, int> m; int k = size_in("class", 0, 9); order(); for (int j : {k, (k + 3) % 10}) { std::string p = std::string("t/") + N[j] + "/0.png"; put(p, {}); m[p] = j; } custom_cifar10::CIFAR10Dataset d("t"); if (k == 0 || k == 4) folder(d, m, 32, 3, {3, 32, 32}); else for (int i = 0; i < 2; i++) { auto b = image(32, 32, 3); std::fill(b.begin(), b.end(), 51); dwimg.bytes = b.data(); Tensor X({3, 32, 32}), y({1}); d.pull(i, X, y); dw_check(y.data()[0] == (float)m.at(dwimg.path), "a sample carries the label of its directory"); } }
ENTRY e_cifar100() { // labels are numbered per directory, the same in the training and the test set
  order(); std::map<std::string, int> m; for (const char *p : {"a/apple/1.png", "a/bee/1.png", "a/bee/2.png", "b/bee/9.png", "b/apple/9.png"}) put(p, {}); if (flag("more")) put("b/cup/9.png", {}); custom_cifar100::CIFAR100Dataset a("a"), b("b"); dw_check(a.size() == 3 && (b.size() == 2 || b.size() == 3), "a data set has one sample per file"); std::map<std::string, int> lab; std::set<std::string> seen;
  for (int s = 0; s < 2; s++) for (size_t i = 0; i < (s ? b : a).size(); i++) { auto im = image(32, 32, 3); std::fill(im.begin(), im.end(), 102); dwimg.bytes = im.data(); Tensor X({3, 32, 32}), y({1}); (s ? b : a).pull((int)i, X, y); std::string f = dwimg.path, c = f.substr(2, f.rfind('/') - 2); dw_check(seen.insert(f).second, "every index has its own file"); int l = (int)dw_split((long)y.data()[0]); dw_check(l >= 0 && l < 100, "labels are classes"); auto it = lab.emplace(c, l).first; dw_check(it->second == l, "a class has one label in every data set"); }
  for (auto &p : lab) for (auto &q : lab) if (p.first != q.first) dw_check(p.second != q.second, "classes have different labels"); for (auto &p : lab) dw_check(p.second < (int)lab.size(), "labels are numbered from zero");
}
ENTRY e_cifar100_pixels() { put("t/one/1.png", {}); custom_cifar100::CIFAR100Dataset d("t"); folder(d, {{"t/one/1.png", 0}}, 32, 3, {3, 32, 32}); }
ENTRY e_iris() { // the rows of the file in order, after the header line
  static const char *N[] = {"setosa", "versicolor", "virginica"}; int rows = size_in("rows", 0, 3); bool nl = flag("newline"); std::string s = "sepal_length,sepal_width,petal_length,petal_width,species\n"; std::vector<VF> want; std::vector<int> lab;
  for (int r = 0; r < rows; r++) { VF f; for (int k = 0; k < 4; k++) { int a = (7 * k + 3 * r + 1) % 10, b = (3 * k + 7 * r + 2) % 10; s += (char)('0' + a); s += '.'; s += (char)('0' + b); s += ','; f.push_back(a + b / 10.f); } int l = size_in("label", 0, 2); s += N[l]; if (nl || r + 1 < rows) s += '\n'; want.push_back(f); lab.push_back(l); }
  put("iris.csv", std::vector<char>(s.begin(), s.end())); custom_iris::IrisCSVDataset d("iris.csv");
  dw_check((int)d.size() == rows, "one sample per line after the header"); auto sh = d.shape(); dw_check(same(sh.first, {4}) && same(sh.second, {1}), "sample shapes");
  for (int r = rows - 1; r >= 0; r--) { Tensor X = sym_tensor("old", {4}), y = sym_tensor("oldy", {1}); d.pull(r, X, y); for (int k = 0; k < 4; k++) dw_check(X.data()[k] > want[r][k] - 0.001f && X.data()[k] < want[r][k] + 0.001f, "the four features in order"); dw_check_eqf(y.data()[0], (float)lab[r], "the label of the species"); }
}
