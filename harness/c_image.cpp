#include "common.hpp"
#include <deepworks/image_reader.hpp>
#include <dw_image.h>
#include <cstring>
static const char *NAMES[] = {"a.png", "b.jpg", "c.d.jpeg"};
static void image(int w, int h, int c, int depth, std::vector<unsigned char> &buf) {
  buf.resize(depth == 16 ? 2 * w * h * c : depth == 8 ? w * h * c : h * ((w * c * depth + 7) / 8)); dw_sym_bytes("byte", buf.data(), buf.size());
  dwimg = DwImage{}; dwimg.exists = dwimg.signature = true; dwimg.w = w; dwimg.h = h; dwimg.c = c; dwimg.depth = depth; dwimg.bytes = buf.data();
}
static void released() { dw_check(dwimg.open_files == 0, "the file is closed again"); dw_check(dwimg.structs == 0, "the decoder is destroyed again"); dw_check(!dwimg.misuse, "the decoder is used as documented"); }
static void good(int k, int w, int h, int c, int target) {
  std::vector<unsigned char> b; image(w, h, c, 8, b); Tensor t; Shape s{h, w, c};
  if (target == 1) t = Tensor(s); if (target == 2) { s = {w * h * c}; t = Tensor(s); } if (target == 3) { s = {c, h, w}; t = Tensor(s); }
  float *p = target ? t.data() : nullptr;
  if (target == 4) t = dw::io::ReadImage(NAMES[k]); else if (target == 0 && flag("byvalue")) t = dw::io::ReadImage(NAMES[k]); else dw::io::ReadImage(NAMES[k], t);
  dw_check(same(t.shape(), s), "an empty tensor becomes [height, width, channels], another keeps its shape");
  if (target && target != 4) dw_check(t.data() == p, "the caller's tensor is filled in place");
  for (size_t i = 0; i < b.size(); i++) dw_check_eqf(t.data()[i], (float)b[i], "element (y, x, c) is the sample of the file");
  dw_check(!strcmp(dwimg.path, NAMES[k]), "the named file is opened"); released();
}
ENTRY e_read() { int k = size_in("kind", 0, 2), w = size_in("w", 1, DEEP(3, 6)), h = size_in("h", 1, DEEP(3, 6)), c = size_in("c", 1, 4); good(k, w, h, c, size_in("target", 0, 3)); }
ENTRY e_read_large() { int k = size_in("kind", 0, 1); good(k, 17, 9, 3, size_in("target", 0, 1)); }
ENTRY e_mismatch() { int k = size_in("kind", 0, 1), w = size_in("w", 1, 2), h = size_in("h", 1, 2), c = size_in("c", 1, 3), n = size_in("total", 1, 13); dw_assume(n != w * h * c); std::vector<unsigned char> b; image(w, h, c, 8, b); Tensor t({n}); dw_sym_floats("old", t.data(), n); VF o = values(t);
  dw_check(throws([&] { dw::io::ReadImage(NAMES[k], t); }), "a tensor of another size is refused"); check_all(t, o, "a refused tensor is not written"); released(); }
ENTRY e_missing() { int k = size_in("kind", 0, 2); std::vector<unsigned char> b; image(1, 1, 1, 8, b); dwimg.exists = false; Tensor t; dw_check(throws([&] { dw::io::ReadImage(NAMES[k], t); }), "a missing file is reported"); dw_check(throws([&] { dw::io::ReadImage(NAMES[k]); }), "a missing file is reported"); released(); }
ENTRY e_not_png() { std::vector<unsigned char> b; image(1, 1, 1, 8, b); dwimg.signature = false; Tensor t; dw_check(throws([&] { dw::io::ReadImage("a.png", t); }), "a file without the PNG signature is refused"); released(); }
static void broken(int k, int at, bool target) { std::vector<unsigned char> b; image(2, 2, 3, 8, b); Tensor t; if (target) t = Tensor({2, 2, 3}); dwimg.fail = at; bool r = throws([&] { dw::io::ReadImage(NAMES[k], t); }); dw_check(r, "a decoder error is reported as an exception"); released(); }
ENTRY e_broken() { int k = size_in("kind", 0, 1), at = size_in("at", 1, 2); bool tg = flag("target"); broken(k, at, tg); long l = dw_heap_live(); broken(k, at, tg); dw_check(dw_heap_live() <= l, "nothing is leaked when decoding fails"); }
ENTRY e_leak() { int k = size_in("kind", 0, 1); long l = 0; for (int i = 0; i < 3; i++) { good(k, 2, 2, 1, 0); if (i == 1) l = dw_heap_live(); } dw_check(dw_heap_live() <= l, "nothing is leaked"); }
ENTRY e_depth() { int d = 1 << size_in("log2depth", 0, 4); std::vector<unsigned char> b; int w = size_in("w", 1, DEEP(9, 20)), h = size_in("h", 1, DEEP(2, 3)), c = size_in("c", 1, 2); dw_assume(c == 1 || d >= 8); image(w, h, c, d, b); Tensor t; bool r = throws([&] { dw::io::ReadImage("a.png", t); }); if (!r) { dw_check(same(t.shape(), {h, w, c}), "the tensor is [height, width, channels]"); if (d == 8) for (size_t i = 0; i < b.size(); i++) dw_check_eqf(t.data()[i], (float)b[i], "element (y, x, c) is the sample of the file"); } else dw_check(d != 8, "8-bit images are read"); released(); }
ENTRY e_extension() { static const char *bad[] = {"a.bmp", "a", "a.pn", "a.pngx", "a.jp", "", "a.png.bmp", "x.png/file", "jpg.gif", "a."}; int k = size_in("name", 0, 9); std::vector<unsigned char> b; image(1, 1, 1, 8, b); Tensor t; dw_check(throws([&] { dw::io::ReadImage(bad[k], t); }), "an unsupported extension is refused"); released(); }
ENTRY e_view() { int k = size_in("kind", 0, 1); std::vector<unsigned char> b; image(1, 1, 1, 8, b); std::string s = k ? "q.jpg.bak" : "q.png.bak"; Tensor t; dw::io::ReadImage(std::string_view(s).substr(0, 5), t); dw_check(!strcmp(dwimg.path, k ? "q.jpg" : "q.png"), "the named file is opened, not a longer name"); }
ENTRY e_read_vast() { // only the first, middle and last sample are free
  int k = size_in("kind", 0, 1), g = size_in("geometry", 0, 3); static const int W[] = {300, 3, 130, 70}, H[] = {3, 300, 67, 66}, C[] = {3, 3, 4, 1}; int w = W[g], h = H[g], c = C[g]; size_t n = (size_t)w * h * c; std::vector<unsigned char> b(n); for (size_t i = 0; i < n; i++) b[i] = (unsigned char)((i * 37 + i / 256 * 5) % 251); dw_sym_bytes("byte", &b[0], 1); dw_sym_bytes("byte", &b[n / 2], 1); dw_sym_bytes("byte", &b[n - 1], 1);
  dwimg = DwImage{}; dwimg.exists = dwimg.signature = true; dwimg.w = w; dwimg.h = h; dwimg.c = c; dwimg.depth = 8; dwimg.bytes = b.data(); Tensor t; bool given = flag("given"); if (given) t = Tensor({h, w, c}); dw::io::ReadImage(NAMES[k], t);
  dw_check(same(t.shape(), {h, w, c}), "an empty tensor becomes [height, width, channels], another keeps its shape"); for (size_t i = 0; i < n; i++) dw_check_eqf(t.data()[i], (float)b[i], "element (y, x, c) is the sample of the file"); released();
}
