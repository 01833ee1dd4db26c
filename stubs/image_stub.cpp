#include <png.h>
#include <jpeglib.h>
#include <cstring>
#include "dw.h"
#undef fopen
#undef fclose
#undef fread
DwImage dwimg; static int theFile; static bool strip16, packing; static int row;
static int depthNow() { int d = dwimg.depth; if (d == 16 && strip16) d = 8; if (d < 8 && packing) d = 8; return d; }
static size_t rowBytes() { return ((size_t)dwimg.w * dwimg.c * depthNow() + 7) / 8; }
extern "C" {
FILE *dws_fopen(const char *n, const char *) { strncpy(dwimg.path, n, sizeof dwimg.path - 1); if (!dwimg.exists) return nullptr; dwimg.open_files++; return (FILE *)&theFile; }
int dws_fclose(FILE *f) { if (f != (FILE *)&theFile || dwimg.open_files <= 0) { dw_fail("fclose is given an open file"); } dwimg.open_files--; return 0; }
size_t dws_fread(void *p, size_t s, size_t n, FILE *f) { if (f != (FILE *)&theFile) dw_fail("fread is given an open file"); memset(p, dwimg.signature ? 1 : 0, s * n); return n; }
int png_sig_cmp(png_const_bytep p, size_t, size_t) { return p[0] == 1 ? 0 : 1; }
png_structp png_create_read_struct(const char *, void *, void *, void *) { dwimg.structs++; auto *p = (png_structp)malloc(sizeof(png_struct)); p->io = p->info = p->update = false; p->sig = 0; strip16 = packing = false; row = 0; return p; }
png_infop png_create_info_struct(png_structp) { return (png_infop)malloc(sizeof(png_info)); }
void png_init_io(png_structp p, FILE *f) { if (f != (FILE *)&theFile) dwimg.misuse = true; p->io = true; }
void png_set_sig_bytes(png_structp p, int n) { p->sig = n; }
void png_read_info(png_structp p, png_infop) { if (!p->io || p->sig != 8) dwimg.misuse = true; if (dwimg.fail == 1) longjmp(p->jb, 1); p->info = true; }
png_uint_32 png_get_image_width(png_structp, png_infop) { return (png_uint_32)dwimg.w; }
png_uint_32 png_get_image_height(png_structp, png_infop) { return (png_uint_32)dwimg.h; }
png_byte png_get_channels(png_structp, png_infop) { return (png_byte)dwimg.c; }
png_byte png_get_bit_depth(png_structp p, png_infop) { return (png_byte)(p->update ? depthNow() : dwimg.depth); }
png_byte png_get_color_type(png_structp, png_infop) { return dwimg.c == 1 ? PNG_COLOR_TYPE_GRAY : dwimg.c == 2 ? PNG_COLOR_TYPE_GRAY_ALPHA : dwimg.c == 3 ? PNG_COLOR_TYPE_RGB : PNG_COLOR_TYPE_RGB_ALPHA; }
size_t png_get_rowbytes(png_structp, png_infop) { return rowBytes(); }
void png_read_update_info(png_structp p, png_infop) { if (!p->info) dwimg.misuse = true; p->update = true; }
static void oneRow(int y, png_bytep d) {
  size_t n = (size_t)dwimg.w * dwimg.c;
  if (dwimg.depth == 8) memcpy(d, dwimg.bytes + (size_t)y * n, n);
  else if (dwimg.depth == 16) { for (size_t i = 0; i < n; i++) { if (strip16) d[i] = dwimg.bytes[2 * (y * n + i)]; else { d[2 * i] = dwimg.bytes[2 * (y * n + i)]; d[2 * i + 1] = dwimg.bytes[2 * (y * n + i) + 1]; } } }
  else { size_t rb = (n * dwimg.depth + 7) / 8; if (!packing) memcpy(d, dwimg.bytes + y * rb, rb); else for (size_t i = 0; i < n; i++) d[i] = (png_byte)((dwimg.bytes[y * rb + i * dwimg.depth / 8] >> (8 - dwimg.depth - (i * dwimg.depth) % 8)) & ((1 << dwimg.depth) - 1)); }
}
void png_read_image(png_structp p, png_bytepp r) { if (!p->update) dwimg.misuse = true; for (int y = 0; y < dwimg.h; y++) { if (dwimg.fail == 2 && y == dwimg.h - 1) longjmp(p->jb, 1); oneRow(y, r[y]); } }
void png_read_row(png_structp p, png_bytep r, png_bytep) { if (!p->update) dwimg.misuse = true; if (dwimg.fail == 2 && row == dwimg.h - 1) longjmp(p->jb, 1); oneRow(row++, r); }
void png_read_end(png_structp, png_infop) {}
void png_destroy_read_struct(png_structpp p, png_infopp i, png_infopp) { if (p && *p) { dwimg.structs--; if (i && *i) { free(*i); *i = nullptr; } free(*p); *p = nullptr; } }
void png_set_strip_16(png_structp) { strip16 = true; } void png_set_scale_16(png_structp) { strip16 = true; } void png_set_packing(png_structp) { packing = true; } void png_set_expand_gray_1_2_4_to_8(png_structp) { packing = true; } void png_set_expand(png_structp) { packing = true; }
// ---- jpeg
static void *jlist[4096]; static int jcount;
static JSAMPARRAY allocS(j_common_ptr, int, JDIMENSION w, JDIMENSION h) { auto *a = (JSAMPARRAY)malloc(h * sizeof(JSAMPROW)); if (jcount + (int)h + 1 > 4096) dw_stop(); for (JDIMENSION i = 0; i < h; i++) { a[i] = (JSAMPROW)malloc(w); jlist[jcount++] = a[i]; } jlist[jcount++] = a; return a; }
static void jexit(j_common_ptr) { dw_fail("a decoder error terminates the process"); }
jpeg_error_mgr *jpeg_std_error(jpeg_error_mgr *e) { e->error_exit = jexit; return e; }
void dw_jpeg_create(j_decompress_ptr c) { dwimg.structs++; c->mem = (jpeg_memory_mgr *)malloc(sizeof(jpeg_memory_mgr)); c->mem->alloc_sarray = allocS; c->state = 1; c->output_scanline = 0; }
void jpeg_stdio_src(j_decompress_ptr c, FILE *f) { if (f != (FILE *)&theFile || c->state != 1) dwimg.misuse = true; c->state = 2; }
int jpeg_read_header(j_decompress_ptr c, int) { if (c->state != 2) dwimg.misuse = true; if (dwimg.fail == 1) c->err->error_exit((j_common_ptr)c); c->image_width = (JDIMENSION)dwimg.w; c->image_height = (JDIMENSION)dwimg.h; c->num_components = dwimg.c; c->state = 3; return 1; }
int jpeg_start_decompress(j_decompress_ptr c) { if (c->state != 3) dwimg.misuse = true; c->output_width = (JDIMENSION)dwimg.w; c->output_height = (JDIMENSION)dwimg.h; c->output_components = dwimg.c; c->output_scanline = 0; c->state = 4; return 1; }
JDIMENSION jpeg_read_scanlines(j_decompress_ptr c, JSAMPARRAY b, JDIMENSION n) { if (c->state != 4) dwimg.misuse = true; if (dwimg.fail == 2 && c->output_scanline + 1 >= (JDIMENSION)dwimg.h) c->err->error_exit((j_common_ptr)c); JDIMENSION k = 0; size_t rw = (size_t)dwimg.w * dwimg.c; for (; k < n && c->output_scanline < c->output_height; k++) { memcpy(b[k], dwimg.bytes + c->output_scanline * rw, rw); c->output_scanline++; } return k; }
int jpeg_finish_decompress(j_decompress_ptr c) { if (c->state != 4 || c->output_scanline < c->output_height) c->err->error_exit((j_common_ptr)c); c->state = 5; return 1; }
void jpeg_abort_decompress(j_decompress_ptr c) { c->state = 1; }
void jpeg_destroy_decompress(j_decompress_ptr c) { if (!c->mem) return; for (int i = 0; i < jcount; i++) free(jlist[i]); jcount = 0; free(c->mem); c->mem = nullptr; dwimg.structs--; c->state = 0; }
}
