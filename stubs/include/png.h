// Stand-in for libpng: the decoder delivers an arbitrary image described by dwimg, or reports an error through longjmp.
#pragma once
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <dw_image.h>
typedef unsigned char png_byte; typedef png_byte *png_bytep; typedef const png_byte *png_const_bytep; typedef png_bytep *png_bytepp; typedef unsigned png_uint_32;
struct png_struct { jmp_buf jb; bool io; int sig; bool info, update; }; struct png_info { int dummy; };
typedef png_struct *png_structp; typedef png_struct **png_structpp; typedef png_info *png_infop; typedef png_info **png_infopp; typedef png_structp png_const_structp, png_structrp; typedef png_infop png_const_infop, png_inforp;
#define PNG_LIBPNG_VER_STRING "1.6.0"
#define png_jmpbuf(p) ((p)->jb)
#define PNG_COLOR_TYPE_GRAY 0
#define PNG_COLOR_TYPE_RGB 2
#define PNG_COLOR_TYPE_PALETTE 3
#define PNG_COLOR_TYPE_GRAY_ALPHA 4
#define PNG_COLOR_TYPE_RGB_ALPHA 6
#define PNG_INFO_tRNS 16
extern "C" {
int png_sig_cmp(png_const_bytep, size_t, size_t);
png_structp png_create_read_struct(const char *, void *, void *, void *);
png_infop png_create_info_struct(png_structp);
void png_init_io(png_structp, FILE *); void png_set_sig_bytes(png_structp, int); void png_read_info(png_structp, png_infop);
png_uint_32 png_get_image_width(png_structp, png_infop); png_uint_32 png_get_image_height(png_structp, png_infop); png_byte png_get_channels(png_structp, png_infop); png_byte png_get_bit_depth(png_structp, png_infop); png_byte png_get_color_type(png_structp, png_infop);
size_t png_get_rowbytes(png_structp, png_infop);
void png_read_update_info(png_structp, png_infop); void png_read_image(png_structp, png_bytepp); void png_read_row(png_structp, png_bytep, png_bytep); void png_read_end(png_structp, png_infop);
void png_destroy_read_struct(png_structpp, png_infopp, png_infopp);
void png_set_strip_16(png_structp); void png_set_scale_16(png_structp); void png_set_packing(png_structp); void png_set_expand_gray_1_2_4_to_8(png_structp); void png_set_expand(png_structp);
}
