// Stand-in for libjpeg: the decoder delivers an arbitrary image described by dwimg.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <dw_image.h>
typedef unsigned char JSAMPLE; typedef JSAMPLE *JSAMPROW; typedef JSAMPROW *JSAMPARRAY; typedef unsigned JDIMENSION; typedef int boolean;
#define JPOOL_IMAGE 1
struct jpeg_common_struct; typedef jpeg_common_struct *j_common_ptr;
struct jpeg_error_mgr { void (*error_exit)(j_common_ptr); int msg_code; };
struct jpeg_memory_mgr { JSAMPARRAY (*alloc_sarray)(j_common_ptr, int, JDIMENSION, JDIMENSION); void *list[8]; int n; };
struct jpeg_decompress_struct { jpeg_error_mgr *err; jpeg_memory_mgr *mem; JDIMENSION output_width, output_height; int output_components, num_components; JDIMENSION image_width, image_height, output_scanline; int state; };
struct jpeg_common_struct { jpeg_error_mgr *err; jpeg_memory_mgr *mem; };
typedef jpeg_decompress_struct *j_decompress_ptr;
extern "C" {
jpeg_error_mgr *jpeg_std_error(jpeg_error_mgr *); void dw_jpeg_create(j_decompress_ptr); void jpeg_stdio_src(j_decompress_ptr, FILE *);
int jpeg_read_header(j_decompress_ptr, int); int jpeg_start_decompress(j_decompress_ptr); JDIMENSION jpeg_read_scanlines(j_decompress_ptr, JSAMPARRAY, JDIMENSION); int jpeg_finish_decompress(j_decompress_ptr); void jpeg_destroy_decompress(j_decompress_ptr); void jpeg_abort_decompress(j_decompress_ptr);
}
#define jpeg_create_decompress(c) dw_jpeg_create(c)
