#pragma once
#include <cstdio>
// The file and image the stand-in decoders work on; set by the harness.
struct DwImage {
  bool exists, signature;                  // the file can be opened; it starts with the PNG signature
  int w, h, c, depth;                      // as stored in the file
  int fail;                                // which decoder call reports an error (0: none)
  const unsigned char *bytes;              // 8 bits: w*h*c samples, row-major; 16 bits: high and low byte of each; below 8: packed rows
  int open_files, structs, rows;           // balance of resources held by the reader
  char path[64];                           // the name fopen was given
  bool misuse;                             // the decoder was used in a way its documentation forbids
};
extern DwImage dwimg;
extern "C" { FILE *dws_fopen(const char *, const char *); int dws_fclose(FILE *); size_t dws_fread(void *, size_t, size_t, FILE *); }
#define fopen dws_fopen
#define fclose dws_fclose
#define fread dws_fread
