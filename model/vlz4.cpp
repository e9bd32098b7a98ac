// Model of the LZ4 frame calls used by io/MPICompression.hpp.  A frame stores its content verbatim:
// magic(4) contentSize(8) content endmark(4).  LZ4F_decompress regenerates as much as the destination
// holds, as the library does, and consumes the end mark only once the content is complete.
#include <cstdlib>
#include <cstring>
#include <lz4.h>
#include <lz4frame.h>
#include "vf.h"
static const size_t ERR = (size_t)-1, HEAD = 12, TAIL = 4;
static void putU(char* d, unsigned long long v, int n) { for (int i = 0; i < n; i++) d[i] = (char)(v >> (8 * i)); }
static unsigned long long getU(const char* d, int n) { unsigned long long v = 0; for (int i = 0; i < n; i++) v |= (unsigned long long)(unsigned char)d[i] << (8 * i); return v; }
struct LZ4F_dctx_s { int stage; size_t left; };
extern "C" {
// The 4 MiB stream buffer is scaled down by configuration ("sink"): only its size depends on it.
int LZ4_compressBound(int n) { if (n == (1 << 20) * 4) return (int)vf_config("sink", 64); return (unsigned)n > 0x7E000000u ? 0 : n + n / 255 + 16; }
size_t LZ4F_compressFrameBound(size_t n, const LZ4F_preferences_t*) { return n + HEAD + TAIL; }
size_t LZ4F_compressFrame(void* dst, size_t cap, const void* src, size_t n, const LZ4F_preferences_t* p) {
  if (cap < n + HEAD + TAIL) return ERR;
  if (p && p->frameInfo.contentSize && p->frameInfo.contentSize != n) return ERR;
  char* d = (char*)dst; if (n) memmove(d + HEAD, src, n); putU(d, 0x184D2204u, 4); putU(d + 4, n, 8); putU(d + HEAD + n, 0, 4); return n + HEAD + TAIL;
}
unsigned LZ4F_isError(size_t c) { return c > (size_t)-25; }
const char* LZ4F_getErrorName(size_t) { return "model"; }
size_t LZ4F_createDecompressionContext(LZ4F_dctx** c, unsigned) { *c = (LZ4F_dctx*)calloc(1, sizeof(LZ4F_dctx_s)); return 0; }
size_t LZ4F_freeDecompressionContext(LZ4F_dctx* c) { size_t r = c->stage; free(c); return r; }
size_t LZ4F_decompress(LZ4F_dctx* c, void* dst, size_t* dn, const void* src, size_t* sn, const LZ4F_decompressOptions_t*) {
  size_t cap = *dn, av = *sn, used = 0, made = 0; const char* s = (const char*)src; *dn = 0; *sn = 0;
  if (c->stage == 0) {
    if (!av) return HEAD;
    if (av < HEAD) { vf_unsupported("LZ4 model: header in pieces"); return ERR; }
    if (getU(s, 4) != 0x184D2204u) return ERR;
    c->left = getU(s + 4, 8); used = HEAD; c->stage = 1;
  }
  if (c->stage == 1) {
    size_t k = c->left; if (k > cap) k = cap; if (k > av - used) k = av - used;
    if (k) memcpy(dst, s + used, k); made = k; used += k; c->left -= k;
    if (!c->left) c->stage = 2;
  }
  if (c->stage == 2 && av - used >= TAIL) { if (getU(s + used, 4) != 0) return ERR; used += TAIL; c->stage = 0; }
  *dn = made; *sn = used; return c->stage ? c->left + TAIL : 0;
}
}
