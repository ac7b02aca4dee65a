// C interface of the vendored reference codec (gfwx.hpp, unmodified).
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <limits>
#include <type_traits>
#include <utility>
#include <vector>
#include "gfwx.hpp"

typedef int16_t i16;

extern "C" {

int64_t ref_compress(uint8_t const *img, int w, int h, int layers, int channels, int quality, int chroma,
                     int bs, int filter, int enc, int intent, int const *prog, uint8_t *meta, size_t meta_size,
                     uint32_t *out, size_t size) {
    GFWX::Header hd(w, h, layers, channels, 8, quality, chroma, bs, filter, 0, enc, intent);
    return GFWX::compress(img, hd, reinterpret_cast<uint8_t *>(out), size, prog, meta, meta_size);
}

int64_t ref_decompress(uint32_t const *data, size_t size, int down, int test, uint8_t *out) {
    GFWX::Header hd;
    return GFWX::decompress(out, hd, reinterpret_cast<uint8_t const *>(data), size, down, test != 0);
}

void ref_lift(i16 *p, int w, int h, int filter) {
    GFWX::Image<i16> im(p, w, h);
    GFWX::lift(im, 0, 0, w, h, 1, filter);
}

void ref_unlift(i16 *p, int w, int h, int filter) {
    GFWX::Image<i16> im(p, w, h);
    GFWX::unlift(im, 0, 0, w, h, 1, filter);
}

void ref_quantize(i16 *p, int w, int h, int q, int minq, int maxq) {
    GFWX::Image<i16> im(p, w, h);
    GFWX::quantize<i16>(im, 0, 0, w, h, 1, q, minq, maxq);
}

void ref_dequantize(i16 *p, int w, int h, int q, int minq, int maxq) {
    GFWX::Image<i16> im(p, w, h);
    GFWX::dequantize<i16>(im, 0, 0, w, h, 1, q, minq, maxq);
}

int64_t ref_encode(i16 *p, int w, int h, int x0, int y0, int x1, int y1, int step, int scheme, int q, int dc,
                   int chroma, uint32_t *out, size_t words) {
    GFWX::Image<i16> im(p, w, h);
    GFWX::Bits s(out, out + words);
    GFWX::encode(im, s, x0, y0, x1, y1, step, scheme, q, dc != 0, chroma != 0);
    s.flushWriteWord();
    return s.indexBits < 0 ? -1 : s.buffer - out;
}

int64_t ref_decode(i16 *p, int w, int h, int x0, int y0, int x1, int y1, int step, int scheme, int q, int dc,
                   int chroma, uint32_t *in, size_t words) {
    GFWX::Image<i16> im(p, w, h);
    GFWX::Bits s(in, in + words);
    GFWX::decode(im, s, x0, y0, x1, y1, step, scheme, q, dc != 0, chroma != 0);
    if (s.indexBits < 0) {
        return -1;
    }
    s.flushReadWord();
    return s.buffer - in;
}
}
