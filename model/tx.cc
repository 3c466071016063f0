// Inverse transforms (7.13). Every intermediate is range checked: a conforming stream keeps them in range.
#include "blk.h"
#include <math.h>
namespace av1m {
const int tx_w[19] = {4, 8, 16, 32, 64, 4, 8, 8, 16, 16, 32, 32, 64, 4, 16, 8, 32, 16, 64}, tx_h[19] = {4, 8, 16, 32, 64, 8, 4, 16, 8, 32, 16, 64, 32, 16, 4, 32, 8, 64, 16};
static const int row_shift[19] = {0, 1, 2, 2, 2, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2};
struct T1 {
    i64 T[64]; int r; bool ok = true;
    void chk(i64 v) { if (v < -(1ll << (r - 1)) || v >= (1ll << (r - 1))) ok = false; }
    static int cos128(int a) { static int t[256]; static bool init = false; if (!init) { for (int i = 0; i < 256; i++) t[i] = (int)lrint(4096 * cos(i * M_PI / 128)); init = true; } return t[a & 255]; }
    static int sin128(int a) { return cos128(a - 64); }
    static int brev(int n, int x) { int v = 0; for (int i = 0; i < n; i++) v |= ((x >> i) & 1) << (n - 1 - i); return v; }
    void B(int a, int b, int ang, int flip) { i64 x = T[a] * cos128(ang) - T[b] * sin128(ang), y = T[a] * sin128(ang) + T[b] * cos128(ang); x = rnd2l(x, 12); y = rnd2l(y, 12); chk(x); chk(y); if (flip) std::swap(x, y); T[a] = x; T[b] = y; }
    void H(int a, int b, int f) { if (f) std::swap(a, b); i64 x = T[a], y = T[b]; chk(x + y); chk(x - y); T[a] = x + y; T[b] = x - y; }
    void dct(int n) {
        i64 c[64]; int N = 1 << n; memcpy(c, T, sizeof(i64) * N); for (int i = 0; i < N; i++) T[i] = c[brev(n, i)];
        if (n == 6) for (int i = 0; i < 16; i++) B(32 + i, 63 - i, 63 - 4 * brev(4, i), 0);
        if (n >= 5) for (int i = 0; i < 8; i++) B(16 + i, 31 - i, 6 + (brev(3, 7 - i) << 3), 0);
        if (n == 6) for (int i = 0; i < 16; i++) H(32 + i * 2, 33 + i * 2, i & 1);
        if (n >= 4) for (int i = 0; i < 4; i++) B(8 + i, 15 - i, 12 + (brev(2, 3 - i) << 4), 0);
        if (n >= 5) for (int i = 0; i < 8; i++) H(16 + 2 * i, 17 + 2 * i, i & 1);
        if (n == 6) for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) B(62 - i * 4 - j, 33 + i * 4 + j, 60 - 16 * brev(2, i) + 64 * j, 1);
        if (n >= 3) for (int i = 0; i < 2; i++) B(4 + i, 7 - i, 56 - 32 * i, 0);
        if (n >= 4) for (int i = 0; i < 4; i++) H(8 + 2 * i, 9 + 2 * i, i & 1);
        if (n >= 5) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) B(30 - 4 * i - j, 17 + 4 * i + j, 24 + (j << 6) + ((1 - i) << 5), 1);
        if (n == 6) for (int i = 0; i < 8; i++) for (int j = 0; j < 2; j++) H(32 + i * 4 + j, 35 + i * 4 - j, i & 1);
        for (int i = 0; i < 2; i++) B(2 * i, 2 * i + 1, 32 + 16 * i, 1 - i);
        if (n >= 3) for (int i = 0; i < 2; i++) H(4 + 2 * i, 5 + 2 * i, i);
        if (n >= 4) for (int i = 0; i < 2; i++) B(14 - i, 9 + i, 48 + 64 * i, 1);
        if (n >= 5) for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) H(16 + 4 * i + j, 19 + 4 * i - j, i & 1);
        if (n == 6) for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) B(61 - i * 8 - j, 34 + i * 8 + j, 56 - i * 32 + (j >> 1) * 64, 1);
        for (int i = 0; i < 2; i++) H(i, 3 - i, 0);
        if (n >= 3) B(6, 5, 32, 1);
        if (n >= 4) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) H(8 + 4 * i + j, 11 + 4 * i - j, i);
        if (n >= 5) for (int i = 0; i < 4; i++) B(29 - i, 18 + i, 48 + (i >> 1) * 64, 1);
        if (n == 6) for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) H(32 + 8 * i + j, 39 + 8 * i - j, i & 1);
        if (n >= 3) for (int i = 0; i < 4; i++) H(i, 7 - i, 0);
        if (n >= 4) for (int i = 0; i < 2; i++) B(13 - i, 10 + i, 32, 1);
        if (n >= 5) for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) H(16 + 8 * i + j, 23 + 8 * i - j, i);
        if (n == 6) for (int i = 0; i < 8; i++) B(59 - i, 36 + i, i < 4 ? 48 : 112, 1);
        if (n >= 4) for (int i = 0; i < 8; i++) H(i, 15 - i, 0);
        if (n >= 5) for (int i = 0; i < 4; i++) B(27 - i, 20 + i, 32, 1);
        if (n == 6) for (int i = 0; i < 8; i++) { H(32 + i, 47 - i, 0); H(48 + i, 63 - i, 1); }
        if (n >= 5) for (int i = 0; i < 16; i++) H(i, 31 - i, 0);
        if (n == 6) for (int i = 0; i < 8; i++) B(55 - i, 40 + i, 32, 1);
        if (n == 6) for (int i = 0; i < 32; i++) H(i, 63 - i, 0);
    }
    void adst4() {
        const i64 S1 = 1321, S2 = 2482, S3 = 3344, S4 = 3803;
        i64 s0 = S1 * T[0], s1 = S2 * T[0], s2 = S3 * T[1], s3 = S4 * T[2], s4 = S1 * T[2], s5 = S2 * T[3], s6 = S4 * T[3], a7 = T[0] - T[2], b7 = a7 + T[3]; chk(a7); chk(b7);
        i64 lim = 1ll << (r + 11); auto c2 = [&](i64 v) { if (v < -lim || v >= lim) ok = false; };
        s0 += s3; c2(s0); s1 -= s4; c2(s1); s3 = s2; s2 = S3 * b7; c2(s2); s0 += s5; c2(s0); s1 -= s6; c2(s1); i64 x0 = s0 + s3, x1 = s1 + s3, x2 = s2, x3 = s0 + s1; c2(x0); c2(x1); c2(x3); x3 -= s3; c2(x3);
        T[0] = rnd2l(x0, 12); T[1] = rnd2l(x1, 12); T[2] = rnd2l(x2, 12); T[3] = rnd2l(x3, 12); for (int i = 0; i < 4; i++) chk(T[i]);
    }
    void adst_in(int n) { i64 c[16]; int N = 1 << n; memcpy(c, T, sizeof(i64) * N); for (int i = 0; i < N; i++) T[i] = c[(i & 1) ? i - 1 : N - i - 1]; }
    void adst_out(int n) {
        i64 c[16]; int N = 1 << n; memcpy(c, T, sizeof(i64) * N);
        for (int i = 0; i < N; i++) { int idx; if (n == 4) { int a = (i >> 3) & 1, b = ((i >> 2) & 1) ^ ((i >> 3) & 1), cc = ((i >> 1) & 1) ^ ((i >> 2) & 1), d = (i & 1) ^ ((i >> 1) & 1); idx = (d << 3) | (cc << 2) | (b << 1) | a; } else { int a = (i >> 2) & 1, b = ((i >> 1) & 1) ^ ((i >> 2) & 1), cc = (i & 1) ^ ((i >> 1) & 1); idx = (cc << 2) | (b << 1) | a; } T[i] = (i & 1) ? -c[idx] : c[idx]; chk(T[i]); }
    }
    void adst8() {
        adst_in(3); for (int i = 0; i < 4; i++) B(2 * i, 2 * i + 1, 60 - 16 * i, 1);
        for (int i = 0; i < 4; i++) H(i, 4 + i, 0);
        for (int i = 0; i < 2; i++) B(4 + 3 * i, 5 + i, 48 - 32 * i, 1);
        for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) H(4 * j + i, 2 + 4 * j + i, 0);
        for (int i = 0; i < 2; i++) B(2 + 4 * i, 3 + 4 * i, 32, 1);
        adst_out(3);
    }
    void adst16() {
        adst_in(4); for (int i = 0; i < 8; i++) B(2 * i, 2 * i + 1, 62 - 8 * i, 1);
        for (int i = 0; i < 8; i++) H(i, 8 + i, 0);
        for (int i = 0; i < 2; i++) { B(8 + 2 * i, 9 + 2 * i, 56 - 32 * i, 1); B(13 + 2 * i, 12 + 2 * i, 8 + 32 * i, 1); }
        for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) H(8 * j + i, 4 + 8 * j + i, 0);
        for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) B(4 + 8 * j + 3 * i, 5 + 8 * j + i, 48 - 32 * i, 1);
        for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) H(4 * j + i, 2 + 4 * j + i, 0);
        for (int i = 0; i < 4; i++) B(2 + 4 * i, 3 + 4 * i, 32, 1);
        adst_out(4);
    }
    void ident(int n) { for (int i = 0; i < 1 << n; i++) { T[i] = n == 2 ? rnd2l(T[i] * 5793, 12) : n == 3 ? T[i] * 2 : n == 4 ? rnd2l(T[i] * 11586, 12) : T[i] * 4; chk(T[i]); } }
    void wht(int sh) { i64 a = T[0] >> sh, c = T[1] >> sh, d = T[2] >> sh, b = T[3] >> sh; a += c; d -= b; i64 e = (a - d) >> 1; b = e - b; c = e - c; a -= b; d += c; T[0] = a; T[1] = b; T[2] = c; T[3] = d; for (int i = 0; i < 4; i++) chk(T[i]); }
    void run(int kind, int n) { if (kind == 0) dct(n); else if (kind == 1) { if (n == 2) adst4(); else if (n == 3) adst8(); else adst16(); } else ident(n); }
};
// vertical / horizontal kernel of each transform type: 0 DCT 1 ADST (also flipped) 2 identity
static const u8 vk[16] = {0, 1, 0, 1, 1, 0, 1, 1, 1, 2, 0, 2, 1, 2, 1, 2}, hk[16] = {0, 0, 1, 1, 0, 1, 1, 1, 1, 2, 2, 0, 2, 1, 2, 1};
const u8 tx_flip_v[16] = {0, 0, 0, 0, 1, 0, 1, 0, 1, 0, 0, 0, 0, 0, 1, 0}, tx_flip_h[16] = {0, 0, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 1};
bool inv_txfm(int *res, int tx, int type, bool lossless, int bd) {
    const int w = tx_w[tx], h = tx_h[tx], lw = msb(w), lh = msb(h); bool ok = true; T1 t;
    const int cr = std::max(bd + 6, 16); 
    for (int i = 0; i < h; i++) {
        bool any = false; for (int j = 0; j < w; j++) { t.T[j] = i < 32 && j < 32 ? res[i * w + j] : 0; any |= t.T[j] != 0; }
        if (!any) { for (int j = 0; j < w; j++) res[i * w + j] = 0; continue; }
        t.r = bd + 8; t.ok = true; 
        if (abs(lw - lh) == 1) for (int j = 0; j < w; j++) t.T[j] = rnd2l(t.T[j] * 2896, 12);
        for (int j = 0; j < w; j++) t.chk(t.T[j]);
        if (lossless) t.wht(2); else t.run(hk[type], lw);
        ok &= t.ok;
        for (int j = 0; j < w; j++) { i64 v = lossless ? t.T[j] : rnd2l(t.T[j], row_shift[tx]); if (v < -(1ll << (cr - 1)) || v >= (1ll << (cr - 1))) ok = false; res[i * w + j] = (int)v; }
    }
    for (int j = 0; j < w; j++) {
        for (int i = 0; i < h; i++) t.T[i] = res[i * w + j];
        t.r = cr; t.ok = true; if (lossless) t.wht(0); else t.run(vk[type], lh); ok &= t.ok;
        for (int i = 0; i < h; i++) res[i * w + j] = (int)(lossless ? t.T[i] : rnd2l(t.T[i], 4));
    }
    return ok;
}
} // namespace av1m
