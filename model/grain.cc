// Film grain synthesis (7.18.3).
#include "av1m_int.h"
#include "tables.inc"
namespace av1m {
namespace {
struct Grain {
    u32 rr = 0; int bd; const FilmGrain &f; int gmin, gmax;
    int luma[73][82], chroma[2][38 * 2][82]; int cw = 82, ch = 73; u8 lut[3][256];
    Grain(const FilmGrain &fg, int b) : bd(b), f(fg) { gmin = -(128 << (b - 8)); gmax = (128 << (b - 8)) - 1; memset(luma, 0, sizeof luma); memset(chroma, 0, sizeof chroma); }
    int rnd(int bits) { u32 bit = (rr ^ (rr >> 1) ^ (rr >> 3) ^ (rr >> 12)) & 1; rr = (rr >> 1) | (bit << 15); return (rr >> (16 - bits)) & ((1 << bits) - 1); }
    static int r2(int x, int n) { return n ? (x + (1 << (n - 1))) >> n : x; }
    int cl(int v) const { return v < gmin ? gmin : v > gmax ? gmax : v; }
    void gen(const SeqHdr &s) {
        int shift = 12 - bd + f.scale_shift, lag = f.ar_lag; 
        if (f.num_y) {
            rr = f.seed; for (auto &row : luma) for (int &v : row) v = r2(T_gauss[rnd(11)], shift);
            for (int y = 3; y < 73; y++) for (int x = 3; x < 82 - 3; x++) { int sum = 0, pos = 0; for (int dy = -lag; dy <= 0; dy++) for (int dx = -lag; dx <= lag; dx++) { if (!dy && !dx) break; sum += f.ar_y[pos++] * luma[y + dy][x + dx]; } luma[y][x] = cl(luma[y][x] + r2(sum, f.ar_shift)); }
        }
        if (s.mono) return;
        cw = s.ssx ? 44 : 82; ch = s.ssy ? 38 : 73;
        for (int p = 0; p < 2; p++) {
            if (!(f.num_uv[p] || f.csfl)) continue;
            rr = f.seed ^ (p ? 0x49d8 : 0xb524); for (int y = 0; y < ch; y++) for (int x = 0; x < cw; x++) chroma[p][y][x] = r2(T_gauss[rnd(11)], shift);
            for (int y = 3; y < ch; y++) for (int x = 3; x < cw - 3; x++) {
                int sum = 0, pos = 0;
                for (int dy = -lag; dy <= 0; dy++) for (int dx = -lag; dx <= lag; dx++) {
                    int c = f.ar_uv[p][pos];
                    if (!dy && !dx) { if (f.num_y) { int l = 0, lx = ((x - 3) << s.ssx) + 3, ly = ((y - 3) << s.ssy) + 3; for (int i = 0; i <= s.ssy; i++) for (int j = 0; j <= s.ssx; j++) l += luma[ly + i][lx + j]; sum += r2(l, s.ssx + s.ssy) * c; } break; }
                    sum += c * chroma[p][y + dy][x + dx]; pos++;
                }
                chroma[p][y][x] = cl(chroma[p][y][x] + r2(sum, f.ar_shift));
            }
        }
    }
    void scaling(int idx, const u8 (*pt)[2], int n) {
        u8 *l = lut[idx]; if (!n) { memset(l, 0, 256); return; }
        for (int i = 0; i < pt[0][0]; i++) l[i] = pt[0][1];
        for (int i = 0; i < n - 1; i++) { int dx = pt[i + 1][0] - pt[i][0], dy = pt[i + 1][1] - pt[i][1], delta = dy * ((65536 + (dx >> 1)) / dx); for (int x = 0; x < dx; x++) l[pt[i][0] + x] = pt[i][1] + ((x * delta + 32768) >> 16); }
        for (int i = pt[n - 1][0]; i < 256; i++) l[i] = pt[n - 1][1];
    }
    int scale(int idx, int v) const { int sh = bd - 8, x = v >> sh, rem = v - (x << sh); if (bd == 8 || x == 255) return lut[idx][x]; return lut[idx][x] + r2((lut[idx][x + 1] - lut[idx][x]) * rem, sh); }
};
} // namespace
void apply_film_grain(Picture &dst, const Picture &src, const FilmGrain &f, const SeqHdr &s) {
    dst = src; if (!f.apply) return;
    int bd = src.bpc, w = src.p[0].w, h = src.p[0].h; auto G = std::make_unique<Grain>(f, bd); Grain &g = *G; g.gen(s);
    g.scaling(0, f.y, f.num_y); for (int p = 0; p < 2; p++) { if (f.csfl) memcpy(g.lut[1 + p], g.lut[0], 256); else g.scaling(1 + p, f.uv[p], f.num_uv[p]); }
    int nst = (h + 31) / 32; struct St { std::vector<int> d[3]; int w[3]; }; std::vector<St> st(nst);
    for (int n = 0; n < nst; n++) {
        g.rr = f.seed; g.rr ^= ((n * 37 + 178) & 255) << 8; g.rr ^= (n * 173 + 105) & 255;
        for (int p = 0; p < src.np; p++) { st[n].w[p] = src.p[p].w; st[n].d[p].assign((size_t)src.p[p].w * 34, 0); }
        for (int x = 0; x < (w + 1) / 2; x += 16) {
            int r = g.rnd(8), ox = r >> 4, oy = r & 15;
            for (int p = 0; p < src.np; p++) {
                int sx = p ? s.ssx : 0, sy = p ? s.ssy : 0, px = sx ? 6 + ox : 9 + ox * 2, py = sy ? 6 + oy : 9 + oy * 2;
                for (int i = 0; i < 34 >> sy; i++) for (int j = 0; j < 34 >> sx; j++) {
                    int v = p ? g.chroma[p - 1][py + i][px + j] : g.luma[py + i][px + j], xx = (sx ? x : x * 2) + j; if (xx >= st[n].w[p]) continue;
                    int &o = st[n].d[p][(size_t)i * st[n].w[p] + xx];
                    if (f.overlap && x > 0) { if (!sx && j < 2) v = g.cl(Grain::r2(j ? o * 17 + v * 27 : o * 27 + v * 17, 5)); else if (sx && j == 0) v = g.cl(Grain::r2(o * 23 + v * 22, 5)); }
                    o = v;
                }
            }
        }
    }
    auto noise = [&](int p, int x, int y) {
        int sy = p ? s.ssy : 0, n = y >> (5 - sy), i = y - (n << (5 - sy)), W = st[n].w[p], v = st[n].d[p][(size_t)i * W + x];
        if (n && f.overlap) { if (!sy && i < 2) { int o = st[n - 1].d[p][(size_t)(i + 32) * W + x]; v = g.cl(Grain::r2(i ? o * 17 + v * 27 : o * 27 + v * 17, 5)); } else if (sy && i < 1) { int o = st[n - 1].d[p][(size_t)(i + 16) * W + x]; v = g.cl(Grain::r2(o * 23 + v * 22, 5)); } }
        return v;
    };
    int mx = (1 << bd) - 1, lo = 0, hil = mx, hic = mx; if (f.clip) { lo = 16 << (bd - 8); hil = 235 << (bd - 8); hic = (s.mtrx == 0 ? 235 : 240) << (bd - 8); }
    if (f.num_y) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int o = src.p[0].at(x, y); dst.p[0].at(x, y) = std::min(hil, std::max(lo, o + Grain::r2(g.scale(0, o) * noise(0, x, y), f.scaling_shift))); }
    for (int p = 1; p < src.np; p++) if (f.csfl || f.num_uv[p - 1])
        for (int y = 0; y < src.p[p].h; y++) for (int x = 0; x < src.p[p].w; x++) {
            int lx = x << s.ssx, ly = y << s.ssy, nx = std::min(lx + 1, w - 1), av = s.ssx ? (src.p[0].at(lx, ly) + src.p[0].at(nx, ly) + 1) >> 1 : src.p[0].at(lx, ly), o = src.p[p].at(x, y), m = av;
            if (!f.csfl) { int c = av * f.uv_luma_mult[p - 1] + o * f.uv_mult[p - 1]; m = std::min(mx, std::max(0, (c >> 6) + f.uv_offset[p - 1] * (1 << (bd - 8)))); }
            dst.p[p].at(x, y) = std::min(hic, std::max(lo, o + Grain::r2(g.scale(p, m) * noise(p, x, y), f.scaling_shift)));
        }
}
} // namespace av1m
