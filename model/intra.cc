// Intra prediction (7.11.2), palette (7.11.4) and chroma from luma (7.11.5).
#include "blk.h"
#include "tables.inc"
namespace av1m {
bool FrameCoder::smooth_nb(int p, bool above) {
    if (p ? !(above ? availUC : availLC) : !(above ? availU : availL)) return false;
    int r = above ? b.r - 1 : b.r, c = above ? b.c : b.c - 1;
    if (p) {
        if (above) { if (ssx && !(b.c & 1)) c++; if (ssy && (b.r & 1)) r--; }
        else { if (ssx && (b.c & 1)) c--; if (ssy && !(b.r & 1)) r++; }
    }
    const Blk *n = at(std::min(r, miR - 1), std::min(c, miC - 1)); if (!n) return false;
    int m; if (p) { if (n->inter && !n->intrabc) return false; m = n->uvmode; } else m = n->ymode;
    return m >= SMOOTH_PRED && m <= SMOOTH_H_PRED;
}
static int edge_strength(int blkwh, int d, bool sm) {
    // 7.11.2.9
    if (!sm) {
        if (blkwh <= 8) return d >= 56 ? 1 : 0;
        if (blkwh <= 12) return d >= 40 ? 1 : 0;
        if (blkwh <= 16) return d >= 40 ? 1 : 0;
        if (blkwh <= 24) return d >= 32 ? 3 : d >= 16 ? 2 : d >= 8 ? 1 : 0;
        if (blkwh <= 32) return d >= 32 ? 3 : d >= 4 ? 2 : d >= 1 ? 1 : 0;
        return d >= 1 ? 3 : 0;
    }
    if (blkwh <= 8) return d >= 64 ? 2 : d >= 40 ? 1 : 0;
    if (blkwh <= 16) return d >= 48 ? 2 : d >= 20 ? 1 : 0;
    if (blkwh <= 24) return d >= 4 ? 3 : 0;
    return d >= 1 ? 3 : 0;
}
// edge[0] = top-left, edge[1..] outwards
static void edge_filter(int *e, int sz, int strength) {
    static const int kern[3][5] = {{0, 4, 8, 4, 0}, {0, 5, 6, 5, 0}, {2, 4, 4, 4, 2}};
    if (!strength) return; std::vector<int> t(e, e + sz);
    for (int i = 1; i < sz; i++) { int sum = 0; for (int j = 0; j < 5; j++) sum += kern[strength - 1][j] * t[clip3(0, sz - 1, i - 2 + j)]; e[i] = (sum + 8) >> 4; }
}
static void edge_upsample(int *e, int n, int mx) { // e[-1..n-1] -> e[-2..2n-2]
    std::vector<int> d(n + 3); d[0] = e[-1]; for (int i = -1; i < n; i++) d[i + 2] = e[i]; d[n + 2] = e[n - 1];
    e[-2] = d[0]; for (int i = 0; i < n; i++) { int v = -d[i] + 9 * d[i + 1] + 9 * d[i + 2] - d[i + 3]; e[2 * i - 1] = clip3(0, mx, (v + 8) >> 4); e[2 * i] = d[i + 2]; }
}
void FrameCoder::predict_intra(int p, int x, int y, bool hl, bool ha, bool tr, bool bl, int mode, int lw, int lh, int angle, u16 *out, int os) {
    const Plane &c = cur[p]; int w = 1 << lw, hh = 1 << lh, sx = p ? ssx : 0, sy = p ? ssy : 0, maxX = ((miC * 4) >> sx) - 1, maxY = ((miR * 4) >> sy) - 1, mx = (1 << bd) - 1;
    int ab[32 + 160 * 2], lf[32 + 160 * 2]; int *A_ = ab + 32, *L_ = lf + 32; // index -1 is the corner
    int n = w + hh;
    for (int i = 0; i < n; i++) {
        if (!ha) A_[i] = hl ? c.at(x - 1, y) : (1 << (bd - 1)) - 1;
        else if (i < w || tr) A_[i] = c.at(std::min(maxX, x + (i < w ? i : std::min(i, 2 * w - 1))), y - 1);
        else A_[i] = c.at(std::min(maxX, x + w - 1), y - 1);
        if (!hl) L_[i] = ha ? c.at(x, y - 1) : (1 << (bd - 1)) + 1;
        else if (i < hh || bl) L_[i] = c.at(x - 1, std::min(maxY, y + (i < hh ? i : std::min(i, 2 * hh - 1))));
        else L_[i] = c.at(x - 1, std::min(maxY, y + hh - 1));
    }
    A_[-1] = L_[-1] = ha && hl ? c.at(x - 1, y - 1) : ha ? c.at(x, y - 1) : hl ? c.at(x - 1, y) : 1 << (bd - 1);
    auto O = [&](int i, int j) -> u16 & { return out[(size_t)i * os + j]; };
    if (mode == FILTER_PRED) {
        std::vector<int> pr((size_t)w * hh); auto P = [&](int i, int j) -> int { return i < 0 ? A_[j] : j < 0 ? L_[i] : pr[i * w + j]; };
        for (int i2 = 0; i2 < hh / 2; i2++) for (int j4 = 0; j4 < w / 4; j4++) {
            int q[7]; for (int i = 0; i < 5; i++) q[i] = P(i2 * 2 - 1, j4 * 4 + i - 1); 
            for (int i = 0; i < 2; i++) q[5 + i] = P(i2 * 2 + i, j4 * 4 - 1);
            for (int i = 0; i < 8; i++) { const int8_t *f = T_fi + b.fimode * 64 + 2 * i; int v = f[0] * q[0] + f[1] * q[1] + f[16] * q[2] + f[17] * q[3] + f[32] * q[4] + f[33] * q[5] + f[48] * q[6]; pr[(i2 * 2 + i / 4) * w + j4 * 4 + i % 4] = clip3(0, mx, rnd2s(v, 4)); }
        }
        for (int i = 0; i < hh; i++) for (int j = 0; j < w; j++) O(i, j) = pr[i * w + j];
        return;
    }
    if (mode == DC_PRED) {
        int s2 = 0, v; for (int i = 0; i < w && ha; i++) s2 += A_[i]; for (int i = 0; i < hh && hl; i++) s2 += L_[i];
        if (ha && hl) v = (s2 + ((w + hh) >> 1)) / (w + hh); else if (hl) v = (s2 + (hh >> 1)) >> lh; else if (ha) v = (s2 + (w >> 1)) >> lw; else v = 1 << (bd - 1);
        for (int i = 0; i < hh; i++) for (int j = 0; j < w; j++) O(i, j) = v; return;
    }
    if (mode == PAETH_PRED) {
        for (int i = 0; i < hh; i++) for (int j = 0; j < w; j++) { int base = A_[j] + L_[i] - A_[-1], pl = abs(base - L_[i]), pt = abs(base - A_[j]), ptl = abs(base - A_[-1]); O(i, j) = pl <= pt && pl <= ptl ? L_[i] : pt <= ptl ? A_[j] : A_[-1]; }
        return;
    }
    if (mode == SMOOTH_PRED || mode == SMOOTH_V_PRED || mode == SMOOTH_H_PRED) {
        const u8 *wx = T_smw + w, *wy = T_smw + hh;
        for (int i = 0; i < hh; i++) for (int j = 0; j < w; j++) {
            int sv = wy[i] * A_[j] + (256 - wy[i]) * L_[hh - 1], sh = wx[j] * L_[i] + (256 - wx[j]) * A_[w - 1];
            O(i, j) = mode == SMOOTH_PRED ? rnd2(sv + sh, 9) : mode == SMOOTH_V_PRED ? rnd2(sv, 8) : rnd2(sh, 8);
        }
        return;
    }
    static const int base_angle[9] = {0, 90, 180, 45, 135, 113, 157, 203, 67};
    int pa = base_angle[mode] + angle * 3; int upA = 0, upL = 0;
    if (s.intra_edge) {
        if (pa != 90 && pa != 180) {
            bool sm = smooth_nb(p, true) || smooth_nb(p, false);
            if (pa > 90 && pa < 180 && w + hh >= 24) { int v = (L_[0] * 5 + A_[-1] * 6 + A_[0] * 5 + 8) >> 4; A_[-1] = L_[-1] = v; }
            int cA = A_[-1], cL = L_[-1];
            if (ha) { int num = std::min(w, maxX - x + 1) + (pa < 90 ? hh : 0) + 1; edge_filter(A_ - 1, num, (abs(pa - 90) < 40 && w + hh <= (sm ? 8 : 16)) ? 0 : edge_strength(w + hh, abs(pa - 90), sm)); }
            if (hl) { int num = std::min(hh, maxY - y + 1) + (pa > 180 ? w : 0) + 1; edge_filter(L_ - 1, num, (abs(pa - 180) < 40 && w + hh <= (sm ? 8 : 16)) ? 0 : edge_strength(w + hh, abs(pa - 180), sm)); }
            A_[-1] = cA; L_[-1] = cL;
            auto useup = [&](int d) { return d > 0 && d < 40 && w + hh <= (sm ? 8 : 16); };
            upA = useup(abs(pa - 90)); if (upA) edge_upsample(A_, w + (pa < 90 ? hh : 0), mx);
            upL = useup(abs(pa - 180)); if (upL) edge_upsample(L_, hh + (pa > 180 ? w : 0), mx);
        }
    }
    auto drd = [&](int a) { return (int)T_drd[a >> 1]; };
    int dx = pa < 90 ? drd(pa) : pa > 90 && pa < 180 ? drd(180 - pa) : 0, dy = pa > 90 && pa < 180 ? drd(pa - 90) : pa > 180 ? drd(270 - pa) : 0;
    for (int i = 0; i < hh; i++) for (int j = 0; j < w; j++) {
        int v;
        if (pa < 90) {
            int idx = (i + 1) * dx, base = (idx >> (6 - upA)) + (j << upA), sh = ((idx << upA) >> 1) & 0x1f, maxb = (w + hh - 1) << upA;
            v = base < maxb ? rnd2(A_[base] * (32 - sh) + A_[base + 1] * sh, 5) : A_[maxb];
        } else if (pa > 90 && pa < 180) {
            int idx = (j << 6) - (i + 1) * dx, base = idx >> (6 - upA);
            if (base >= -(1 << upA)) { int sh = ((idx << upA) >> 1) & 0x1f; v = rnd2(A_[base] * (32 - sh) + A_[base + 1] * sh, 5); }
            else { idx = (i << 6) - (j + 1) * dy; base = idx >> (6 - upL); int sh = ((idx << upL) >> 1) & 0x1f; v = rnd2(L_[base] * (32 - sh) + L_[base + 1] * sh, 5); }
        } else if (pa > 180) {
            int idx = (j + 1) * dy, base = (idx >> (6 - upL)) + (i << upL), sh = ((idx << upL) >> 1) & 0x1f;
            v = rnd2(L_[base] * (32 - sh) + L_[base + 1] * sh, 5);
        } else v = pa == 90 ? A_[j] : L_[i];
        O(i, j) = v;
    }
}
void FrameCoder::predict_palette(int p, int x, int y, int tx) {
    int x0 = (b.c >> (p ? ssx : 0)) * 4, y0 = (b.r >> (p ? ssy : 0)) * 4;
    for (int i = 0; i < tx_h[tx]; i++) for (int j = 0; j < tx_w[tx]; j++) cur[p].at(x + j, y + i) = b.palc[p][cmap[p > 0][(y - y0 + i) * 64 + x - x0 + j]];
}
void FrameCoder::predict_cfl(int p, int x, int y, int tx, int alpha) {
    int w = tx_w[tx], hh = tx_h[tx], mx = (1 << bd) - 1; std::vector<int> L((size_t)w * hh); int sum = 0, sa = ssx + ssy;
    for (int i = 0; i < hh; i++) { int ly = std::min((y + i) << ssy, maxlh - (1 << ssy)); for (int j = 0; j < w; j++) { int lx = std::min((x + j) << ssx, maxlw - (1 << ssx)), t = 0; for (int dy = 0; dy <= ssy; dy++) for (int dx = 0; dx <= ssx; dx++) t += cur[0].at(lx + dx, ly + dy); L[i * w + j] = t << (3 - sa); sum += t << (3 - sa); } }
    int avg = rnd2(sum, ilog2(w) + ilog2(hh));
    for (int i = 0; i < hh; i++) for (int j = 0; j < w; j++) { u16 &d = cur[p].at(x + j, y + i); d = clip3(0, mx, d + rnd2s(alpha * (L[i * w + j] - avg), 6)); }
}
} // namespace av1m
