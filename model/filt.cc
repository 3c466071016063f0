// In-loop filters: deblocking (7.14), CDEF (7.15), super resolution (7.16) and loop restoration (7.17), applied to whole frames.
#include "blk.h"
#include "tables.inc"
namespace av1m {
void FrameCoder::deblock() {
    int sharp = h.lf.sharp, mx = (1 << bd) - 1, one = 1 << (bd - 8);
    auto level = [&](const Blk &q, int p, int pass) {
        int i = p == 0 ? pass : p + 1, base = i < 2 ? h.lf.level[i] : i == 2 ? h.lf.lu : h.lf.lv;
        int l = clip3(0, 63, q.dlf[h.dlf_multi ? i : 0] + base);
        if (h.seg.enabled) l = clip3(0, 63, l + h.seg.d[q.seg].lf[i]);
        if (h.lf.delta_enabled) {
            int sh = l >> 5, ref = q.inter && !q.intrabc ? q.ref[0] : 0;
            if (ref <= 0) l += h.lf.d.ref[0] * (1 << sh);
            else { int mt = q.ymode >= NEARESTMV && q.ymode != GLOBALMV && q.ymode != GLOBAL_GLOBALMV; l += h.lf.d.ref[ref] * (1 << sh) + h.lf.d.mode[mt] * (1 << sh); }
            l = clip3(0, 63, l);
        }
        return l;
    };
    for (int p = 0; p < np; p++) {
        if (p && !(p == 1 ? h.lf.lu : h.lf.lv)) continue;
        int sx = p ? ssx : 0, sy = p ? ssy : 0;
        for (int pass = 0; pass < 2; pass++) for (int r0 = 0; r0 < miR; r0 += 1 << sy) for (int c0 = 0; c0 < miC; c0 += 1 << sx) {
            if (c0 * 4 >= h.w || r0 * 4 >= h.h || (pass == 0 ? c0 : r0) == 0) continue;
            int r = r0 | sy, c = c0 | sx, x = (c0 * 4) >> sx, y = (r0 * 4) >> sy, pr = pass ? r - (1 << sy) : r, pc = pass ? c : c - (1 << sx);
            const Blk &q = *at(r, c), &pv = *at(pr, pc); int tx = lftx[p][(size_t)(r >> sy) * (miC + 32) + (c >> sx)], ptx = lftx[p][(size_t)(pr >> sy) * (miC + 32) + (pc >> sx)], ps = resid_bs(q.bs, p);
            bool be = pass ? y % (bs_h4[ps] * 4) == 0 : x % (bs_w4[ps] * 4) == 0, te = pass ? y % tx_h[tx] == 0 : x % tx_w[tx] == 0;
            if (!te || !(be || !q.skip || !q.inter || q.intrabc)) continue;
            int base = pass ? std::min(tx_h[tx], tx_h[ptx]) : std::min(tx_w[tx], tx_w[ptx]), fs = std::min(p ? 8 : 16, base);
            int lvl = level(q, p, pass); if (!lvl) lvl = level(pv, p, pass); if (!lvl) continue;
            int sh = sharp > 4 ? 2 : sharp > 0 ? 1 : 0, lim = sharp > 0 ? clip3(1, 9 - sharp, lvl >> sh) : std::max(1, lvl >> sh), bl = 2 * (lvl + 2) + lim, thr = lvl >> 4;
            st.inc("deblocked");
            for (int i = 0; i < 4; i++) {
                u16 *s0 = pass ? &cur[p].at(x + i, y) : &cur[p].at(x, y + i); int d = pass ? cur[p].stride : 1; auto P = [&](int k2) -> int { return s0[k2 * d]; };
                int q0 = P(0), q1 = P(1), p0 = P(-1), p1 = P(-2); auto ad = [&](int a, int b2) { return abs(P(a) - P(b2)); };
                bool hev = abs(p1 - p0) > thr * one || abs(q1 - q0) > thr * one;
                int L = lim * one; bool ok = abs(p1 - p0) <= L && abs(q1 - q0) <= L && abs(p0 - q0) * 2 + abs(p1 - q1) / 2 <= bl * one;
                if (fs >= 8) ok = ok && ad(-3, -2) <= L && ad(2, 1) <= L; if (fs >= 8 && !p) ok = ok && ad(-4, -3) <= L && ad(3, 2) <= L;
                if (!ok) continue;
                bool flat = fs >= 8 && ad(-2, -1) <= one && ad(1, 0) <= one && ad(-3, -1) <= one && ad(2, 0) <= one && (p || (ad(-4, -1) <= one && ad(3, 0) <= one));
                bool flat2 = fs >= 16; for (int k2 = 4; k2 <= 6 && flat2; k2++) flat2 = ad(-1 - k2, -1) <= one && ad(k2, 0) <= one;
                if (!flat) {
                    auto c4 = [&](int v) { return clip3(-(1 << (bd - 1)), (1 << (bd - 1)) - 1, v); }; int o = 0x80 << (bd - 8);
                    int f = hev ? c4(p1 - q1) : 0; f = c4(f + 3 * (q0 - p0)); int f1 = c4(f + 4) >> 3, f2 = c4(f + 3) >> 3;
                    s0[0] = c4(q0 - o - f1) + o; s0[-d] = c4(p0 - o + f2) + o; if (!hev) { f = (f1 + 1) >> 1; s0[d] = c4(q1 - o - f) + o; s0[-2 * d] = c4(p1 - o + f) + o; }
                } else {
                    int lg = fs == 8 || !flat2 ? 3 : 4, n = lg == 4 ? 6 : p ? 2 : 3, n2 = lg == 3 && !p ? 0 : 1, F2[12];
                    for (int a = -n; a < n; a++) { int t = 0; for (int j = -n; j <= n; j++) t += P(clip3(-(n + 1), n, a + j)) * (abs(j) <= n2 ? 2 : 1); F2[a + n] = rnd2(t, lg); }
                    for (int a = -n; a < n; a++) s0[a * d] = F2[a + n];
                }
            }
            (void)mx;
        }
    }
}
static const int cdir[8][2][2] = {{{-1, 1}, {-2, 2}}, {{0, 1}, {-1, 2}}, {{0, 1}, {0, 2}}, {{0, 1}, {1, 2}}, {{1, 1}, {2, 2}}, {{1, 0}, {2, 1}}, {{1, 0}, {2, 0}}, {{1, 0}, {2, -1}}};
void FrameCoder::cdef(Plane *in, Plane *out) {
    int cs = bd - 8;
    for (int r = 0; r < miR; r += 2) for (int c = 0; c < miC; c += 2) {
        int idx = cdefidx[(r / 16) * cdefstride + c / 16]; if (idx < 0) continue;
        if (at(r, c)->skip && at(r + 1, c)->skip && at(r, c + 1)->skip && at(r + 1, c + 1)->skip) continue;
        // direction
        static const int div[9] = {0, 840, 420, 280, 210, 168, 140, 120, 105}; int cost[8] = {}, pa[8][15] = {};
        for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) { int x = (in[0].at(c * 4 + j, r * 4 + i) >> cs) - 128; pa[0][i + j] += x; pa[1][i + j / 2] += x; pa[2][i] += x; pa[3][3 + i - j / 2] += x; pa[4][7 + i - j] += x; pa[5][3 - i / 2 + j] += x; pa[6][j] += x; pa[7][i / 2 + j] += x; }
        for (int i = 0; i < 8; i++) { cost[2] += pa[2][i] * pa[2][i]; cost[6] += pa[6][i] * pa[6][i]; } cost[2] *= 105; cost[6] *= 105;
        for (int i = 0; i < 7; i++) { cost[0] += (pa[0][i] * pa[0][i] + pa[0][14 - i] * pa[0][14 - i]) * div[i + 1]; cost[4] += (pa[4][i] * pa[4][i] + pa[4][14 - i] * pa[4][14 - i]) * div[i + 1]; }
        cost[0] += pa[0][7] * pa[0][7] * 105; cost[4] += pa[4][7] * pa[4][7] * 105;
        for (int i = 1; i < 8; i += 2) { for (int j = 0; j < 5; j++) cost[i] += pa[i][3 + j] * pa[i][3 + j]; cost[i] *= 105; for (int j = 0; j < 3; j++) cost[i] += (pa[i][j] * pa[i][j] + pa[i][10 - j] * pa[i][10 - j]) * div[2 * j + 2]; }
        int yd = 0; for (int d = 1; d < 8; d++) if (cost[d] > cost[yd]) yd = d; int var = (cost[yd] - cost[(yd + 4) & 7]) >> 10;
        for (int p = 0; p < np; p++) {
            int sx = p ? ssx : 0, sy = p ? ssy : 0, raw = p ? h.cdef.uv[idx] : h.cdef.y[idx], pri = (raw >> 2) << cs, sec = raw & 3; if (sec == 3) sec = 4; sec <<= cs;
            static const int uvd[8] = {7, 0, 2, 4, 5, 6, 6, 6}; int dir = !pri ? 0 : p && sx && !sy ? uvd[yd] : yd, damp = h.cdef.damping + cs - (p > 0);
            if (!p) { int vs = var >> 6 ? std::min(ilog2(var >> 6), 12) : 0; pri = var ? (pri * (4 + vs) + 8) >> 4 : 0; }
            if (pri || sec) st.inc("cdef8x8");
            int x0 = (c * 4) >> sx, y0 = (r * 4) >> sy, w = 8 >> sx, hh = 8 >> sy;
            for (int i = 0; i < hh; i++) for (int j = 0; j < w; j++) {
                int x = in[p].at(x0 + j, y0 + i), sum = 0, mn = x, mxv = x;
                auto con = [&](int diff, int t) { if (!t) return 0; int da = std::max(0, damp - ilog2(t)), m = abs(diff); int v = clip3(0, m, t - (m >> da)); return diff < 0 ? -v : v; };
                auto tap = [&](int d, int k2, int sg, int wt, int str) {
                    int yy = y0 + i + sg * cdir[d & 7][k2][0], xx = x0 + j + sg * cdir[d & 7][k2][1]; if (yy < 0 || xx < 0 || (yy << sy) >= miR * 4 || (xx << sx) >= miC * 4) return;
                    int v = in[p].at(xx, yy); sum += wt * con(v - x, str); mn = std::min(mn, v); mxv = std::max(mxv, v);
                };
                static const int pt[2][2] = {{4, 2}, {3, 3}};
                for (int k2 = 0; k2 < 2; k2++) for (int sg = -1; sg <= 1; sg += 2) { tap(dir, k2, sg, pt[(pri >> cs) & 1][k2], pri); tap(dir + 6, k2, sg, 2 - k2, sec); tap(dir + 2, k2, sg, 2 - k2, sec); }
                out[p].at(x0 + j, y0 + i) = clip3(mn, mxv, x + ((8 + sum - (sum < 0)) >> 4));
            }
        }
    }
}
void FrameCoder::superres(Plane *in, Plane *out) {
    int mx = (1 << bd) - 1;
    for (int p = 0; p < np; p++) {
        int sx = p ? ssx : 0, dw = (h.w + sx) >> sx, uw = (h.upscaled_w + sx) >> sx, last = ((miC * 4) >> sx) - 1, step = ((dw << 14) + uw / 2) / uw, err = uw * step - (dw << 14);
        int x0 = ((-((uw - dw) << 13) + uw / 2) / uw + 128 - err / 2) & 16383;
        out[p].init(uw + 160, in[p].h);
        for (int y = 0; y < in[p].h; y++) for (int x = 0; x < uw; x++) {
            int sp = -(1 << 14) + x0 + x * step, px = sp >> 14, f = (sp & 16383) >> 8, sum = 0;
            for (int k2 = 0; k2 < 8; k2++) sum -= T_resize[f * 8 + k2] * in[p].at(clip3(0, last, px + k2 - 3), y);
            out[p].at(x, y) = clip3(0, mx, rnd2(sum, 7));
        }
    }
}
void FrameCoder::loop_restore(const Plane *deb, const Plane *in, Plane *out) {
    int mx = (1 << bd) - 1;
    for (int p = 0; p < np; p++) {
        if (!h.lr.type[p]) continue;
        int sx = p ? ssx : 0, sy = p ? ssy : 0, us = 1 << h.lr.size[p], pw = (h.upscaled_w + sx) >> sx, ph = (h.h + sy) >> sy;
        const Plane &D = deb[p], &C = in[p];
        // stripes of 64 luma rows, offset by 8; within a stripe each restoration unit column is filtered at once
        for (int y = 0; y < ph;) {
            int sn = ((y << sy) + 8) / 64, s0 = (-8 + sn * 64) >> sy, s1 = s0 + (64 >> sy) - 1, ye = std::min(ph, s1 + 1);
            auto src = [&](int xx, int yy) -> int { xx = clip3(0, pw - 1, xx); yy = clip3(0, ph - 1, yy); if (yy < s0) return D.at(xx, std::max(s0 - 2, yy)); if (yy > s1) return D.at(xx, std::min(s1 + 2, yy)); return C.at(xx, yy); };
            for (int x = 0; x < pw;) {
                int uc = std::min(lrcols[p] - 1, x / us), xe = uc == lrcols[p] - 1 ? pw : (uc + 1) * us; 
                int ur = std::min(lrrows[p] - 1, (y + (8 >> sy)) / us); const LrUnit &u = lru[p][ur * lrcols[p] + uc];
                int w = xe - x, hh = ye - y;
                if (u.type == 1) {
                    int r0 = bd == 12 ? 5 : 3, r1 = bd == 12 ? 9 : 11, vf[7], hf[7];
                    for (int ps = 0; ps < 2; ps++) { int *f = ps ? hf : vf; f[3] = 128; for (int i = 0; i < 3; i++) { f[i] = f[6 - i] = u.w[ps][i]; f[3] -= 2 * u.w[ps][i]; } }
                    int off = 1 << (bd + 7 - r0 - 1), lim = (1 << (bd + 1 + 7 - r0)) - 1; std::vector<int> t((size_t)(hh + 6) * w);
                    for (int i = 0; i < hh + 6; i++) for (int j = 0; j < w; j++) { int s2 = 0; for (int k2 = 0; k2 < 7; k2++) s2 += hf[k2] * src(x + j + k2 - 3, y + i - 3); t[(size_t)i * w + j] = clip3(-off, lim - off, rnd2(s2, r0)); }
                    for (int i = 0; i < hh; i++) for (int j = 0; j < w; j++) { int s2 = 0; for (int k2 = 0; k2 < 7; k2++) s2 += vf[k2] * t[(size_t)(i + k2) * w + j]; out[p].at(x + j, y + i) = clip3(0, mx, rnd2(s2, r1)); }
                } else if (u.type == 2) {
                    int w0 = u.x[0], w1 = u.x[1], w2 = 128 - w0 - w1; std::vector<int> fl[2]; bool has[2] = {u.set < 10 || u.set >= 14, u.set < 14};
                    for (int ps = 0; ps < 2; ps++) {
                        if (!has[ps]) continue; int r = ps ? 1 : 2; u32 s3 = T_sgr[u.set * 2 + ps]; int n = (2 * r + 1) * (2 * r + 1), obn = ((1 << 12) + n / 2) / n;
                        std::vector<int> A2((size_t)(hh + 2) * (w + 2)), B2(A2.size()); fl[ps].resize((size_t)hh * w);
                        // only rows used by the weights matter but all are computed
                        for (int i = -1; i <= hh; i++) for (int j = -1; j <= w; j++) {
                            i64 a = 0, bb = 0; for (int dy = -r; dy <= r; dy++) for (int dx = -r; dx <= r; dx++) { int c = src(x + j + dx, y + i + dy); a += c * c; bb += c; }
                            i64 a1 = rnd2l(a, 2 * (bd - 8)), d = rnd2l(bb, bd - 8), pp = std::max<i64>(0, a1 * n - d * d), z = rnd2l(pp * s3, 20); int a2 = z >= 255 ? 256 : z == 0 ? 1 : (int)(((z << 8) + z / 2) / (z + 1));
                            A2[(size_t)(i + 1) * (w + 2) + j + 1] = a2; B2[(size_t)(i + 1) * (w + 2) + j + 1] = (int)rnd2l((i64)(256 - a2) * bb * obn, 12);
                        }
                        for (int i = 0; i < hh; i++) { bool odd = (y + i) & 1; int shift = ps == 0 && odd ? 4 : 5; for (int j = 0; j < w; j++) {
                            i64 a = 0, bb = 0; for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) { int wt = ps == 0 ? ((y + i + dy) & 1 ? (dx == 0 ? 6 : 5) : 0) : (dx == 0 || dy == 0 ? 4 : 3); size_t q = (size_t)(i + 1 + dy) * (w + 2) + j + 1 + dx; a += (i64)wt * A2[q]; bb += (i64)wt * B2[q]; }
                            fl[ps][(size_t)i * w + j] = (int)rnd2l(a * C.at(x + j, y + i) + bb, 8 + shift - 4); } }
                    }
                    for (int i = 0; i < hh; i++) for (int j = 0; j < w; j++) { int uu = C.at(x + j, y + i) << 4; i64 v = (i64)w1 * uu + (i64)w0 * (has[0] ? fl[0][(size_t)i * w + j] : uu) + (i64)w2 * (has[1] ? fl[1][(size_t)i * w + j] : uu); out[p].at(x + j, y + i) = clip3(0, mx, (int)rnd2l(v, 11)); }
                }
                x = xe;
            }
            y = ye;
        }
    }
}
} // namespace av1m
