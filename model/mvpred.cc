// Motion vector prediction (7.10.2), motion field estimation (7.9), warp estimation and set-up (7.11.3.6, 7.11.3.8), motion field storage (7.19).
#include "blk.h"
namespace av1m {
static int div_lut(int i) { return (16384 * 256 + (256 + i) / 2) / (256 + i); }
static int resolve_div(u64 d, int &shift) { int n = 63 - __builtin_clzll(d); i64 e = (i64)(d - (1ull << n)); int f = (int)(n > 8 ? rnd2l(e, n - 8) : e << (8 - n)); shift = n + 14; return div_lut(f); }
bool shear_params(const Gm &g, int out[4]) {
    const int *m = g.m; if (m[2] <= 0) return false;
    auto red = [](i64 v) { int c = (int)(v < -32768 ? -32768 : v > 32767 ? 32767 : v); return rnd2s(c, 6) * 64; };
    int sh, y = resolve_div((u64)m[2], sh);
    i64 v = (i64)m[4] * 65536 * y, w = (i64)m[3] * m[4] * y;
    out[0] = red(m[2] - 65536); out[1] = red(m[3]); out[2] = red(rnd2sl(v, sh)); out[3] = red(m[5] - rnd2sl(w, sh) - 65536);
    return 4 * abs(out[0]) + 7 * abs(out[1]) < 65536 && 4 * abs(out[2]) + 4 * abs(out[3]) < 65536;
}
void FrameCoder::fix_prec(Mv &m) const {
    auto f = [&](int v) { if (h.imv) { int a = (abs(v) + 3) >> 3; return v > 0 ? a * 8 : -a * 8; } if (!h.hp && (v & 1)) return v > 0 ? v - 1 : v + 1; return v; };
    m.y = f(m.y); m.x = f(m.x);
}
Mv FrameCoder::global_mv(int ref) {
    Mv o; if (ref <= 0) return o; const Gm &g = h.gm[ref]; if (!g.type) return o;
    if (g.type == 1) { o.y = g.m[0] >> 13; o.x = g.m[1] >> 13; }
    else {
        int x = b.c * 4 + b.bw4 * 2 - 1, y = b.r * 4 + b.bh4 * 2 - 1;
        i64 xc = (i64)(g.m[2] - 65536) * x + (i64)g.m[3] * y + g.m[0], yc = (i64)(g.m[5] - 65536) * y + (i64)g.m[4] * x + g.m[1];
        if (h.hp) { o.y = (int)rnd2sl(yc, 13); o.x = (int)rnd2sl(xc, 13); } else { o.y = (int)rnd2sl(yc, 14) * 2; o.x = (int)rnd2sl(xc, 14) * 2; }
    }
    fix_prec(o); return o;
}
static Mv project(const Mv &m, int num, int den) {
    int f = num * (16384 / std::min(den, 31)); auto p = [&](int v) { return clip3(-16383, 16383, rnd2s(v * f, 14)); }; Mv o; o.y = p(m.y); o.x = p(m.x); return o;
}
void FrameCoder::find_mv_stack(MvStack &m, int r0, int r1) {
    m = MvStack(); const bool comp = r1 > 0; const int bw = b.bw4, bh = b.bh4, w4 = std::min({bw, 16, tc1 - b.c}), h4 = std::min({bh, 16, tr1 - b.r});
    m.gmv[0] = global_mv(r0); m.gmv[1] = comp ? global_mv(r1) : Mv(); bool gw[2] = {r0 > 0 && h.gm[std::max(r0, 0)].type > 1, comp && h.gm[std::max(r1, 0)].type > 1};
    bool found = false, isnew = false;
    auto push = [&](Mv a, Mv c, int wt) { for (int i = 0; i < m.n; i++) if (m.mv[i][0] == a && (!comp || m.mv[i][1] == c)) { m.w[i] += wt; return; } if (m.n < 8) { m.mv[m.n][0] = a; m.mv[m.n][1] = c; m.w[m.n] = wt; m.n++; } };
    auto add = [&](const Blk *q, int wt) { // 7.10.2.7
        if (!q || !q->inter) return; bool glob = (q->ymode == GLOBALMV || q->ymode == GLOBAL_GLOBALMV) && std::min(q->bw4, q->bh4) >= 2 && !q->intrabc;
        if (!comp) { for (int n = 0; n < 2; n++) if (q->ref[n] == r0) { found = true; isnew |= q->has_newmv() && !q->intrabc; push(glob && gw[0] ? m.gmv[0] : q->mv[n], Mv(), wt); return; } }
        else if (q->ref[0] == r0 && q->ref[1] == r1) { found = true; isnew |= q->has_newmv(); push(glob && gw[0] ? m.gmv[0] : q->mv[0], glob && gw[1] ? m.gmv[1] : q->mv[1], wt); }
    };
    auto scan = [&](bool row, int rr, int cc, int maxn, int step) { // returns how many 8x8 rows/columns were covered
        int sz = row ? bw : bh, lim = row ? w4 : h4; const Blk *q = at(rr, cc); auto len_of = [&](const Blk *z) { return row ? z->bw4 : z->bh4; };
        int l = len_of(q);
        if (sz <= l) { int wt = sz == 1 ? 2 : std::max(2, std::min(2 * maxn, row ? q->bh4 : q->bw4)); add(q, std::max(step, std::min(sz, l)) * wt); return wt >> 1; }
        for (int i = 0; i < lim;) { q = row ? at(rr, cc + i) : at(rr + i, cc); int len = std::max(step, std::min(sz, len_of(q))); add(q, len * 2); i += len; }
        return 1;
    };
    bool above = false, left = false; int maxr = 0, maxc = 0, nr = -1, nc = -1;
    if (availU) { maxr = std::min((b.r - tr0 + 1) >> 1, 2 + (bh > 1)); nr = scan(true, b.r - 1, b.c, maxr, bw >= 16 ? 4 : 1); above = found; found = false; }
    if (availL) { maxc = std::min((b.c - tc0 + 1) >> 1, 2 + (bw > 1)); nc = scan(false, b.r, b.c - 1, maxc, bh >= 16 ? 4 : 1); left = found; found = false; }
    if (std::max(bw, bh) <= 16 && inside(b.r - 1, b.c + bw) && at(b.r - 1, b.c + bw)) { add(at(b.r - 1, b.c + bw), 4); above |= found; found = false; }
    int close = above + left, nnear = m.n; bool havenew = isnew; m.nnew = havenew;
    for (int i = 0; i < m.n; i++) m.w[i] += 640;
    m.zeromv_ctx = h.use_ref_mvs;
    if (have_tmv) {
        int mw = miC >> 1, r8 = b.r >> 1, c8 = b.c >> 1;
        auto dist = [&](int ref) { return clip3(-31, 31, rel_dist(s, h.order_hint, h.order_hints[ref])); };
        auto temporal = [&](int y, int x, bool first) {
            int d = tmvdist[(size_t)y * mw + x]; if (!d) return; const Mv &mv = tmv[(size_t)y * mw + x].mv; Mv a = project(mv, dist(r0), d), c; fix_prec(a); if (comp) { c = project(mv, dist(r1), d); fix_prec(c); }
            if (first && !comp) m.zeromv_ctx = abs(a.y - m.gmv[0].y) >= 16 || abs(a.x - m.gmv[0].x) >= 16;
            push(a, c, 2); st.inc("tmv_used");
        };
        int sh = bw >= 16 ? 2 : 1, sv = bh >= 16 ? 2 : 1, w8 = std::min((w4 + 1) >> 1, 8), h8 = std::min((h4 + 1) >> 1, 8);
        for (int y = 0; y < h8; y += sv) for (int x = 0; x < w8; x += sh) temporal(r8 + y, c8 + x, !x && !y);
        if (std::min(bw, bh) >= 2 && std::max(bw, bh) < 16) {
            int bh8 = bh >> 1, bw8 = bw >> 1, re = std::min(tr1 >> 1, (r8 & ~7) + 8), cs = std::max(tc0 >> 1, c8 & ~7), ce = std::min(tc1 >> 1, (c8 & ~7) + 8);
            if (r8 + bh8 < re && c8 - 1 >= cs) temporal(r8 + bh8, c8 - 1, false);
            if (r8 + bh8 < re && c8 + bw8 < ce) temporal(r8 + bh8, c8 + bw8, false);
            if (r8 + bh8 - 1 < re && c8 + bw8 < ce) temporal(r8 + bh8 - 1, c8 + bw8, false);
        }
    }
    if (availU && availL) { add(at(b.r - 1, b.c - 1), 4); above |= found; found = false; }
    for (int n = 2; n <= 3; n++) {
        if (nr >= 0 && n > nr && n <= maxr) { nr += scan(true, (b.r - 2 * n + 1) | 1, b.c | 1, 1 + maxr - n, bw >= 16 ? 4 : 2); above |= found; found = false; }
        if (nc >= 0 && n > nc && n <= maxc) { nc += scan(false, b.r | 1, (b.c - 2 * n + 1) | 1, 1 + maxc - n, bh >= 16 ? 4 : 2); left |= found; found = false; }
    }
    int total = above + left;
    if (close == 0) { m.refmv_ctx = std::min(total, 2); m.newmv_ctx = total > 0; } else if (close == 1) { m.newmv_ctx = 3 - havenew; m.refmv_ctx = total == 1 ? 3 : 4; } else { m.newmv_ctx = 5 - havenew; m.refmv_ctx = 5; }
    auto sort = [&](int a, int e) { while (e > a) { int ne = a; for (int i = a + 1; i < e; i++) if (m.w[i - 1] < m.w[i]) { std::swap(m.w[i - 1], m.w[i]); std::swap(m.mv[i - 1], m.mv[i]); ne = i; } e = ne; } };
    sort(0, nnear); sort(nnear, m.n);
    auto flip = [](Mv v, bool f) { if (f) { v.y = -v.y; v.x = -v.x; } return v; };
    if (m.n < 2 && r0 > 0) { // extra search 7.10.2.12
        int sz = std::min(w4, h4); std::vector<const Blk *> nb;
        if (availU) for (int i = 0; i < sz;) { const Blk *q = at(b.r - 1, b.c + i); nb.push_back(q); i += q->bw4; }
        size_t ntop = nb.size();
        if (availL) for (int i = 0; i < sz;) { const Blk *q = at(b.r + i, b.c - 1); nb.push_back(q); i += q->bh4; }
        if (!comp) {
            for (const Blk *q : nb) { if (m.n >= 2) break; if (!q->inter) continue; for (int n = 0; n < 2; n++) { if (q->ref[n] <= 0) break; Mv v = flip(q->mv[n], h.sign_bias[q->ref[n]] != h.sign_bias[r0]); bool dup = false; for (int i = 0; i < m.n; i++) dup |= m.mv[i][0] == v; if (!dup) { m.mv[m.n][0] = v; m.w[m.n] = 2; m.n++; } } }
        } else {
            Mv same[2][2], diff[2][2]; int ns[2] = {0, 0}, nd[2] = {0, 0}; int rr[2] = {r0, r1};
            for (const Blk *q : nb) if (q->inter) for (int n = 0; n < 2; n++) {
                int cr = q->ref[n]; if (cr <= 0) break;
                for (int l = 0; l < 2; l++) {
                    if (cr == rr[l]) { if (ns[l] < 2) same[l][ns[l]++] = q->mv[n]; }
                    else if (nd[l] < 2) diff[l][nd[l]++] = flip(q->mv[n], h.sign_bias[cr] != h.sign_bias[rr[l]]);
                    // a candidate using both references (same one twice) cannot occur
                }
            }
            Mv c2[2][2]; for (int l = 0; l < 2; l++) { int k2 = 0; for (int i = 0; i < ns[l] && k2 < 2; i++) c2[k2++][l] = same[l][i]; for (int i = 0; i < nd[l] && k2 < 2; i++) c2[k2++][l] = diff[l][i]; while (k2 < 2) c2[k2++][l] = m.gmv[l]; }
            if (m.n == 1) { int u = c2[0][0] == m.mv[0][0] && c2[0][1] == m.mv[0][1]; m.mv[1][0] = c2[u][0]; m.mv[1][1] = c2[u][1]; m.w[1] = 2; }
            else for (int i = 0; i < 2; i++) { m.mv[i][0] = c2[i][0]; m.mv[i][1] = c2[i][1]; m.w[i] = 2; }
            m.n = 2;
        }
        (void)ntop;
    }
    for (int i = 0; i < m.n; i++) for (int l = 0; l <= comp; l++) { m.mv[i][l].x = clip3(-(b.c + bw + 4) * 32, (miC - b.c + 4) * 32, m.mv[i][l].x); m.mv[i][l].y = clip3(-(b.r + bh + 4) * 32, (miR - b.r + 4) * 32, m.mv[i][l].y); }
    if (!comp) for (int i = m.n; i < 2; i++) m.mv[i][0] = m.gmv[0];
    for (int i = 0; i < std::max(2, m.n); i++) for (int l = 0; l <= comp; l++) if (r0 > 0) fix_prec(m.mv[i][l]);
}

// 7.9
void FrameCoder::motion_field() {
    if (!s.order_hint) return;
    int mw = miC >> 1, mh = miR >> 1; tmv.assign((size_t)mw * mh, TMv()); tmvdist.assign((size_t)mw * mh, 0);
    auto usable = [&](int i) { const RefFrame *f = rf[i]; return !f->hdr.intra() && f->mvs && f->mi_cols == miC && f->mi_rows == miR; };
    auto ahead = [&](int i) { return rel_dist(s, h.order_hints[i], h.order_hint) > 0; };
    auto proj = [&](int src) {
        const RefFrame *f = rf[src]; have_tmv = true; st.inc("mfmv_src");
        int r2c = rel_dist(s, h.order_hints[src], h.order_hint), sgn = src <= GOLDEN_FRAME ? -1 : 1; if (abs(r2c) > 31) return;
        int num = sgn * r2c;
        for (int y = 0; y < mh; y++) for (int x = 0; x < mw; x++) {
            size_t ix = (size_t)(2 * y + 1) * miC + 2 * x + 1; int rr = (*f->mvref)[ix]; if (rr <= 0) continue; Mv mv = (*f->mvs)[ix];
            int den = rel_dist(s, h.order_hints[src], f->saved_order_hints[rr]); if (den <= 0 || den > 31) continue;
            Mv o = project(mv, num, den); auto off = [&](int v) { return sgn * (v >= 0 ? v >> 6 : -((-v) >> 6)); };
            int py = y + off(o.y), px = x + off(o.x);
            if (py < 0 || py >= mh || (py >> 3) != (y >> 3) || px < 0 || px >= mw || px < (x & ~7) - 8 || px >= (x & ~7) + 16) continue;
            tmv[(size_t)py * mw + px].mv = mv; tmvdist[(size_t)py * mw + px] = den;
        }
    };
    int left = 2; if (usable(LAST_FRAME) && rf[LAST_FRAME]->saved_order_hints[ALTREF_FRAME] != h.order_hints[GOLDEN_FRAME]) proj(LAST_FRAME);
    if (usable(BWDREF_FRAME) && ahead(BWDREF_FRAME)) { proj(BWDREF_FRAME); left--; }
    if (usable(ALTREF2_FRAME) && ahead(ALTREF2_FRAME)) { proj(ALTREF2_FRAME); left--; }
    if (left > 0 && usable(ALTREF_FRAME) && ahead(ALTREF_FRAME)) { proj(ALTREF_FRAME); left--; }
    if (left > 0 && usable(LAST2_FRAME)) proj(LAST2_FRAME);
}
void FrameCoder::save_motion(RefFrame &o) {
    auto mv = std::make_shared<std::vector<Mv>>((size_t)miR * miC); auto rr = std::make_shared<std::vector<int8_t>>((size_t)miR * miC, 0);
    if (!h.intra()) for (size_t i = 0; i < grid.size(); i++) if (grid[i] >= 0) {
        const Blk &q = blks[grid[i]]; if (!q.inter) continue;
        for (int l = 0; l < 2; l++) { int r = q.ref[l]; if (r <= 0 || rel_dist(s, h.order_hints[r], h.order_hint) >= 0 || abs(q.mv[l].y) > 4095 || abs(q.mv[l].x) > 4095) continue; (*mv)[i] = q.mv[l]; (*rr)[i] = r; }
    }
    o.mvs = mv; o.mvref = rr;
}
// 7.10.4
void FrameCoder::warp_samples() {
    b.nsamp = b.nsampscan = 0; bool tl = true, tr = true;
    auto add = [&](int r, int c) {
        if (b.nsampscan >= 8 || !inside(r, c)) return; const Blk *q = at(r, c); if (!q || q->ref[0] != b.ref[0] || q->ref[1] != -1) return;
        int my = (r & ~(q->bh4 - 1)) * 4 + q->bh4 * 2 - 1, mx = (c & ~(q->bw4 - 1)) * 4 + q->bw4 * 2 - 1, th = clip3(16, 112, std::max(b.bw4, b.bh4) * 4);
        bool ok = abs(q->mv[0].y - b.mv[0].y) + abs(q->mv[0].x - b.mv[0].x) <= th; b.nsampscan++;
        if (!ok && b.nsampscan > 1) return; int *cd = b.cand[b.nsamp]; cd[0] = my * 8; cd[1] = mx * 8; cd[2] = my * 8 + q->mv[0].y; cd[3] = mx * 8 + q->mv[0].x; if (ok) b.nsamp++;
    };
    if (availU) { int w = at(b.r - 1, b.c)->bw4; if (b.bw4 <= w) { int sc = b.c & (w - 1); if (sc) tl = false; if (w - sc > b.bw4) tr = false; add(b.r - 1, b.c); } else for (int i = 0; i < std::min(b.bw4, miC - b.c);) { int n = at(b.r - 1, b.c + i)->bw4; add(b.r - 1, b.c + i); i += std::min(n, b.bw4); } }
    if (availL) { int w = at(b.r, b.c - 1)->bh4; if (b.bh4 <= w) { if (b.r & (w - 1)) tl = false; add(b.r, b.c - 1); } else for (int i = 0; i < std::min(b.bh4, miR - b.r);) { int n = at(b.r + i, b.c - 1)->bh4; add(b.r + i, b.c - 1); i += std::min(n, b.bh4); } }
    if (tl) add(b.r - 1, b.c - 1);
    if (tr && std::max(b.bw4, b.bh4) <= 16) add(b.r - 1, b.c + b.bw4);
    if (!b.nsamp && b.nsampscan) b.nsamp = 1;
}
// 7.11.3.8
void FrameCoder::local_warp() {
    b.localvalid = false; i64 A[2][2] = {}, Bx[2] = {}, By[2] = {}; int my = b.r * 4 + b.bh4 * 2 - 1, mx = b.c * 4 + b.bw4 * 2 - 1, suy = my * 8, sux = mx * 8, duy = suy + b.mv[0].y, dux = sux + b.mv[0].x;
    auto ls = [](int x, int y) { return ((x * y) >> 2) + x + y; };
    for (int i = 0; i < b.nsamp; i++) {
        int sy = b.cand[i][0] - suy, sx = b.cand[i][1] - sux, dy = b.cand[i][2] - duy, dx = b.cand[i][3] - dux; if (abs(sx - dx) >= 256 || abs(sy - dy) >= 256) continue;
        A[0][0] += ls(sx, sx) + 8; A[0][1] += ls(sx, sy) + 4; A[1][1] += ls(sy, sy) + 8; Bx[0] += ls(sx, dx) + 8; Bx[1] += ls(sy, dx) + 4; By[0] += ls(sx, dy) + 4; By[1] += ls(sy, dy) + 8;
    }
    i64 det = A[0][0] * A[1][1] - A[0][1] * A[0][1]; if (!det) return; int sh; i64 df = resolve_div((u64)(det < 0 ? -det : det), sh); if (det < 0) df = -df; sh -= 16; if (sh < 0) { df *= 1ll << -sh; sh = 0; }
    auto fin = [&](i64 v, int lo, int hi) { __int128 x = (__int128)v * df; bool n = x < 0; if (n) x = -x; if (sh) x = (x + ((__int128)1 << (sh - 1))) >> sh; if (n) x = -x; return (int)(x < lo ? lo : x > hi ? hi : x); };
    Gm g; g.type = 3; int *P = g.m; P[2] = fin(A[1][1] * Bx[0] - A[0][1] * Bx[1], 65536 - 8191, 65536 + 8191); P[3] = fin(-A[0][1] * Bx[0] + A[0][0] * Bx[1], -8191, 8191); P[4] = fin(A[1][1] * By[0] - A[0][1] * By[1], -8191, 8191); P[5] = fin(-A[0][1] * By[0] + A[0][0] * By[1], 65536 - 8191, 65536 + 8191);
    P[0] = clip3(-(1 << 23), (1 << 23) - 1, b.mv[0].x * 8192 - (mx * (P[2] - 65536) + my * P[3])); P[1] = clip3(-(1 << 23), (1 << 23) - 1, b.mv[0].y * 8192 - (mx * P[4] + my * (P[5] - 65536)));
    b.local = g; int o[4]; b.localvalid = shear_params(g, o); if (b.localvalid) st.inc("localwarp_valid");
}
} // namespace av1m
