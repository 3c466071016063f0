// Inter mode info syntax (5.11.18 - 5.11.33) and inter prediction (7.11.3).
#include "blk.h"
#include "tables.inc"
namespace av1m {
static const u8 ymode_ctx[N_BS] = {3, 3, 3, 3, 3, 2, 3, 3, 2, 1, 2, 2, 2, 1, 0, 1, 1, 1, 0, 0, 0, 0};
static bool ii_ok(int bs) { int w = bs_w4[bs], h = bs_h4[bs]; return std::min(w, h) >= 2 && std::max(w, h) <= 8 && std::max(w, h) <= 2 * std::min(w, h); }
static bool wedge_ok(int bs) { int w = bs_w4[bs], h = bs_h4[bs]; return std::min(w, h) >= 2 && std::max(w, h) <= 8; }

// ---- neighbours, in the form the contexts of 8.3.2 need them ----
struct Nb { bool av = false; int r0 = -1, r1 = -1; bool comp = false, intra = true; int ct = 0; };
static Nb nb_of(const Blk *q) { Nb n; if (!q) { n.intra = false; return n; } n.av = true; n.intra = !q->inter; if (q->inter && !q->intrabc) { n.r0 = q->ref[0] - 1; n.comp = q->comp2(); if (n.comp) { n.r1 = q->ref[1] - 1; n.ct = q->comp == COMP_DIST ? 1 : q->comp == COMP_AVG ? 2 : q->comp == COMP_DIFF ? 3 : 4; } } return n; }

void FrameCoder::inter_frame_info() {
    inter_seg(true);
    const SegData *sg = h.seg.enabled ? &h.seg.d[b.seg] : nullptr; bool pre = h.seg.enabled && h.seg.preskip;
    const Blk *a = A(), *l = L();
    bool segblock = pre && sg && (sg->skip || sg->ref != -1 || sg->globalmv);
    if (h.skip_mode && !segblock && std::min(b.bw4, b.bh4) >= 2) { int ctx = (a && a->skip_mode) + (l && l->skip_mode); b.skip_mode = SB(&cdf.m.skip_mode[ctx * 2], F(T_SKIPMODE) ? 60 : 20); }
    if (b.skip_mode) { b.skip = true; st.inc("skipmode"); } else b.skip = choose_skip();
    if (!h.seg.preskip) inter_seg(false);
    sg = h.seg.enabled ? &h.seg.d[b.seg] : nullptr;
    b.lossless = h.lossless[b.seg];
    cdef_syntax(); deltas();
    bool inter;
    if (b.skip_mode) inter = true; else if (sg && sg->ref != -1) inter = sg->ref != 0; else if (sg && sg->globalmv) inter = true;
    else {
        Nb x = nb_of(a), y = nb_of(l); int ctx = x.av && y.av ? (x.intra && y.intra ? 3 : x.intra || y.intra) : x.av || y.av ? 2 * (x.av ? x.intra : y.intra) : 0;
        inter = SB(&cdf.m.intra[ctx * 2], 100 - (int)k.intrapct);
    }
    if (!inter) { b.ref[0] = 0; b.ref[1] = -1; intra_modes(false); return; }
    b.inter = true; inter_modes(); st.inc("interblk");
}
int FrameCoder::ref_ctx(int which, bool) {
    int cnt[7] = {}; for (const Blk *q : {A(), L()}) { Nb n = nb_of(q); if (n.r0 >= 0) { cnt[n.r0]++; if (n.comp) cnt[n.r1]++; } }
    auto cmp = [](int x, int y) { return x == y ? 1 : x < y ? 0 : 2; };
    switch (which) {
    case 1: return cmp(cnt[0] + cnt[1] + cnt[2] + cnt[3], cnt[4] + cnt[5] + cnt[6]);
    case 2: return cmp(cnt[4] + cnt[5], cnt[6]);
    case 3: return cmp(cnt[0] + cnt[1], cnt[2] + cnt[3]);
    case 4: return cmp(cnt[0], cnt[1]);
    case 5: return cmp(cnt[2], cnt[3]);
    case 6: return cmp(cnt[4], cnt[5]);
    default: return cmp(cnt[1], cnt[2] + cnt[3]);
    }
}
void FrameCoder::ref_frames() {
    const SegData *sg = h.seg.enabled ? &h.seg.d[b.seg] : nullptr;
    b.ref[1] = -1;
    if (b.skip_mode) { b.ref[0] = h.skip_mode_refs[0]; b.ref[1] = h.skip_mode_refs[1]; return; }
    if (sg && sg->ref != -1) { b.ref[0] = sg->ref; return; }
    if (sg && (sg->skip || sg->globalmv)) { b.ref[0] = LAST_FRAME; return; }
    Nb a = nb_of(A()), l = nb_of(L()); bool comp = false;
    auto bw = [](const Nb &n) { return (unsigned)n.r0 >= 4u; };
    if (h.comp_ref && std::min(b.bw4, b.bh4) >= 2) {
        int ctx;
        if (a.av && l.av) { if (!a.comp && !l.comp) ctx = (l.r0 >= 4) ^ (a.r0 >= 4); else if (a.comp && l.comp) ctx = 4; else if (a.comp) ctx = 2 + bw(l); else ctx = 2 + bw(a); }
        else if (a.av || l.av) { const Nb &n = a.av ? a : l; ctx = n.comp ? 3 : n.r0 >= 4; } else ctx = 1;
        comp = SB(&cdf.m.comp[ctx * 2], F(T_COMPOUND) ? 75 : 40);
    }
#define RB(arr, i, ctx) SB(&cdf.m.arr[((i) * 3 + (ctx)) * 2], 50)
    if (!comp) {
        if (RB(ref, 0, ref_ctx(1, 0))) { if (RB(ref, 1, ref_ctx(2, 0))) b.ref[0] = 7; else b.ref[0] = 5 + RB(ref, 5, ref_ctx(6, 0)); }
        else if (RB(ref, 2, ref_ctx(3, 0))) b.ref[0] = 3 + RB(ref, 4, ref_ctx(5, 0)); else b.ref[0] = 1 + RB(ref, 3, ref_ctx(4, 0));
        return;
    }
    int ctx; auto uni = [](const Nb &n) { return (n.r0 < 4) == (n.r1 < 4); };
    if (a.av && l.av) {
        if (a.intra && l.intra) ctx = 2;
        else if (a.intra || l.intra) { const Nb &e = a.intra ? l : a; ctx = e.comp ? 1 + 2 * uni(e) : 2; }
        else if (!a.comp && !l.comp) ctx = 1 + 2 * ((a.r0 >= 4) == (l.r0 >= 4));
        else if (!a.comp || !l.comp) { const Nb &e = a.comp ? a : l; ctx = !uni(e) ? 1 : 3 + ((a.r0 >= 4) == (l.r0 >= 4)); }
        else { bool ua = uni(a), ul = uni(l); ctx = !ua && !ul ? 0 : !ua || !ul ? 2 : 3 + ((a.r0 == 4) == (l.r0 == 4)); }
    } else if (a.av || l.av) { const Nb &e = a.av ? a : l; ctx = e.intra || !e.comp ? 2 : 4 * uni(e); } else ctx = 2;
    if (SB(&cdf.m.comp_dir[ctx * 2], 65)) {
        if (RB(comp_fwd_ref, 0, ref_ctx(3, 0))) b.ref[0] = 3 + RB(comp_fwd_ref, 2, ref_ctx(5, 0)); else b.ref[0] = 1 + RB(comp_fwd_ref, 1, ref_ctx(4, 0));
        if (RB(comp_bwd_ref, 0, ref_ctx(2, 0))) b.ref[1] = 7; else b.ref[1] = 5 + RB(comp_bwd_ref, 1, ref_ctx(6, 0));
    } else if (RB(comp_uni_ref, 0, ref_ctx(1, 0))) { b.ref[0] = 5; b.ref[1] = 7; st.inc("unicomp"); }
    else { b.ref[0] = 1; st.inc("unicomp"); if (RB(comp_uni_ref, 1, ref_ctx(7, 0))) b.ref[1] = 3 + RB(comp_uni_ref, 2, ref_ctx(5, 0)); else b.ref[1] = 2; }
    st.inc("compound");
}
void FrameCoder::put_refs(int, int) {}
void FrameCoder::put_mv_comp(int ctx, int comp, int d, bool ibc) {
    Cdfs::V &v = cdf.mv[ctx][comp]; int prec = ibc || h.imv ? -1 : h.hp ? 1 : 0, a = abs(d) - 1, up = a >> 3, fp = (a >> 1) & 3, hb = a & 1;
    put(v.sign, 2, d < 0); int cl = up < 2 ? 0 : msb((u32)up); put(v.classes, 11, cl);
    if (!cl) { put(v.class0, 2, up); if (prec >= 0) { put(&v.class0_fp[up * 4], 4, fp); if (prec > 0) put(v.class0_hp, 2, hb); } }
    else { for (int n = 0; n < cl; n++) put(&v.classN[n * 2], 2, (up >> n) & 1); if (prec >= 0) { put(v.classN_fp, 4, fp); if (prec > 0) put(v.classN_hp, 2, hb); } }
}
// Chooses a difference to the prediction, keeping the vector representable.
void FrameCoder::mv_residual(Mv &mv, const Mv &pred, bool ibc, int) {
    int ctx = ibc ? 1 : 0, q = ibc || h.imv ? 8 : h.hp ? 1 : 2; int d[2] = {0, 0};
    if (ibc) { d[0] = mv.y - pred.y; d[1] = mv.x - pred.x; }
    else if (!plain) for (int i = 0; i < 2; i++) {
        int p0 = i ? pred.x : pred.y; if (rng.pct(20)) continue;
        for (int t = 0; t < 8; t++) {
            int mx = rng.pct(4) ? 16383 : rng.pct(10) ? 2048 : std::max(1, (int)k.mvmag >> (rng.below(4))), v = (int)rng.below(mx / q + 1) * q; if (rng.below(2)) v = -v;
            if (abs(p0 + v) < 16384) { d[i] = v; break; }
        }
    }
    put(cdf.joint[ctx], 4, (d[1] ? 1 : 0) + (d[0] ? 2 : 0));
    if (d[0]) put_mv_comp(ctx, 0, d[0], ibc); if (d[1]) put_mv_comp(ctx, 1, d[1], ibc);
    mv.y = pred.y + d[0]; mv.x = pred.x + d[1];
}
static int drl_ctx(const MvStack &m, int i) { return m.w[i] >= 640 ? m.w[i + 1] < 640 : m.w[i + 1] < 640 ? 2 : 0; }
void FrameCoder::inter_modes() {
    const SegData *sg = h.seg.enabled ? &h.seg.d[b.seg] : nullptr; ref_frames(); bool comp = b.ref[1] > 0;
    MvStack m; find_mv_stack(m, b.ref[0], b.ref[1]); int idx = 0; int sub = 0;
    bool forceglob = !comp && sg && (sg->skip || sg->globalmv);
    if (b.skip_mode) b.ymode = NEAREST_NEARESTMV;
    else if (forceglob) b.ymode = GLOBALMV;
    else if (comp) {
        int ctx = m.refmv_ctx >> 1; ctx = ctx == 0 ? std::min(m.newmv_ctx, 1) : ctx == 1 ? 1 + std::min(m.newmv_ctx, 3) : clip3(4, 7, 3 + m.newmv_ctx);
        b.ymode = NEAREST_NEARESTMV + S(&cdf.m.comp_inter_mode[ctx * 8], 8); 
    } else if (!SB(&cdf.m.newmv_mode[m.newmv_ctx * 2], 100 - (int)k.newmvpct)) b.ymode = NEWMV;
    else if (!SB(&cdf.m.globalmv_mode[m.zeromv_ctx * 2], F(T_GM) ? 40 : 75)) b.ymode = GLOBALMV;
    else b.ymode = SB(&cdf.m.refmv_mode[m.refmv_ctx * 2], 50) ? NEARMV : NEARESTMV;
    bool near_ = b.ymode == NEARMV || b.ymode == NEAR_NEARMV || b.ymode == NEAR_NEWMV || b.ymode == NEW_NEARMV;
    auto dr = [&](int i) { return SB(&cdf.m.drl_bit[drl_ctx(m, i) * 2], 50); };
    if (b.ymode == NEWMV || b.ymode == NEW_NEWMV) { if (m.n > 1 && dr(0)) { idx = 1; if (m.n > 2 && dr(1)) idx = 2; } }
    else if (near_) { idx = 1; if (m.n > 2 && dr(1)) { idx = 2; if (m.n > 3 && dr(2)) idx = 3; } }
    if (idx > 1) st.inc("drl2");
    for (int l = 0; l <= comp; l++) {
        int md; // 0 nearest/near 1 global 2 new
        if (!comp) md = b.ymode == GLOBALMV ? 1 : b.ymode == NEWMV ? 2 : 0;
        else { static const u8 t[8][2] = {{0, 0}, {0, 0}, {0, 2}, {2, 0}, {0, 2}, {2, 0}, {1, 1}, {2, 2}}; md = t[b.ymode - NEAREST_NEARESTMV][l]; }
        if (md == 1) b.mv[l] = m.gmv[l]; else if (md == 0) b.mv[l] = m.mv[idx][l]; else { Mv p = m.mv[idx][l]; mv_residual(b.mv[l], p, false, 0); st.inc("newmv"); }
        if (abs(b.mv[l].y) >= 1 << 14 || abs(b.mv[l].x) >= 1 << 14) st.inc("mv_range");
    }
    (void)sub;
    bool subpel = true;
    if (comp) {
        if (!b.skip_mode) comp_type(); else b.comp = COMP_AVG;
        if (b.skip_mode) subpel = false; else subpel = std::min(b.bw4, b.bh4) == 1 || b.ymode != GLOBAL_GLOBALMV || h.gm[b.ref[0]].type == 1 || h.gm[b.ref[1]].type == 1;
    } else {
        if (b.ymode == GLOBALMV) subpel = std::min(b.bw4, b.bh4) == 1 || h.gm[b.ref[0]].type == 1;
        if (s.inter_intra && ii_ok(b.bs)) {
            int g = ymode_ctx[b.bs], wc = T_wedgectx[b.bs];
            if (SB(&cdf.m.interintra[g * 2], T(T_INTERINTRA) ? (F(T_INTERINTRA) ? 80 : 30) : 0)) {
                b.iimode = S(&cdf.m.interintra_mode[g * 4], 4); b.iiwedge = SB(&cdf.m.interintra_wedge[wc * 2], 50); if (b.iiwedge) b.wedge = S(&cdf.m.wedge_idx[wc * 16], 16); b.ii = true; st.inc("interintra"); if (b.iiwedge) st.inc("interintra_wedge");
            }
        }
        motion_mode(); if (b.mm == 2) subpel = false;
    }
    if (h.filter == 4) { if (subpel) interp_filters(); else b.interp[0] = b.interp[1] = 0; } else b.interp[0] = b.interp[1] = h.filter;
    if (b.ii) b.ref[1] = 0;
}
void FrameCoder::interp_filters() {
    const Blk *a = A(), *l = L(); int comp = b.ref[1] > 0;
    auto ctx = [&](int dir) { auto f = [&](const Blk *q) { return q && q->inter && (q->ref[0] == b.ref[0] || q->ref[1] == b.ref[0]) ? q->interp[dir] : 3; }; int x = f(a), y = f(l); return comp * 4 + (x == y ? x : x == 3 ? y : y == 3 ? x : 3); };
    b.interp[0] = S(&cdf.m.filter[(0 * 8 + ctx(0)) * 4], 3);
    b.interp[1] = s.dual_filter ? S(&cdf.m.filter[(1 * 8 + ctx(1)) * 4], 3) : b.interp[0]; if (b.interp[0] != b.interp[1]) st.inc("dualfilter");
}
void FrameCoder::motion_mode() {
    b.mm = 0; if (!h.switchable_motion || b.ii || std::min(b.bw4, b.bh4) < 2) return;
    if (!h.imv && b.ymode == GLOBALMV && h.gm[b.ref[0]].type > 1) return;
    bool ov = false;
    if (availU) for (int x = b.c | 1; x < std::min(miC, b.c + b.bw4); x += 2) { const Blk *q = at(b.r - 1, x); if (q && q->inter) ov = true; }
    if (availL) for (int y = b.r | 1; y < std::min(miR, b.r + b.bh4); y += 2) { const Blk *q = at(y, b.c - 1); if (q && q->inter) ov = true; }
    if (!ov) return;
    warp_samples();
    if (!scaled[b.ref[0]] && !h.imv && h.warp_motion && b.nsamp > 0) { u32 mask = 7; if (!T(T_OBMC)) mask &= ~2u; if (!T(T_WARP)) mask &= ~4u; if (F(T_WARP) && (mask & 4) && rng.pct(50)) mask = 4; b.mm = S(&cdf.m.motion_mode[b.bs * 4], 3, mask); }
    else b.mm = SB(&cdf.m.obmc[b.bs * 2], T(T_OBMC) ? (F(T_OBMC) ? 80 : 45) : 0);
    if (b.mm == 1) st.inc("obmc"); if (b.mm == 2) st.inc("localwarp");
}
void FrameCoder::comp_type() {
    Nb a = nb_of(A()), l = nb_of(L()); b.comp = COMP_AVG; bool masked = false;
    if (s.masked_compound) { auto f = [](const Nb &n) { return n.ct >= 3 ? 1 : n.r0 == 6 ? 3 : 0; }; int ctx = std::min(5, f(a) + f(l)); masked = SB(&cdf.m.mask_comp[ctx * 2], T(T_WEDGE) ? (F(T_WEDGE) ? 80 : 40) : 0); }
    if (!masked) {
        if (s.jnt_comp) {
            auto f = [](const Nb &n) { return n.ct >= 2 || n.r0 == 6; };
            int d0 = abs(rel_dist(s, h.order_hints[b.ref[0]], h.order_hint)), d1 = abs(rel_dist(s, h.order_hint, h.order_hints[b.ref[1]])), ctx = 3 * (d0 == d1) + f(a) + f(l);
            if (!SB(&cdf.m.jnt_comp[ctx * 2], T(T_JNT) ? 50 : 100)) { b.comp = COMP_DIST; st.inc("jntcomp"); }
        }
        return;
    }
    b.comp = COMP_DIFF;
    if (wedge_ok(b.bs)) { int wc = T_wedgectx[b.bs]; if (!SB(&cdf.m.wedge_comp[wc * 2], 50)) { b.comp = COMP_WEDGE; b.wedge = S(&cdf.m.wedge_idx[wc * 16], 16); st.inc("wedge"); } }
    b.wsign = b.masktype = plain ? 0 : rng.below(2); lit(b.wsign, 1); if (b.comp == COMP_DIFF) st.inc("diffwtd");
}
// ---- intra block copy ----
bool FrameCoder::assign_intrabc() {
    b.ref[0] = 0; b.ref[1] = -1; MvStack m; find_mv_stack(m, 0, -1); Mv pred, z; int sbl = 4 + s.sb128, sb64 = (tc1 - tc0 - 1) / 16 + 1;
    if (m.mv[0][0] != z) pred = m.mv[0][0]; else if (m.mv[1][0] != z) pred = m.mv[1][0];
    else if (b.r - (16 << s.sb128) < tr0) pred.x = -(512 << s.sb128) - 2048; else pred.y = -(512 << s.sb128);
    int bw = b.bw4 * 4, bh = b.bh4 * 4;
    auto valid = [&](int sx, int sy) { // luma position of the source block
        int bl = tc0 * 4, bt = tr0 * 4; if (b.chroma) { if (b.bw4 == 1 && ssx) bl += 4; if (b.bh4 == 1 && ssy) bt += 4; }
        if (sx < bl || sy < bt || sx + bw > tc1 * 4 || sy + bh > tr1 * 4) return false;
        int ar = b.r >> sbl, ac = (b.c * 4) >> 6, sr = (sy + bh - 1) / (4 << sbl), sc = (sx + bw - 1) >> 6;
        if (sr * sb64 + sc >= ar * sb64 + ac - 4) return false;
        return !(sr > ar || sc >= ac - 4 + (5 + s.sb128) * (ar - sr));
    };
    int x0 = b.c * 4, y0 = b.r * 4, sx = 0, sy = 0; bool ok = false;
    for (int t = 0; t < 24 && !ok; t++) {
        if (t == 0 && rng.pct(40)) { sx = x0 + (pred.x >> 3); sy = y0 + (pred.y >> 3); } else { sx = rng.range(tc0 * 4, tc1 * 4); sy = rng.range(tr0 * 4, std::max(tr0 * 4, y0 - bh)); if (t % 4 == 1) sx = x0; if (t % 4 == 2) sy &= ~7, sx &= ~7; }
        ok = valid(sx, sy) && abs(x0 - sx) < 2040 && abs(y0 - sy) < 2040;
    }
    if (!ok) return false;
    put(cdf.m.intrabc, 2, 1); b.mv[0].x = (sx - x0) * 8; b.mv[0].y = (sy - y0) * 8; mv_residual(b.mv[0], pred, true, 0);
    b.inter = b.intrabc = true; b.ymode = DC_PRED; b.uvmode = DC_PRED; b.interp[0] = b.interp[1] = 3; return true;
}

// ---- prediction ----
void FrameCoder::block_inter(int p, const Blk &cb, int list, int x, int y, int w, int hh, int *out, bool comp, int, int, const int *, int) {
    int X = p ? ssx : 0, Y = p ? ssy : 0, ref = cb.ref[list], lx, ly, xsc, ysc; const Plane *src; Mv mv = cb.mv[list];
    if (cb.intrabc) { src = &cur[p]; lx = ((miC * 4) >> X) - 1; ly = ((miR * 4) >> Y) - 1; xsc = ysc = 1 << 14; }
    else { src = &rf[ref]->pic->p[p]; lx = src->w - 1; ly = src->h - 1; xsc = xs[ref]; ysc = ys[ref]; }
    int r0 = bd == 12 ? 5 : 3, r1 = comp ? 7 : bd == 12 ? 9 : 11;
    auto start = [&](int pos, int m, int ss, int sc) { i64 o = ((i64)pos << 4) + ((2 * m) >> ss) + 8, base = o * sc - (8 << 14); return (int)(rnd2sl(base, 8) + 32); };
    int sx = start(x, mv.x, X, xsc), sy = start(y, mv.y, Y, ysc), stx = rnd2s(xsc, 4), sty = rnd2s(ysc, 4);
    auto kern = [&](int f, int frac, bool small, int *o) {
        for (int i = 0; i < 8; i++) o[i] = 0; if (!frac) { o[3] = 128; return; } if (f == 3) { o[3] = 128 - 8 * frac; o[4] = 8 * frac; return; }
        int set = small ? (f == 1 ? 4 : 3) : f; for (int i = 0; i < 8; i++) o[i] = 2 * T_subpel[(set * 15 + frac - 1) * 8 + i];
    };
    int ih = (((hh - 1) * sty + (1 << 10) - 1) >> 10) + 8; std::vector<int> im((size_t)ih * w); int kx[8];
    for (int c = 0; c < w; c++) {
        int pp = sx + stx * c; kern(cb.interp[1], (pp >> 6) & 15, w <= 4, kx);
        for (int r = 0; r < ih; r++) { const u16 *row = &src->d[(size_t)clip3(0, ly, (sy >> 10) + r - 3) * src->stride]; int sum = 0; for (int t = 0; t < 8; t++) if (kx[t]) sum += kx[t] * row[clip3(0, lx, (pp >> 10) + t - 3)]; im[(size_t)r * w + c] = rnd2(sum, r0); }
    }
    for (int r = 0; r < hh; r++) { int pp = (sy & 1023) + sty * r, base = pp >> 10; kern(cb.interp[0], (pp >> 6) & 15, hh <= 4, kx); for (int c = 0; c < w; c++) { int sum = 0; for (int t = 0; t < 8; t++) sum += kx[t] * im[(size_t)(base + t) * w + c]; out[r * w + c] = rnd2(sum, r1); } }
}
void FrameCoder::warp_pred(const Gm &g, int p, int ref, int x, int y, int w, int hh, int *out, int comp, int) {
    int X = p ? ssx : 0, Y = p ? ssy : 0, sp[4]; shear_params(g, sp); const Plane *src = &rf[ref]->pic->p[p]; int lx = src->w - 1, ly = src->h - 1, r0 = bd == 12 ? 5 : 3, r1 = comp ? 7 : bd == 12 ? 9 : 11;
    for (int by = 0; by < hh; by += 8) for (int bx = 0; bx < w; bx += 8) {
        int scx = (x + bx + 4) << X, scy = (y + by + 4) << Y; i64 dx = (i64)g.m[2] * scx + (i64)g.m[3] * scy + g.m[0], dy = (i64)g.m[4] * scx + (i64)g.m[5] * scy + g.m[1];
        i64 x4 = dx >> X, y4 = dy >> Y; int ix = (int)(x4 >> 16), fx = (int)(x4 & 65535), iy = (int)(y4 >> 16), fy = (int)(y4 & 65535), im[15][8];
        for (int i = -7; i < 8; i++) for (int j = -4; j < 4; j++) { int o = rnd2(fx + sp[0] * j + sp[1] * i, 10) + 64, sum = 0; const int8_t *f = &T_warp[o * 8]; const u16 *row = &src->d[(size_t)clip3(0, ly, iy + i) * src->stride]; for (int t = 0; t < 8; t++) sum += f[t] * row[clip3(0, lx, ix + j - 3 + t)]; im[i + 7][j + 4] = rnd2(sum, r0); }
        for (int i = -4; i < 4; i++) for (int j = -4; j < 4; j++) { int o = rnd2(fy + sp[2] * j + sp[3] * i, 10) + 64, sum = 0; const int8_t *f = &T_warp[o * 8]; for (int t = 0; t < 8; t++) sum += f[t] * im[i + t + 4][j + 4]; out[(by + i + 4) * w + bx + j + 4] = rnd2(sum, r1); }
    }
}
// ---- wedge masks (7.11.3.11) ----
enum { WH, WV, W27, W63, W117, W153 };
struct Masks {
    u8 master[6][64][64]; u8 m[N_BS][2][16][32][32];
    Masks() {
        static const u8 odd[8] = {1, 2, 6, 18, 37, 53, 60, 63}, even[8] = {1, 4, 11, 27, 46, 58, 62, 63}, vert[8] = {0, 2, 7, 21, 43, 57, 62, 64};
        auto val = [](const u8 *t, int x, int ctr) { int i = x - (ctr - 4); return i < 0 ? 0 : i > 7 ? 64 : t[i]; };
        for (int y = 0; y < 64; y++) for (int x = 0; x < 64; x++) { master[WV][y][x] = val(vert, x, 32); int ctr = 48 - (y & ~1) / 2; master[W63][y][x] = y & 1 ? val(odd, x, ctr - 1) : val(even, x, ctr); }
        for (int y = 0; y < 64; y++) for (int x = 0; x < 64; x++) { master[WH][x][y] = master[WV][y][x]; master[W27][x][y] = master[W63][y][x]; }
        for (int y = 0; y < 64; y++) for (int x = 0; x < 64; x++) { master[W117][y][63 - x] = 64 - master[W63][y][x]; master[W153][y][63 - x] = 64 - master[W27][y][x]; }
        struct E { u8 d, x, y; }; static const E base[16] = {{W27, 4, 4}, {W63, 4, 4}, {W117, 4, 4}, {W153, 4, 4}, {}, {}, {}, {}, {W27, 4, 2}, {W27, 4, 6}, {W153, 4, 2}, {W153, 4, 6}, {W63, 2, 4}, {W63, 6, 4}, {W117, 2, 4}, {W117, 6, 4}};
        static const E mid[3][4] = {{{WH, 4, 2}, {WH, 4, 4}, {WH, 4, 6}, {WV, 4, 4}}, {{WV, 2, 4}, {WV, 4, 4}, {WV, 6, 4}, {WH, 4, 4}}, {{WH, 4, 2}, {WH, 4, 6}, {WV, 2, 4}, {WV, 6, 4}}};
        for (int bs = 0; bs < N_BS; bs++) {
            if (!wedge_ok(bs)) continue; int w = bs_w4[bs] * 4, h = bs_h4[bs] * 4, kind = h > w ? 0 : h < w ? 1 : 2;
            for (int i = 0; i < 16; i++) {
                E e = i >= 4 && i < 8 ? mid[kind][i - 4] : base[i]; int xo = 32 - (w * e.x >> 3), yo = 32 - (h * e.y >> 3), sum = 0; auto g = [&](int y, int x) { return master[e.d][yo + y][xo + x]; };
                for (int x = 0; x < w; x++) sum += g(0, x); for (int y = 1; y < h; y++) sum += g(y, 0); int avg = (sum + (w + h - 1) / 2) / (w + h - 1), fl = avg < 32;
                for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { m[bs][fl][i][y][x] = g(y, x); m[bs][!fl][i][y][x] = 64 - g(y, x); }
            }
        }
    }
};
static const Masks &masks() { static const Masks *m = new Masks; return *m; }

void FrameCoder::predict_inter(int, int, int, int, int, int, int, bool) {}
void FrameCoder::predict_all() {
    if (!b.inter) return; int mxv = (1 << bd) - 1; static const u8 iiw[32] = {60, 52, 45, 39, 34, 30, 26, 22, 19, 17, 15, 13, 11, 10, 8, 7, 6, 6, 5, 4, 4, 3, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1};
    std::vector<u8> diffmask; const bool comp = b.comp2();
    for (int p = 0; p < (b.chroma ? 3 : 1); p++) {
        int X = p ? ssx : 0, Y = p ? ssy : 0; bool s8x = X && b.bw4 == 1, s8y = Y && b.bh4 == 1; int w = s8x ? 4 : (b.bw4 * 4) >> X, hh = s8y ? 4 : (b.bh4 * 4) >> Y, x = (b.c >> X) * 4, y = (b.r >> Y) * 4;
        auto store = [&](int xx, int yy, int ww, int h2, const int *pr) { for (int i = 0; i < h2; i++) for (int j = 0; j < ww; j++) cur[p].at(xx + j, yy + i) = clip3(0, mxv, pr[i * ww + j]); };
        if ((s8x || s8y) && !b.intrabc) {
            bool ok = true; for (int dy = 0; dy <= s8y; dy++) for (int dx = 0; dx <= s8x; dx++) { const Blk *q = at(b.r - dy, b.c - dx); if (!q || !q->inter) ok = false; }
            if (ok) {
                int pw = s8x ? 2 : w, ph = s8y ? 2 : hh; std::vector<int> o(pw * ph); st.inc("sub8x8");
                for (int dy = 0; dy <= s8y; dy++) for (int dx = 0; dx <= s8x; dx++) { const Blk *q = at(b.r - s8y + dy, b.c - s8x + dx); block_inter(p, *q, 0, x + dx * pw, y + dy * ph, pw, ph, o.data(), false, 0, 0, nullptr, 0); store(x + dx * pw, y + dy * ph, pw, ph, o.data()); }
                continue;
            }
        }
        std::vector<int> pr[2];
        for (int l = 0; l <= comp; l++) {
            pr[l].resize((size_t)w * hh); const Gm *g = nullptr; int o[4];
            if (!b.intrabc && w >= 8 && hh >= 8 && !scaled[b.ref[l]]) {
                if (b.mm == 2) { if (b.localvalid) g = &b.local; }
                else if ((b.ymode == GLOBALMV || b.ymode == GLOBAL_GLOBALMV) && h.gm[b.ref[l]].type > 1 && !h.imv && shear_params(h.gm[b.ref[l]], o)) g = &h.gm[b.ref[l]];
            }
            if (g) { warp_pred(*g, p, b.ref[l], x, y, w, hh, pr[l].data(), comp, 0); if (b.mm != 2) st.inc("globalwarp"); }
            else block_inter(p, b, l, x, y, w, hh, pr[l].data(), comp, 0, 0, nullptr, 0);
        }
        if (comp) {
            int post = bd == 12 ? 2 : 4; std::vector<int> o((size_t)w * hh); const int *p0 = pr[0].data(), *p1 = pr[1].data();
            if (b.comp == COMP_AVG) for (int i = 0; i < w * hh; i++) o[i] = rnd2(p0[i] + p1[i], 1 + post);
            else if (b.comp == COMP_DIST) {
                // 7.11.3.15
                int d0 = clip3(0, 31, abs(rel_dist(s, h.order_hints[b.ref[0]], h.order_hint))), d1 = clip3(0, 31, abs(rel_dist(s, h.order_hints[b.ref[1]], h.order_hint)));
                static const u8 qw[4][2] = {{2, 3}, {2, 5}, {2, 7}, {1, 31}}, ql[4][2] = {{9, 7}, {11, 5}, {12, 4}, {13, 3}}; int da = d1, db = d0, order = da <= db, i, fw, bw; // da: distance of reference 1
                if (!da || !db) { fw = ql[3][order]; bw = ql[3][1 - order]; }
                else { for (i = 0; i < 3; i++) { int c0 = qw[i][order], c1 = qw[i][!order]; if (order ? da * c0 > db * c1 : da * c0 < db * c1) break; } fw = ql[i][order]; bw = ql[i][1 - order]; }
                for (i = 0; i < w * hh; i++) o[i] = rnd2(p0[i] * fw + p1[i] * bw, 4 + post);
            } else {
                const u8 *mk; int ms;
                if (b.comp == COMP_DIFF) { if (!p) { diffmask.resize(w * hh); for (int i = 0; i < w * hh; i++) { int d = rnd2(abs(p0[i] - p1[i]), bd - 8 + post), mm = clip3(0, 64, 38 + d / 16); diffmask[i] = b.masktype ? 64 - mm : mm; } } mk = diffmask.data(); ms = b.bw4 * 4; }
                else { mk = &masks().m[b.bs][b.wsign][b.wedge][0][0]; ms = 32; }
                for (int i = 0; i < hh; i++) for (int j = 0; j < w; j++) {
                    int m; if (X && Y) m = rnd2(mk[2 * i * ms + 2 * j] + mk[2 * i * ms + 2 * j + 1] + mk[(2 * i + 1) * ms + 2 * j] + mk[(2 * i + 1) * ms + 2 * j + 1], 2); else if (X) m = rnd2(mk[i * ms + 2 * j] + mk[i * ms + 2 * j + 1], 1); else m = mk[i * ms + j];
                    o[i * w + j] = rnd2(m * p0[i * w + j] + (64 - m) * p1[i * w + j], 6 + post);
                }
            }
            store(x, y, w, hh, o.data()); continue;
        }
        if (b.ii) {
            static const u8 im[4] = {DC_PRED, V_PRED, H_PRED, SMOOTH_PRED}; std::vector<u16> ip((size_t)w * hh);
            predict_intra(p, x, y, p ? availLC : availL, p ? availUC : availU, false, false, im[b.iimode], ilog2(w), ilog2(hh), 0, ip.data(), w);
            const u8 *mk = b.iiwedge ? &masks().m[b.bs][0][b.wedge][0][0] : nullptr; int sc = 32 / std::max(w, hh);
            for (int i = 0; i < hh; i++) for (int j = 0; j < w; j++) {
                int m; if (mk) { if (X && Y) m = rnd2(mk[2 * i * 32 + 2 * j] + mk[2 * i * 32 + 2 * j + 1] + mk[(2 * i + 1) * 32 + 2 * j] + mk[(2 * i + 1) * 32 + 2 * j + 1], 2); else if (X) m = rnd2(mk[i * 32 + 2 * j] + mk[i * 32 + 2 * j + 1], 1); else m = mk[i * 32 + j]; }
                else m = b.iimode == 1 ? iiw[i * sc] : b.iimode == 2 ? iiw[j * sc] : b.iimode == 3 ? iiw[std::min(i, j) * sc] : 32;
                int &v = pr[0][i * w + j]; v = rnd2(m * ip[i * w + j] + (64 - m) * clip3(0, mxv, v), 6);
            }
        }
        store(x, y, w, hh, pr[0].data());
        if (b.mm == 1) obmc(p, w, hh);
    }
}
void FrameCoder::obmc(int p, int w, int hh) {
    int X = p ? ssx : 0, Y = p ? ssy : 0, mxv = (1 << bd) - 1; auto weight = [](int n, int i) { return 64 - (int)T_obmc[n + i]; };
    for (int pass = 0; pass < 2; pass++) {
        if (pass ? !availL : !availU) continue; if (!pass && p && w * hh < 64 && w + hh < 16) continue;
        int n4 = pass ? b.bh4 : b.bw4, cnt = 0, lim = std::min(4, ilog2(n4)), o0 = pass ? b.r : b.c, end = std::min(pass ? miR : miC, o0 + n4);
        for (int z = o0; cnt < lim && z < end;) {
            const Blk *q = pass ? at(z | 1, b.c - 1) : at(b.r - 1, z | 1); int step = clip3(2, 16, pass ? q->bh4 : q->bw4);
            if (q->inter) {
                cnt++; int pw, ph, px, py;
                if (!pass) { pw = (std::min(b.bw4, step) * 4) >> X; ph = std::min(b.bh4 * 2, 32) >> Y; px = (z * 4) >> X; py = (b.r * 4) >> Y; } else { pw = std::min(b.bw4 * 2, 32) >> X; ph = (std::min(b.bh4, step) * 4) >> Y; px = (b.c * 4) >> X; py = (z * 4) >> Y; }
                std::vector<int> o((size_t)pw * ph); block_inter(p, *q, 0, px, py, pw, ph, o.data(), false, 0, 0, nullptr, 0);
                for (int i = 0; i < ph; i++) for (int j = 0; j < pw; j++) { if (px + j >= cur[p].w || py + i >= cur[p].h) continue; int m = pass ? weight(pw, j) : weight(ph, i); u16 &d = cur[p].at(px + j, py + i); d = rnd2(m * d + (64 - m) * clip3(0, mxv, o[i * pw + j]), 6); }
            }
            z += step;
        }
    }
}
} // namespace av1m
