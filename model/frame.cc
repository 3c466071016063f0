// Frame coding: block syntax (5.11) with the encoder side choosing every symbol; drives prediction and reconstruction.
#include "blk.h"
#include "tables.inc"
namespace av1m {
const u8 bs_w4[N_BS] = {32, 32, 16, 16, 16, 16, 8, 8, 8, 8, 4, 4, 4, 4, 4, 2, 2, 2, 2, 1, 1, 1}, bs_h4[N_BS] = {32, 16, 32, 16, 8, 4, 16, 8, 4, 2, 16, 8, 4, 2, 1, 8, 4, 2, 1, 4, 2, 1};
int bs_from(int w4, int h4) { for (int i = 0; i < N_BS; i++) if (bs_w4[i] == w4 && bs_h4[i] == h4) return i; return -1; }
int tx_from(int w, int h) { for (int i = 0; i < 19; i++) if (tx_w[i] == w && tx_h[i] == h) return i; die("tx_from %d %d", w, h); }
static int max_rect_tx(int bs) { return tx_from(std::min(64, bs_w4[bs] * 4), std::min(64, bs_h4[bs] * 4)); }
static const u8 split_tx[19] = {TX_4X4, TX_4X4, TX_8X8, TX_16X16, TX_32X32, TX_4X4, TX_4X4, TX_8X8, TX_8X8, TX_16X16, TX_16X16, TX_32X32, TX_32X32, TX_4X8, TX_8X4, TX_8X16, TX_16X8, TX_16X32, TX_32X16};
static int sqr(int tx) { return ilog2(std::min(tx_w[tx], tx_h[tx])) - 2; }
static int sqr_up(int tx) { return ilog2(std::max(tx_w[tx], tx_h[tx])) - 2; }
static const u8 ymode_ctx[N_BS] = {3, 3, 3, 3, 3, 2, 3, 3, 2, 1, 2, 2, 2, 1, 0, 1, 1, 1, 0, 0, 0, 0};

FrameCoder::FrameCoder(const Knobs &k_, const ModelOpts &m, u64 sd, const SeqHdr &s_, FrameHdr &h_, const RefFrame *r_, Stats &st_) : k(k_), mo(m), s(s_), h(h_), refs(r_), st(st_), seed(sd) {
    bd = s.bitdepth(); np = s.planes(); ssx = s.ssx; ssy = s.ssy; miR = h.mi_rows; miC = h.mi_cols;
    int aw = (miC * 4 + 127) / 128 * 128 + 160, ah = (miR * 4 + 127) / 128 * 128 + 160;
    for (int p = 0; p < np; p++) cur[p].init(p ? aw >> ssx : aw, p ? ah >> ssy : ah);
    grid.assign((size_t)miR * miC, -1); size_t n = (size_t)(miR + 32) * (miC + 32);
    intertx.assign(n, 0); txtype.assign(n, 0); for (auto &l : lftx) l.assign(n, 0); segmap.assign((size_t)miR * miC, 0);
    cdefstride = (miC + 15) / 16 + 2; cdefidx.assign((size_t)cdefstride * ((miR + 15) / 16 + 2), -1);
}
#define IX(r, c) ((size_t)(r) * (miC + 32) + (c))

// ---- symbols ----
int FrameCoder::sampled(const u16 *c, int n, u32 mask) {
    for (int t = 0; t < 6; t++) { int u = rng.below(32768), v = 0; while (v < n - 1 && u < c[v]) v++; if (mask >> v & 1) return v; }
    return -1;
}
int FrameCoder::pick(const u16 *c, int n, u32 mask) {
    mask &= n >= 32 ? ~0u : (1u << n) - 1; if (!mask) die("empty symbol mask");
    if (plain) return __builtin_ctz(mask);
    if (rng.pct((int)k.cdfpct)) { int v = sampled(c, n, mask); if (v >= 0) return v; }
    int cnt = __builtin_popcount(mask), x = rng.below(cnt); for (int i = 0; i < n; i++) if (mask >> i & 1) if (!x--) return i;
    return 0;
}
bool FrameCoder::pickb(const u16 *c, int pct) {
    if (plain || pct <= 0) return false; if (pct >= 100) return true;
    if (rng.pct((int)k.cdfpct / 2)) { int v = sampled(c, 2, 3); if (v >= 0) return v; }
    return rng.pct(pct);
}
void FrameCoder::put(u16 *c, int n, int v) {
    if (v < 0 || v >= n) die("symbol %d of %d", v, n);
    enc.sym(v, c, n); nsym++;
    if (k.symcap >= 0 && nsym > k.symcap) plain = true;
    if (h.disable_cdf_update) return;
    int cnt = c[n - 1], rate = 4 + (cnt >> 4) + (n > 3);
    for (int i = 0; i < n - 1; i++) if (i < v) c[i] += (32768 - c[i]) >> rate; else c[i] -= c[i] >> rate;
    c[n - 1] = cnt + (cnt < 32);
}
void FrameCoder::lit(int v, int n) { for (int i = n - 1; i >= 0; i--) enc.bit_equi((v >> i) & 1); nsym += n; }
void FrameCoder::lit_ns(int v, int n) { int w = msb((u32)n) + 1, m = (1 << w) - n; if (v < m) lit(v, w - 1); else { int x = v + m; lit(x >> 1, w - 1); lit(x & 1, 1); } }

// ---- restoration unit syntax (5.11.57) ----
void FrameCoder::put_subexp(int v, int n, int kk) {
    int i = 0, mk = 0;
    for (;;) { int b2 = i ? kk + i - 1 : kk, a = 1 << b2; if (n <= mk + 3 * a) { lit_ns(v - mk, n - mk); return; } int more = v >= mk + a; lit(more, 1); if (!more) { lit(v - mk, b2); return; } i++; mk += a; }
}
static int recenter(int r, int v) { return v > 2 * r ? v : v >= r ? (v - r) * 2 : (r - v) * 2 - 1; }
void FrameCoder::put_subexp_ref(int v, int lo, int hi, int kk, int ref) { int mx = hi - lo; v -= lo; ref -= lo; if (ref * 2 <= mx) put_subexp(recenter(ref, v), mx, kk); else put_subexp(recenter(mx - 1 - ref, mx - 1 - v), mx, kk); }
void FrameCoder::put_lr(int r, int c, int w4, int h4) {
    if (h.intrabc) return;
    for (int p = 0; p < np; p++) {
        if (!h.lr.type[p]) continue;
        int sx = p ? ssx : 0, sy = p ? ssy : 0, us = 1 << h.lr.size[p];
        int r0 = (r * (4 >> sy) + us - 1) / us, r1 = ((r + h4) * (4 >> sy) + us - 1) / us, num = 4 >> sx, den = us;
        if (h.use_superres) { num = (4 >> sx) * h.superres_denom; den = us * 8; }
        int c0 = (c * num + den - 1) / den, c1 = ((c + w4) * num + den - 1) / den; r1 = std::min(r1, lrrows[p]); c1 = std::min(c1, lrcols[p]);
        for (int y = r0; y < r1; y++) for (int x = c0; x < c1; x++) {
            LrUnit &u = lru[p][y * lrcols[p] + x]; int t;
            if (h.lr.type[p] == 2) t = SB(cdf.m.restore_wiener, 75) ? 1 : 0;
            else if (h.lr.type[p] == 3) t = SB(cdf.m.restore_sgrproj, 75) ? 2 : 0;
            else t = S(cdf.m.restore_switchable, 3);
            u.type = t;
            if (t == 1) {
                static const int mn[3] = {-5, -23, -17}, mxx[3] = {10, 8, 46};
                for (int ps = 0; ps < 2; ps++) { u.w[ps][0] = 0; for (int j = p ? 1 : 0; j < 3; j++) { int v = rng.pct(20) ? reflr[p][ps][j] : rng.pct(15) ? (rng.below(2) ? mn[j] : mxx[j]) : rng.range(mn[j], mxx[j]); put_subexp_ref(v, mn[j], mxx[j] + 1, j + 1, reflr[p][ps][j]); u.w[ps][j] = reflr[p][ps][j] = v; } }
                st.inc("lr_wiener");
            } else if (t == 2) {
                u.set = rng.below(16); lit(u.set, 4); static const int mn[2] = {-96, -32}, mxx[2] = {31, 95};
                for (int i = 0; i < 2; i++) {
                    int has = i == 0 ? (u.set < 10 || u.set >= 14) : u.set < 14, v;
                    if (has) { v = rng.pct(20) ? refsgr[p][i] : rng.pct(15) ? (rng.below(2) ? mn[i] : mxx[i]) : rng.range(mn[i], mxx[i]); put_subexp_ref(v, mn[i], mxx[i] + 1, 4, refsgr[p][i]); }
                    else v = i ? clip3(mn[1], mxx[1], 128 - refsgr[p][0]) : 0;
                    u.x[i] = refsgr[p][i] = v;
                }
                st.inc("lr_sgr");
            }
        }
    }
}

// ---- tiles ----
void FrameCoder::tile(int n) {
    int sb = s.sb128 ? 32 : 16, tr = n / h.tile.cols, tc = n % h.tile.cols;
    tr0 = h.tile.rs[tr] * sb; tr1 = std::min(miR, h.tile.rs[tr + 1] * sb); tc0 = h.tile.cs[tc] * sb; tc1 = std::min(miC, h.tile.cs[tc + 1] * sb);
    cdf = base; enc = RangeEnc(); rng = Rng(subseed(seed, 500 + n)); nsym = 0; plain = k.symcap == 0;
    for (int p = 0; p < 3; p++) { alv[p].assign(miC + 40, 0); adc[p].assign(miC + 40, 0); }
    asegp.assign(miC + 40, 0); curq = h.q.yac; memset(dlf, 0, sizeof dlf);
    for (int p = 0; p < 3; p++) for (int ps = 0; ps < 2; ps++) { reflr[p][ps][0] = 3; reflr[p][ps][1] = -7; reflr[p][ps][2] = 15; refsgr[p][0] = -32; refsgr[p][1] = 31; }
    for (int r = tr0; r < tr1; r += sb) {
        for (int p = 0; p < 3; p++) { llv[p].assign(miR + 40, 0); ldc[p].assign(miR + 40, 0); }
        lsegp.assign(miR + 40, 0);
        for (int c = tc0; c < tc1; c += sb) {
            readdeltas = h.dq_present;
            for (int y = 0; y < sb / 16; y++) for (int x = 0; x < sb / 16; x++) { int yy = r / 16 + y, xx = c / 16 + x; if (xx < cdefstride) cdefidx[yy * cdefstride + xx] = -1; }
            memset(blkdec, 0, sizeof blkdec);
            for (int p = 0; p < np; p++) {
                int sx = p ? ssx : 0, sy = p ? ssy : 0, w4 = (tc1 - c) >> sx, h4 = (tr1 - r) >> sy;
                for (int y = -1; y <= sb >> sy; y++) for (int x = -1; x <= sb >> sx; x++) blkdec[p][y + 1][x + 1] = (y < 0 && x < w4) || (x < 0 && y < h4);
                blkdec[p][(sb >> sy) + 1][0] = 0;
            }
            put_lr(r, c, sb, sb);
            partition(r, c, s.sb128 ? 0 : 1);
        }
    }
}
void FrameCoder::partition(int r, int c, int lvl) {
    if (r >= miR || c >= miC) return;
    int n4 = 32 >> lvl, half = n4 >> 1, q = half >> 1; bool hr = r + half < miR, hc = c + half < miC;
    availU = inside(r - 1, c); availL = inside(r, c - 1);
    const Blk *a = availU ? at(r - 1, c) : nullptr, *l = availL ? at(r, c - 1) : nullptr;
    int type = 0; auto sub = [&](int w, int hh) { return bs_from(w, hh); };
    if (n4 == 1) type = 0;
    else {
        int ctx = (l && l->bh4 < n4) * 2 + (a && a->bw4 < n4); u16 *cd = &cdf.m.partition[(lvl * 4 + ctx) * 16]; int N = lvl == 0 ? 8 : lvl == 4 ? 4 : 10;
        bool i422 = ssx && !ssy && np > 1;
        if (hr && hc) {
            u32 mask = (1u << N) - 1; if (i422) mask &= ~((1u << 2) | (1u << 6) | (1u << 7) | (1u << 9));
            if (!T(T_RECTPART)) mask &= ~((1u << 1) | (1u << 2)); if (!T(T_EXTPART)) mask &= 0xf;
            if (plain) type = 0;
            else if (rng.pct((int)k.cdfpct / 2)) type = pick(cd, N, mask);
            else {
                int pct = (int)k.splitpct; if (k.bigblk) pct /= 4; else if (lvl <= 1) pct += 20; 
                if (rng.pct(pct)) type = 3; else { u32 m2 = mask & ~8u; if (lvl == 4 && rng.pct(40)) m2 = mask & 7; int cnt = __builtin_popcount(m2), x = rng.below(cnt + 1); if (x == cnt) type = 0; else for (int i = 0; i < N; i++) if (m2 >> i & 1) if (!x--) { type = i; break; } }
            }
            put(cd, N, type);
        } else if (hc || hr) {
            auto P = [&](int i) { return (i ? cd[i - 1] : 32768) - (i < N - 1 ? cd[i] : 0); }; int ps;
            if (hc) { ps = P(2) + P(3); if (lvl != 4) { ps += P(4) + P(6) + P(7); if (lvl != 0) ps += P(9); } }
            else { ps = P(1) + P(3); if (lvl != 4) { ps += P(4) + P(5) + P(6); if (lvl != 0) ps += P(8); } }
            // bool with probability ps/32768 of a split
            u16 bc[2] = {(u16)ps, 0}; bool split = plain ? false : rng.pct((int)k.cdfpct / 2) ? (int)rng.below(32768) < ps : rng.pct((int)k.splitpct);
            if (hr && i422) split = true; // 4:2:2 has no tall blocks
            enc.sym(split, bc, 2); nsym++; type = split ? 3 : hc ? 1 : 2;
        } else type = 3;
    }
    int full = sub(n4, n4);
    switch (type) {
    case 0: block(r, c, full); break;
    case 1: block(r, c, sub(n4, half)); if (hr) block(r + half, c, sub(n4, half)); break;
    case 2: block(r, c, sub(half, n4)); if (hc) block(r, c + half, sub(half, n4)); break;
    case 3: partition(r, c, lvl + 1); partition(r, c + half, lvl + 1); partition(r + half, c, lvl + 1); partition(r + half, c + half, lvl + 1); break;
    case 4: block(r, c, sub(half, half)); block(r, c + half, sub(half, half)); block(r + half, c, sub(n4, half)); break;
    case 5: block(r, c, sub(n4, half)); block(r + half, c, sub(half, half)); block(r + half, c + half, sub(half, half)); break;
    case 6: block(r, c, sub(half, half)); block(r + half, c, sub(half, half)); block(r, c + half, sub(half, n4)); break;
    case 7: block(r, c, sub(half, n4)); block(r, c + half, sub(half, half)); block(r + half, c + half, sub(half, half)); break;
    case 8: for (int i = 0; i < 4; i++) if (r + q * i < miR) block(r + q * i, c, sub(n4, q)); break;
    case 9: for (int i = 0; i < 4; i++) if (c + q * i < miC) block(r, c + q * i, sub(q, n4)); break;
    }
}
int FrameCoder::resid_bs(int bs, int p) { if (!p) return bs; int w = bs_w4[bs], hh = bs_h4[bs]; w = std::max(1, w >> ssx); hh = std::max(1, hh >> ssy); int x = bs_from(w, hh); if (x < 0) die("invalid chroma block"); return x; }

void FrameCoder::block(int r, int c, int bs) {
    b = Blk(); b.r = r; b.c = c; b.bs = bs; b.bw4 = bs_w4[bs]; b.bh4 = bs_h4[bs];
    b.chroma = np > 1; if (b.bh4 == 1 && ssy && !(r & 1)) b.chroma = false; if (b.bw4 == 1 && ssx && !(c & 1)) b.chroma = false;
    availU = inside(r - 1, c); availL = inside(r, c - 1); availUC = availLC = false;
    if (b.chroma) { availUC = ssy && b.bh4 == 1 ? inside(r - 2, c) : availU; availLC = ssx && b.bw4 == 1 ? inside(r, c - 2) : availL; }
    if (h.intra()) intra_frame_info(); else inter_frame_info();
    b.qidx = clip3(0, 255, (h.dq_present ? curq : h.q.yac) + (h.seg.enabled ? h.seg.d[b.seg].delta_q : 0)); memcpy(b.dlf, dlf, sizeof dlf);
    palette_tokens();
    blk_tx_size();
    if (b.skip) reset_ctx();
    blks.push_back(b); int id = (int)blks.size() - 1;
    int rr = std::min(miR, r + b.bh4), cc = std::min(miC, c + b.bw4);
    for (int y = r; y < rr; y++) for (int x = c; x < cc; x++) { grid[(size_t)y * miC + x] = id; segmap[(size_t)y * miC + x] = b.seg; }
    if (b.inter && b.mm == 2) local_warp();
    if (b.inter) blks[id] = b;
    predict_all();
    residual();
    blks[id] = b;
    st.inc("blocks");
}
void FrameCoder::reset_ctx() {
    for (int p = 0; p < (b.chroma ? 3 : 1); p++) {
        int sx = p ? ssx : 0, sy = p ? ssy : 0;
        for (int i = b.c >> sx; i <= (b.c + b.bw4 - 1) >> sx; i++) alv[p][i] = adc[p][i] = 0;
        for (int i = b.r >> sy; i <= (b.r + b.bh4 - 1) >> sy; i++) llv[p][i] = ldc[p][i] = 0;
    }
}

// ---- mode info ----
int FrameCoder::seg_pred_val(int &ctx) {
    int ul = -1, u = -1, l = -1;
    if (availU && availL) ul = segmap[(size_t)(b.r - 1) * miC + b.c - 1]; if (availU) u = segmap[(size_t)(b.r - 1) * miC + b.c]; if (availL) l = segmap[(size_t)b.r * miC + b.c - 1];
    ctx = ul < 0 ? 0 : (ul == u && ul == l) ? 2 : (ul == u || ul == l || u == l) ? 1 : 0;
    return u == -1 ? (l == -1 ? 0 : l) : l == -1 ? u : ul == u ? u : l;
}
static int neg_deint(int diff, int ref, int max) {
    if (!ref) return diff; if (ref >= max - 1) return max - diff - 1;
    if (2 * ref < max) { if (diff <= 2 * ref) return (diff & 1) ? ref + ((diff + 1) >> 1) : ref - (diff >> 1); return diff; }
    if (diff <= 2 * (max - ref - 1)) return (diff & 1) ? ref + ((diff + 1) >> 1) : ref - (diff >> 1);
    return max - (diff + 1);
}
void FrameCoder::read_seg(bool skip) {
    int ctx, pred = seg_pred_val(ctx);
    if (skip) { b.seg = pred; return; }
    int max = h.seg.last_active + 1; u16 *cd = &cdf.m.seg_id[ctx * 8];
    // only symbols that give an id in range without clipping
    u32 mask = 0; for (int v = 0; v < 8; v++) { int id = neg_deint(v, pred, max); if (id >= 0 && id < max) mask |= 1u << v; }
    if (!mask) mask = 1;
    int v = S(cd, 8, mask); b.seg = clip3(0, std::max(0, h.seg.last_active), neg_deint(v, pred, max)); if (max == 0) b.seg = 0;
}
int FrameCoder::get_seg() { if (!have_prevseg) return 0; int v = 7; for (int y = 0; y < b.bh4 && b.r + y < miR; y++) for (int x = 0; x < b.bw4 && b.c + x < miC; x++) v = std::min<int>(v, prevseg[(size_t)(b.r + y) * miC + b.c + x]); return v; }
void FrameCoder::inter_seg(bool pre) {
    if (!h.seg.enabled) { b.seg = 0; return; }
    int pred = get_seg(); if (!h.seg.update_map) { b.seg = pred; return; }
    if (pre && !h.seg.preskip) { b.seg = 0; return; }
    auto fill = [&](int v) { for (int i = 0; i < b.bw4; i++) asegp[b.c + i] = v; for (int i = 0; i < b.bh4; i++) lsegp[b.r + i] = v; };
    if (!pre && b.skip) { fill(0); read_seg(true); return; }
    if (h.seg.temporal) { int ctx = lsegp[b.r] + asegp[b.c]; bool v = SB(&cdf.m.seg_pred[ctx * 2], 50); if (v) b.seg = pred; else read_seg(false); fill(v); st.inc("seg_temporal"); }
    else read_seg(false);
}
void FrameCoder::cdef_syntax() {
    if (b.skip || h.coded_lossless || !s.cdef || h.intrabc) return;
    int r = b.r / 16, c = b.c / 16; if (cdefidx[r * cdefstride + c] != -1) return;
    int v = plain ? 0 : rng.below(1 << h.cdef.bits); lit(v, h.cdef.bits);
    for (int y = 0; y < (b.bh4 + 15) / 16; y++) for (int x = 0; x < (b.bw4 + 15) / 16; x++) if (c + x < cdefstride) cdefidx[(r + y) * cdefstride + c + x] = v;
}
void FrameCoder::deltas() {
    int sb = s.sb128 ? 32 : 16;
    if (!(b.bw4 == sb && b.bh4 == sb && b.skip) && readdeltas) {
        auto code = [&](u16 *cd, int v) { int a = abs(v); put(cd, 4, std::min(a, 3)); if (a >= 3) { int n = msb((u32)(a - 1)); lit(n - 1, 3); lit(a - 1 - (1 << n), n); } if (a) lit(v < 0, 1); };
        auto val = [&](int mx) { return plain || rng.pct(40) ? 0 : rng.pct(60) ? rng.range(-3, 3) : rng.range(-mx, mx); };
        int v = val(40); code(cdf.m.delta_q, v); if (v) curq = clip3(1, 255, curq + v * (1 << h.dq_res)); if (v) st.inc("deltaq");
        if (h.dlf_present) { int n = h.dlf_multi ? (np > 1 ? 4 : 2) : 1; for (int i = 0; i < n; i++) { int d = val(20); code(&cdf.m.delta_lf[(h.dlf_multi ? i + 1 : 0) * 4], d); dlf[i] = clip3(-63, 63, dlf[i] + d * (1 << h.dlf_res)); if (d) st.inc("deltalf"); } }
    }
    readdeltas = false;
}
bool FrameCoder::choose_skip() {
    if (h.seg.preskip && h.seg.enabled && h.seg.d[b.seg].skip) return true;
    int ctx = (A() ? A()->skip : 0) + (L() ? L()->skip : 0); u16 *cd = &cdf.m.skip[ctx * 2];
    bool v = plain ? true : pickb(cd, (int)k.skippct); put(cd, 2, v); return v;
}
void FrameCoder::intra_frame_info() {
    if (h.seg.enabled && h.seg.preskip) read_seg(false);
    b.skip = choose_skip();
    if (h.seg.enabled && !h.seg.preskip) read_seg(b.skip);
    b.lossless = h.lossless[b.seg];
    cdef_syntax(); deltas();
    b.ref[0] = 0; b.ref[1] = -1;
    if (h.intrabc) {
        Rng keep = rng; (void)keep; bool want = !plain && rng.pct(F(T_INTRABC) ? 85 : 50); Blk sv = b;
        if (want && assign_intrabc()) { st.inc("intrabc"); return; }
        b = sv; put(cdf.m.intrabc, 2, 0);
    }
    intra_modes(true);
}
void FrameCoder::uv_mode_info() {
    if (!b.chroma) return;
    bool cfl; if (b.lossless) { int x = resid_bs(b.bs, 1); cfl = bs_w4[x] == 1 && bs_h4[x] == 1; } else cfl = std::max(b.bw4, b.bh4) <= 8;
    u32 mask = 0x1fff; if (!T(T_DIRECTIONAL)) mask &= ~0x1fe; if (!T(T_SMOOTH)) mask &= ~0xe00; if (cfl && T(T_CFL)) mask |= 1 << 13;
    u16 *cd = &cdf.m.uv_mode[(cfl * 13 + b.ymode) * 16]; int n = cfl ? 14 : 13;
    if (cfl && !plain && T(T_CFL) && rng.pct(F(T_CFL) ? 70 : 15)) { b.uvmode = UV_CFL; put(cd, n, UV_CFL); } else b.uvmode = S(cd, n, mask);
    if (b.uvmode == UV_CFL) {
        int sg = S(cdf.m.cfl_sign, 8), su = (sg + 1) / 3, sv = (sg + 1) % 3;
        if (su) { int a = S(&cdf.m.cfl_alpha[((su - 1) * 3 + sv) * 16], 16); b.cfl[0] = su == 1 ? -1 - a : 1 + a; }
        if (sv) { int a = S(&cdf.m.cfl_alpha[((sv - 1) * 3 + su) * 16], 16); b.cfl[1] = sv == 1 ? -1 - a : 1 + a; }
        st.inc("cfl");
    }
    if (b.bw4 * b.bh4 >= 4 && b.uvmode >= V_PRED && b.uvmode <= D67_PRED) b.auv = S(&cdf.m.angle_delta[(b.uvmode - V_PRED) * 8], 7) - 3;
}
void FrameCoder::intra_modes(bool keyf) {
    u32 mask = 0x1fff; if (!T(T_DIRECTIONAL)) mask &= ~0x1fe; if (!T(T_SMOOTH)) mask &= ~0xe00;
    if (F(T_DIRECTIONAL) && rng.pct(60)) mask &= 0x1fe; if (F(T_SMOOTH) && rng.pct(60)) mask &= 0xe00; if (!mask) mask = 1;
    u16 *cd; if (keyf) { int a = A() ? A()->ymode : 0, l = L() ? L()->ymode : 0; cd = &cdf.kfym[(T_imctx[a] * 5 + T_imctx[l]) * 16]; } else cd = &cdf.m.y_mode[ymode_ctx[b.bs] * 16];
    bool wantdc = !plain && ((h.scc && T(T_PALETTE) && rng.pct(F(T_PALETTE) ? 60 : 25)) || (s.filter_intra && rng.pct(F(T_FILTERINTRA) ? 60 : 10)));
    if (wantdc) { b.ymode = DC_PRED; put(cd, 13, 0); } else b.ymode = S(cd, 13, mask);
    if (b.bw4 * b.bh4 >= 4 && b.ymode >= V_PRED && b.ymode <= D67_PRED) { b.ay = S(&cdf.m.angle_delta[(b.ymode - V_PRED) * 8], 7) - 3; st.inc("directional"); }
    uv_mode_info();
    if (b.bw4 * b.bh4 >= 4 && b.bw4 <= 16 && b.bh4 <= 16 && h.scc) palette_info();
    if (s.filter_intra && b.ymode == DC_PRED && !b.pal[0] && std::max(b.bw4, b.bh4) <= 8) {
        b.fi = SB(&cdf.m.use_filter_intra[b.bs * 2], F(T_FILTERINTRA) ? 90 : 50); if (b.fi) { b.fimode = S(cdf.m.filter_intra, 5); st.inc("filterintra"); }
    }
    st.inc("intrablk");
}
void FrameCoder::palette_info() {
    int bctx = ilog2(b.bw4) + ilog2(b.bh4) - 2; 
    auto cache = [&](int p, u16 *out) {
        const Blk *a = (b.r * 4) % 64 ? A() : nullptr, *l = L(); int an = a ? a->pal[p] : 0, ln = l ? l->pal[p] : 0, ai = 0, li = 0, n = 0;
        auto push = [&](u16 v) { if (n == 0 || v != out[n - 1]) out[n++] = v; };
        while (ai < an && li < ln) { u16 x = a->palc[p][ai], y = l->palc[p][li]; if (y < x) { push(y); li++; } else { push(x); ai++; if (x == y) li++; } }
        while (ai < an) push(a->palc[p][ai++]); while (li < ln) push(l->palc[p][li++]);
        return n;
    };
    auto colors = [&](int p, int n, u16 *out) { // Y (min step 1) or U (min step 0)
        u16 ch[16]; int cn = cache(p, ch), idx = 0;
        for (int i = 0; i < cn && idx < n; i++) { bool u = rng.pct(50); lit(u, 1); if (u) out[idx++] = ch[i]; }
        if (idx < n) {
            int m = n - idx, mx = 1 << bd, step = p == 0; u16 t[8];
            // m increasing colours; keep within range
            int span = rng.pct(40) ? std::min(mx - 1, m + rng.range(0, 40)) : mx - 1 - m; int b0 = rng.range(0, std::max(0, mx - 1 - span - m));
            for (int i = 0; i < m; i++) t[i] = b0 + (u16)rng.below(span + 1); std::sort(t, t + m);
            if (step) for (int i = 1; i < m; i++) if (t[i] <= t[i - 1]) t[i] = t[i - 1] + 1;
            if (t[m - 1] >= mx) { for (int i = 0; i < m; i++) t[i] = mx - m + i; }
            lit(t[0], bd); out[idx++] = t[0];
            if (m > 1) {
                int need = 0; for (int i = 1; i < m; i++) { int d = t[i] - t[i - 1] - step; while ((1 << need) <= d) need++; }
                int minb = bd - 3, extra = clip3(0, 3, need - minb); if (extra < 3 && rng.pct(20)) extra = rng.range(extra, 3); lit(extra, 2); int bits = minb + extra;
                for (int i = 1; i < m; i++) { int d = t[i] - t[i - 1] - step; if (d >= 1 << bits) die("palette delta"); lit(d, bits); out[idx++] = t[i]; int range = mx - t[i] - step; int cl = 0; if (range >= 2) { cl = 0; while ((1 << cl) < range) cl++; } bits = std::min(bits, cl); }
            }
        }
        std::sort(out, out + n);
    };
    if (b.ymode == DC_PRED) {
        int ctx = (A() && A()->pal[0] > 0) + (L() && L()->pal[0] > 0);
        if (SB(&cdf.m.pal_y[(bctx * 3 + ctx) * 2], T(T_PALETTE) ? (F(T_PALETTE) ? 85 : 45) : 0)) { b.pal[0] = 2 + S(&cdf.m.pal_sz[(0 * 7 + bctx) * 8], 7); colors(0, b.pal[0], b.palc[0]); st.inc("palette"); }
    }
    if (b.chroma && b.uvmode == DC_PRED) {
        if (SB(&cdf.m.pal_uv[(b.pal[0] > 0) * 2], T(T_PALETTE) ? (F(T_PALETTE) ? 85 : 45) : 0)) {
            b.pal[1] = 2 + S(&cdf.m.pal_sz[(7 + bctx) * 8], 7); int n = b.pal[1]; colors(1, n, b.palc[1]); u16 *v = b.palc[2]; int mx = 1 << bd;
            bool delta = rng.pct(50); lit(delta, 1);
            if (!delta) for (int i = 0; i < n; i++) { v[i] = rng.below(mx); lit(v[i], bd); }
            else {
                int minb = bd - 4, extra = rng.below(4), bits = minb + extra; lit(extra, 2); v[0] = rng.below(mx); lit(v[0], bd);
                for (int i = 1; i < n; i++) { int d = rng.pct(20) ? 0 : rng.below(1 << bits), sg = 0; lit(d, bits); if (d) { sg = rng.below(2); lit(sg, 1); if (sg) d = -d; } int val = v[i - 1] + d; if (val < 0) val += mx; if (val >= mx) val -= mx; v[i] = clip3(0, mx - 1, val); }
            }
            st.inc("paletteuv");
        }
    }
}
void FrameCoder::palette_tokens() {
    for (int pl = 0; pl < 2; pl++) {
        int n = b.pal[pl]; if (!n) continue;
        int sx = pl ? ssx : 0, sy = pl ? ssy : 0, bw = b.bw4 * 4, bh = b.bh4 * 4, ow = std::min(bw, (miC - b.c) * 4), oh = std::min(bh, (miR - b.r) * 4);
        bw >>= sx; bh >>= sy; ow >>= sx; oh >>= sy; if (bw < 4) { bw += 2; ow += 2; } if (bh < 4) { bh += 2; oh += 2; }
        u8 *m = cmap[pl]; auto M = [&](int y, int x) -> u8 & { return m[y * 64 + x]; };
        int style = rng.below(3);
        int v0 = plain ? 0 : rng.below(n); lit_ns(v0, n); M(0, 0) = v0;
        for (int i = 1; i < ow + oh - 1; i++) for (int j = std::min(i, ow - 1); j >= std::max(0, i - oh + 1); j--) {
            int r = i - j, c = j, score[8] = {}, order[8]; for (int t = 0; t < 8; t++) order[t] = t;
            if (c > 0) score[M(r, c - 1)] += 2; if (r > 0 && c > 0) score[M(r - 1, c - 1)] += 1; if (r > 0) score[M(r - 1, c)] += 2;
            for (int t = 0; t < 3; t++) { int mx = score[t], mi = t; for (int u = t + 1; u < n; u++) if (score[u] > mx) { mx = score[u]; mi = u; } if (mi != t) { int o = order[mi]; for (int u = mi; u > t; u--) { score[u] = score[u - 1]; order[u] = order[u - 1]; } score[t] = mx; order[t] = o; } }
            static const int mul[3] = {1, 2, 2}; int hash = 0; for (int t = 0; t < 3; t++) hash += score[t] * mul[t];
            static const int cx[9] = {-1, -1, 0, -1, -1, 4, 3, 2, 1}; int ctx = cx[hash];
            u16 *cd = &cdf.m.color_map[((pl * 7 + n - 2) * 5 + ctx) * 8];
            int sm = plain ? 0 : style == 0 ? (rng.pct(80) ? 0 : (int)rng.below(n)) : style == 1 ? (int)rng.below(n) : std::max(0, sampled(cd, n, ~0u));
            put(cd, n, sm); M(r, c) = order[sm];
        }
        for (int y = 0; y < oh; y++) for (int x = ow; x < bw; x++) M(y, x) = M(y, ow - 1);
        for (int y = oh; y < bh; y++) for (int x = 0; x < bw; x++) M(y, x) = M(oh - 1, x);
    }
}

// ---- transform sizes ----
int FrameCoder::above_txw(int r, int c) {
    if (r == b.r) { if (!availU) return 64; const Blk *a = at(r - 1, c); if (a->skip && a->inter) return a->bw4 * 4; }
    return tx_w[intertx[IX(r - 1, c)]];
}
int FrameCoder::left_txh(int r, int c) {
    if (c == b.c) { if (!availL) return 64; const Blk *a = at(r, c - 1); if (a->skip && a->inter) return a->bh4 * 4; }
    return tx_h[intertx[IX(r, c - 1)]];
}
void FrameCoder::var_tx(int r, int c, int tx, int depth) {
    if (r >= miR || c >= miC) return; bool split = false;
    if (tx != TX_4X4 && depth < 2) {
        int a = above_txw(r, c) < tx_w[tx], l = left_txh(r, c) < tx_h[tx], sz = std::min(64, std::max(b.bw4, b.bh4) * 4), mx = ilog2(sz) - 2;
        int ctx = (sqr_up(tx) != mx) * 3 + (4 - mx) * 6 + a + l;
        split = SB(&cdf.m.txpart[ctx * 2], T(T_TXSPLIT) ? 45 : 0);
    }
    int w4 = tx_w[tx] / 4, h4 = tx_h[tx] / 4;
    if (split) { int sub = split_tx[tx], sw = tx_w[sub] / 4, sh = tx_h[sub] / 4; st.inc("txsplit"); for (int y = 0; y < h4; y += sh) for (int x = 0; x < w4; x += sw) var_tx(r + y, c + x, sub, depth + 1); }
    else { for (int y = 0; y < h4; y++) for (int x = 0; x < w4; x++) intertx[IX(r + y, c + x)] = tx; b.tx = tx; }
}
void FrameCoder::tx_size(bool sel) {
    if (b.lossless) { b.tx = TX_4X4; return; }
    b.tx = max_rect_tx(b.bs); int mx = sqr_up(b.tx);
    if (b.bs != BS_4x4 && sel && h.tx_select) {
        int mw = tx_w[b.tx], mh = tx_h[b.tx], aw = 0, lh = 0; const Blk *a = A(), *l = L();
        if (a) aw = a->inter ? a->bw4 * 4 : above_txw(b.r, b.c); if (l) lh = l->inter ? l->bh4 * 4 : left_txh(b.r, b.c);
        int ctx = (a && aw >= mw) + (l && lh >= mh);
        int d = S(&cdf.m.txsz[((mx - 1) * 3 + ctx) * 4], mx == 1 ? 2 : 3, T(T_TXSPLIT) ? ~0u : 1u); for (int i = 0; i < d; i++) b.tx = split_tx[b.tx];
    }
}
void FrameCoder::blk_tx_size() {
    if (h.tx_select && b.bs != BS_4x4 && b.inter && !b.skip && !b.lossless) { int mx = max_rect_tx(b.bs), w4 = tx_w[mx] / 4, h4 = tx_h[mx] / 4; for (int r = b.r; r < b.r + b.bh4; r += h4) for (int c = b.c; c < b.c + b.bw4; c += w4) var_tx(r, c, mx, 0); }
    else { tx_size(!b.skip || !b.inter); for (int y = 0; y < b.bh4; y++) for (int x = 0; x < b.bw4; x++) if (b.c + x < miC + 32 && b.r + y < miR + 32) intertx[IX(b.r + y, b.c + x)] = b.tx; }
}

// ---- residual (5.11.34 ...) ----
int FrameCoder::uvtx(int p) { if (b.lossless) return TX_4X4; if (!p) return b.tx; int u = max_rect_tx(resid_bs(b.bs, p)); if (tx_w[u] == 64 || tx_h[u] == 64) { if (tx_w[u] == 16) return TX_16X32; if (tx_h[u] == 16) return TX_32X16; return TX_32X32; } return u; }
void FrameCoder::residual() {
    int wc = std::max(1, b.bw4 >> 4), hc = std::max(1, b.bh4 >> 4), cbs = wc > 1 || hc > 1 ? BS_64x64 : b.bs;
    for (int cy = 0; cy < hc; cy++) for (int cx = 0; cx < wc; cx++) {
        int mr = b.r + cy * 16, mc = b.c + cx * 16;
        for (int p = 0; p < (b.chroma ? 3 : 1); p++) {
            int tx = uvtx(p), sx = tx_w[tx] / 4, sy = tx_h[tx] / 4, ps = resid_bs(cbs, p), nw = bs_w4[ps], nh = bs_h4[ps], ssX = p ? ssx : 0, ssY = p ? ssy : 0;
            int bx = (mc >> ssX) * 4, by = (mr >> ssY) * 4;
            if (b.inter && !b.lossless && !p) tx_tree(bx, by, nw * 4, nh * 4);
            else { int x0 = (b.c >> ssX) * 4, y0 = (b.r >> ssY) * 4; for (int y = 0; y < nh; y += sy) for (int x = 0; x < nw; x += sx) tx_block(p, x0, y0, tx, x + ((cx << 4) >> ssX), y + ((cy << 4) >> ssY)); }
        }
    }
}
void FrameCoder::tx_tree(int x, int y, int w, int hh) {
    if (x >= miC * 4 || y >= miR * 4) return; int t = intertx[IX(y / 4, x / 4)], lw = tx_w[t], lh = tx_h[t];
    if (w <= lw && hh <= lh) tx_block(0, x, y, tx_from(w, hh), 0, 0);
    else if (w > hh) { tx_tree(x, y, w / 2, hh); tx_tree(x + w / 2, y, w / 2, hh); }
    else if (w < hh) { tx_tree(x, y, w, hh / 2); tx_tree(x, y + hh / 2, w, hh / 2); }
    else { tx_tree(x, y, w / 2, hh / 2); tx_tree(x + w / 2, y, w / 2, hh / 2); tx_tree(x, y + hh / 2, w / 2, hh / 2); tx_tree(x + w / 2, y + hh / 2, w / 2, hh / 2); }
}
void FrameCoder::tx_block(int p, int bx, int by, int tx, int x, int y) {
    int sx = bx + 4 * x, sy = by + 4 * y, X = p ? ssx : 0, Y = p ? ssy : 0, row = (sy << Y) >> 2, col = (sx << X) >> 2, mask = s.sb128 ? 31 : 15, sr = row & mask, sc = col & mask, stx = tx_w[tx] / 4, sty = tx_h[tx] / 4;
    if (sx >= (miC * 4) >> X || sy >= (miR * 4) >> Y) return;
    if (!b.inter) {
        if (b.pal[p > 0]) predict_palette(p, sx, sy, tx);
        else {
            bool cfl = p && b.uvmode == UV_CFL; int mode = p ? (cfl ? DC_PRED : b.uvmode) : b.ymode; if (!p && b.fi) mode = FILTER_PRED;
            predict_intra(p, sx, sy, (p ? availLC : availL) || x > 0, (p ? availUC : availU) || y > 0, blkdec[p][(sr >> Y)][(sc >> X) + stx + 1], blkdec[p][(sr >> Y) + sty + 1][(sc >> X)], mode, ilog2(tx_w[tx]), ilog2(tx_h[tx]), p ? b.auv : b.ay, &cur[p].at(sx, sy), cur[p].stride);
            if (cfl && b.cfl[p - 1]) predict_cfl(p, sx, sy, tx, b.cfl[p - 1]);
        }
        if (!p) { maxlw = sx + stx * 4; maxlh = sy + sty * 4; }
    }
    if (!b.skip) {
        int res[64 * 64]; int eob = coeffs(p, sx, sy, tx, res);
        if (eob > 0) {
            int w = tx_w[tx], hh = tx_h[tx], t = txtype[0]; (void)t; int mx = (1 << bd) - 1;
            for (int i = 0; i < hh; i++) for (int j = 0; j < w; j++) { u16 &d = cur[p].at(sx + j, sy + i); d = clip3(0, mx, d + res[i * w + j]); }
        }
    }
    for (int i = 0; i < sty; i++) for (int j = 0; j < stx; j++) { if ((size_t)((row >> Y) + i) < (size_t)miR + 32 && (col >> X) + j < miC + 32) lftx[p][IX((row >> Y) + i, (col >> X) + j)] = tx; int yy = (sr >> Y) + i + 1, xx = (sc >> X) + j + 1; if (yy < 35 && xx < 35) blkdec[p][yy][xx] = 1; }
}
int FrameCoder::tx_set(int tx, bool inter) {
    int q = sqr(tx), u = sqr_up(tx); if (u > 3) return 0;
    if (inter) return h.reduced_tx || u == 3 ? 3 : q == 2 ? 2 : 1;
    if (u == 3) return 0; return h.reduced_tx || q == 2 ? 2 : 1;
}
static const u8 intra1[7] = {IDTX, DCT_DCT, V_DCT, H_DCT, ADST_ADST, ADST_DCT, DCT_ADST}, intra2[5] = {IDTX, DCT_DCT, ADST_ADST, ADST_DCT, DCT_ADST};
static const u8 inter1[16] = {IDTX, V_DCT, H_DCT, V_ADST, H_ADST, V_FLIPADST, H_FLIPADST, DCT_DCT, ADST_DCT, DCT_ADST, FLIPADST_DCT, DCT_FLIPADST, ADST_ADST, FLIPADST_FLIPADST, ADST_FLIPADST, FLIPADST_ADST};
static const u8 inter2[12] = {IDTX, V_DCT, H_DCT, DCT_DCT, ADST_DCT, DCT_ADST, FLIPADST_DCT, DCT_FLIPADST, ADST_ADST, FLIPADST_FLIPADST, ADST_FLIPADST, FLIPADST_ADST}, inter3[2] = {IDTX, DCT_DCT};
static bool in_set(bool inter, int set, int type) {
    const u8 *t; int n; if (!set) return type == DCT_DCT;
    if (inter) { t = set == 1 ? inter1 : set == 2 ? inter2 : inter3; n = set == 1 ? 16 : set == 2 ? 12 : 2; } else { t = set == 1 ? intra1 : intra2; n = set == 1 ? 7 : 5; }
    for (int i = 0; i < n; i++) if (t[i] == type) return true; return false;
}
static const u8 mode2tx[14] = {DCT_DCT, ADST_DCT, DCT_ADST, DCT_DCT, ADST_ADST, ADST_DCT, DCT_ADST, DCT_ADST, ADST_DCT, ADST_ADST, ADST_DCT, DCT_ADST, ADST_ADST, DCT_DCT};
static int eobpt(int eob) { if (eob <= 2) return eob; return msb((u32)(eob - 1)) + 2; }

// Chooses and codes the coefficients of one transform block. res receives the residual with flips applied.
int FrameCoder::coeffs(int p, int x, int y, int tx, int *res) {
    int X = p ? ssx : 0, Y = p ? ssy : 0, x4 = x >> 2, y4 = y >> 2, w4 = tx_w[tx] / 4, h4 = tx_h[tx] / 4, W = tx_w[tx], H = tx_h[tx], cw = std::min(32, W), chh = std::min(32, H);
    int tsc = (sqr(tx) + sqr_up(tx) + 1) >> 1, pt = p > 0;
    int mx4 = p ? (miC + ssx) >> ssx : miC, my4 = p ? (miR + ssy) >> ssy : miR; (void)X; (void)Y;
    // all_zero context
    int ctx;
    {
        int ps = resid_bs(b.bs, p), bw = bs_w4[ps] * 4, bh = bs_h4[ps] * 4;
        if (!p) {
            int top = 0, left = 0; for (int i = 0; i < w4 && x4 + i < mx4; i++) top = std::max<int>(top, alv[p][x4 + i]); for (int i = 0; i < h4 && y4 + i < my4; i++) left = std::max<int>(left, llv[p][y4 + i]);
            if (bw == W && bh == H) ctx = 0; else if (!top && !left) ctx = 1; else if (!top || !left) ctx = 2 + (std::max(top, left) > 3); else if (std::max(top, left) <= 3) ctx = 4; else if (std::min(top, left) <= 3) ctx = 5; else ctx = 6;
        } else {
            int a = 0, l = 0; for (int i = 0; i < w4 && x4 + i < mx4; i++) a |= alv[p][x4 + i] | adc[p][x4 + i]; for (int i = 0; i < h4 && y4 + i < my4; i++) l |= llv[p][y4 + i] | ldc[p][y4 + i];
            ctx = 7 + (a != 0) + (l != 0); if (bw * bh > W * H) ctx += 3;
        }
    }
    u16 *zc = &cdf.c.skip[(tsc * 13 + ctx) * 2];
    // transform type
    int set = tx_set(tx, b.inter), type = DCT_DCT, txsym = -1; bool coded = false; u16 *tc = nullptr; int tn = 0; const u8 *tt = nullptr;
    if (!b.lossless && sqr_up(tx) <= 3) {
        if (!p) {
            int q = h.seg.enabled ? h.qidx[b.seg] : h.q.yac;
            if (set && q > 0) {
                int mn = sqr(tx); coded = true;
                if (b.inter) { if (set == 1) { tc = &cdf.m.txtp_inter1[mn * 16]; tn = 16; tt = inter1; } else if (set == 2) { tc = cdf.m.txtp_inter2; tn = 12; tt = inter2; } else { tc = &cdf.m.txtp_inter3[mn * 2]; tn = 2; tt = inter3; } }
                else { static const u8 fim[5] = {DC_PRED, V_PRED, H_PRED, D157_PRED, DC_PRED}; int m = b.fi ? fim[b.fimode] : b.ymode; if (set == 1) { tc = &cdf.m.txtp_intra1[(mn * 13 + m) * 8]; tn = 7; tt = intra1; } else { tc = &cdf.m.txtp_intra2[(mn * 13 + m) * 8]; tn = 5; tt = intra2; } }
                u32 mask = ~0u; if (!T(T_NONDCT)) { mask = 0; for (int i = 0; i < tn; i++) if (tt[i] == DCT_DCT) mask = 1u << i; }
                txsym = plain ? (b.inter ? (set == 1 ? 7 : set == 2 ? 3 : 1) : 1) : pick(tc, tn, mask); type = tt[txsym];
            }
        } else {
            if (b.inter) { int lx = std::max(b.c, x4 << ssx), ly = std::max(b.r, y4 << ssy); type = txtype[IX(ly, lx)]; } else type = mode2tx[b.uvmode];
            if (!in_set(b.inter, set, type)) type = DCT_DCT;
        }
    }
    bool nz = !plain && (rng.pct((int)k.cdfpct / 4) ? sampled(zc, 2, 3) == 0 : rng.pct((int)k.coefpct));
    int n = cw * chh, cls = type == V_DCT || type == V_ADST || type == V_FLIPADST ? 1 : type == H_DCT || type == H_ADST || type == H_FLIPADST ? 2 : 0; // 1 vertical 2 horizontal
    std::vector<int> lev; int eob = 0; std::vector<int> co;
    std::vector<int> scan(n);
    if (nz) {
        if (cls == 1) for (int i = 0; i < n; i++) scan[i] = i; // rows first
        else if (cls == 2) for (int i = 0; i < n; i++) scan[i] = (i % chh) * cw + i / chh;
        else {
            static const u16 *const tb[19] = {T_scan0, T_scan1, T_scan2, T_scan3, T_scan3, T_scan5, T_scan6, T_scan7, T_scan8, T_scan9, T_scan10, T_scan3, T_scan3, T_scan13, T_scan14, T_scan15, T_scan16, T_scan9, T_scan10};
            for (int i = 0; i < n; i++) { int rc = tb[tx][i]; scan[i] = (rc % chh) * cw + rc / chh; }
        }
        int cap = std::max(1, std::min<int>(n, (int)k.coefcap));
        int mode = rng.below(10); eob = mode < 3 ? 1 + (int)rng.below(std::min(cap, 3)) : mode < 7 ? 1 + (int)rng.below(std::min(cap, 16)) : 1 + (int)rng.below(cap); if (mode == 9 && rng.pct(30)) eob = cap;
        co.assign(n, 0); int dens = rng.pct(40) ? 90 : rng.range(5, 80), mag = (int)k.coefmag; bool big = T(T_BIGCOEF) && rng.pct(F(T_BIGCOEF) ? 25 : 3);
        for (int i = 0; i < eob; i++) {
            if (i < eob - 1 && !rng.pct(dens)) continue;
            int v = 1; while (v < 20 && rng.pct(30 + std::min(60, mag * 6)) ) v++; if (big && rng.pct(25)) v = 1 << rng.range(3, rng.pct(20) ? 19 : 12), v += rng.below(v);
            co[scan[i]] = rng.below(2) ? v : -v;
        }
        // dequantise and check that the transform stays in range
        int qy = b.qidx; auto dqv = [&](int q, int ac) { return (int)T_dq[((s.hbd)*256 + clip3(0, 255, q)) * 2 + ac]; };
        int dc = dqv(qy + (p == 0 ? h.q.ydc : p == 1 ? h.q.udc : h.q.vdc), 0), ac = dqv(qy + (p == 0 ? 0 : p == 1 ? h.q.uac : h.q.vac), 1);
        int lvl = !b.lossless && h.q.qm ? (p == 0 ? h.q.qmy : p == 1 ? h.q.qmu : h.q.qmv) : 15;
        static const u8 *const qt[19] = {T_qm0, T_qm1, T_qm2, T_qm3, nullptr, T_qm5, T_qm6, T_qm7, T_qm8, T_qm9, T_qm10, nullptr, nullptr, T_qm13, T_qm14, T_qm15, T_qm16, nullptr, nullptr};
        const u8 *qm = nullptr; int qtx = tx; if (tx == TX_64X64 || tx == TX_32X64 || tx == TX_64X32) qtx = TX_32X32; else if (tx == TX_16X64) qtx = TX_16X32; else if (tx == TX_64X16) qtx = TX_32X16;
        if (lvl < 15 && type < IDTX) qm = qt[qtx] + (size_t)(lvl * 2 + (p > 0)) * n;
        int shift = (W * H > 256) + (W * H > 1024);
        bool good = false;
        for (int t = 0; t < 8 && !good; t++) {
            memset(res, 0, sizeof(int) * W * H);
            for (int i = 0; i < n; i++) if (co[i]) {
                i64 q = i ? ac : dc; if (qm) q = (q * qm[(i % cw) * chh + i / cw] + 16) >> 5; i64 a = std::min(abs(co[i]), 0xFFFFF);
                i64 d = (a * q) & 0xFFFFFF; d >>= shift; if (co[i] < 0) d = -d; i64 lim = 1ll << (bd + 7); d = d < -lim ? -lim : d > lim - 1 ? lim - 1 : d;
                res[(i / cw) * W + i % cw] = (int)d;
            }
            good = inv_txfm(res, tx, type, b.lossless, bd);
            if (!good) { for (int &v : co) if (v) { int a = abs(v); a = a > 1 ? (t > 3 ? 1 : a / 4 + 1) : 1; if (t > 2 && rng.pct(60)) a = 0; v = v < 0 ? -a : a; } if (co[scan[eob - 1]] == 0) co[scan[eob - 1]] = 1; st.inc("coef_retry"); }
        }
        if (!good) nz = false;
        if (nz && (tx_flip_v[type] || tx_flip_h[type])) {
            std::vector<int> t(res, res + W * H); for (int i = 0; i < H; i++) for (int j = 0; j < W; j++) res[i * W + j] = t[(tx_flip_v[type] ? H - 1 - i : i) * W + (tx_flip_h[type] ? W - 1 - j : j)];
        }
    }
    put(zc, 2, !nz);
    int cul = 0, dcc = 0;
    if (!nz) { if (!p) for (int i = 0; i < h4; i++) for (int j = 0; j < w4; j++) txtype[IX(y4 + i, x4 + j)] = DCT_DCT; eob = 0; }
    else {
        if (!p) { if (coded) put(tc, tn, txsym); for (int i = 0; i < h4; i++) for (int j = 0; j < w4; j++) txtype[IX(y4 + i, x4 + j)] = type; }
        int ms = ilog2(cw) + ilog2(chh) - 4, ept = eobpt(eob), c1 = cls ? 1 : 0;
        u16 *ec; int en; 
        switch (ms) { case 0: ec = &cdf.c.eob_bin_16[(pt * 2 + c1) * 8]; en = 5; break; case 1: ec = &cdf.c.eob_bin_32[(pt * 2 + c1) * 8]; en = 6; break; case 2: ec = &cdf.c.eob_bin_64[(pt * 2 + c1) * 8]; en = 7; break; case 3: ec = &cdf.c.eob_bin_128[(pt * 2 + c1) * 8]; en = 8; break; case 4: ec = &cdf.c.eob_bin_256[(pt * 2 + c1) * 16]; en = 9; break; case 5: ec = &cdf.c.eob_bin_512[pt * 16]; en = 10; break; default: ec = &cdf.c.eob_bin_1024[pt * 16]; en = 11; }
        put(ec, en, ept - 1);
        if (ept >= 3) { int e = eob - ((1 << (ept - 2)) + 1), sh = ept - 3; put(&cdf.c.eob_hi_bit[((tsc * 2 + pt) * 11 + ept - 1) * 2], 2, (e >> sh) & 1); for (int i = sh - 1; i >= 0; i--) lit((e >> i) & 1, 1); }
        std::vector<int> lv((size_t)(cw + 5) * (chh + 5), 0); auto LV = [&](int r, int c) -> int & { return lv[(size_t)r * (cw + 5) + c]; };
        int tcl = W == H ? 0 : W > H ? 1 : 2;
        for (int c = eob - 1; c >= 0; c--) {
            int pos = scan[c], r = pos / cw, cc = pos % cw, v = abs(co[pos]), l = std::min(v, 15);
            if (c == eob - 1) {
                int cx = c == 0 ? 0 : c <= n / 8 ? 1 : c <= n / 4 ? 2 : 3; put(&cdf.c.eob_base_tok[((tsc * 2 + pt) * 4 + cx) * 4], 3, std::min(l, 3) - 1);
            } else {
                int mag = 0, cx; auto m3 = [&](int a, int bb) { return std::min(LV(r + a, cc + bb), 3); };
                if (cls == 0) mag = m3(0, 1) + m3(1, 0) + m3(1, 1) + m3(0, 2) + m3(2, 0); else if (cls == 2) mag = m3(0, 1) + m3(1, 0) + m3(0, 2) + m3(0, 3) + m3(0, 4); else mag = m3(1, 0) + m3(0, 1) + m3(2, 0) + m3(3, 0) + m3(4, 0);
                cx = std::min((mag + 1) >> 1, 4);
                if (cls == 0) cx = r == 0 && cc == 0 ? 0 : cx + T_loctx[tcl * 25 + std::min(r, 4) * 5 + std::min(cc, 4)];
                else { static const int ad[3] = {26, 31, 36}; cx += ad[std::min(cls == 1 ? r : cc, 2)]; }
                put(&cdf.c.base_tok[((tsc * 2 + pt) * 41 + cx) * 4], 4, std::min(l, 3));
            }
            if (l > 2) {
                auto m15 = [&](int a, int bb) { return std::min(LV(r + a, cc + bb), 15); };
                int mag = cls == 0 ? m15(0, 1) + m15(1, 0) + m15(1, 1) : cls == 2 ? m15(0, 1) + m15(1, 0) + m15(0, 2) : m15(0, 1) + m15(1, 0) + m15(2, 0);
                mag = std::min((mag + 1) >> 1, 6); int cx;
                if (pos == 0) cx = mag; else if (cls == 0) cx = r < 2 && cc < 2 ? mag + 7 : mag + 14; else if (cls == 2) cx = cc == 0 ? mag + 7 : mag + 14; else cx = r == 0 ? mag + 7 : mag + 14;
                int rem = l - 3; u16 *bc = &cdf.c.br_tok[((std::min(tsc, 3) * 2 + pt) * 21 + cx) * 4];
                for (int i = 0; i < 4; i++) { int t = std::min(rem, 3); put(bc, 4, t); rem -= t; if (t < 3) break; }
            }
            LV(r, cc) = l;
        }
        for (int c = 0; c < eob; c++) {
            int pos = scan[c], v = co[pos]; if (!v) continue; int a = std::min(abs(v), 0xFFFFF), sg = v < 0;
            if (c == 0) {
                int d = 0; for (int i = 0; i < w4 && x4 + i < mx4; i++) d += adc[p][x4 + i] == 1 ? -1 : adc[p][x4 + i] == 2 ? 1 : 0; for (int i = 0; i < h4 && y4 + i < my4; i++) d += ldc[p][y4 + i] == 1 ? -1 : ldc[p][y4 + i] == 2 ? 1 : 0;
                int cx = d < 0 ? 1 : d > 0 ? 2 : 0; put(&cdf.c.dc_sign[(pt * 3 + cx) * 2], 2, sg); 
            } else lit(sg, 1);
            if (a > 14) { u32 g = (u32)(a - 15) + 1; int l = msb(g); for (int i = 0; i < l; i++) lit(0, 1); for (int i = l; i >= 0; i--) lit((g >> i) & 1, 1); st.inc("golomb"); }
            if (pos == 0) dcc = sg ? 1 : 2;
            cul += a; if (cul > 1 << 24) cul = 1 << 24;
        }
        cul = std::min(cul, 63); st.inc("txblocks"); if (type != DCT_DCT) st.inc("txnondct"); if (eob > 1) st.inc("multicoef");
    }
    for (int i = 0; i < w4; i++) { alv[p][x4 + i] = cul; adc[p][x4 + i] = dcc; } for (int i = 0; i < h4; i++) { llv[p][y4 + i] = cul; ldc[p][y4 + i] = dcc; }
    return eob;
}

// ---- whole frame ----
void FrameCoder::run(RefFrame &o, std::vector<std::vector<u8>> &tiles) {
    const RefFrame *prim = h.primary_ref == 7 ? nullptr : &refs[h.refidx[h.primary_ref]];
    if (prim) { if (!prim->cdf) die("no cdf"); base = *prim->cdf; } else cdfs_init_default(base, h.q.yac);
    if (h.seg.enabled && prim && prim->segmap && prim->mi_cols == miC && prim->mi_rows == miR) { prevseg = *prim->segmap; have_prevseg = true; }
    if (!h.intra()) for (int i = 1; i < 8; i++) {
        rf[i] = &refs[h.refidx[i - 1]]; int rw = rf[i]->hdr.upscaled_w, rh = rf[i]->hdr.h;
        xs[i] = ((rw << 14) + h.w / 2) / h.w; ys[i] = ((rh << 14) + h.h / 2) / h.h; scaled[i] = xs[i] != 1 << 14 || ys[i] != 1 << 14; if (scaled[i]) st.inc("scaledref");
    }
    if (h.use_ref_mvs) motion_field();
    for (int p = 0; p < np; p++) {
        if (!h.lr.type[p]) continue; int us = 1 << h.lr.size[p], w = p ? (h.upscaled_w + ssx) >> ssx : h.upscaled_w, hh = p ? (h.h + ssy) >> ssy : h.h;
        lrcols[p] = std::max((w + (us >> 1)) / us, 1); lrrows[p] = std::max((hh + (us >> 1)) / us, 1); lru[p].assign((size_t)lrcols[p] * lrrows[p], LrUnit());
    }
    int nt = h.tile.cols * h.tile.rows; tiles.clear();
    for (int i = 0; i < nt; i++) {
        tile(i); auto d = enc.done(); if (d.empty()) d.push_back(0); tiles.push_back(d);
        if (i == h.tile.update) saved = cdf;
    }
    if (!h.refresh_ctx) saved = base; cdfs_clear_counters(saved);
    // in-loop filters (7.14 - 7.17)
    if ((mo.filters & 1) && (h.lf.level[0] || h.lf.level[1])) deblock();
    auto crop = [&](Plane *pl, int fw) { Plane o2; (void)pl; (void)fw; return o2; }; (void)crop;
    Plane cd[3]; for (int p = 0; p < np; p++) cd[p] = cur[p];
    bool docdef = (mo.filters & 2) && s.cdef && !h.coded_lossless && !h.intrabc;
    if (docdef) cdef(cur, cd);
    Plane up[3], upd[3]; Plane *fin = cd, *deb = cur;
    if (h.use_superres) { superres(cd, up); superres(cur, upd); fin = up; deb = upd; }
    Plane lrp[3]; bool dolr = (mo.filters & 4) && (h.lr.type[0] || h.lr.type[1] || h.lr.type[2]);
    if (dolr) { for (int p = 0; p < np; p++) lrp[p] = fin[p]; loop_restore(deb, fin, lrp); fin = lrp; }
    auto pic = std::make_shared<Picture>(); pic->np = np; pic->bpc = bd; pic->ssx = ssx; pic->ssy = ssy;
    for (int p = 0; p < np; p++) { int w = p ? (h.upscaled_w + ssx) >> ssx : h.upscaled_w, hh = p ? (h.h + ssy) >> ssy : h.h; pic->p[p].init(w, hh); for (int y = 0; y < hh; y++) memcpy(&pic->p[p].at(0, y), &fin[p].at(0, y), w * 2); }
    o.pic = pic; o.cdf = std::make_shared<Cdfs>(saved); o.mi_cols = miC; o.mi_rows = miR;
    if (h.seg.enabled && !h.seg.update_map) { if (have_prevseg) segmap = prevseg; else std::fill(segmap.begin(), segmap.end(), 0); }
    if (!h.seg.enabled) std::fill(segmap.begin(), segmap.end(), 0);
    o.segmap = std::make_shared<std::vector<u8>>(segmap);
    for (int i = 1; i < 8; i++) { o.saved_order_hints[i] = h.order_hints[i]; o.gm[i] = h.gm[i]; }
    o.lfd = h.lf.d; for (int i = 0; i < 8; i++) o.segd[i] = h.seg.d[i]; o.seg = h.seg;
    save_motion(o);
}
void code_frame(const Knobs &k, const ModelOpts &mo, u64 seed, const SeqHdr &s, FrameHdr &h, const RefFrame *refs, RefFrame &rf, std::vector<std::vector<u8>> &tiles, Stats &st) {
    auto fc = std::make_unique<FrameCoder>(k, mo, seed, s, h, refs, st); fc->run(rf, tiles);
}
} // namespace av1m
