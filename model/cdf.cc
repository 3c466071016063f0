// Default probability tables and the symbol encoder (inverse of 8.2).
#include "av1m_int.h"
#include "tables.inc"
namespace av1m {
void cdfs_init_coef(Cdfs &c, int qidx) {
    int q = qidx <= 20 ? 0 : qidx <= 60 ? 1 : qidx <= 120 ? 2 : 3;
#define F(n, cnt) { const u16 *t = q == 0 ? D_coef0_##n : q == 1 ? D_coef1_##n : q == 2 ? D_coef2_##n : D_coef3_##n; static_assert(sizeof D_coef0_##n == sizeof c.c.n, #n); memcpy(c.c.n, t, sizeof c.c.n); }
    COEF_CDFS(F)
#undef F
}
void cdfs_init_default(Cdfs &c, int qidx) {
    memset(&c, 0, sizeof c);
#define F(n, cnt) static_assert(sizeof D_m_##n == sizeof c.m.n, #n); memcpy(c.m.n, D_m_##n, sizeof c.m.n);
    MODE_CDFS(F)
#undef F
    for (int i = 0; i < 2; i++) {
        for (int j = 0; j < 2; j++) {
#define F(n, cnt) memcpy(c.mv[i][j].n, D_mv_##n, sizeof c.mv[i][j].n);
            MV_CDFS(F)
#undef F
        }
        memcpy(c.joint[i], D_mv_joint, sizeof c.joint[i]);
    }
    memcpy(c.kfym, D_kfym, sizeof c.kfym);
    cdfs_init_coef(c, qidx);
}
// number of symbols of each table, for locating the counters
static void clr(u16 *p, int n, int stride, int nsym) { for (int i = 0; i + stride <= n; i += stride) p[i + nsym - 1] = 0; }
void cdfs_clear_counters(Cdfs &c) {
    auto &m = c.m;
#define A(f, stride, n) clr(m.f, (int)(sizeof m.f / 2), stride, n)
    clr(m.uv_mode, 13 * 16, 16, 13); clr(m.uv_mode + 13 * 16, 13 * 16, 16, 14);
    clr(m.partition, 4 * 16, 16, 8); clr(m.partition + 64, 3 * 64, 16, 10); clr(m.partition + 256, 64, 16, 4);
    A(cfl_alpha, 16, 16); A(txtp_inter1, 16, 16); A(txtp_inter2, 16, 12); A(txtp_intra1, 8, 7); A(txtp_intra2, 8, 5); A(cfl_sign, 8, 8); A(angle_delta, 8, 7); A(filter_intra, 8, 5); A(seg_id, 8, 8); A(pal_sz, 8, 7);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 7; j++) clr(m.color_map + (i * 7 + j) * 40, 40, 8, j + 2);
    clr(m.txsz, 12, 4, 2); clr(m.txsz + 12, 36, 4, 3);
    A(delta_q, 4, 4); A(delta_lf, 4, 4); A(restore_switchable, 4, 3); A(restore_wiener, 2, 2); A(restore_sgrproj, 2, 2); A(txtp_inter3, 2, 2); A(use_filter_intra, 2, 2); A(txpart, 2, 2); A(skip, 2, 2); A(pal_y, 2, 2); A(pal_uv, 2, 2); A(intrabc, 2, 2);
    A(y_mode, 16, 13); A(wedge_idx, 16, 16); A(comp_inter_mode, 8, 8); A(filter, 4, 3); A(interintra_mode, 4, 4); A(motion_mode, 4, 3); A(skip_mode, 2, 2); A(newmv_mode, 2, 2); A(globalmv_mode, 2, 2); A(refmv_mode, 2, 2); A(drl_bit, 2, 2); A(intra, 2, 2); A(comp, 2, 2); A(comp_dir, 2, 2); A(jnt_comp, 2, 2); A(mask_comp, 2, 2); A(wedge_comp, 2, 2); A(ref, 2, 2); A(comp_fwd_ref, 2, 2); A(comp_bwd_ref, 2, 2); A(comp_uni_ref, 2, 2); A(seg_pred, 2, 2); A(interintra, 2, 2); A(interintra_wedge, 2, 2); A(obmc, 2, 2);
#undef A
#define A(f, stride, n) clr(c.c.f, (int)(sizeof c.c.f / 2), stride, n)
    A(eob_bin_16, 8, 5); A(eob_bin_32, 8, 6); A(eob_bin_64, 8, 7); A(eob_bin_128, 8, 8); A(eob_bin_256, 16, 9); A(eob_bin_512, 16, 10); A(eob_bin_1024, 16, 11); A(eob_base_tok, 4, 3); A(base_tok, 4, 4); A(br_tok, 4, 4); A(eob_hi_bit, 2, 2); A(skip, 2, 2); A(dc_sign, 2, 2);
#undef A
    for (auto &x : c.mv) for (auto &v : x) { v.classes[10] = 0; v.sign[1] = 0; v.class0[1] = 0; v.class0_fp[3] = v.class0_fp[7] = 0; v.class0_hp[1] = 0; clr(v.classN, 20, 2, 2); v.classN_fp[3] = 0; v.classN_hp[1] = 0; }
    c.joint[0][3] = c.joint[1][3] = 0;
    clr(c.kfym, 400, 16, 13);
}

void RangeEnc::norm(u64 l, u32 r) {
    int c = cnt, d = 15 - msb(r), s = c + d;
    if (s >= 0) {
        c += 16; u64 m = (1ull << c) - 1;
        if (s >= 8) { pre.push_back((u16)(l >> c)); l &= m; c -= 8; m >>= 8; }
        pre.push_back((u16)(l >> c)); s = c + d - 24; l &= m;
    }
    low = l << d; rng = r << d; cnt = s;
}
void RangeEnc::sym(int s, const u16 *icdf, int n) {
    u32 fl = s > 0 ? icdf[s - 1] : 32768, fh = s < n - 1 ? icdf[s] : 0; u32 r = rng; u64 l = low; int N = n - 1;
    u32 v = s < N ? ((r >> 8) * (fh >> 6) >> 1) + 4 * (N - s) : 0;
    if (fl < 32768) { u32 u = ((r >> 8) * (fl >> 6) >> 1) + 4 * (N - (s - 1)); l += r - u; r = u - v; } else r -= v;
    norm(l, r);
}
void RangeEnc::bit_equi(int b) { static const u16 half[2] = {16384, 0}; sym(b, half, 2); }
std::vector<u8> RangeEnc::done() {
    u64 l = low; int c = cnt, s = 10; u64 m = 0x3FFF, e = ((l + m) & ~m) | (m + 1); s += c; auto p = pre;
    if (s > 0) { u64 n = (1ull << (c + 16)) - 1; do { p.push_back((u16)(e >> (c + 16))); e &= n; s -= 8; c -= 8; n >>= 8; } while (s > 0); }
    std::vector<u8> out(p.size()); u32 carry = 0; for (size_t i = p.size(); i--;) { carry += p[i]; out[i] = (u8)carry; carry >>= 8; }
    return out;
}
} // namespace av1m
