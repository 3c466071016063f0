#pragma once
#include "av1m.h"
#include <unistd.h>
namespace av1m {
void write_frame_hdr(BitWriter &w, const SeqHdr &s, const FrameHdr &h, const RefFrame *ref);

// CDFs are kept as in the bitstream coder: 32768 - cumulative probability, N-1 entries followed by an adaptation counter.
struct Cdfs {
#define MODE_CDFS(F) \
 F(uv_mode,2*13*16) F(partition,5*4*16) F(cfl_alpha,6*16) F(txtp_inter1,2*16) F(txtp_inter2,16) F(txtp_intra1,2*13*8) F(txtp_intra2,3*13*8) F(cfl_sign,8) F(angle_delta,8*8) F(filter_intra,8) \
 F(seg_id,3*8) F(pal_sz,2*7*8) F(color_map,2*7*5*8) F(txsz,4*3*4) F(delta_q,4) F(delta_lf,5*4) F(restore_switchable,4) F(restore_wiener,2) F(restore_sgrproj,2) F(txtp_inter3,4*2) F(use_filter_intra,22*2) \
 F(txpart,7*3*2) F(skip,3*2) F(pal_y,7*3*2) F(pal_uv,2*2) F(intrabc,2) F(y_mode,4*16) F(wedge_idx,9*16) F(comp_inter_mode,8*8) F(filter,2*8*4) F(interintra_mode,4*4) F(motion_mode,22*4) F(skip_mode,3*2) \
 F(newmv_mode,6*2) F(globalmv_mode,2*2) F(refmv_mode,6*2) F(drl_bit,3*2) F(intra,4*2) F(comp,5*2) F(comp_dir,5*2) F(jnt_comp,6*2) F(mask_comp,6*2) F(wedge_comp,9*2) F(ref,6*3*2) F(comp_fwd_ref,3*3*2) \
 F(comp_bwd_ref,2*3*2) F(comp_uni_ref,3*3*2) F(seg_pred,3*2) F(interintra,7*2) F(interintra_wedge,7*2) F(obmc,22*2)
#define COEF_CDFS(F) F(eob_bin_16,2*2*8) F(eob_bin_32,2*2*8) F(eob_bin_64,2*2*8) F(eob_bin_128,2*2*8) F(eob_bin_256,2*2*16) F(eob_bin_512,2*16) F(eob_bin_1024,2*16) F(eob_base_tok,5*2*4*4) F(base_tok,5*2*41*4) \
 F(br_tok,4*2*21*4) F(eob_hi_bit,5*2*11*2) F(skip,5*13*2) F(dc_sign,2*3*2)
#define MV_CDFS(F) F(classes,16) F(sign,2) F(class0,2) F(class0_fp,2*4) F(class0_hp,2) F(classN,10*2) F(classN_fp,4) F(classN_hp,2)
    struct M {
#define F(n, c) u16 n[c];
        MODE_CDFS(F)
    } m;
    struct C { COEF_CDFS(F) } c;
    struct V { MV_CDFS(F) } mv[2][2]; // [intrabc][comp]  (MvCtx)
    u16 joint[2][4];
    u16 kfym[5 * 5 * 16];
#undef F
};
void cdfs_init_default(Cdfs &c, int qidx);
void cdfs_init_coef(Cdfs &c, int qidx);
void cdfs_clear_counters(Cdfs &c); // exit process for symbol decoder / load_previous: counters zeroed

struct RangeEnc {
    std::vector<u16> pre; u64 low = 0; u32 rng = 0x8000; int cnt = -9;
    void norm(u64 l, u32 r);
    void sym(int s, const u16 *icdf, int n); // icdf as above
    void bit_equi(int b);
    std::vector<u8> done();
};

struct GenOut { std::vector<std::vector<u8>> tiles; };
// Codes one frame: chooses every symbol, reconstructs, filters; fills rf (the state saved for reference).
void code_frame(const Knobs &k, const ModelOpts &mo, u64 seed, const SeqHdr &s, FrameHdr &h, const RefFrame *refs, RefFrame &rf, std::vector<std::vector<u8>> &tiles, Stats &st);

// mv prediction / motion vector helpers shared by files
static inline int clip3(int lo, int hi, int v) { return v < lo ? lo : v > hi ? hi : v; }
static inline int rnd2(int v, int n) { return n ? (v + (1 << (n - 1))) >> n : v; }
static inline i64 rnd2l(i64 v, int n) { return n ? (v + (1ll << (n - 1))) >> n : v; }
static inline int rnd2s(int v, int n) { return v >= 0 ? rnd2(v, n) : -rnd2(-v, n); }
static inline i64 rnd2sl(i64 v, int n) { return v >= 0 ? rnd2l(v, n) : -rnd2l(-v, n); }
static inline int msb(u32 x) { return 31 - __builtin_clz(x); }
static inline int rel_dist(const SeqHdr &s, int a, int b) { if (!s.order_hint) return 0; int d = a - b, m = 1 << (s.order_hint_n_bits - 1); return (d & (m - 1)) - (d & m); }
bool shear_params(const Gm &g, int out[4]); // warpValid
}
