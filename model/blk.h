// Frame level state of the model decoder / encoder.
#pragma once
#include "av1m_int.h"
namespace av1m {
extern const int tx_w[19], tx_h[19];
extern const u8 tx_flip_v[16], tx_flip_h[16];
bool inv_txfm(int *res, int tx, int type, bool lossless, int bd);

enum { DC_PRED, V_PRED, H_PRED, D45_PRED, D135_PRED, D113_PRED, D157_PRED, D203_PRED, D67_PRED, SMOOTH_PRED, SMOOTH_V_PRED, SMOOTH_H_PRED, PAETH_PRED, UV_CFL, FILTER_PRED };
enum { NEARESTMV = 13, NEARMV, GLOBALMV, NEWMV, NEAREST_NEARESTMV, NEAR_NEARMV, NEAREST_NEWMV, NEW_NEARESTMV, NEAR_NEWMV, NEW_NEARMV, GLOBAL_GLOBALMV, NEW_NEWMV };
enum { TX_4X4, TX_8X8, TX_16X16, TX_32X32, TX_64X64, TX_4X8, TX_8X4, TX_8X16, TX_16X8, TX_16X32, TX_32X16, TX_32X64, TX_64X32, TX_4X16, TX_16X4, TX_8X32, TX_32X8, TX_16X64, TX_64X16 };
enum { DCT_DCT, ADST_DCT, DCT_ADST, ADST_ADST, FLIPADST_DCT, DCT_FLIPADST, FLIPADST_FLIPADST, ADST_FLIPADST, FLIPADST_ADST, IDTX, V_DCT, H_DCT, V_ADST, H_ADST, V_FLIPADST, H_FLIPADST };
// block sizes, largest first
enum { BS_128x128, BS_128x64, BS_64x128, BS_64x64, BS_64x32, BS_64x16, BS_32x64, BS_32x32, BS_32x16, BS_32x8, BS_16x64, BS_16x32, BS_16x16, BS_16x8, BS_16x4, BS_8x32, BS_8x16, BS_8x8, BS_8x4, BS_4x16, BS_4x8, BS_4x4, N_BS };
extern const u8 bs_w4[N_BS], bs_h4[N_BS];
int bs_from(int w4, int h4);
int tx_from(int w, int h);
static inline int ilog2(int v) { return msb((u32)v); }
enum { COMP_AVG, COMP_DIST, COMP_DIFF, COMP_WEDGE, COMP_INTRA };

struct Blk {
    int r = 0, c = 0, bs = 0, bw4 = 0, bh4 = 0; bool chroma = false; int seg = 0; bool skip = false, skip_mode = false, inter = false, intrabc = false;
    int ymode = 0, uvmode = 0, ay = 0, auv = 0, cfl[2] = {0, 0}; bool fi = false; int fimode = 0; int pal[2] = {0, 0}; u16 palc[3][8] = {};
    int ref[2] = {0, -1}; Mv mv[2]; int interp[2] = {0, 0}; int mm = 0 /*0 simple 1 obmc 2 warp*/; bool ii = false; int iimode = 0; bool iiwedge = false; int wedge = 0, wsign = 0, masktype = 0;
    int comp_group = 0, compound_idx = 1, comp = COMP_AVG; bool lossless = false; int tx = 0; int qidx = 0; int dlf[4] = {0, 0, 0, 0};
    int nsamp = 0, nsampscan = 0; int cand[8][4]; bool localvalid = false; Gm local; bool segpred = false;
    bool has_newmv() const { return ymode == NEWMV || ymode == NEW_NEWMV || ymode == NEAR_NEWMV || ymode == NEW_NEARMV || ymode == NEAREST_NEWMV || ymode == NEW_NEARESTMV; }
    bool comp2() const { return ref[1] > 0; }
};
struct MvStack { int n = 0; Mv mv[10][2]; int w[10] = {}; Mv gmv[2]; int newmv_ctx = 0, refmv_ctx = 0, zeromv_ctx = 0, nnew = 0; };
struct LrUnit { int type = 0; int w[2][3] = {}; int set = 0, x[2] = {}; };
struct TMv { Mv mv; int8_t ref = 0; };

struct FrameCoder {
    const Knobs &k; const ModelOpts &mo; const SeqHdr &s; FrameHdr &h; const RefFrame *refs; Stats &st;
    u64 seed; int bd, np, ssx, ssy; int miR, miC;
    Plane cur[3];                          // frame being reconstructed, padded
    std::vector<Blk> blks; std::vector<int> grid;
    std::vector<u8> intertx, txtype, lftx[3], prevseg; std::vector<u8> segmap; bool have_prevseg = false;
    std::vector<int8_t> cdefidx;           // per 64x64
    int cdefstride = 0;
    std::vector<LrUnit> lru[3]; int lrcols[3] = {}, lrrows[3] = {};
    std::vector<std::vector<u8>> colormap; // scratch
    std::vector<TMv> tmv; bool have_tmv = false; // projected motion field (mv + distance), per 8x8
    std::vector<int8_t> tmvdist;
    const RefFrame *rf[8] = {};            // by reference name
    bool scaled[8] = {}; int xs[8], ys[8];  // scale factors
    Cdfs base, saved;
    // tile state
    int tr0, tr1, tc0, tc1; Cdfs cdf; RangeEnc enc; Rng rng; i64 nsym; bool plain;
    std::vector<u8> alv[3], adc[3], asegp, llv[3], ldc[3], lsegp; int curq, dlf[4]; bool readdeltas; int reflr[3][2][3], refsgr[3][2];
    u8 blkdec[3][35][35]; 
    // block state
    Blk b; bool availU, availL, availUC, availLC; int maxlw, maxlh; u8 cmap[2][64 * 64];

    FrameCoder(const Knobs &k_, const ModelOpts &m, u64 sd, const SeqHdr &s_, FrameHdr &h_, const RefFrame *r_, Stats &st_);
    void run(RefFrame &out, std::vector<std::vector<u8>> &tiles);
    bool T(int t) const { return (k.tools >> t) & 1; }
    bool F(int t) const { return (k.force >> t) & 1; }
    bool tp(int t, int pct) { bool v = rng.pct(F(t) ? 90 : pct); return T(t) && v; }
    const Blk *at(int r, int c) const { int g = grid[(size_t)r * miC + c]; return g < 0 ? nullptr : &blks[g]; }
    bool inside(int r, int c) const { return r >= tr0 && r < tr1 && c >= tc0 && c < tc1; }
    const Blk *A() const { return availU ? at(b.r - 1, b.c) : nullptr; }
    const Blk *L() const { return availL ? at(b.r, b.c - 1) : nullptr; }
    // symbols
    int sampled(const u16 *c, int n, u32 mask);
    int pick(const u16 *c, int n, u32 mask = ~0u); // freely chosen symbol
    bool pickb(const u16 *c, int pct);
    void put(u16 *c, int n, int v);
    int S(u16 *c, int n, u32 mask = ~0u) { int v = pick(c, n, mask); put(c, n, v); return v; }
    bool SB(u16 *c, int pct) { bool v = pickb(c, pct); put(c, 2, v); return v; }
    void lit(int v, int n);
    void lit_ns(int v, int n);
    void uniform_or(int) {}
    // syntax
    void tile(int n); void partition(int r, int c, int lvl); void block(int r, int c, int bs);
    void intra_frame_info(); void inter_frame_info(); void intra_modes(bool keyf); void inter_modes(); void uv_mode_info(); void palette_info(); void palette_tokens();
    void read_seg(bool usepred_only_if_skip); int seg_pred_val(int &ctx); void inter_seg(bool pre); int get_seg();
    void cdef_syntax(); void deltas(); bool choose_skip();
    void mv_residual(Mv &mv, const Mv &pred, bool ibc, int comp); void put_mv_comp(int ctx, int comp, int d, bool ibc);
    bool assign_intrabc();
    void blk_tx_size(); void var_tx(int r, int c, int tx, int depth); void tx_size(bool sel);
    int above_txw(int r, int c); int left_txh(int r, int c);
    void residual(); void tx_tree(int x, int y, int w, int hh); void tx_block(int p, int bx, int by, int tx, int x, int y);
    int coeffs(int p, int x, int y, int tx, int *res);
    int tx_set(int tx, bool inter); int uvtx(int p); int resid_bs(int bs, int p);
    void put_txtype(int tx, int set, int type);
    void put_lr(int r, int c, int w4, int h4); void put_subexp(int v, int n, int kk); void put_subexp_ref(int v, int lo, int hi, int kk, int ref);
    void reset_ctx();
    void ref_frames(); void put_refs(int r0, int r1); int ref_ctx(int which, bool);
    void interp_filters(); void motion_mode(); void comp_type();
    // prediction
    void predict_intra(int p, int x, int y, bool hl, bool ha, bool tr, bool bl, int mode, int lw, int lh, int angle, u16 *out, int ostride);
    void predict_palette(int p, int x, int y, int tx); void predict_cfl(int p, int x, int y, int tx, int alpha);
    void predict_all();
    void predict_inter(int p, int x, int y, int w, int hh, int cr, int cc, bool sub);
    void block_inter(int p, const Blk &cb, int list, int x, int y, int w, int hh, int *out, bool forcesimple, int r0, int r1, const int *mvov, int refov);
    void warp_pred(const Gm &g, int p, int refn, int x, int y, int w, int hh, int *out, int r0, int r1);
    void obmc(int p, int w, int hh);
    bool smooth_nb(int p, bool above);
    // mv prediction
    void find_mv_stack(MvStack &m, int r0, int r1); Mv global_mv(int ref); void fix_prec(Mv &m) const; void motion_field(); void warp_samples(); void local_warp();
    bool drl_more(const MvStack &m, int i) const { return m.n > i + 1; }
    // filters
    void deblock(); void cdef(Plane *in, Plane *out); void superres(Plane *p, Plane *out); void loop_restore(const Plane *updeb, const Plane *in, Plane *out);
    void save_motion(RefFrame &o);
};
bool block_warp_ok(const Gm &g);
} // namespace av1m
