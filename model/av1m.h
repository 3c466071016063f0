// Independent model of the AV1 bitstream format and decoding process, used as a
// generator of conforming streams and as the oracle for what they decode to.
// Written after the AV1 specification (section numbers refer to it).
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <memory>
#include <map>
#include <algorithm>

namespace av1m {
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t i64;

[[noreturn]] void die(const char *fmt, ...);

static inline u64 mix64(u64 z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 0) : s(mix64(seed ^ 0xA5A5A5A5DEADBEEFull)) {}
    u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u32 below(u32 n) { return n ? (u32)(((next() >> 32) * n) >> 32) : 0; }
    int range(int lo, int hi) { return lo + (int)below((u32)(hi - lo + 1)); }
    bool pct(int p) { return (int)below(100) < p; }
};
static inline u64 subseed(u64 a, u64 b, u64 c = 0, u64 d = 0) { return mix64(mix64(mix64(mix64(a) ^ b * 0x100000001B3ull) ^ c * 0xC2B2AE3D27D4EB4Full) ^ d); }

struct BitWriter {
    std::vector<u8> b; int n = 0; // n = bits used in the last byte
    void bit(int v) { if (n == 0) b.push_back(0); b.back() |= (v & 1) << (7 - n); n = (n + 1) & 7; }
    void f(u64 v, int bits) { for (int i = bits - 1; i >= 0; i--) bit((int)(v >> i) & 1); }
    void su(int v, int bits) { f((u64)(i64)v & ((1ull << bits) - 1), bits); }
    void uvlc(u32 v) { u64 x = (u64)v + 1; int l = 0; while ((x >> (l + 1))) l++; for (int i = 0; i < l; i++) bit(0); f(x, l + 1); }
    void ns(int v, int nn) { int w = 0; for (int x = nn; x; x >>= 1) w++; int m = (1 << w) - nn; if (v < m) f(v, w - 1); else { int x = v + m; f(x >> 1, w - 1); bit(x & 1); } }
    void align() { while (n) bit(0); }
    void trailing() { bit(1); align(); }
    size_t bits() const { return b.size() * 8 - (n ? 8 - n : 0); }
};
std::vector<u8> leb128(u64 v, int pad = 0);

enum { KEY_FRAME, INTER_FRAME, INTRA_ONLY_FRAME, SWITCH_FRAME };
enum { NONE_REF = -1, INTRA_FRAME = 0, LAST_FRAME, LAST2_FRAME, LAST3_FRAME, GOLDEN_FRAME, BWDREF_FRAME, ALTREF2_FRAME, ALTREF_FRAME };

struct OpPoint { int idc = 0, level = 0, tier = 0, dm_present = 0, low_delay = 0, idd_present = 0, idd_minus_1 = 9; u32 dec_delay = 0, enc_delay = 0; };
struct SeqHdr {
    int profile = 0, still_picture = 0, reduced = 0;
    int timing_info_present = 0; u32 num_units_in_display_tick = 0, time_scale = 0; int equal_picture_interval = 0; u32 num_ticks_per_picture_minus_1 = 0;
    int decoder_model_info_present = 0, buffer_delay_length = 0; u32 num_units_in_decoding_tick = 0; int buffer_removal_time_length = 0, frame_presentation_time_length = 0;
    int initial_display_delay_present = 0, nop = 1; OpPoint op[32];
    int wbits = 16, hbits = 16, max_w = 0, max_h = 0;
    int frame_id_present = 0, delta_frame_id_n_bits = 0, frame_id_n_bits = 0;
    int sb128 = 0, filter_intra = 0, intra_edge = 0, inter_intra = 0, masked_compound = 0, warped_motion = 0, dual_filter = 0, order_hint = 0, jnt_comp = 0, ref_frame_mvs = 0;
    int scc = 2, imv = 2, order_hint_n_bits = 0, super_res = 0, cdef = 0, restoration = 0;
    int hbd = 0; // 0: 8, 1: 10, 2: 12
    int mono = 0, color_desc = 0, pri = 2, trc = 2, mtrx = 2, color_range = 0, ssx = 1, ssy = 1, chr = 0, separate_uv_dq = 0, film_grain = 0;
    int bitdepth() const { return 8 + 2 * hbd; }
    int planes() const { return mono ? 1 : 3; }
    int layout() const { return mono ? 0 : ssx ? (ssy ? 1 : 2) : 3; } // Dav1dPixelLayout
};
void write_seq_hdr(BitWriter &w, const SeqHdr &s);

struct FilmGrain {
    int apply = 0, update = 0, ref_idx = 0; u32 seed = 0;
    int num_y = 0; u8 y[14][2] = {}; int csfl = 0; int num_uv[2] = {0, 0}; u8 uv[2][10][2] = {};
    int scaling_shift = 8, ar_lag = 0; int ar_y[24] = {}, ar_uv[2][25] = {}; int ar_shift = 6, scale_shift = 0;
    int uv_mult[2] = {0, 0}, uv_luma_mult[2] = {0, 0}, uv_offset[2] = {0, 0}; int overlap = 0, clip = 0;
};
struct SegData { int delta_q = 0, lf[4] = {0, 0, 0, 0}, ref = -1, skip = 0, globalmv = 0; };
struct Seg {
    int enabled = 0, update_map = 0, temporal = 0, update_data = 0; SegData d[8]; int last_active = -1, preskip = 0;
    u8 en[8][8] = {}; int val[8][8] = {}; // coded features
};
struct Gm { int type = 0; int m[6] = {0, 0, 1 << 16, 0, 0, 1 << 16}; };
struct LfDelta { int ref[8] = {1, 0, 0, 0, -1, 0, -1, -1}, mode[2] = {0, 0}; };

struct FrameHdr {
    int show_existing = 0, show_existing_idx = 0;
    u32 frame_id = 0, presentation_delay = 0;
    int frame_type = 0, show_frame = 1, showable = 0, error_res = 0, disable_cdf_update = 0, scc = 0, imv = 0, frame_size_override = 0, order_hint = 0, primary_ref = 7;
    int buffer_removal_time_present = 0; u32 buffer_removal_time[32] = {};
    int refresh = 0xff; int have_render = 0, intrabc = 0;
    int upscaled_w = 0, w = 0, h = 0, render_w = 0, render_h = 0, use_superres = 0, superres_denom = 8;
    int short_sig = 0, refidx[7] = {0}; int found_ref = -1; // -1: not used
    int hp = 0, filter = 0 /*4 = switchable*/, switchable_motion = 0, use_ref_mvs = 0, refresh_ctx = 0;
    struct { int uniform = 1, sbw = 0, sbh = 0, cols = 1, rows = 1, log2c = 0, log2r = 0, update = 0, n_bytes = 4; int cs[65] = {}, rs[65] = {}; int minl2c=0,maxl2c=0,maxl2r=0,minl2=0,maxtw=0; } tile;
    struct { int yac = 0, ydc = 0, udc = 0, uac = 0, vdc = 0, vac = 0, qm = 0, qmy = 15, qmu = 15, qmv = 15, diff_uv = 0; } q;
    Seg seg;
    int dq_present = 0, dq_res = 0, dlf_present = 0, dlf_res = 0, dlf_multi = 0;
    int all_lossless = 0, coded_lossless = 0, lossless[8] = {}, qidx[8] = {};
    struct { int level[2] = {0, 0}, lu = 0, lv = 0, sharp = 0, delta_enabled = 0, delta_update = 0; LfDelta d; LfDelta prev; int upd_ref[8] = {}, upd_mode[2] = {}; } lf;
    struct { int damping = 3, bits = 0, y[8] = {}, uv[8] = {}; } cdef; // raw 6-bit strengths
    struct { int type[3] = {0, 0, 0}, size[3] = {6, 6, 6}; int shift=0, extra=0, uvshift=0; } lr;   // type: 0 none 1 switchable 2 wiener 3 sgrproj ; size log2
    int tx_select = 0; // txfm_mode: 0 only4x4 1 largest 2 switchable
    int comp_ref = 0, skip_mode_allowed = 0, skip_mode = 0, skip_mode_refs[2] = {0, 0}, warp_motion = 0, reduced_tx = 0;
    Gm gm[8]; Gm prev_gm[8];
    FilmGrain fg;
    int temporal_id = 0, spatial_id = 0;
    // derived
    int intra() const { return frame_type == KEY_FRAME || frame_type == INTRA_ONLY_FRAME; }
    int mi_cols = 0, mi_rows = 0;
    int order_hints[8] = {}; // expected order hints of the named references (index LAST..ALTREF)
    int sign_bias[8] = {};
    void size_derive() { mi_cols = 2 * ((w + 7) >> 3); mi_rows = 2 * ((h + 7) >> 3); }
};

struct Plane { int w = 0, h = 0, stride = 0; std::vector<u16> d; void init(int ww, int hh) { w = ww; h = hh; stride = ww; d.assign((size_t)ww * hh, 0); } u16 &at(int x, int y) { return d[(size_t)y * stride + x]; } u16 at(int x, int y) const { return d[(size_t)y * stride + x]; } };
struct Picture { Plane p[3]; int np = 3, bpc = 8, ssx = 1, ssy = 1; };

struct Mv { int16_t y = 0, x = 0; bool operator==(const Mv &o) const { return y == o.y && x == o.x; } bool operator!=(const Mv &o) const { return !(*this == o); } };

struct Cdfs; // entropy contexts

// State saved with each decoded frame (7.20)
struct RefFrame {
    bool valid = false;
    SeqHdr seq; FrameHdr hdr;
    std::shared_ptr<Picture> pic;           // after all in-loop filters, upscaled
    std::shared_ptr<Cdfs> cdf;
    std::shared_ptr<std::vector<Mv>> mvs;   // mi_rows*mi_cols (saved motion field, 7.19)
    std::shared_ptr<std::vector<int8_t>> mvref;
    std::shared_ptr<std::vector<u8>> segmap;
    int mi_cols = 0, mi_rows = 0;
    int saved_order_hints[8] = {};
    Gm gm[8];
    LfDelta lfd; SegData segd[8]; Seg seg;
    FilmGrain fg;
    int showable = 0;
    int fno = -1;                           // index of the coded frame
};

// ---- knobs: a case is a flat list of named integers ----
#define AV1M_KNOBS(K) \
  K(seed, 1) K(w, 64) K(h, 64) K(nframes, 2) K(layout, 1) K(hbd, 0) K(mono, 0) K(tools, -1) K(force, 0) \
  K(model, 1) /*1: model driven tile data, 0: random bytes*/ K(symcap, -1) /*number of freely chosen symbols, then plain*/ \
  K(cdfpct, 60) /*percent of symbols drawn from the adapted distribution*/ K(coefpct, 40) /*chance that a tx block has coefs*/ K(coefmag, 3) K(coefcap, 64) \
  K(splitpct, 55) K(newmvpct, 40) K(mvmag, 64) K(intrapct, 20) K(skippct, 30) K(bigblk, 0) \
  K(sb128, 2) K(tilelog2, 2) K(qidx, -1) K(layers, 0) K(forcetype, -1) K(focus, 0) K(randbytes, 0) K(seqs, 1) K(fgmode, 0) K(seqvar, 1) \
  K(viol, 0) /*seed: temporal units with a forbidden header value are put between the others*/ K(sviol, 0) /*one value that only strict mode refuses*/
struct Knobs {
#define K(n, d) i64 n = d;
    AV1M_KNOBS(K)
#undef K
    std::string str() const;
    bool parse(const std::string &s); // "a=1 b=2"
};
// tool bits
enum {
    T_SUPERRES, T_SCALEDREF, T_SEG, T_DELTAQ, T_DELTALF, T_QM, T_CDEF, T_LR, T_DEBLOCK, T_PALETTE, T_INTRABC, T_CFL, T_FILTERINTRA, T_INTERINTRA, T_WEDGE, T_OBMC, T_WARP, T_GM,
    T_COMPOUND, T_JNT, T_REFMVS, T_SKIPMODE, T_SWITCHFRAME, T_INTRAONLY, T_SHOWEXIST, T_HIDDEN, T_ERRRES, T_FILMGRAIN, T_MULTITILE, T_LOSSLESS, T_TXSPLIT, T_REDUCEDTX, T_HPMV, T_FRAMEID,
    T_TIMING, T_METADATA, T_REDUCEDSTILL, T_CDFUPDATE, T_BIGCOEF, T_MULTITG, T_SIZECHANGE, T_RENDER, T_SHORTSIG, T_KEYFRAMES, T_INTMV, T_INTRAEDGE, T_DUALFILTER, T_TEMPORALSEG, T_OBUEXT, T_PADDING,
    T_MFRAME, T_DIRECTIONAL, T_SMOOTH, T_NONDCT, T_SHOWNKEYEXIST, T_OPPARAM, T_RECTPART, T_EXTPART, T_TUPACK
};
extern const char *const tool_names[];

// ---- stream ----
struct Obu { int type = 0; int ext = 0, tid = 0, sid = 0; std::vector<u8> payload; std::vector<u32> marks; /* where in the payload tile sizes and tile data begin */ int has_size = 1; int frame = -1; /*coded frame index this obu starts/continues*/ bool in_op = true; };
struct Meta { bool cll = false, mdcv = false; u16 max_cll = 0, max_fall = 0; u16 prim[3][2] = {}, wp[2] = {}; u32 maxl = 0, minl = 0; struct T35 { int cc = 0, ext = 0; std::vector<u8> p; }; std::vector<T35> t35; };
struct OutFrame {               // a picture the decoder should produce
    RefFrame rf; int seqno = 0; // sequence header instance
    FilmGrain fg; bool shown = true, from_existing = false; int fno = 0;  // coded frame number
    int tid = 0, sid = 0; Meta meta; int tu = 0; int obu = 0, obu0 = 0; // indices (within the TU) of the OBU that completes it and of the one with its first tile data
    int events = 0, events_inv = 0; // (events_inv: when hidden frames are output too) 1 new sequence, 2 new operating parameters
};
struct TU { std::vector<Obu> obus; };
struct Stats { std::map<std::string, i64> n; void inc(const char *k, i64 v = 1) { n[k] += v; } };
struct Stream {
    Knobs k; std::vector<TU> tus; std::vector<OutFrame> frames; // every shown or hidden frame, in decoding order
    std::vector<SeqHdr> seqs; Stats st; int ncoded = 0;
    struct Viol { int tu; std::string what; }; std::vector<Viol> viols; int sviol_at = -1; /* index of the first frame that strict mode refuses */
    int max_spatial = 0;
};
// which in-loop filters the model applies
struct ModelOpts { int filters = 7; /*1 deblock 2 cdef 4 restoration*/ };
int seq_change(const SeqHdr &a, const SeqHdr &b); // 0 same, 1 only operating parameters differ, 2 other differences
Stream generate(const Knobs &k, const ModelOpts &mo = ModelOpts());
std::vector<u8> obu_bytes(const Obu &o, int force_size = -1);
std::vector<u8> tu_bytes(const TU &t); // section 5 low-overhead format
void apply_film_grain(Picture &dst, const Picture &src, const FilmGrain &fg, const SeqHdr &sh);
} // namespace av1m
