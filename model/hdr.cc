// Header syntax (5.5, 5.9, 5.10, ...): writers.
#include "av1m_int.h"
#include <cstdarg>
#include <cstdio>
namespace av1m {
void die(const char *fmt, ...) { va_list a; va_start(a, fmt); fprintf(stderr, "MODEL-ERROR: "); vfprintf(stderr, fmt, a); fprintf(stderr, "\n"); va_end(a); fflush(stderr); _exit(99); }

const char *const tool_names[] = { "superres","scaledref","seg","deltaq","deltalf","qm","cdef","lr","deblock","palette","intrabc","cfl","filterintra","interintra","wedge","obmc","warp","gm","compound","jnt","refmvs","skipmode","switchframe","intraonly","showexist","hidden","errres","filmgrain","multitile","lossless","txsplit","reducedtx","hpmv","frameid","timing","metadata","reducedstill","cdfupdate","bigcoef","multitg","sizechange","render","shortsig","keyframes","intmv","intraedge","dualfilter","temporalseg","obuext","padding","mframe","directional","smooth","nondct","shownkeyexist","opparam","rectpart","extpart","tupack" };

std::string Knobs::str() const {
    std::string s; Knobs def;
#define K(n, d) if (n != def.n) { if (!s.empty()) s += " "; s += #n "=" + std::to_string(n); }
    AV1M_KNOBS(K)
#undef K
    return s;
}
bool Knobs::parse(const std::string &s) {
    size_t i = 0;
    while (i < s.size()) {
        while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) i++;
        size_t e = i; while (e < s.size() && s[e] != ' ' && s[e] != '\n') e++;
        if (e == i) break;
        std::string t = s.substr(i, e - i); i = e;
        size_t q = t.find('='); if (q == std::string::npos) return false;
        std::string n = t.substr(0, q); i64 v = strtoll(t.c_str() + q + 1, 0, 10); bool ok = false;
#define K(nm, d) if (n == #nm) { nm = v; ok = true; }
        AV1M_KNOBS(K)
#undef K
        if (!ok) return false;
    }
    return true;
}

std::vector<u8> leb128(u64 v, int pad) {
    std::vector<u8> r; do { u8 b = v & 0x7f; v >>= 7; r.push_back(b | (v ? 0x80 : 0)); } while (v);
    while (pad-- > 0 && r.size() < 8) { r.back() |= 0x80; r.push_back(0); }
    return r;
}

void write_seq_hdr(BitWriter &w, const SeqHdr &s) {
    w.f(s.profile, 3); w.bit(s.still_picture); w.bit(s.reduced);
    if (s.reduced) w.f(s.op[0].level, 5);
    else {
        w.bit(s.timing_info_present);
        if (s.timing_info_present) {
            w.f(s.num_units_in_display_tick, 32); w.f(s.time_scale, 32); w.bit(s.equal_picture_interval);
            if (s.equal_picture_interval) w.uvlc(s.num_ticks_per_picture_minus_1);
            w.bit(s.decoder_model_info_present);
            if (s.decoder_model_info_present) { w.f(s.buffer_delay_length - 1, 5); w.f(s.num_units_in_decoding_tick, 32); w.f(s.buffer_removal_time_length - 1, 5); w.f(s.frame_presentation_time_length - 1, 5); }
        }
        w.bit(s.initial_display_delay_present); w.f(s.nop - 1, 5);
        for (int i = 0; i < s.nop; i++) {
            const OpPoint &o = s.op[i];
            w.f(o.idc, 12); w.f(o.level, 5); if (o.level > 7) w.bit(o.tier);
            if (s.decoder_model_info_present) { w.bit(o.dm_present); if (o.dm_present) { w.f(o.dec_delay, s.buffer_delay_length); w.f(o.enc_delay, s.buffer_delay_length); w.bit(o.low_delay); } }
            if (s.initial_display_delay_present) { w.bit(o.idd_present); if (o.idd_present) w.f(o.idd_minus_1, 4); }
        }
    }
    w.f(s.wbits - 1, 4); w.f(s.hbits - 1, 4); w.f(s.max_w - 1, s.wbits); w.f(s.max_h - 1, s.hbits);
    if (!s.reduced) { w.bit(s.frame_id_present); if (s.frame_id_present) { w.f(s.delta_frame_id_n_bits - 2, 4); w.f(s.frame_id_n_bits - s.delta_frame_id_n_bits - 1, 3); } }
    w.bit(s.sb128); w.bit(s.filter_intra); w.bit(s.intra_edge);
    if (!s.reduced) {
        w.bit(s.inter_intra); w.bit(s.masked_compound); w.bit(s.warped_motion); w.bit(s.dual_filter); w.bit(s.order_hint);
        if (s.order_hint) { w.bit(s.jnt_comp); w.bit(s.ref_frame_mvs); }
        if (s.scc == 2) w.bit(1); else { w.bit(0); w.bit(s.scc); }
        if (s.scc > 0) { if (s.imv == 2) w.bit(1); else { w.bit(0); w.bit(s.imv); } }
        if (s.order_hint) w.f(s.order_hint_n_bits - 1, 3);
    }
    w.bit(s.super_res); w.bit(s.cdef); w.bit(s.restoration);
    w.bit(s.hbd > 0); if (s.profile == 2 && s.hbd > 0) w.bit(s.hbd == 2);
    if (s.profile != 1) w.bit(s.mono);
    w.bit(s.color_desc); if (s.color_desc) { w.f(s.pri, 8); w.f(s.trc, 8); w.f(s.mtrx, 8); }
    if (s.mono) w.bit(s.color_range);
    else if (s.color_desc && s.pri == 1 && s.trc == 13 && s.mtrx == 0) w.bit(s.separate_uv_dq);
    else {
        w.bit(s.color_range);
        if (s.profile == 2 && s.hbd == 2) { w.bit(s.ssx); if (s.ssx) w.bit(s.ssy); }
        if (s.ssx && s.ssy) w.f(s.chr, 2);
        w.bit(s.separate_uv_dq);
    }
    w.bit(s.film_grain);
    w.trailing();
}

static int subexp_bits_needed; 
static void write_subexp(BitWriter &w, int v, int n) {
    int i = 0, mk = 0;
    for (;;) {
        int b2 = i ? 3 + i - 1 : 3, a = 1 << b2;
        if (n <= mk + 3 * a) { w.ns(v - mk, n - mk); return; }
        int more = v >= mk + a; w.bit(more);
        if (!more) { w.f(v - mk, b2); return; }
        i++; mk += a;
    }
}
static int recenter(int r, int v) { if (v > 2 * r) return v; if (v >= r) return (v - r) * 2; return (r - v) * 2 - 1; }
static void write_signed_subexp_ref(BitWriter &w, int v, int low, int high, int r) {
    (void)subexp_bits_needed;
    int mx = high - low; v -= low; r -= low;
    if (r * 2 <= mx) write_subexp(w, recenter(r, v), mx); else write_subexp(w, recenter(mx - 1 - r, mx - 1 - v), mx);
}
static void delta_q(BitWriter &w, int v) { w.bit(v != 0); if (v) w.su(v, 7); }

static void frame_size(BitWriter &w, const SeqHdr &s, const FrameHdr &h) {
    if (h.frame_size_override) { w.f(h.upscaled_w - 1, s.wbits); w.f(h.h - 1, s.hbits); }
    if (s.super_res) { w.bit(h.use_superres); if (h.use_superres) w.f(h.superres_denom - 9, 3); }
}
static void render_size(BitWriter &w, const FrameHdr &h) { w.bit(h.have_render); if (h.have_render) { w.f(h.render_w - 1, 16); w.f(h.render_h - 1, 16); } }

void write_frame_hdr(BitWriter &w, const SeqHdr &s, const FrameHdr &h, const RefFrame *ref) {
    auto tpi = [&]() { w.f(h.presentation_delay, s.frame_presentation_time_length); };
    const bool intra = h.intra();
    if (!s.reduced) {
        w.bit(h.show_existing);
        if (h.show_existing) {
            w.f(h.show_existing_idx, 3);
            if (s.decoder_model_info_present && !s.equal_picture_interval) tpi();
            if (s.frame_id_present) w.f(h.frame_id, s.frame_id_n_bits);
            return;
        }
        w.f(h.frame_type, 2); w.bit(h.show_frame);
        if (h.show_frame) { if (s.decoder_model_info_present && !s.equal_picture_interval) tpi(); }
        else w.bit(h.showable);
        if (!(h.frame_type == SWITCH_FRAME || (h.frame_type == KEY_FRAME && h.show_frame))) w.bit(h.error_res);
    }
    w.bit(h.disable_cdf_update);
    if (s.scc == 2) w.bit(h.scc);
    if (h.scc && s.imv == 2) w.bit(h.imv);
    if (s.frame_id_present) w.f(h.frame_id, s.frame_id_n_bits);
    if (h.frame_type != SWITCH_FRAME && !s.reduced) w.bit(h.frame_size_override);
    if (s.order_hint) w.f(h.order_hint, s.order_hint_n_bits);
    if (!(intra || h.error_res)) w.f(h.primary_ref, 3);
    if (s.decoder_model_info_present) {
        w.bit(h.buffer_removal_time_present);
        if (h.buffer_removal_time_present) for (int i = 0; i < s.nop; i++) if (s.op[i].dm_present) {
            int idc = s.op[i].idc;
            if (idc == 0 || (((idc >> h.temporal_id) & 1) && ((idc >> (h.spatial_id + 8)) & 1))) w.f(h.buffer_removal_time[i], s.buffer_removal_time_length);
        }
    }
    if (!(h.frame_type == SWITCH_FRAME || (h.frame_type == KEY_FRAME && h.show_frame))) w.f(h.refresh, 8);
    if ((!intra || h.refresh != 0xff) && h.error_res && s.order_hint) for (int i = 0; i < 8; i++) w.f(ref[i].valid ? ref[i].hdr.order_hint : 0, s.order_hint_n_bits);
    if (intra) {
        frame_size(w, s, h); render_size(w, h);
        if (h.scc && h.upscaled_w == h.w) w.bit(h.intrabc);
    } else {
        if (s.order_hint) { w.bit(h.short_sig); if (h.short_sig) { w.f(h.refidx[0], 3); w.f(h.refidx[3], 3); } }
        for (int i = 0; i < 7; i++) {
            if (!h.short_sig) w.f(h.refidx[i], 3);
            if (s.frame_id_present) { u32 d = (h.frame_id - ref[h.refidx[i]].hdr.frame_id) & ((1u << s.frame_id_n_bits) - 1); w.f(d - 1, s.delta_frame_id_n_bits); }
        }
        if (h.frame_size_override && !h.error_res) {
            bool found = false;
            for (int i = 0; i < 7 && !found; i++) { found = h.found_ref == i; w.bit(found); }
            if (!found) { frame_size(w, s, h); render_size(w, h); }
            else if (s.super_res) { w.bit(h.use_superres); if (h.use_superres) w.f(h.superres_denom - 9, 3); }
        } else { frame_size(w, s, h); render_size(w, h); }
        if (!h.imv) w.bit(h.hp);
        w.bit(h.filter == 4); if (h.filter != 4) w.f(h.filter, 2);
        w.bit(h.switchable_motion);
        if (!h.error_res && s.ref_frame_mvs) w.bit(h.use_ref_mvs);
    }
    if (!s.reduced && !h.disable_cdf_update) w.bit(!h.refresh_ctx);
    // tile info
    const auto &t = h.tile;
    w.bit(t.uniform);
    const int sbc = s.sb128 ? (h.mi_cols + 31) >> 5 : (h.mi_cols + 15) >> 4, sbr = s.sb128 ? (h.mi_rows + 31) >> 5 : (h.mi_rows + 15) >> 4;
    if (t.uniform) {
        for (int i = t.minl2c; i < t.log2c; i++) w.bit(1);
        if (t.log2c < t.maxl2c) w.bit(0);
        int minl2r = std::max(t.minl2 - t.log2c, 0);
        for (int i = minl2r; i < t.log2r; i++) w.bit(1);
        if (t.log2r < t.maxl2r) w.bit(0);
    } else {
        int widest = 0;
        for (int i = 0; i < t.cols; i++) { int sz = t.cs[i + 1] - t.cs[i]; w.ns(sz - 1, std::min(sbc - t.cs[i], t.maxtw)); widest = std::max(widest, sz); }
        int area = t.minl2 ? (sbr * sbc) >> (t.minl2 + 1) : sbr * sbc; int maxh = std::max(area / widest, 1);
        for (int i = 0; i < t.rows; i++) w.ns(t.rs[i + 1] - t.rs[i] - 1, std::min(sbr - t.rs[i], maxh));
    }
    if (t.log2c || t.log2r) { w.f(t.update, t.log2c + t.log2r); w.f(t.n_bytes - 1, 2); }
    // quant
    w.f(h.q.yac, 8); delta_q(w, h.q.ydc);
    if (!s.mono) {
        if (s.separate_uv_dq) w.bit(h.q.diff_uv);
        delta_q(w, h.q.udc); delta_q(w, h.q.uac);
        if (h.q.diff_uv) { delta_q(w, h.q.vdc); delta_q(w, h.q.vac); }
    }
    w.bit(h.q.qm);
    if (h.q.qm) { w.f(h.q.qmy, 4); w.f(h.q.qmu, 4); if (s.separate_uv_dq) w.f(h.q.qmv, 4); }
    // seg
    w.bit(h.seg.enabled);
    if (h.seg.enabled) {
        if (h.primary_ref != 7) { w.bit(h.seg.update_map); if (h.seg.update_map) w.bit(h.seg.temporal); w.bit(h.seg.update_data); }
        if (h.seg.update_data) {
            static const int bits[8] = {8, 6, 6, 6, 6, 3, 0, 0}, sgn[8] = {1, 1, 1, 1, 1, 0, 0, 0};
            for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) { w.bit(h.seg.en[i][j]); if (h.seg.en[i][j]) { if (sgn[j]) w.su(h.seg.val[i][j], bits[j] + 1); else w.f(h.seg.val[i][j], bits[j]); } }
        }
    }
    if (h.q.yac) { w.bit(h.dq_present); if (h.dq_present) w.f(h.dq_res, 2); }
    if (h.dq_present && !h.intrabc) { w.bit(h.dlf_present); if (h.dlf_present) { w.f(h.dlf_res, 2); w.bit(h.dlf_multi); } }
    if (!h.coded_lossless && !h.intrabc) {
        w.f(h.lf.level[0], 6); w.f(h.lf.level[1], 6);
        if (!s.mono && (h.lf.level[0] || h.lf.level[1])) { w.f(h.lf.lu, 6); w.f(h.lf.lv, 6); }
        w.f(h.lf.sharp, 3); w.bit(h.lf.delta_enabled);
        if (h.lf.delta_enabled) { w.bit(h.lf.delta_update); if (h.lf.delta_update) {
            for (int i = 0; i < 8; i++) { w.bit(h.lf.upd_ref[i]); if (h.lf.upd_ref[i]) w.su(h.lf.d.ref[i], 7); }
            for (int i = 0; i < 2; i++) { w.bit(h.lf.upd_mode[i]); if (h.lf.upd_mode[i]) w.su(h.lf.d.mode[i], 7); } } }
    }
    if (!h.coded_lossless && !h.intrabc && s.cdef) {
        w.f(h.cdef.damping - 3, 2); w.f(h.cdef.bits, 2);
        for (int i = 0; i < 1 << h.cdef.bits; i++) { w.f(h.cdef.y[i], 6); if (!s.mono) w.f(h.cdef.uv[i], 6); }
    }
    if (!h.all_lossless && !h.intrabc && s.restoration) {
        bool uses = false, uc = false;
        for (int i = 0; i < s.planes(); i++) { w.f(h.lr.type[i], 2); if (h.lr.type[i]) { uses = true; if (i) uc = true; } }
        if (uses) {
            if (s.sb128) w.bit(h.lr.shift - 1); else { w.bit(h.lr.shift > 0); if (h.lr.shift) w.bit(h.lr.shift - 1); }
            if (s.ssx && s.ssy && uc) w.bit(h.lr.uvshift);
        }
    }
    if (!h.coded_lossless) w.bit(h.tx_select);
    if (!intra) w.bit(h.comp_ref);
    if (h.skip_mode_allowed) w.bit(h.skip_mode);
    if (!(intra || h.error_res || !s.warped_motion)) w.bit(h.warp_motion);
    w.bit(h.reduced_tx);
    if (!intra) for (int r = 1; r < 8; r++) {
        const Gm &g = h.gm[r];
        w.bit(g.type != 0); if (!g.type) continue;
        w.bit(g.type == 2); if (g.type != 2) w.bit(g.type == 1);
        auto par = [&](int idx) {
            int ab = 12, pb = 15; if (idx < 2) { if (g.type == 1) { ab = 9 - !h.hp; pb = 3 - !h.hp; } else { ab = 12; pb = 6; } }
            int pd = 16 - pb, rnd = idx % 3 == 2 ? 1 << 16 : 0, sub = idx % 3 == 2 ? 1 << pb : 0, mx = 1 << ab;
            int r0 = (h.prev_gm[r].m[idx] >> pd) - sub;
            write_signed_subexp_ref(w, (g.m[idx] - rnd) >> pd, -mx, mx + 1, r0);
        };
        if (g.type >= 2) { par(2); par(3); if (g.type == 3) { par(4); par(5); } }
        par(0); par(1);
    }
    if (s.film_grain && (h.show_frame || h.showable)) {
        const FilmGrain &g = h.fg;
        w.bit(g.apply);
        if (g.apply) {
            w.f(g.seed, 16); if (h.frame_type == INTER_FRAME) w.bit(g.update);
            if (h.frame_type == INTER_FRAME && !g.update) w.f(g.ref_idx, 3);
            else {
                w.f(g.num_y, 4); for (int i = 0; i < g.num_y; i++) { int j = std::min(i, 13); w.f(g.y[j][0] + 10 * (i - j), 8); w.f(g.y[j][1], 8); }
                if (!s.mono) w.bit(g.csfl);
                if (!(s.mono || g.csfl || (s.ssx && s.ssy && !g.num_y))) for (int p = 0; p < 2; p++) { w.f(g.num_uv[p], 4); for (int i = 0; i < g.num_uv[p]; i++) { int j = std::min(i, 9); w.f(g.uv[p][j][0] + 10 * (i - j), 8); w.f(g.uv[p][j][1], 8); } }
                w.f(g.scaling_shift - 8, 2); w.f(g.ar_lag, 2);
                int np = 2 * g.ar_lag * (g.ar_lag + 1), npc = np;
                if (g.num_y) { npc++; for (int i = 0; i < np; i++) w.f(g.ar_y[i] + 128, 8); }
                for (int p = 0; p < 2; p++) if (g.csfl || g.num_uv[p]) for (int i = 0; i < npc; i++) w.f(g.ar_uv[p][i] + 128, 8);
                w.f(g.ar_shift - 6, 2); w.f(g.scale_shift, 2);
                for (int p = 0; p < 2; p++) if (g.num_uv[p]) { w.f(g.uv_mult[p] + 128, 8); w.f(g.uv_luma_mult[p] + 128, 8); w.f(g.uv_offset[p] + 256, 9); }
                w.bit(g.overlap); w.bit(g.clip);
            }
        }
    }
}

std::vector<u8> obu_bytes(const Obu &o, int force_size) {
    std::vector<u8> r; int hs = force_size >= 0 ? force_size : o.has_size;
    r.push_back((o.type << 3) | (o.ext << 2) | ((hs ? 1 : 0) << 1));
    if (o.ext) r.push_back((o.tid << 5) | (o.sid << 3));
    if (hs) { auto l = leb128(o.payload.size(), o.has_size > 1 ? o.has_size - 1 : 0); r.insert(r.end(), l.begin(), l.end()); }
    r.insert(r.end(), o.payload.begin(), o.payload.end());
    return r;
}
std::vector<u8> tu_bytes(const TU &t) {
    std::vector<u8> r; for (auto &o : t.obus) { auto b = obu_bytes(o, 1); r.insert(r.end(), b.begin(), b.end()); }
    return r;
}
} // namespace av1m
