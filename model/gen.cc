// Stream generator: sequences, temporal units, frame headers; drives code_frame and keeps the reference state (7.20, 7.21).
#include "av1m_int.h"
namespace av1m {
static const int seg_max[8] = {255, 63, 63, 63, 63, 7, 0, 0};

struct Generator {
    Knobs k; ModelOpts mo; Stream out;
    RefFrame ref[8]; int slotT[8] = {}, slotS[8] = {};
    SeqHdr seq; int ns = 1, nt = 1; // spatial / temporal layers
    int clock = 0; u32 frame_id = 0;
    Meta meta; int fcount = 0, evflags = 0, evinv = 0;
    bool en(Rng &r, int t, int pct) { bool v = r.pct((k.force >> t) & 1 ? 92 : pct); return ((k.tools >> t) & 1) && v; }
    bool tool(int t) const { return (k.tools >> t) & 1; }

    void gen_seq(Rng &r, int idx) {
        SeqHdr s;
        int layout = (int)k.layout; int hbd = (int)k.hbd;
        if (k.mono) layout = 0;
        if (idx && k.seqvar) { Rng v(subseed(k.seed, 1500 + idx)); if (!k.mono && v.pct(35)) layout = v.range(0, 3); if (v.pct(25)) hbd = v.range(0, 2); }
        s.hbd = hbd; s.mono = layout == 0;
        if (layout == 0) { s.profile = hbd == 2 ? 2 : r.below(2) ? 0 : (hbd < 2 && r.pct(30) ? 2 : 0); s.ssx = s.ssy = 1; }
        else if (layout == 1) { s.profile = hbd == 2 ? 2 : 0; s.ssx = s.ssy = 1; }
        else if (layout == 2) { s.profile = 2; s.ssx = 1; s.ssy = 0; }
        else { s.profile = hbd == 2 ? 2 : 1; s.ssx = s.ssy = 0; }
        s.max_w = (int)k.w; s.max_h = (int)k.h;
        if (k.seqs > 1 && (idx || k.seqvar) && en(r, T_SIZECHANGE, 60)) { int d = idx ? 3 : 2; if (idx || r.pct(50)) { s.max_w = std::max(16, s.max_w - r.range(0, s.max_w / d)); s.max_h = std::max(16, s.max_h - r.range(0, s.max_h / d)); } }
        int mw = 1; while ((1 << mw) < s.max_w) mw++; int mh = 1; while ((1 << mh) < s.max_h) mh++;
        s.wbits = std::min(16, mw + r.range(0, 3)); s.hbits = std::min(16, mh + r.range(0, 3));
        s.reduced = 0; s.still_picture = 0;
        if (k.nframes == 1 && ns == 1 && nt == 1 && k.seqs == 1 && en(r, T_REDUCEDSTILL, 25)) { s.still_picture = 1; s.reduced = r.pct(60); }
        s.sb128 = k.sb128 == 2 ? r.below(2) : (int)k.sb128;
        s.filter_intra = en(r, T_FILTERINTRA, 80); s.intra_edge = en(r, T_INTRAEDGE, 80);
        s.op[0].level = r.pct(50) ? 8 : r.range(0, 7); if (s.op[0].level > 7) s.op[0].tier = s.reduced ? 0 : r.below(2);
        if (!s.reduced) {
            s.inter_intra = en(r, T_INTERINTRA, 85); s.masked_compound = en(r, T_WEDGE, 85); s.warped_motion = en(r, T_WARP, 85); s.dual_filter = en(r, T_DUALFILTER, 70);
            s.order_hint = r.pct(90); if (s.order_hint) { s.order_hint_n_bits = r.range(3, 8); s.jnt_comp = en(r, T_JNT, 85); s.ref_frame_mvs = en(r, T_REFMVS, 85); }
            bool scc_ok = tool(T_PALETTE) || tool(T_INTRABC) || tool(T_INTMV);
            s.scc = scc_ok ? (r.pct(70) ? 2 : r.below(2)) : 0;
            s.imv = 2; if (s.scc > 0) s.imv = en(r, T_INTMV, 50) ? (r.pct(70) ? 2 : 1) : r.pct(50) ? 0 : 2;
            s.frame_id_present = (ns == 1 && nt == 1) && en(r, T_FRAMEID, 20);
            if (s.frame_id_present) { s.delta_frame_id_n_bits = r.range(8, 14); s.frame_id_n_bits = std::min(16, s.delta_frame_id_n_bits + r.range(1, 2)); }
            if (en(r, T_TIMING, 30)) {
                s.timing_info_present = 1; s.num_units_in_display_tick = (u32)r.next() | 1; s.time_scale = (u32)r.next() | 1; s.equal_picture_interval = r.below(2);
                if (s.equal_picture_interval) s.num_ticks_per_picture_minus_1 = r.pct(50) ? r.below(10) : (u32)r.next() >> (1 + r.below(31));
                s.decoder_model_info_present = r.pct(60);
                if (s.decoder_model_info_present) { s.buffer_delay_length = r.range(1, 32); s.num_units_in_decoding_tick = (u32)r.next(); s.buffer_removal_time_length = r.range(1, 32); s.frame_presentation_time_length = r.range(1, 32); }
                s.initial_display_delay_present = r.below(2);
            }
            if (ns > 1 || nt > 1) {
                // operating points: all layers, then progressively fewer
                s.nop = 0; auto add = [&](int tn, int sn) { OpPoint o; o.idc = ((1 << tn) - 1) | (((1 << sn) - 1) << 8); s.op[s.nop++] = o; };
                for (int sn = ns; sn >= 1; sn--) for (int tn = nt; tn >= 1; tn--) add(tn, sn);
                if (r.pct(30)) { std::swap(s.op[0], s.op[s.nop - 1]); }
            }
            for (int i = 0; i < s.nop; i++) {
                OpPoint &o = s.op[i]; if (i || s.nop > 1) o.level = r.pct(50) ? r.range(8, 20) : r.range(0, 7); o.tier = o.level > 7 ? r.below(2) : 0;
                if (s.decoder_model_info_present) { o.dm_present = r.below(2); if (o.dm_present) { u64 m = (1ull << s.buffer_delay_length) - 1; o.dec_delay = (u32)(r.next() & m); o.enc_delay = (u32)(r.next() & m); o.low_delay = r.below(2); } }
                if (s.initial_display_delay_present) { o.idd_present = r.below(2); if (o.idd_present) o.idd_minus_1 = r.range(0, 9); }
            }
        }
        s.super_res = en(r, T_SUPERRES, 60); s.cdef = en(r, T_CDEF, 85); s.restoration = en(r, T_LR, 85);
        s.color_desc = r.pct(40);
        if (s.color_desc) { static const u8 P[] = {1, 2, 4, 5, 6, 9, 12, 22}, T[] = {1, 2, 4, 8, 13, 16, 18}, M[] = {1, 2, 4, 5, 6, 8, 9, 14}; s.pri = P[r.below(8)]; s.trc = T[r.below(7)]; s.mtrx = M[r.below(8)]; if (layout == 3 && (s.profile == 1 || s.hbd == 2) && r.pct(40)) { s.pri = 1; s.trc = 13; s.mtrx = 0; s.color_range = 1; } }
        if (!(s.pri == 1 && s.trc == 13 && s.mtrx == 0)) s.color_range = r.below(2);
        if (s.color_desc && s.mtrx == 0 && !(s.pri == 1 && s.trc == 13)) s.mtrx = 1;
        if (!s.mono && s.ssx && s.ssy) s.chr = r.range(0, 2);
        if (!s.mono) s.separate_uv_dq = r.below(2);
        s.film_grain = en(r, T_FILMGRAIN, 40);
        if (k.sviol && !s.reduced) {
            int v = (int)k.sviol; if (v <= 3 && !s.timing_info_present) { s.timing_info_present = 1; s.num_units_in_display_tick = 1000; s.time_scale = 30000; }
            if (v == 3 && !s.decoder_model_info_present) v = 2;
            if (v == 1) s.num_units_in_display_tick = 0; else if (v == 2) s.time_scale = 0; else if (v == 3) s.num_units_in_decoding_tick = 0;
            else if (v == 4) { if (s.mono || layout == 3) { s.mono = 0; } if (layout != 3 && layout != 0) { s.color_desc = 1; if (!s.pri) s.pri = 2; if (!s.trc) s.trc = 2; s.mtrx = 0; if (s.pri == 1 && s.trc == 13) s.trc = 1; } else { s.mono = layout == 0; s.timing_info_present = 1; s.num_units_in_display_tick = 0; s.time_scale = 1; } }
            if (v <= 4) out.sviol_at = 0;
        }
        if (idx == 0 || memcmp(&s, &seq, sizeof s)) {}
        seq = s; out.seqs.push_back(s);
        for (auto &rf : ref) rf = RefFrame();
    }

    void set_frame_refs(FrameHdr &h) { // 7.8
        const SeqHdr &s = seq; int used[8] = {}, sh[8]; int cur = 1 << (s.order_hint_n_bits - 1);
        int l = h.refidx[0], g = h.refidx[3]; for (int &x : h.refidx) x = -1;
        h.refidx[0] = l; h.refidx[3] = g; used[l] = used[g] = 1;
        for (int i = 0; i < 8; i++) sh[i] = cur + rel_dist(s, ref[i].hdr.order_hint, h.order_hint);
        auto latest_back = [&]() { int b = -1, bh = 0; for (int i = 0; i < 8; i++) if (!used[i] && sh[i] >= cur && (b < 0 || sh[i] >= bh)) { b = i; bh = sh[i]; } return b; };
        auto earliest_back = [&]() { int b = -1, bh = 0; for (int i = 0; i < 8; i++) if (!used[i] && sh[i] >= cur && (b < 0 || sh[i] < bh)) { b = i; bh = sh[i]; } return b; };
        auto latest_fwd = [&]() { int b = -1, bh = 0; for (int i = 0; i < 8; i++) if (!used[i] && sh[i] < cur && (b < 0 || sh[i] >= bh)) { b = i; bh = sh[i]; } return b; };
        int r = latest_back(); if (r >= 0) { h.refidx[6] = r; used[r] = 1; }
        r = earliest_back(); if (r >= 0) { h.refidx[4] = r; used[r] = 1; }
        r = earliest_back(); if (r >= 0) { h.refidx[5] = r; used[r] = 1; }
        static const int list[5] = {1, 2, 4, 5, 6};
        for (int i : list) if (h.refidx[i] < 0) { r = latest_fwd(); if (r >= 0) { h.refidx[i] = r; used[r] = 1; } }
        int b = -1, bh = 0; for (int i = 0; i < 8; i++) if (b < 0 || sh[i] < bh) { b = i; bh = sh[i]; }
        for (int &x : h.refidx) if (x < 0) x = b;
    }

    static int superres_w(int up, int d) { return (up * 8 + d / 2) / d; }

    void tile_info(Rng &r, FrameHdr &h) {
        const SeqHdr &s = seq; auto &t = h.tile;
        int sbc = s.sb128 ? (h.mi_cols + 31) >> 5 : (h.mi_cols + 15) >> 4, sbr = s.sb128 ? (h.mi_rows + 31) >> 5 : (h.mi_rows + 15) >> 4;
        int sh = s.sb128 ? 7 : 6; // log2 of sb size in pixels
        auto tl2 = [](int blk, int target) { int i = 0; while ((blk << i) < target) i++; return i; };
        t.maxtw = 4096 >> sh; int maxarea = (4096 * 2304) >> (2 * sh);
        t.minl2c = tl2(t.maxtw, sbc); t.maxl2c = tl2(1, std::min(sbc, 64)); t.maxl2r = tl2(1, std::min(sbr, 64));
        t.minl2 = std::max(t.minl2c, tl2(maxarea, sbr * sbc));
        int want = tool(T_MULTITILE) ? (int)k.tilelog2 : 0;
        t.uniform = r.pct(60);
        if (t.uniform) {
            int hi = std::min(t.maxl2c, std::max(want, t.minl2c)); t.log2c = r.range(t.minl2c, hi); 
            int tw = (sbc + (1 << t.log2c) - 1) >> t.log2c; int i = 0; for (int x = 0; x < sbc; x += tw) t.cs[i++] = x; t.cs[i] = sbc; t.cols = i;
            int minl2r = std::max(t.minl2 - t.log2c, 0);
            hi = std::min(t.maxl2r, std::max(want, minl2r)); t.log2r = r.range(minl2r, hi);
            int th = (sbr + (1 << t.log2r) - 1) >> t.log2r; i = 0; for (int y = 0; y < sbr; y += th) t.rs[i++] = y; t.rs[i] = sbr; t.rows = i;
            int lc = tl2(1, t.cols), lr = tl2(1, t.rows);
            // TileColsLog2 as coded is kept for tile number lengths (the syntax recomputes nothing for uniform spacing)
            (void)lc; (void)lr;
        } else {
            int i = 0, x = 0, widest = 0; int maxc = std::max(1, 1 << want);
            while (x < sbc) { int mx = std::min(sbc - x, t.maxtw); int w = i >= maxc - 1 ? mx : r.range(1, mx); if (i >= 62) w = mx; t.cs[i++] = x; x += w; widest = std::max(widest, w); }
            t.cs[i] = sbc; t.cols = i;
            int area = t.minl2 ? (sbr * sbc) >> (t.minl2 + 1) : sbr * sbc, maxh = std::max(area / widest, 1);
            i = 0; int y = 0; while (y < sbr) { int mx = std::min(sbr - y, maxh); int hh = i >= maxc - 1 ? mx : r.range(1, mx); t.rs[i++] = y; y += hh; }
            t.rs[i] = sbr; t.rows = i;
            t.log2c = tl2(1, t.cols); t.log2r = tl2(1, t.rows);
        }
        t.update = r.below(t.cols * t.rows);
    }

    void compute_lossless(FrameHdr &h) {
        bool all = true;
        for (int i = 0; i < 8; i++) {
            int q = h.seg.enabled ? clip3(0, 255, h.q.yac + h.seg.d[i].delta_q) : h.q.yac; h.qidx[i] = q;
            h.lossless[i] = !q && !h.q.ydc && !h.q.udc && !h.q.uac && !h.q.vdc && !h.q.vac; if (!h.lossless[i]) all = false;
        }
        h.coded_lossless = all; h.all_lossless = all && h.w == h.upscaled_w;
    }

    void gen_fg(Rng &r, FrameHdr &h) {
        FilmGrain g; const SeqHdr &s = seq;
        if (s.film_grain && (h.show_frame || h.showable)) {
            g.apply = r.pct(85);
            if (g.apply) {
                g.seed = r.below(65536); g.update = 1;
                if (h.frame_type == INTER_FRAME) {
                    g.update = r.pct(60);
                    if (!g.update) { std::vector<int> c; for (int i : h.refidx) if (ref[i].fg.apply) c.push_back(i); if (c.empty()) g.update = 1; else { u32 sd = g.seed; int ri = c[r.below(c.size())]; g = ref[ri].fg; g.apply = 1; g.update = 0; g.seed = sd; g.ref_idx = ri; h.fg = g; return; } }
                }
                auto points = [&](u8 (*p)[2], int mx) { int n = r.pct(15) ? 0 : r.pct(30) ? 1 : r.range(1, mx); std::vector<int> xs; while ((int)xs.size() < n) { int v = r.pct(10) ? (r.below(2) ? 0 : 255) : r.below(256); if (std::find(xs.begin(), xs.end(), v) == xs.end()) xs.push_back(v); } std::sort(xs.begin(), xs.end()); for (int i = 0; i < n; i++) { p[i][0] = xs[i]; p[i][1] = r.pct(15) ? (r.below(2) ? 0 : 255) : r.below(256); } return n; };
                g.num_y = points(g.y, 14);
                if (!s.mono) g.csfl = r.pct(30);
                if (!(s.mono || g.csfl || (s.ssx && s.ssy && !g.num_y))) { 
                    for (int p = 0; p < 2; p++) g.num_uv[p] = points(g.uv[p], 10);
                    // 4:2:0 requires both or neither chroma planes to be scaled
                    if (s.ssx && s.ssy && !g.num_uv[0] != !g.num_uv[1]) { int p = g.num_uv[0] ? 1 : 0; g.num_uv[p] = 1; g.uv[p][0][0] = r.below(256); g.uv[p][0][1] = r.below(256); }
                }
                g.scaling_shift = r.range(8, 11); g.ar_lag = r.range(0, 3);
                int np = 2 * g.ar_lag * (g.ar_lag + 1);
                int amp = r.pct(30) ? 128 : r.pct(50) ? 24 : 6;
                auto co = [&]() { int v = r.range(-amp, amp); return clip3(-128, 127, v); };
                if (g.num_y) for (int i = 0; i < np; i++) g.ar_y[i] = co();
                for (int p = 0; p < 2; p++) if (g.csfl || g.num_uv[p]) for (int i = 0; i < np + !!g.num_y; i++) g.ar_uv[p][i] = co();
                g.ar_shift = r.range(6, 9); g.scale_shift = r.range(0, 3);
                for (int p = 0; p < 2; p++) if (g.num_uv[p]) { g.uv_mult[p] = r.range(-128, 127); g.uv_luma_mult[p] = r.range(-128, 127); g.uv_offset[p] = r.range(-256, 255); }
                g.overlap = r.below(2); g.clip = r.below(2);
            }
        }
        h.fg = g;
    }

    bool ref_size_ok(int w, int h, const RefFrame &f) { return 2 * w >= f.hdr.upscaled_w && 2 * h >= f.hdr.h && w <= 16 * f.hdr.upscaled_w && h <= 16 * f.hdr.h; }

    bool slot_ok(int i, int tid, int sid) { return ref[i].valid && slotT[i] <= tid && slotS[i] <= sid; }

    void gen_frame_hdr(Rng &r, FrameHdr &h, int type, bool show, int tid, int sid, bool layered) {
        const SeqHdr &s = seq; h = FrameHdr();
        h.frame_type = type; h.show_frame = show; h.temporal_id = tid; h.spatial_id = sid;
        h.showable = show ? type != KEY_FRAME : (r.pct(80));
        if (s.reduced || (k.sviol == 6 && !show)) h.showable = 0;
        const bool intra = h.intra();
        h.error_res = type == SWITCH_FRAME || (type == KEY_FRAME && show) ? 1 : (!layered && en(r, T_ERRRES, 15));
        if (s.reduced) h.error_res = 1;
        h.disable_cdf_update = en(r, T_CDFUPDATE, 12);
        h.scc = s.scc == 2 ? ((tool(T_PALETTE) || tool(T_INTRABC) || tool(T_INTMV)) && r.pct((k.force >> T_PALETTE & 1) || (k.force >> T_INTRABC & 1) ? 95 : 45)) : s.scc;
        h.imv = h.scc ? (s.imv == 2 ? en(r, T_INTMV, 30) : s.imv) : 0;
        // frame id
        if (s.frame_id_present) { if (type == KEY_FRAME && show) frame_id = r.below(1u << s.frame_id_n_bits); else frame_id = (frame_id + 1 + r.below(2)) & ((1u << s.frame_id_n_bits) - 1); h.frame_id = frame_id; }
        if (s.decoder_model_info_present && !s.equal_picture_interval) h.presentation_delay = (u32)(r.next() & ((1ull << s.frame_presentation_time_length) - 1));
        if (s.order_hint) { int m = (1 << s.order_hint_n_bits) - 1; h.order_hint = (clock + (show ? 0 : r.range(1, 3))) & m; if (r.pct(8)) h.order_hint = r.below(m + 1); }
        if (type == KEY_FRAME && show) { h.refresh = 0xff; }
        else if (type == SWITCH_FRAME) h.refresh = 0xff;
        else { h.refresh = r.pct(25) ? 1 << r.below(8) : r.pct(15) ? 0 : r.below(256); if (type == INTRA_ONLY_FRAME && h.refresh == 0xff) h.refresh = 0x7f; if (!show && !h.refresh) h.refresh = 1 << r.below(8); }
        if (type == INTRA_ONLY_FRAME && h.refresh == 0xff) h.refresh = 0xfe;
        if (k.sviol == 5 && type == INTRA_ONLY_FRAME && !layered) { h.refresh = 0xff; if (out.sviol_at < 0) out.sviol_at = (int)out.frames.size(); }
        if (layered && !(type == KEY_FRAME && show)) { // keep the slot groups apart
            h.refresh &= (tid == 0 && sid == 0) ? 0x0f : 0xf0;
        }
        if (s.reduced) h.refresh = 0xff;
        if (s.decoder_model_info_present) { h.buffer_removal_time_present = r.below(2); for (int i = 0; i < s.nop; i++) h.buffer_removal_time[i] = (u32)(r.next() & ((1ull << s.buffer_removal_time_length) - 1)); }
        // references
        if (!intra) {
            std::vector<int> ok; for (int i = 0; i < 8; i++) if (slot_ok(i, tid, sid)) {
                if (s.frame_id_present) { u32 d = (h.frame_id - ref[i].hdr.frame_id) & ((1u << s.frame_id_n_bits) - 1); if (d == 0 || d > (1u << s.delta_frame_id_n_bits)) continue; }
                ok.push_back(i);
            }
            if (ok.empty()) { // only possible with frame ids: fall back to an id next to slot 0's
                h.frame_id = frame_id = (ref[0].hdr.frame_id + 1) & ((1u << s.frame_id_n_bits) - 1); for (int i = 0; i < 8; i++) if (ref[i].valid) { u32 d = (h.frame_id - ref[i].hdr.frame_id) & ((1u << s.frame_id_n_bits) - 1); if (d && d <= (1u << s.delta_frame_id_n_bits)) ok.push_back(i); }
            }
            for (int i = 0; i < 7; i++) h.refidx[i] = ok[r.below(ok.size())];
            if (s.order_hint && !layered && !s.frame_id_present && en(r, T_SHORTSIG, 20)) {
                int l = -1, g = -1;
                for (int i = 0; i < 8; i++) if (rel_dist(s, ref[i].hdr.order_hint, h.order_hint) < 0) { if (l < 0 || r.below(2)) l = i; if (g < 0 || r.below(2)) g = i; }
                bool allv = true; for (auto &f : ref) allv &= f.valid;
                if (l >= 0 && allv) { h.short_sig = 1; h.refidx[0] = l; h.refidx[3] = g; set_frame_refs(h); }
            }
        }
        // sizes
        bool forced_ovr = type == SWITCH_FRAME;
        for (int attempt = 0;; attempt++) {
            h.found_ref = -1; h.use_superres = 0; h.superres_denom = 8;
            h.frame_size_override = forced_ovr || (!s.reduced && attempt < 4 && en(r, T_SIZECHANGE, 25));
            if (s.reduced) h.frame_size_override = 0;
            h.upscaled_w = s.max_w; h.h = s.max_h; bool rs_done = false;
            if (layered && sid < ns - 1 && !forced_ovr && attempt < 4 && tool(T_SIZECHANGE) && r.pct(60)) { h.frame_size_override = 1; }
            if (h.frame_size_override) {
                if (!intra && !h.error_res && r.pct(50)) {
                    int i = r.below(7); const RefFrame &f = ref[h.refidx[i]];
                    // the first matching index in reading order is the one coded
                    h.found_ref = i; h.have_render = 0; h.upscaled_w = f.hdr.upscaled_w; h.h = f.hdr.h; h.render_w = f.hdr.render_w; h.render_h = f.hdr.render_h; rs_done = true;
                } else if (attempt < 4 || !forced_ovr) {
                    bool sc = tool(T_SCALEDREF) || intra;
                    if (sc && r.pct(80)) { h.upscaled_w = r.range((s.max_w + 1) / 2, s.max_w); h.h = r.range((s.max_h + 1) / 2, s.max_h); if (r.pct(30)) h.upscaled_w = s.max_w; if (r.pct(30)) h.h = s.max_h; }
                }
            }
            if (s.super_res && attempt < 6 && r.pct((k.force >> T_SUPERRES) & 1 ? 80 : 45)) { int d = r.range(9, 16); if (superres_w(h.upscaled_w, d) >= 16) { h.use_superres = 1; h.superres_denom = d; } }
            h.w = superres_w(h.upscaled_w, h.superres_denom);
            if (!rs_done) { h.render_w = h.upscaled_w; h.render_h = h.h; h.have_render = en(r, T_RENDER, 15); if (h.have_render) { h.render_w = r.range(1, 65536); h.render_h = r.range(1, 65536); } }
            bool good = true;
            if (!intra) for (int i : h.refidx) {
                if (!ref_size_ok(h.w, h.h, ref[i])) good = false;
                if (!tool(T_SCALEDREF) && (ref[i].hdr.upscaled_w != h.w || ref[i].hdr.h != h.h)) good = false;
            }
            if (good) break;
            if (attempt >= 8) { // make every reference the one whose size fits
                int best = -1; for (int i : h.refidx) { if (h.frame_size_override == 0 || 1) { if (ref_size_ok(h.w, h.h, ref[i]) && (tool(T_SCALEDREF) || (ref[i].hdr.upscaled_w == h.w && ref[i].hdr.h == h.h))) best = i; } }
                if (best < 0) for (int i = 0; i < 8; i++) if (slot_ok(i, tid, sid) && ref_size_ok(h.w, h.h, ref[i])) {
                    if (s.frame_id_present) { u32 d = (h.frame_id - ref[i].hdr.frame_id) & ((1u << s.frame_id_n_bits) - 1); if (d == 0 || d > (1u << s.delta_frame_id_n_bits)) continue; }
                    if (tool(T_SCALEDREF) || (ref[i].hdr.upscaled_w == h.w && ref[i].hdr.h == h.h)) best = i; }
                if (best < 0) { // code the size of a reference explicitly
                    best = h.refidx[0]; h.upscaled_w = ref[best].hdr.upscaled_w; h.h = ref[best].hdr.h; h.w = h.upscaled_w; h.use_superres = 0; h.superres_denom = 8; h.frame_size_override = 1; h.found_ref = -1; h.have_render = 0; h.render_w = h.upscaled_w; h.render_h = h.h;
                }
                h.short_sig = 0; for (int &i : h.refidx) i = best;
                if (h.found_ref >= 0) h.found_ref = 0, h.upscaled_w = ref[best].hdr.upscaled_w, h.h = ref[best].hdr.h, h.w = superres_w(h.upscaled_w, h.superres_denom), h.render_w = ref[best].hdr.render_w, h.render_h = ref[best].hdr.render_h;
                break;
            }
        }
        h.size_derive();
        if (!intra) for (int i = 1; i < 8; i++) { h.order_hints[i] = ref[h.refidx[i - 1]].hdr.order_hint; h.sign_bias[i] = s.order_hint && rel_dist(s, h.order_hints[i], h.order_hint) > 0; }
        if (!(intra || h.error_res)) {
            h.primary_ref = 7;
            if (!r.pct(20)) { std::vector<int> c; for (int i = 0; i < 7; i++) c.push_back(i); h.primary_ref = c[r.below(c.size())]; }
        }
        const RefFrame *prim = h.primary_ref == 7 ? nullptr : &ref[h.refidx[h.primary_ref]];
        if (intra) { if (h.scc && h.upscaled_w == h.w) h.intrabc = en(r, T_INTRABC, 50); }
        else {
            h.hp = h.imv ? 0 : en(r, T_HPMV, 50);
            h.filter = r.pct(60) ? 4 : r.range(0, 3);
            h.switchable_motion = (tool(T_OBMC) || tool(T_WARP)) && r.pct(80);
            h.use_ref_mvs = !h.error_res && s.ref_frame_mvs && en(r, T_REFMVS, 75);
        }
        h.refresh_ctx = (s.reduced || h.disable_cdf_update) ? 0 : !r.pct(25);
        tile_info(r, h);
        // quantiser
        {
            auto dq = [&]() { return r.pct(60) ? 0 : r.range(-63, 63); };
            if (k.qidx >= 0) h.q.yac = (int)k.qidx; else h.q.yac = r.pct(12) ? r.range(1, 255) : r.pct(30) ? r.range(1, 30) : r.pct(60) ? r.range(20, 140) : r.range(100, 255);
            bool ll = en(r, T_LOSSLESS, 10);
            if (ll) h.q.yac = 0;
            if (!ll || r.pct(20)) { h.q.ydc = dq(); if (!s.mono) { h.q.udc = dq(); h.q.uac = dq(); h.q.diff_uv = s.separate_uv_dq && r.below(2); if (h.q.diff_uv) { h.q.vdc = dq(); h.q.vac = dq(); } else { h.q.vdc = h.q.udc; h.q.vac = h.q.uac; } } }
            if (!tool(T_LOSSLESS) && h.q.yac == 0) h.q.yac = 1;
            h.q.qm = en(r, T_QM, 30);
            if (h.q.qm) { h.q.qmy = r.range(0, 15); h.q.qmu = r.range(0, 15); h.q.qmv = s.separate_uv_dq ? r.range(0, 15) : h.q.qmu; }
        }
        // segmentation
        {
            Seg &g = h.seg; g.enabled = en(r, T_SEG, 35);
            if (g.enabled) {
                if (!prim) { g.update_map = 1; g.temporal = 0; g.update_data = 1; }
                else { g.update_map = r.pct(70); g.temporal = g.update_map && en(r, T_TEMPORALSEG, 50); g.update_data = r.pct(60); }
                if (!g.update_data) { // inherited
                    for (int i = 0; i < 8; i++) g.d[i] = prim->segd[i]; g.last_active = prim->seg.last_active; g.preskip = prim->seg.preskip; memcpy(g.en, prim->seg.en, sizeof g.en); memcpy(g.val, prim->seg.val, sizeof g.val);
                } else {
                    int active = r.range(0, 7);
                    bool noref = r.pct(50);
                    for (int i = 0; i <= active; i++) for (int j = 0; j < 8; j++) {
                        bool e = r.pct(j == 0 ? 50 : j < 5 ? 25 : 15); if (j >= 5 && noref) e = false;
                        if (!e) continue; 
                        g.en[i][j] = 1; int v = 0; if (seg_max[j]) { int mx = seg_max[j]; v = j == 5 ? r.range(0, 7) : r.pct(50) ? r.range(-mx, mx) : r.range(-mx / 4, mx / 4); if (j == 0 && en(r, T_LOSSLESS, 5)) v = -h.q.yac; }
                        // a segment reference or global motion / skip in an intra frame has no defined meaning for prediction: keep the intra reference there
                        if (j == 5 && intra) v = 0;
                        if (j == 7 && intra) { g.en[i][j] = 0; continue; }
                        if (j == 0 && !tool(T_LOSSLESS)) v = std::max(v, 1 - h.q.yac);
                        g.val[i][j] = v;
                    }
                    // a segment forced to the intra reference cannot also be skipped or forced to global motion
                    for (int i = 0; i < 8; i++) if (g.en[i][5] && g.val[i][5] == 0) { if (!intra) g.en[i][6] = 0; g.en[i][7] = 0; g.val[i][7] = 0; }
                    g.last_active = -1; g.preskip = 0;
                    for (int i = 0; i < 8; i++) { SegData &d = g.d[i]; d = SegData(); for (int j = 0; j < 8; j++) if (g.en[i][j]) { g.last_active = i; if (j >= 5) g.preskip = 1; }
                        if (g.en[i][0]) d.delta_q = g.val[i][0]; for (int j = 0; j < 4; j++) if (g.en[i][1 + j]) d.lf[j] = g.val[i][1 + j]; if (g.en[i][5]) d.ref = g.val[i][5]; d.skip = g.en[i][6]; d.globalmv = g.en[i][7]; }
                }
            }
        }
        h.dq_present = h.q.yac > 0 && en(r, T_DELTAQ, 25); if (h.dq_present) { h.dq_res = r.range(0, 3); if (!h.intrabc) { h.dlf_present = en(r, T_DELTALF, 60); if (h.dlf_present) { h.dlf_res = r.range(0, 3); h.dlf_multi = r.below(2); } } }
        compute_lossless(h);
        // loop filter
        h.lf.prev = prim ? prim->lfd : LfDelta(); h.lf.d = h.lf.prev;
        if (h.coded_lossless || h.intrabc) { h.lf.d = LfDelta(); h.lf.delta_enabled = 1; h.lf.delta_update = 1; }
        else {
            if (en(r, T_DEBLOCK, 80)) { h.lf.level[0] = r.pct(20) ? 0 : r.range(0, 63); h.lf.level[1] = r.pct(20) ? 0 : r.range(0, 63); h.lf.lu = r.pct(20) ? 0 : r.range(0, 63); h.lf.lv = r.pct(20) ? 0 : r.range(0, 63); if (s.mono || (!h.lf.level[0] && !h.lf.level[1])) h.lf.lu = h.lf.lv = 0; }
            h.lf.sharp = r.pct(40) ? 0 : r.range(0, 7); h.lf.delta_enabled = r.pct(70);
            if (h.lf.delta_enabled) { h.lf.delta_update = r.pct(60); if (h.lf.delta_update) { for (int i = 0; i < 8; i++) if ((h.lf.upd_ref[i] = r.pct(30))) h.lf.d.ref[i] = r.range(-63, 63); for (int i = 0; i < 2; i++) if ((h.lf.upd_mode[i] = r.pct(30))) h.lf.d.mode[i] = r.range(-63, 63); } }
        }
        if (!h.coded_lossless && !h.intrabc && s.cdef) {
            h.cdef.damping = r.range(3, 6); h.cdef.bits = r.range(0, 3); bool any = en(r, T_CDEF, 90);
            for (int i = 0; i < 1 << h.cdef.bits; i++) { h.cdef.y[i] = any && !r.pct(20) ? r.below(64) : 0; h.cdef.uv[i] = any && !s.mono && !r.pct(20) ? r.below(64) : 0; }
        }
        if (!h.all_lossless && !h.intrabc && s.restoration) {
            bool uses = false, uc = false;
            for (int i = 0; i < s.planes(); i++) { h.lr.type[i] = en(r, T_LR, 75) ? r.range(1, 3) : 0; if (h.lr.type[i]) { uses = true; if (i) uc = true; } }
            if (uses) { h.lr.shift = s.sb128 ? r.range(1, 2) : r.range(0, 2); if (s.ssx && s.ssy && uc) h.lr.uvshift = r.below(2); h.lr.size[0] = 6 + h.lr.shift; h.lr.size[1] = h.lr.size[2] = h.lr.size[0] - h.lr.uvshift; }
        }
        h.tx_select = h.coded_lossless ? 0 : r.pct(75);
        if (!intra) h.comp_ref = en(r, T_COMPOUND, 75);
        // skip mode (5.9.22)
        h.skip_mode_allowed = 0;
        if (!intra && h.comp_ref && s.order_hint) {
            int fi = -1, fh = 0, bi = -1, bh = 0;
            for (int i = 0; i < 7; i++) { int rh = ref[h.refidx[i]].hdr.order_hint; int d = rel_dist(s, rh, h.order_hint); if (d < 0) { if (fi < 0 || rel_dist(s, rh, fh) > 0) { fi = i; fh = rh; } } else if (d > 0) { if (bi < 0 || rel_dist(s, rh, bh) < 0) { bi = i; bh = rh; } } }
            if (fi >= 0 && bi >= 0) { h.skip_mode_allowed = 1; h.skip_mode_refs[0] = 1 + std::min(fi, bi); h.skip_mode_refs[1] = 1 + std::max(fi, bi); }
            else if (fi >= 0) { int si = -1, shh = 0; for (int i = 0; i < 7; i++) { int rh = ref[h.refidx[i]].hdr.order_hint; if (rel_dist(s, rh, fh) < 0 && (si < 0 || rel_dist(s, rh, shh) > 0)) { si = i; shh = rh; } } if (si >= 0) { h.skip_mode_allowed = 1; h.skip_mode_refs[0] = 1 + std::min(fi, si); h.skip_mode_refs[1] = 1 + std::max(fi, si); } }
        }
        h.skip_mode = h.skip_mode_allowed && en(r, T_SKIPMODE, 80);
        if (!(intra || h.error_res || !s.warped_motion)) h.warp_motion = en(r, T_WARP, 85);
        h.reduced_tx = en(r, T_REDUCEDTX, 15);
        // global motion
        for (int i = 1; i < 8; i++) { h.prev_gm[i] = prim ? prim->gm[i] : Gm(); h.gm[i] = Gm(); }
        if (!intra) for (int i = 1; i < 8; i++) {
            if (!en(r, T_GM, 35)) continue;
            for (int tries = 0; tries < 6; tries++) {
                Gm g; g.type = r.range(1, 3); 
                auto near0 = [&](int mx) { return r.pct(10) ? r.range(-mx, mx) : r.pct(50) ? r.range(-mx / 32, mx / 32) : r.range(-mx / 8, mx / 8); };
                if (g.type >= 2) { g.m[2] = (near0(1 << 12) << 1) + (1 << 16); g.m[3] = near0(1 << 12) << 1; if (g.type == 3) { g.m[4] = near0(1 << 12) << 1; g.m[5] = (near0(1 << 12) << 1) + (1 << 16); } else { g.m[4] = -g.m[3]; g.m[5] = g.m[2]; } }
                if (g.type == 1) { int ab = 9 - !h.hp, pd = 16 - (3 - !h.hp); g.m[0] = near0(1 << ab) * (1 << pd); g.m[1] = near0(1 << ab) * (1 << pd); }
                else { g.m[0] = near0(1 << 12) * 1024; g.m[1] = near0(1 << 12) * 1024; }
                if (g.type >= 2) { int o[4]; if (!shear_params(g, o) && !r.pct(10)) continue; }
                h.gm[i] = g; break;
            }
        }
        gen_fg(r, h);
        if (seq.film_grain == 0) h.fg = FilmGrain();
    }

    // 7.20
    void update_refs(const RefFrame &rf, int refresh, int tid, int sid) { for (int i = 0; i < 8; i++) if (refresh >> i & 1) { ref[i] = rf; slotT[i] = tid; slotS[i] = sid; } }

    void add_obu(TU &tu, Rng &r, int type, std::vector<u8> payload, int tid, int sid, bool ext, int frame) {
        Obu o; o.type = type; o.payload = std::move(payload); o.ext = ext; o.tid = tid; o.sid = sid; o.frame = frame;
        o.has_size = 1; if (en(r, T_PADDING, 8)) o.has_size = 1 + r.range(1, 2);
        tu.obus.push_back(std::move(o));
    }
    void add_metadata(TU &tu, Rng &r, int tid, int sid, bool layered) { // in layered streams T.35 messages belong to the layer of the next frame
        int what = r.below(3);
        BitWriter w;
        if (what == 0) { w.f(1, 8); meta.cll = true; meta.max_cll = r.below(65536); meta.max_fall = r.below(65536); w.f(meta.max_cll, 16); w.f(meta.max_fall, 16); w.trailing(); }
        else if (what == 1) { w.f(2, 8); meta.mdcv = true; for (auto &p : meta.prim) for (auto &x : p) { x = r.below(65536); w.f(x, 16); } for (auto &x : meta.wp) { x = r.below(65536); w.f(x, 16); } meta.maxl = (u32)r.next(); meta.minl = (u32)r.next(); w.f(meta.maxl, 32); w.f(meta.minl, 32); w.trailing(); }
        else { w.f(4, 8); Meta::T35 t; t.cc = r.pct(20) ? 0xff : r.below(255); w.f(t.cc, 8); if (t.cc == 0xff) { t.ext = r.below(256); w.f(t.ext, 8); } int n = r.range(1, 40); for (int i = 0; i < n; i++) { u8 b = r.below(256); t.p.push_back(b); w.f(b, 8); } w.trailing(); meta.t35.push_back(t); }
        if (layered && what == 2) add_obu(tu, r, 5, std::move(w.b), tid, sid, true, -1); else add_obu(tu, r, 5, std::move(w.b), 0, 0, false, -1);
    }
    void put_seq(TU &tu, Rng &r) { BitWriter w; write_seq_hdr(w, seq); add_obu(tu, r, 1, std::move(w.b), 0, 0, false, -1); }

    void emit_frame(TU &tu, Rng &r, FrameHdr &h, u64 fseed, bool ext) {
        RefFrame rf; std::vector<std::vector<u8>> tiles;
        int ntiles = h.tile.cols * h.tile.rows;
        if (k.model) code_frame(k, mo, fseed, seq, h, ref, rf, tiles, out.st);
        else {
            Rng tr(subseed(fseed, 77)); tiles.resize(ntiles);
            for (auto &t : tiles) { int area = (h.w * h.h) / ntiles; int n = std::max(16, (int)(area * tr.range(5, 40) / 100)); if (k.randbytes) n = (int)k.randbytes; t.resize(n); int bias = tr.below(4); for (auto &b : t) { b = (u8)tr.next(); if (bias == 1 && tr.pct(30)) b = 0; if (bias == 2 && tr.pct(30)) b = 0xff; } if (tr.pct(70)) { for (int i = 0; i < 64; i++) t.push_back(0); } }
            rf.mi_cols = h.mi_cols; rf.mi_rows = h.mi_rows; for (int i = 1; i < 8; i++) { rf.saved_order_hints[i] = h.order_hints[i]; rf.gm[i] = h.gm[i]; }
            rf.lfd = h.lf.d; for (int i = 0; i < 8; i++) rf.segd[i] = h.seg.d[i]; rf.seg = h.seg;
        }
        if ((int)tiles.size() != ntiles) die("tile count");
        rf.valid = true; rf.seq = seq; rf.hdr = h; rf.fg = h.fg; rf.showable = h.showable || (k.sviol == 6 && !h.show_frame); rf.fno = fcount++;
        size_t mx = 0; for (auto &t : tiles) mx = std::max(mx, t.size());
        int nb = mx - 1 < 256 ? 1 : mx - 1 < 65536 ? 2 : mx - 1 < (1 << 24) ? 3 : 4; h.tile.n_bytes = r.range(nb, 4); rf.hdr = h;
        // tile groups
        std::vector<std::pair<int, int>> tg; 
        if (ntiles > 1 && en(r, T_MULTITG, 40)) { int a = 0; while (a < ntiles) { int b = r.range(a, ntiles - 1); tg.push_back({a, b}); a = b + 1; } } else tg.push_back({0, ntiles - 1});
        std::vector<u32> marks;
        auto tgbytes = [&](BitWriter &w, int a, int b) {
            marks.clear();
            bool multi = ntiles > 1;
            if (multi) { bool present = tg.size() > 1 || r.pct(20); w.bit(present); if (present) { int n = h.tile.log2c + h.tile.log2r; w.f(a, n); w.f(b, n); } }
            w.align();
            for (int i = a; i <= b; i++) { marks.push_back((u32)w.b.size()); if (i != b) { size_t sz = tiles[i].size() - 1; for (int j = 0; j < h.tile.n_bytes; j++) w.f((sz >> (8 * j)) & 255, 8); } w.b.insert(w.b.end(), tiles[i].begin(), tiles[i].end()); }
        };
        BitWriter w; write_frame_hdr(w, seq, h, ref);
        int fno = rf.fno;
        bool one = r.pct(65); int obu0 = 0;
        if (one) { w.align(); tgbytes(w, tg[0].first, tg[0].second); add_obu(tu, r, 6, std::move(w.b), h.temporal_id, h.spatial_id, ext, fno); tu.obus.back().marks = marks; obu0 = (int)tu.obus.size() - 1; }
        else {
            BitWriter hw = w; hw.trailing(); add_obu(tu, r, 3, hw.b, h.temporal_id, h.spatial_id, ext, fno);
            if (en(r, T_PADDING, 5)) { BitWriter p; for (int i = r.range(0, 9); i > 0; i--) p.f(r.below(256), 8); p.trailing(); add_obu(tu, r, 15, p.b, h.temporal_id, h.spatial_id, ext, -1); }
            if (r.pct(10) ) add_obu(tu, r, 7, hw.b, h.temporal_id, h.spatial_id, ext, fno);
            BitWriter tw; tgbytes(tw, tg[0].first, tg[0].second); add_obu(tu, r, 4, std::move(tw.b), h.temporal_id, h.spatial_id, ext, fno); tu.obus.back().marks = marks; obu0 = (int)tu.obus.size() - 1;
            w = hw;
        }
        for (size_t i = 1; i < tg.size(); i++) {
            if (!one && r.pct(10)) add_obu(tu, r, 7, w.b, h.temporal_id, h.spatial_id, ext, fno);
            BitWriter tw; tgbytes(tw, tg[i].first, tg[i].second); add_obu(tu, r, 4, std::move(tw.b), h.temporal_id, h.spatial_id, ext, fno); tu.obus.back().marks = marks;
        }
        OutFrame of; of.rf = rf; of.seqno = (int)out.seqs.size() - 1; of.fg = h.fg; of.shown = h.show_frame; of.fno = fno; of.tid = h.temporal_id; of.sid = h.spatial_id; if (h.show_frame) { of.meta = meta; meta.t35.clear(); } of.tu = (int)out.tus.size(); of.obu = (int)tu.obus.size() - 1; of.obu0 = obu0; of.events = evflags; of.events_inv = evinv; { int idc = seq.op[0].idc, mx = 0; for (int q = idc >> 8; q > 1; q >>= 1) mx++; bool in = !idc || ((idc >> h.temporal_id & 1) && (idc >> (8 + h.spatial_id) & 1)); if (in && h.spatial_id == mx) { evinv = 0; if (h.show_frame) evflags = 0; } } /* (as operating point 0 sees it) */
        out.frames.push_back(of);
        out.st.inc("frames"); out.st.inc(h.frame_type == 0 ? "key" : h.frame_type == 1 ? "inter" : h.frame_type == 2 ? "intraonly" : "switch");
        if (!h.show_frame) out.st.inc("hidden"); if (h.use_superres) out.st.inc("superres"); if (h.seg.enabled) out.st.inc("seg"); if (h.intrabc) out.st.inc("intrabc_frames"); if (ntiles > 1) out.st.inc("multitile"); if (h.fg.apply) out.st.inc("filmgrain"); if (h.coded_lossless) out.st.inc("lossless");
        int refresh = h.refresh;
        update_refs(rf, refresh, h.temporal_id, h.spatial_id);
    }

    // a temporal unit whose only sequence or frame header has a value the standard forbids
    void violation(Rng &r) {
        TU tu; { Obu td; td.type = 2; tu.obus.push_back(td); } const u32 fid = frame_id; const Stream &o = out; (void)o; const bool layered = ns > 1 || nt > 1; std::string what;
        auto put = [&](int type, std::vector<u8> b) { Obu x; x.type = type; x.payload = std::move(b); if (layered) x.ext = 1; tu.obus.push_back(x); };
        auto junk = [&](BitWriter &w) { w.align(); for (int i = r.range(1, 60); i > 0; i--) w.f(r.below(256), 8); };
        auto tile = [&](BitWriter &w, int nb, int a, int b) { w.align(); for (int i = a; i <= b; i++) { if (i < b) { w.f(7, 8); for (int q = 1; q < nb; q++) w.f(0, 8); } for (int q = 0; q < 8; q++) w.f(r.below(256), 8); } };
        for (int tries = 0; tries < 30 && what.empty(); tries++) {
            int kind = r.pct(15) ? 7 : r.below(19); frame_id = fid; 
            if (kind < 5) {
                SeqHdr q = seq; BitWriter w;
                if (kind == 0) { q.profile = r.range(3, 7); what = "profile"; }
                else if (kind == 1) { if (q.nop > 1) continue; q.reduced = 1; q.still_picture = 0; what = "reduced header without still picture"; }
                else if (kind == 2) { if (q.reduced) continue; if (!q.timing_info_present) { q.timing_info_present = 1; q.num_units_in_display_tick = 1; q.time_scale = 25; } q.equal_picture_interval = 1; q.num_ticks_per_picture_minus_1 = 0xffffffffu; what = "ticks per picture"; }
                else if (kind == 3) { if (q.reduced) continue; int i = r.below(q.nop); q.op[i].idc = r.below(2) ? 1 + r.below(255) : (1 + r.below(15)) << 8; what = "operating point without layers of one kind"; }
                else { if (q.mono || q.profile == 1 || (q.profile == 2 && q.hbd == 2)) continue; q.color_desc = 1; q.pri = 1; q.trc = 13; q.mtrx = 0; what = "sRGB in a profile without 4:4:4"; }
                write_seq_hdr(w, q); put(1, w.b); break;
            }
            if (seq.reduced || seq.still_picture) continue;
            RefFrame re[8]; for (int i = 0; i < 8; i++) { re[i].valid = ref[i].valid; re[i].hdr = ref[i].hdr; }
            FrameHdr h; BitWriter w; bool grain = kind >= 8 && kind <= 13; int type = kind == 6 || kind == 13 || kind == 14 ? INTER_FRAME : pick_type(r, true); bool valid = true; for (auto &x : ref) valid &= x.valid; if (!valid) continue;
            if (kind == 5 || kind == 15) {
                if (kind == 5 && !seq.frame_id_present) continue;
                h.show_existing = 1; h.show_existing_idx = r.below(8); h.frame_id = ref[h.show_existing_idx].hdr.frame_id; if (kind == 5) h.frame_id ^= 1u << r.below(seq.frame_id_n_bits);
                write_frame_hdr(w, seq, h, ref); if (kind == 5) { w.trailing(); put(3, w.b); what = "frame id of an existing frame"; } else { if (r.pct(50)) w.trailing(); junk(w); put(6, w.b); what = "existing frame in a frame OBU"; } break;
            }
            gen_frame_hdr(r, h, type, true, 0, 0, layered); FilmGrain &g = h.fg;
            if (grain) { if (!seq.film_grain) continue; if (!g.apply || (!g.update && h.frame_type == INTER_FRAME)) { g = FilmGrain(); g.apply = 1; g.update = 1; g.seed = 5; } }
            if (kind == 6) { if (!seq.frame_id_present || h.short_sig) continue; int i = r.below(7), sl = h.refidx[i]; u32 m = (1u << seq.frame_id_n_bits) - 1, d = 1 + r.below(1u << seq.delta_frame_id_n_bits); if (((h.frame_id - d) & m) == (re[sl].hdr.frame_id & m)) continue; re[sl].hdr.frame_id = (h.frame_id - d) & m; what = "frame id of a reference"; }
            else if (kind == 7) { auto &t = h.tile; int n = 1 << (t.log2c + t.log2r); if (t.cols * t.rows >= n) continue; t.update = r.range(t.cols * t.rows, n - 1); what = "context update tile"; }
            else if (kind == 8) { g.num_y = 15; for (int i = 0; i < 14; i++) g.y[i][0] = (u8)(i * 9); what = "15 luma points"; }
            else if (kind == 9) { g.num_y = r.range(2, 14); for (int i = 0; i < g.num_y; i++) g.y[i][0] = (u8)(i * 9 + 1); int i = r.range(1, g.num_y - 1); g.y[i][0] = g.y[i - 1][0] - r.below(2); if (i + 1 < g.num_y && r.pct(30)) g.y[i + 1][0] = 255; what = "luma points not increasing"; }
            else if (kind >= 10 && kind <= 12) {
                if (seq.mono) continue; g.csfl = 0; if (!g.num_y) { g.num_y = 1; g.y[0][0] = 9; } for (int p = 0; p < 2; p++) { if (!g.num_uv[p]) g.num_uv[p] = 1; for (int i = 0; i < g.num_uv[p]; i++) g.uv[p][i][0] = (u8)(i * 20 + 3); }
                int p = r.below(2);
                if (kind == 10) { g.num_uv[p] = r.range(11, 15); for (int i = 0; i < 10; i++) g.uv[p][i][0] = (u8)(i * 20); what = "more than 10 chroma points"; }
                else if (kind == 11) { g.num_uv[p] = r.range(2, 10); for (int i = 0; i < g.num_uv[p]; i++) g.uv[p][i][0] = (u8)(i * 20 + 3); int i = r.range(1, g.num_uv[p] - 1); g.uv[p][i][0] = g.uv[p][i - 1][0] - r.below(2); what = "chroma points not increasing"; }
                else { if (!seq.ssx || !seq.ssy) continue; g.num_uv[p] = 0; what = "chroma points for one plane only"; }
            }
            else if (kind == 13) { if (h.frame_type != INTER_FRAME) continue; u32 used = 0; for (int i : h.refidx) used |= 1u << i; std::vector<int> un; for (int i = 0; i < 8; i++) if (!(used >> i & 1)) un.push_back(i); if (un.empty()) continue; g.update = 0; g.ref_idx = un[r.below((u32)un.size())]; what = "film grain of a frame that is not a reference"; }
            else if (kind == 14) { // a size that a reference cannot be scaled to
                if (h.frame_type != INTER_FRAME || h.short_sig) continue; const RefFrame &f = ref[h.refidx[r.below(7)]]; int rw = f.hdr.upscaled_w, rh = f.hdr.h; bool wide = r.below(2), big = r.pct(30); int nw = rw, nh = rh;
                if (big) { if (wide) nw = 16 * rw + 1 + r.below(9); else nh = 16 * rh + 1 + r.below(9); } else { if (wide) nw = (rw - 1) / 2 - (r.pct(70) ? 0 : r.below(4)); else nh = (rh - 1) / 2 - (r.pct(70) ? 0 : r.below(4)); }
                if (nw < 1 || nh < 1 || nw > 1 << seq.wbits || nh > 1 << seq.hbits || nw > 1500 || nh > 1500) continue;
                h.frame_size_override = 1; h.error_res = 0; h.found_ref = -1; h.use_superres = 0; h.superres_denom = 8; h.upscaled_w = h.w = nw; h.h = nh; h.have_render = 0; h.size_derive(); auto &t = h.tile; int sb = seq.sb128 ? 5 : 4, sbc = (h.mi_cols + (1 << sb) - 1) >> sb, sbr = (h.mi_rows + (1 << sb) - 1) >> sb; auto l2 = [](int n) { int q = 0; while ((1 << q) < n) q++; return q; };
                t.uniform = 1; t.minl2c = t.minl2 = t.log2c = t.log2r = 0; t.maxl2c = l2(std::min(sbc, 64)); t.maxl2r = l2(std::min(sbr, 64)); t.cols = t.rows = 1; what = "size out of range of a reference";
            }
            else if (kind == 16) { auto &t = h.tile; int n = t.cols * t.rows; if (n < 2) continue; int a = r.below(n), b = r.below(n); if (a == 0 && r.pct(50)) a = 1 + r.below(n - 1); if (a == 0 && b >= a) continue; write_frame_hdr(w, seq, h, re); w.align(); w.bit(1); w.f(a, t.log2c + t.log2r); w.f(b, t.log2c + t.log2r); junk(w); put(6, w.b); what = "first tile group starts elsewhere"; break; }
            else if (kind >= 17) { // a good first tile group, then one that ends before it starts or starts elsewhere
                auto &t = h.tile; t.n_bytes = r.range(1, 4); int n = t.cols * t.rows, tb = t.log2c + t.log2r; if (n < 2) continue; int e = r.below(n - 1), a = e + 1, b = a;
                if (kind == 17) b = r.below(a); else { a = r.below(n); if (a == e + 1) continue; b = r.range(a, n - 1); }
                write_frame_hdr(w, seq, h, re); w.align(); w.bit(1); w.f(0, tb); w.f(e, tb); tile(w, t.n_bytes, 0, e); put(6, w.b);
                BitWriter v; v.bit(1); v.f(a, tb); v.f(b, tb); junk(v); put(4, v.b); what = kind == 17 ? "second tile group ends before it starts" : "second tile group starts elsewhere"; break; }
            else continue;
            const int n = h.tile.cols * h.tile.rows; if (!h.tile.n_bytes) h.tile.n_bytes = r.range(1, 4); auto body = [&](BitWriter &q) { if (n > 1) q.bit(0); if (r.pct(20)) junk(q); else tile(q, h.tile.n_bytes, 0, n - 1); };
            write_frame_hdr(w, seq, h, re); if (r.pct(70)) { w.align(); body(w); put(6, w.b); } else { w.trailing(); put(3, w.b); BitWriter t; body(t); put(4, t.b); }
        }
        frame_id = fid; if (what.empty()) return; out.viols.push_back({(int)out.tus.size(), what}); out.tus.push_back(tu);
    }
    void run() {
        out.k = k;
        if (k.layers) { ns = 1 + (int)((k.layers >> 2) & 3); nt = 1 + (int)(k.layers & 3); }
        out.max_spatial = ns - 1;
        int left = std::max<int>(1, (int)k.nframes), nseq = std::max<int>(1, std::min<i64>(k.seqs, left));
        int per = left / nseq;
        for (int sq = 0; sq < nseq; sq++) {
            int n = sq == nseq - 1 ? left : per; left -= n;
            SeqHdr old = seq; Rng sr(subseed(k.seed, 1000 + sq)); gen_seq(sr, sq);
            int ch = sq ? seq_change(old, seq) : 2; if (ch == 2) { meta.cll = meta.mdcv = false; evflags |= 1; evinv |= 1; } else if (ch == 1) { evflags |= 2; evinv |= 2; }
            bool first = true; int tuno = 0;
            while (n > 0) {
                int fi = (int)out.frames.size();
                Rng r(subseed(k.seed, 2000 + sq, tuno)); tuno++;
                if (k.viol && (!first || sq)) { Rng v(subseed((u64)k.viol, 7000 + sq, tuno)); SeqHdr now = seq; if (first) seq = old; if (v.pct(45) && !first) violation(v); seq = now; }
                TU tu; { Obu td; td.type = 2; if (!en(r, T_OBUEXT, 0)) {} tu.obus.push_back(td); }
                if (!first && !seq.reduced && en(r, T_OPPARAM, 8)) { // only operating parameters change
                    int oi = seq.nop > 1 ? r.below(seq.nop) : 0; if (seq.decoder_model_info_present && seq.op[oi].dm_present) { u64 m = (1ull << seq.buffer_delay_length) - 1; seq.op[oi].dec_delay = (u32)(r.next() & m); seq.op[oi].enc_delay = (u32)(r.next() & m); SeqHdr was = out.seqs.back(); if (seq_change(was, seq) == 1) { evflags |= 2; evinv |= 2; } out.seqs.push_back(seq); put_seq(tu, r); }
                } else if (first || r.pct(12)) put_seq(tu, r);
                int tid = nt > 1 ? (first ? 0 : r.below(nt)) : 0;
                bool layered = ns > 1 || nt > 1;
                bool ext = layered || (en(r, T_OBUEXT, 8));
                bool keytu = first || en(r, T_KEYFRAMES, 6);
                bool nobase = ns > 1 && !keytu && !seq.reduced && !seq.still_picture && r.pct(8); // a temporal unit without the base layer
                if (!nobase && en(r, T_METADATA, 15)) add_metadata(tu, r, tid, 0, layered);
                // hidden frames
                if (!first && !nobase && (!layered || tid == 0) && !seq.reduced && !seq.still_picture) {
                    int hid = 0;
                    while (n > 1 && hid < 2 && en(r, T_HIDDEN, 30)) {
                        hid++; n--;
                        int type = pick_type(r, false); FrameHdr h; gen_frame_hdr(r, h, type, false, 0, 0, layered);
                        emit_frame(tu, r, h, subseed(k.seed, 3000 + sq, tuno, hid), ext);
                    }
                    // show existing
                    std::vector<int> sh; for (int i = 0; i < 8; i++) if (ref[i].valid && ref[i].showable && !(layered && (ref[i].hdr.temporal_id || ref[i].hdr.spatial_id))) sh.push_back(i);
                    if (!sh.empty() && en(r, T_SHOWEXIST, hid ? 45 : 12)) {
                        int i = sh[r.below(sh.size())];
                        if (tool(T_SHOWNKEYEXIST) || ref[i].hdr.frame_type != KEY_FRAME) {
                        show_existing(tu, r, i, 0, 0, ext);
                        // once shown a frame may not be shown again
                        int fno = ref[i].fno;
                        if (ref[i].hdr.frame_type == KEY_FRAME) { RefFrame rf = ref[i]; rf.showable = 0; if (seq.frame_id_present) frame_id = rf.hdr.frame_id; update_refs(rf, 0xff, 0, 0); clock = rf.hdr.order_hint; }
                        for (auto &x : ref) if (x.valid && x.fno == fno) x.showable = 0;
                        clock++; out.tus.push_back(tu); continue;
                        }
                    }
                    if (n <= 0) { out.tus.push_back(tu); break; }
                }
                for (int s = 0; s < ns; s++) {
                    if (n <= 0 && s == 0) break;
                    if (s > 0 && r.pct(12)) break; // the higher layers of this temporal unit are missing
                    if (s == 0 && nobase) continue;
                    if (s > 0 && !first && !seq.reduced && !seq.still_picture) {
                        if (n > 1 && en(r, T_HIDDEN, 15)) { n--; FrameHdr h; int type = pick_type(r, false); if (type == KEY_FRAME) type = INTER_FRAME; gen_frame_hdr(r, h, type, false, tid, s, layered); emit_frame(tu, r, h, subseed(k.seed, 5000 + sq, tuno, s), ext); }
                        // a frame of this layer shown again or for the first time
                        std::vector<int> sh; for (int i = 0; i < 8; i++) if (ref[i].valid && ref[i].showable && ref[i].hdr.temporal_id == tid && ref[i].hdr.spatial_id == s && ref[i].hdr.frame_type != KEY_FRAME) sh.push_back(i);
                        if (!sh.empty() && en(r, T_SHOWEXIST, 25)) { int i = sh[r.below(sh.size())]; n--; show_existing(tu, r, i, tid, s, ext); continue; }
                    }
                    n--;
                    int type = (first || keytu) && s == 0 && tid == 0 ? KEY_FRAME : pick_type(r, true);
                    if (layered && type == SWITCH_FRAME) type = INTER_FRAME;
                    if (seq.reduced || seq.still_picture) type = KEY_FRAME;
                    if (en(r, T_METADATA, 10)) add_metadata(tu, r, tid, s, layered);
                    FrameHdr h; gen_frame_hdr(r, h, type, true, tid, s, layered);
                    emit_frame(tu, r, h, subseed(k.seed, 4000 + sq, tuno, s), ext);
                    if (type == KEY_FRAME) clock = h.order_hint;
                }
                clock++; first = false; (void)fi;
                out.tus.push_back(tu);
            }
        }
        if (k.viol) { Rng v(subseed((u64)k.viol, 7999)); violation(v); }
        out.ncoded = fcount;
    }
    void show_existing(TU &tu, Rng &r, int i, int tid, int sid, bool ext) {
        if (k.sviol == 6 && !ref[i].hdr.showable && out.sviol_at < 0) out.sviol_at = (int)out.frames.size();
        FrameHdr h; h.show_existing = 1; h.show_existing_idx = i; h.frame_id = ref[i].hdr.frame_id;
        if (seq.decoder_model_info_present && !seq.equal_picture_interval) h.presentation_delay = (u32)(r.next() & ((1ull << seq.frame_presentation_time_length) - 1));
        BitWriter w; write_frame_hdr(w, seq, h, ref); w.trailing(); add_obu(tu, r, 3, std::move(w.b), tid, sid, ext, ref[i].fno);
        const OutFrame &src = out.frames[find_frame(ref[i].fno)];
        OutFrame of; of.rf = ref[i]; of.seqno = (int)out.seqs.size() - 1; of.fg = ref[i].fg; of.shown = true; of.from_existing = true; of.fno = ref[i].fno; of.tid = tid; of.sid = sid; of.meta = meta; meta.t35.clear(); of.events = src.events; of.events_inv = src.events_inv; of.tu = (int)out.tus.size(); of.obu = of.obu0 = (int)tu.obus.size() - 1;
        out.frames.push_back(of); out.st.inc("showexisting"); if (sid) out.st.inc("showexisting_upper_layer");
        int fno = ref[i].fno; if (ref[i].hdr.frame_type != KEY_FRAME) for (auto &x : ref) if (x.valid && x.fno == fno) x.showable = 0;
    }
    int find_frame(int fno) { for (size_t i = 0; i < out.frames.size(); i++) if (out.frames[i].fno == fno && !out.frames[i].from_existing) return (int)i; return 0; }
    int pick_type(Rng &r, bool shown) {
        if (k.forcetype >= 0) { int t = (int)k.forcetype; if (t == 4) return r.pct(35) ? KEY_FRAME : INTRA_ONLY_FRAME; if (t == KEY_FRAME && shown) return KEY_FRAME; if (t != SWITCH_FRAME || shown) return t; }
        if (en(r, T_INTRAONLY, 8)) return INTRA_ONLY_FRAME;
        if (shown && en(r, T_SWITCHFRAME, 6)) return SWITCH_FRAME;
        if (!shown && en(r, T_KEYFRAMES, (k.force >> T_SHOWNKEYEXIST & 1) ? 40 : 10)) return KEY_FRAME;
        return INTER_FRAME;
    }
};

int seq_change(const SeqHdr &a, const SeqHdr &b) {
    auto by = [](SeqHdr s, bool z) { if (z) for (auto &o : s.op) o.dec_delay = o.enc_delay = 0, o.low_delay = 0; BitWriter w; write_seq_hdr(w, s); return w.b; };
    if (by(a, false) == by(b, false)) return 0; return by(a, true) == by(b, true) ? 1 : 2;
}
Stream generate(const Knobs &k, const ModelOpts &mo) { Generator g; g.k = k; g.mo = mo; g.run(); return std::move(g.out); }
} // namespace av1m
