#include "dec.h"
#include <stdarg.h>
#include <stdio.h>
using namespace av1m;
extern "C" { extern void dav1d_set_cpu_flags_mask(unsigned mask); }
std::string fmt(const char *f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

u64 Pic::hash() const { u64 h = 1469598103934665603ull; auto add = [&](u64 v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; }; add(w); add(this->h); add(layout); add(bpc); for (auto &p : d) for (u16 v : p) add(v); return h; }

extern "C" void __tsan_read_range(void *, unsigned long) __attribute__((weak)); // the harness itself is not instrumented
void copy_pic(const Dav1dPicture &p, Pic &o) {
    o.w = p.p.w; o.h = p.p.h; o.layout = p.p.layout; o.bpc = p.p.bpc; 
    o.has_hdr = p.seq_hdr && p.frame_hdr; if (o.has_hdr) { o.seq = *p.seq_hdr; o.hdr = *p.frame_hdr; }
    int np = p.p.layout == DAV1D_PIXEL_LAYOUT_I400 ? 1 : 3;
    for (int i = 0; i < 3; i++) { o.d[i].clear(); o.pw[i] = o.ph[i] = 0; }
    for (int i = 0; i < np; i++) {
        int sx = i && p.p.layout != DAV1D_PIXEL_LAYOUT_I444, sy = i && p.p.layout == DAV1D_PIXEL_LAYOUT_I420; int w = (p.p.w + sx) >> sx, h = (p.p.h + sy) >> sy;
        o.pw[i] = w; o.ph[i] = h; o.d[i].resize((size_t)w * h); u16 *q = o.d[i].data();
        for (int y = 0; y < h; y++) { const u8 *r = (const u8 *)p.data[i] + (ptrdiff_t)y * p.stride[!!i]; if (__tsan_read_range) __tsan_read_range((void *)r, (unsigned long)w << (p.p.bpc > 8)); if (p.p.bpc == 8) for (int x = 0; x < w; x++) *q++ = r[x]; else { memcpy(q, r, 2 * w); q += w; } }
    }
    o.ts = p.m.timestamp; o.dur = p.m.duration; o.off = p.m.offset; o.size = p.m.size; o.ud = p.m.user_data.data ? *(const int *)p.m.user_data.data : p.m.user_data.ref ? -2 : -1;
    o.cll = p.content_light; if (o.cll) o.c = *p.content_light; o.mdcv = p.mastering_display; if (o.mdcv) o.m = *p.mastering_display;
    o.t35.clear(); for (size_t i = 0; i < p.n_itut_t35; i++) { Meta::T35 t; t.cc = p.itut_t35[i].country_code; t.ext = p.itut_t35[i].country_code_extension_byte; t.p.assign(p.itut_t35[i].payload, p.itut_t35[i].payload + p.itut_t35[i].payload_size); o.t35.push_back(t); }
}

// ---- own picture allocator: exact contract area with guard zones ----
struct OwnPic { std::vector<u8> mem[3]; size_t guard; u8 *base[3]; size_t len[3]; Books *bk; Dav1dPicture snap; bool released = false; };
static const size_t GUARD = 256;
static int own_alloc(Dav1dPicture *p, void *cookie) {
    Books *bk = (Books *)cookie;
    if (bk->fail_pic_at >= 0 && bk->npic >= bk->fail_pic_at) { bk->npic++; return DAV1D_ERR(ENOMEM); }
    bk->npic++;
    if (p->p.w < 1 || p->p.h < 1 || (p->p.bpc != 8 && p->p.bpc != 10 && p->p.bpc != 12)) { bk->fail(fmt("allocator called with w=%d h=%d bpc=%d", p->p.w, p->p.h, p->p.bpc)); return DAV1D_ERR(EINVAL); }
    if (p->data[0]) bk->fail("allocator called on a picture that already has data");
    OwnPic *o = new OwnPic; o->bk = bk;
    int hbd = p->p.bpc > 8, aw = (p->p.w + 127) & ~127, ah = (p->p.h + 127) & ~127; int np = p->p.layout == DAV1D_PIXEL_LAYOUT_I400 ? 1 : 3; int sx = p->p.layout != DAV1D_PIXEL_LAYOUT_I444, sy = p->p.layout == DAV1D_PIXEL_LAYOUT_I420;
    for (int i = 0; i < 3; i++) p->data[i] = nullptr;
    p->stride[0] = p->stride[1] = 0;
    for (int i = 0; i < np; i++) {
        ptrdiff_t st = (ptrdiff_t)(i ? aw >> sx : aw) << hbd; int hh = i ? ah >> sy : ah; 
        st = (st + 63) & ~63;
        if (bk->mode == 3) st += 64 * (1 + (p->p.w % 5) + (i > 0));
        size_t len = (size_t)st * hh + 64; // padded by the alignment
        o->mem[i].assign(len + 2 * GUARD + 128, 0xC5); u8 *b = o->mem[i].data() + GUARD; b += (64 - ((uintptr_t)b & 63)) & 63; o->base[i] = b; o->len[i] = len;
        memset(b, 0x5A, len);
        if (bk->mode == 2) { p->data[i] = b + (size_t)st * (hh - 1); p->stride[!!i] = -st; } else { p->data[i] = b; p->stride[!!i] = st; }
    }
    p->allocator_data = o; o->snap = *p;
    bk->pic_out++; { std::lock_guard<std::mutex> l(bk->mu); bk->live_alloc.insert(o); }
    return 0;
}
static std::string own_guard(OwnPic *o) { for (int i = 0; i < 3; i++) if (!o->mem[i].empty()) { u8 *b = o->mem[i].data(), *e = b + o->mem[i].size(); for (u8 *x = b; x < o->base[i]; x++) if (*x != 0xC5) return fmt("plane %d written %d bytes before the buffer", i, (int)(o->base[i] - x)); for (u8 *x = o->base[i] + o->len[i]; x < e; x++) if (*x != 0xC5) return fmt("plane %d written %d bytes past the buffer", i, (int)(x - o->base[i] - o->len[i])); } return ""; }
static void own_release(Dav1dPicture *p, void *cookie) {
    Books *bk = (Books *)cookie; OwnPic *o = (OwnPic *)p->allocator_data;
    { std::lock_guard<std::mutex> l(bk->mu); if (!bk->live_alloc.count(o)) { if (bk->bad.empty()) bk->bad = "release callback called for a picture that is not outstanding"; return; } bk->live_alloc.erase(o); }
    for (int i = 0; i < 3; i++) if (p->data[i] != o->snap.data[i]) bk->fail("release callback got different plane pointers than the allocator returned");
    if (p->stride[0] != o->snap.stride[0] || p->stride[1] != o->snap.stride[1]) bk->fail("release callback got different strides");
    if (p->p.w != o->snap.p.w || p->p.h != o->snap.p.h || p->p.bpc != o->snap.p.bpc || p->p.layout != o->snap.p.layout) bk->fail("release callback got different picture parameters than the allocator");
    std::string g = own_guard(o); if (!g.empty()) bk->fail("write outside the allocated picture: " + g);
    bk->pic_out--; delete o;
}
// ---- data ----
struct DataCookie { Books *bk; u8 *buf; size_t n; std::atomic<int> freed{0}; };
static void data_free(const u8 *, void *ck) { DataCookie *d = (DataCookie *)ck; if (d->freed.fetch_add(1)) { d->bk->fail("input buffer freed twice"); return; } d->bk->data_out--; delete[] d->buf; delete d; }
struct UdCookie { Books *bk; int id; };
static void ud_free(const u8 *ud, void *ck) { UdCookie *u = (UdCookie *)ck; if ((u->id == -2 ? nullptr : (const u8 *)&u->id) != ud) u->bk->fail("user data free callback called with a different pointer"); u->bk->ud_out--; u->id = -77; delete u; }

Decoder::Decoder(const Cfg &cf) : cfg(cf) {
    Dav1dSettings s; dav1d_default_settings(&s); static unsigned cur_mask = ~0u; if (cfg.cpumask != cur_mask) { cur_mask = cfg.cpumask; dav1d_set_cpu_flags_mask(cfg.cpumask); }
    s.n_threads = cfg.threads; s.max_frame_delay = cfg.delay; s.apply_grain = cfg.grain; s.operating_point = cfg.op; s.all_layers = cfg.all_layers; s.frame_size_limit = cfg.size_limit; s.strict_std_compliance = cfg.strict; s.output_invisible_frames = cfg.invisible; s.inloop_filters = (Dav1dInloopFilterType)cfg.inloop; s.decode_frame_type = (Dav1dDecodeFrameType)cfg.dft; if (cfg.logger == 0) s.logger.callback = nullptr; else if (cfg.logger == 1) { s.logger.callback = (void (*)(void *, const char *, va_list))cfg.log_cb; s.logger.cookie = cfg.log_cookie; }
    if (cfg.alloc) { bk.mode = cfg.alloc; s.allocator.cookie = &bk; s.allocator.alloc_picture_callback = own_alloc; s.allocator.release_picture_callback = own_release; }
    open_res = dav1d_open(&c, &s);
    if (open_res && c) { bk.fail("failed open left a context behind"); }
}
Decoder::~Decoder() { close(); }
void Decoder::close() { if (c) { dav1d_close(&c); if (c) bk.fail("close did not clear the pointer"); } }
std::string Decoder::books() {
    if (!bk.bad.empty()) return bk.bad;
    if (bk.data_out) return fmt("%d input buffers never freed", bk.data_out.load());
    if (bk.ud_out) return fmt("%d user data objects never freed", bk.ud_out.load());
    if (bk.pic_out) return fmt("%d pictures never released", bk.pic_out.load());
    return "";
}
void Decoder::make(const Pkt &p, Dav1dData &d) {
    memset(&d, 0, sizeof d);
    if (cfg.datamode == 1) { u8 *q = dav1d_data_create(&d, p.b.size()); if (!q) return; memcpy(q, p.b.data(), p.b.size()); }
    else { DataCookie *k = new DataCookie; k->bk = &bk; k->n = p.b.size(); k->buf = new u8[p.b.size()]; memcpy(k->buf, p.b.data(), p.b.size()); bk.data_out++; bk.ndata++; if (dav1d_data_wrap(&d, k->buf, k->n, data_free, k) < 0) { bk.data_out--; delete[] k->buf; delete k; memset(&d, 0, sizeof d); return; } }
    if (p.ud != -1) { UdCookie *u = new UdCookie{&bk, p.ud}; bk.ud_out++; if (dav1d_data_wrap_user_data(&d, p.ud == -2 ? nullptr : (const u8 *)&u->id, ud_free, u) < 0) { bk.ud_out--; delete u; } }
    d.m.timestamp = p.ts; d.m.duration = p.dur; d.m.offset = p.off; if (p.size >= 0) d.m.size = (size_t)p.size;
}
bool Decoder::get(Pic &out, int &res, Dav1dPicture *keep) {
    Dav1dPicture p; memset(&p, 0, sizeof p); res = dav1d_get_picture(c, &p);
    if (res > 0) bk.fail(fmt("get_picture returned %d", res));
    if (res < 0) { if (p.data[0] || p.ref) bk.fail("get_picture failed but filled the picture"); return false; }
    if (!p.data[0] || !p.frame_hdr || !p.seq_hdr) { bk.fail("get_picture succeeded without a picture"); return false; }
    copy_pic(p, out);
    if (cfg.events) { Dav1dEventFlags f = (Dav1dEventFlags)0; if (dav1d_get_event_flags(c, &f)) bk.fail("get_event_flags failed"); out.events = f; f = (Dav1dEventFlags)0; dav1d_get_event_flags(c, &f); if (f) bk.fail("event flags not cleared by reading them"); }
    if (keep) *keep = p; else dav1d_picture_unref(&p);
    return true;
}

Result decode(const std::vector<Pkt> &pk, const Cfg &cfg) {
    Result r; std::vector<Dav1dPicture> kept; {
    Decoder D(cfg); r.open_res = D.open_res; if (D.open_res) { r.bad = D.bk.bad; return r; }
    Rng rg(subseed(cfg.feed, 5)); int cur = -1;
    auto err = [&](int e) { r.errs.push_back(e); r.errpkt.push_back(cur); Dav1dDataProps p; memset(&p, 0, sizeof p); int g = dav1d_get_decode_error_data_props(D.c, &p); r.errprops.push_back({g, p.timestamp, p.offset, p.user_data.data ? *(const int *)p.user_data.data : -1}); dav1d_data_props_unref(&p); };
    auto get1 = [&]() -> int { Pic p; int res; Dav1dPicture kp; memset(&kp, 0, sizeof kp); if (D.get(p, res, cfg.hold ? &kp : nullptr)) { p.after = cur; r.pics.push_back(std::move(p)); if (cfg.hold) kept.push_back(kp); } else if (res != AGAIN) err(res); return res; };
    int guard = 0;
    for (size_t i = 0; i < pk.size(); i++) {
        if (pk[i].b.empty()) continue;
        cur = (int)i; Dav1dData d; D.make(pk[i], d); if (!d.data) { r.bad = "data wrap failed"; break; }
        if (cfg.feed) for (int n = rg.pct(30) ? rg.range(1, 2) : 0; n > 0; n--) get1();
        for (;;) {
            int res = dav1d_send_data(D.c, &d);
            if (res == 0) { if (d.sz || d.data) D.bk.fail("send_data succeeded but did not consume the packet"); r.consumed++; break; }
            if (res > 0) { D.bk.fail(fmt("send_data returned %d", res)); break; }
            if (res != AGAIN) { err(res); if (!d.data && !d.ref) D.bk.fail("send_data failed but took the caller's reference"); dav1d_data_unref(&d); break; }
            if (!d.data) { D.bk.fail("send_data said try again but took the data"); break; }
            r.eagain_send++;
            int g = get1(); if (g == AGAIN && ++guard > 100000) { D.bk.fail("neither send_data nor get_picture makes progress"); dav1d_data_unref(&d); break; }
        }
        if (!D.bk.bad.empty()) { if (d.data) dav1d_data_unref(&d); break; }
        if (!cfg.feed) { int n = 0; while (n++ < 4096) { int g = get1(); if (g == AGAIN) break; if (cfg.delay != 1) break; } }
        else for (int n = rg.pct(40) ? 0 : rg.range(1, 3); n > 0; n--) if (get1() == AGAIN && rg.pct(60)) break;
    }
    int n = 0, again = 0; for (;;) { int g = get1(); if (g == AGAIN) { if (++again >= 2) break; } else again = 0; if (++n > 100000) { D.bk.fail("draining never ends"); break; } }
    D.close();
    if (cfg.hold) { for (size_t i = 0; i < kept.size(); i++) { Pic p; copy_pic(kept[i], p); p.events = r.pics[i].events; std::string s = cmp_pic(r.pics[i], p); if (!s.empty()) D.bk.fail(fmt("picture %zu changed while the caller held it: ", i) + s); dav1d_picture_unref(&kept[i]); } }
    if (r.bad.empty()) r.bad = D.books();
    }
    return r;
}

// ---- comparisons ----
#define SEQF(F) F(profile) F(max_width) F(max_height) F(layout) F(pri) F(trc) F(mtrx) F(chr) F(hbd) F(color_range) F(num_operating_points) F(still_picture) F(reduced_still_picture_header) F(timing_info_present) F(num_units_in_tick) F(time_scale) F(equal_picture_interval) F(num_ticks_per_picture) F(decoder_model_info_present) F(encoder_decoder_buffer_delay_length) F(num_units_in_decoding_tick) F(buffer_removal_delay_length) F(frame_presentation_delay_length) F(display_model_info_present) F(width_n_bits) F(height_n_bits) F(frame_id_numbers_present) F(delta_frame_id_n_bits) F(frame_id_n_bits) F(sb128) F(filter_intra) F(intra_edge_filter) F(inter_intra) F(masked_compound) F(warped_motion) F(dual_filter) F(order_hint) F(jnt_comp) F(ref_frame_mvs) F(screen_content_tools) F(force_integer_mv) F(order_hint_n_bits) F(super_res) F(cdef) F(restoration) F(ss_hor) F(ss_ver) F(monochrome) F(color_description_present) F(separate_uv_delta_q) F(film_grain_present)
std::string cmp_seq(const Dav1dSequenceHeader &a, const Dav1dSequenceHeader &b) {
#define F(f) if ((i64)a.f != (i64)b.f) return fmt("sequence header " #f ": %lld vs %lld", (long long)a.f, (long long)b.f);
    SEQF(F)
    for (int i = 0; i < a.num_operating_points; i++) { F(operating_points[i].major_level) F(operating_points[i].minor_level) F(operating_points[i].initial_display_delay) F(operating_points[i].idc) F(operating_points[i].tier) F(operating_points[i].decoder_model_param_present) F(operating_points[i].display_model_param_present) F(operating_parameter_info[i].decoder_buffer_delay) F(operating_parameter_info[i].encoder_buffer_delay) F(operating_parameter_info[i].low_delay_mode) }
    return "";
}
std::string cmp_hdr(const Dav1dFrameHeader &a, const Dav1dFrameHeader &b) {
#undef F
#define F(f) if ((i64)a.f != (i64)b.f) return fmt("frame header " #f ": %lld vs %lld", (long long)a.f, (long long)b.f);
    F(frame_type) F(width[0]) F(width[1]) F(height) F(frame_offset) F(temporal_id) F(spatial_id) F(show_existing_frame) F(existing_frame_idx) F(frame_id) F(frame_presentation_delay) F(show_frame) F(showable_frame) F(error_resilient_mode) F(disable_cdf_update) F(allow_screen_content_tools) F(force_integer_mv) F(frame_size_override) F(primary_ref_frame) F(buffer_removal_time_present)
    for (int i = 0; i < 32; i++) F(operating_points[i].buffer_removal_time)
    F(refresh_frame_flags) F(render_width) F(render_height) F(super_res.width_scale_denominator) F(super_res.enabled) F(have_render_size) F(allow_intrabc) F(frame_ref_short_signaling)
    for (int i = 0; i < 7; i++) F(refidx[i])
    F(hp) F(subpel_filter_mode) F(switchable_motion_mode) F(use_ref_frame_mvs) F(refresh_context)
    F(tiling.uniform) F(tiling.n_bytes) F(tiling.min_log2_cols) F(tiling.max_log2_cols) F(tiling.log2_cols) F(tiling.cols) F(tiling.min_log2_rows) F(tiling.max_log2_rows) F(tiling.log2_rows) F(tiling.rows) F(tiling.update)
    for (int i = 0; i <= a.tiling.cols; i++) F(tiling.col_start_sb[i]) for (int i = 0; i <= a.tiling.rows; i++) F(tiling.row_start_sb[i])
    F(quant.yac) F(quant.ydc_delta) F(quant.udc_delta) F(quant.uac_delta) F(quant.vdc_delta) F(quant.vac_delta) F(quant.qm) F(quant.qm_y) F(quant.qm_u) F(quant.qm_v)
    F(segmentation.enabled) F(segmentation.update_map) F(segmentation.temporal) F(segmentation.update_data) F(segmentation.seg_data.preskip) F(segmentation.seg_data.last_active_segid)
    for (int i = 0; i < 8; i++) { F(segmentation.seg_data.d[i].delta_q) F(segmentation.seg_data.d[i].delta_lf_y_v) F(segmentation.seg_data.d[i].delta_lf_y_h) F(segmentation.seg_data.d[i].delta_lf_u) F(segmentation.seg_data.d[i].delta_lf_v) F(segmentation.seg_data.d[i].ref) F(segmentation.seg_data.d[i].skip) F(segmentation.seg_data.d[i].globalmv) F(segmentation.lossless[i]) F(segmentation.qidx[i]) }
    F(delta.q.present) F(delta.q.res_log2) F(delta.lf.present) F(delta.lf.res_log2) F(delta.lf.multi) F(all_lossless)
    F(loopfilter.level_y[0]) F(loopfilter.level_y[1]) F(loopfilter.level_u) F(loopfilter.level_v) F(loopfilter.mode_ref_delta_enabled) F(loopfilter.mode_ref_delta_update) F(loopfilter.mode_ref_deltas.mode_delta[0]) F(loopfilter.mode_ref_deltas.mode_delta[1]) for (int i = 0; i < 8; i++) F(loopfilter.mode_ref_deltas.ref_delta[i]) F(loopfilter.sharpness)
    F(cdef.damping) F(cdef.n_bits) for (int i = 0; i < 1 << a.cdef.n_bits; i++) { F(cdef.y_strength[i]) F(cdef.uv_strength[i]) }
    for (int i = 0; i < 3; i++) F(restoration.type[i]) F(restoration.unit_size[0]) F(restoration.unit_size[1])
    F(txfm_mode) F(switchable_comp_refs) F(skip_mode_allowed) F(skip_mode_enabled) F(skip_mode_refs[0]) F(skip_mode_refs[1]) F(warp_motion) F(reduced_txtp_set)
    for (int i = 0; i < 7; i++) { F(gmv[i].type) for (int j = 0; j < 6; j++) F(gmv[i].matrix[j]) }
    F(film_grain.present) F(film_grain.update) F(film_grain.data.seed) F(film_grain.data.num_y_points) for (int i = 0; i < 14; i++) { F(film_grain.data.y_points[i][0]) F(film_grain.data.y_points[i][1]) } F(film_grain.data.chroma_scaling_from_luma)
    for (int p = 0; p < 2; p++) { F(film_grain.data.num_uv_points[p]) for (int i = 0; i < 10; i++) { F(film_grain.data.uv_points[p][i][0]) F(film_grain.data.uv_points[p][i][1]) } for (int i = 0; i < 25; i++) F(film_grain.data.ar_coeffs_uv[p][i]) F(film_grain.data.uv_mult[p]) F(film_grain.data.uv_luma_mult[p]) F(film_grain.data.uv_offset[p]) }
    F(film_grain.data.scaling_shift) F(film_grain.data.ar_coeff_lag) for (int i = 0; i < 24; i++) F(film_grain.data.ar_coeffs_y[i]) F(film_grain.data.ar_coeff_shift) F(film_grain.data.grain_scale_shift) F(film_grain.data.overlap_flag) F(film_grain.data.clip_to_restricted_range)
    return "";
#undef F
}
std::string cmp_pic(const Pic &a, const Pic &b, int what) {
    if (a.w != b.w || a.h != b.h || a.layout != b.layout || a.bpc != b.bpc) return fmt("shape %dx%d layout %d bpc %d vs %dx%d layout %d bpc %d", a.w, a.h, a.layout, a.bpc, b.w, b.h, b.layout, b.bpc);
    if (what & CMP_PIX) for (int p = 0; p < 3; p++) if (a.d[p] != b.d[p]) { size_t n = 0; while (a.d[p][n] == b.d[p][n]) n++; return fmt("sample plane %d x %d y %d: %d vs %d (frame type %d, %dx%d)", p, (int)(n % a.pw[p]), (int)(n / a.pw[p]), a.d[p][n], b.d[p][n], (int)a.hdr.frame_type, a.w, a.h); }
    if (what & CMP_HDR) { std::string s = cmp_seq(a.seq, b.seq); if (s.empty()) s = cmp_hdr(a.hdr, b.hdr); if (!s.empty()) return s; }
    if (what & CMP_META) {
        if (a.cll != b.cll || (a.cll && memcmp(&a.c, &b.c, sizeof a.c))) return "content light metadata differs"; if (a.mdcv != b.mdcv || (a.mdcv && memcmp(&a.m, &b.m, sizeof a.m))) return "mastering display metadata differs";
        if (a.t35.size() != b.t35.size()) return fmt("%zu vs %zu T.35 entries", a.t35.size(), b.t35.size()); for (size_t i = 0; i < a.t35.size(); i++) if (a.t35[i].cc != b.t35[i].cc || a.t35[i].ext != b.t35[i].ext || a.t35[i].p != b.t35[i].p) return fmt("T.35 entry %zu differs", i);
    }
    if (what & CMP_PROPS) { if (a.ts != b.ts || a.dur != b.dur || a.off != b.off || a.size != b.size || a.ud != b.ud) return fmt("packet properties ts %lld dur %lld off %lld size %llu user %d vs ts %lld dur %lld off %lld size %llu user %d", (long long)a.ts, (long long)a.dur, (long long)a.off, (unsigned long long)a.size, a.ud, (long long)b.ts, (long long)b.dur, (long long)b.off, (unsigned long long)b.size, b.ud); }
    if (what & CMP_EVENTS) if (a.events != b.events) return fmt("event flags %d vs %d", a.events, b.events);
    return "";
}
std::string cmp_pics(const std::vector<Pic> &a, const std::vector<Pic> &b, int what) {
    for (size_t i = 0; i < std::min(a.size(), b.size()); i++) { std::string s = cmp_pic(a[i], b[i], what); if (!s.empty()) return fmt("picture %zu: ", i) + s; }
    if (a.size() != b.size()) return fmt("%zu vs %zu pictures", a.size(), b.size());
    return "";
}
std::string cmp_errs(const Result &a, const Result &b) { if (a.errs != b.errs) return fmt("%zu errors (first %d) vs %zu (first %d)", a.errs.size(), a.errs.empty() ? 0 : a.errs[0], b.errs.size(), b.errs.empty() ? 0 : b.errs[0]); return ""; }
std::string cmp_model(const Pic &a, const Picture &m) {
    const Plane &y = m.p[0]; if (a.w != y.w || a.h != y.h || a.bpc != m.bpc) return fmt("shape %dx%d bpc %d, model %dx%d bpc %d", a.w, a.h, a.bpc, y.w, y.h, m.bpc);
    int lay = m.np == 1 ? 0 : m.ssx ? (m.ssy ? 1 : 2) : 3; if (a.layout != lay) return fmt("layout %d, model %d", a.layout, lay);
    for (int p = 0; p < m.np; p++) {
        const Plane &q = m.p[p]; if (a.pw[p] != q.w || a.ph[p] != q.h) return fmt("plane %d is %dx%d, model %dx%d", p, a.pw[p], a.ph[p], q.w, q.h);
        for (int yy = 0; yy < q.h; yy++) for (int x = 0; x < q.w; x++) if (a.d[p][(size_t)yy * q.w + x] != q.at(x, yy)) return fmt("sample plane %d x %d y %d: %d, model %d (frame type %d, %dx%d)", p, x, yy, a.d[p][(size_t)yy * q.w + x], q.at(x, yy), (int)a.hdr.frame_type, a.w, a.h);
    }
    return "";
}

// ---- packets ----
std::vector<Pkt> tu_packets(const Stream &s) { std::vector<Pkt> v; i64 off = 0; for (size_t i = 0; i < s.tus.size(); i++) { Pkt p; for (auto &o : s.tus[i].obus) { auto b = obu_bytes(o, 1); for (u32 m : o.marks) p.marks.push_back((u32)(p.b.size() + b.size() - o.payload.size() + m)); p.b.insert(p.b.end(), b.begin(), b.end()); } p.ts = 1000 + 7 * (i64)i; p.dur = 3 + (i64)i; p.off = off; off += p.b.size(); p.ud = (int)i; v.push_back(std::move(p)); } return v; }
std::vector<Pkt> split_packets(const Stream &s, u64 seed) {
    std::vector<Pkt> v; Rng r(subseed(seed, 9)); i64 off = 0; Pkt cur; int style = r.below(3);
    auto flush = [&]() { if (cur.b.empty()) return; cur.ts = 1000 + 7 * (i64)v.size(); cur.dur = 3 + (i64)v.size(); cur.off = off; off += cur.b.size(); cur.ud = (int)v.size(); v.push_back(cur); cur = Pkt(); };
    for (auto &t : s.tus) for (auto &o : t.obus) { auto b = obu_bytes(o); for (u32 m : o.marks) cur.marks.push_back((u32)(cur.b.size() + b.size() - o.payload.size() + m)); cur.b.insert(cur.b.end(), b.begin(), b.end()); if (style == 0 || r.pct(style == 1 ? 50 : 12)) flush(); }
    flush(); return v;
}
// ---- model headers to API structures ----
void fill_seq(Dav1dSequenceHeader &d, const SeqHdr &s) {
    memset(&d, 0, sizeof d); d.profile = s.profile; d.max_width = s.max_w; d.max_height = s.max_h; d.layout = (Dav1dPixelLayout)s.layout(); 
    d.pri = (Dav1dColorPrimaries)(s.color_desc ? s.pri : 2); d.trc = (Dav1dTransferCharacteristics)(s.color_desc ? s.trc : 2); d.mtrx = (Dav1dMatrixCoefficients)(s.color_desc ? s.mtrx : 2);
    d.chr = (Dav1dChromaSamplePosition)(s.mono || !(s.ssx && s.ssy) ? 0 : s.chr); d.hbd = s.hbd; d.color_range = s.color_range; d.num_operating_points = s.reduced ? 1 : s.nop;
    for (int i = 0; i < d.num_operating_points; i++) { auto &o = s.op[i]; auto &q = d.operating_points[i]; q.major_level = 2 + (o.level >> 2); q.minor_level = o.level & 3; q.idc = o.idc; q.tier = o.level > 7 ? o.tier : 0; q.decoder_model_param_present = o.dm_present; q.display_model_param_present = o.idd_present; q.initial_display_delay = o.idd_present ? o.idd_minus_1 + 1 : 10; if (o.dm_present) { d.operating_parameter_info[i].decoder_buffer_delay = o.dec_delay; d.operating_parameter_info[i].encoder_buffer_delay = o.enc_delay; d.operating_parameter_info[i].low_delay_mode = o.low_delay; } }
    d.still_picture = s.still_picture; d.reduced_still_picture_header = s.reduced; d.timing_info_present = s.timing_info_present;
    if (s.timing_info_present) { d.num_units_in_tick = s.num_units_in_display_tick; d.time_scale = s.time_scale; d.equal_picture_interval = s.equal_picture_interval; if (s.equal_picture_interval) d.num_ticks_per_picture = s.num_ticks_per_picture_minus_1 + 1; d.decoder_model_info_present = s.decoder_model_info_present; if (s.decoder_model_info_present) { d.encoder_decoder_buffer_delay_length = s.buffer_delay_length; d.num_units_in_decoding_tick = s.num_units_in_decoding_tick; d.buffer_removal_delay_length = s.buffer_removal_time_length; d.frame_presentation_delay_length = s.frame_presentation_time_length; } }
    d.display_model_info_present = s.initial_display_delay_present; d.width_n_bits = s.wbits; d.height_n_bits = s.hbits; d.frame_id_numbers_present = s.frame_id_present; if (s.frame_id_present) { d.delta_frame_id_n_bits = s.delta_frame_id_n_bits; d.frame_id_n_bits = s.frame_id_n_bits; }
    d.sb128 = s.sb128; d.filter_intra = s.filter_intra; d.intra_edge_filter = s.intra_edge; d.inter_intra = s.inter_intra; d.masked_compound = s.masked_compound; d.warped_motion = s.warped_motion; d.dual_filter = s.dual_filter; d.order_hint = s.order_hint; d.jnt_comp = s.jnt_comp; d.ref_frame_mvs = s.ref_frame_mvs;
    d.screen_content_tools = (Dav1dAdaptiveBoolean)s.scc; d.force_integer_mv = (Dav1dAdaptiveBoolean)s.imv; d.order_hint_n_bits = s.order_hint_n_bits; d.super_res = s.super_res; d.cdef = s.cdef; d.restoration = s.restoration; d.ss_hor = s.ssx; d.ss_ver = s.ssy; d.monochrome = s.mono; d.color_description_present = s.color_desc; d.separate_uv_delta_q = s.separate_uv_dq; d.film_grain_present = s.film_grain;
}
void fill_hdr(Dav1dFrameHeader &d, const FrameHdr &h, const SeqHdr &s) {
    memset(&d, 0, sizeof d); const bool intra = h.intra();
    d.frame_type = (Dav1dFrameType)h.frame_type; d.width[0] = h.w; d.width[1] = h.upscaled_w; d.height = h.h; d.frame_offset = h.order_hint; d.temporal_id = h.temporal_id; d.spatial_id = h.spatial_id; d.frame_id = h.frame_id; d.frame_presentation_delay = h.show_frame ? h.presentation_delay : 0; d.show_frame = h.show_frame; d.showable_frame = h.showable; d.error_resilient_mode = h.error_res; d.disable_cdf_update = h.disable_cdf_update; d.allow_screen_content_tools = h.scc; d.force_integer_mv = intra ? 1 : h.imv; d.frame_size_override = h.frame_size_override; d.primary_ref_frame = h.primary_ref;
    d.buffer_removal_time_present = h.buffer_removal_time_present; 
    if (h.buffer_removal_time_present) for (int i = 0; i < s.nop; i++) if (s.op[i].dm_present) { bool in = s.op[i].idc == 0 || ((s.op[i].idc >> h.temporal_id & 1) && (s.op[i].idc >> (h.spatial_id + 8) & 1)); if (in) d.operating_points[i].buffer_removal_time = h.buffer_removal_time[i]; }
    d.refresh_frame_flags = h.refresh; d.render_width = h.render_w; d.render_height = h.render_h; d.super_res.width_scale_denominator = h.superres_denom; d.super_res.enabled = h.use_superres; d.have_render_size = h.have_render; d.allow_intrabc = h.intrabc; d.frame_ref_short_signaling = h.short_sig;
    if (!intra) for (int i = 0; i < 7; i++) d.refidx[i] = h.refidx[i];
    if (!intra) { d.hp = h.hp; d.subpel_filter_mode = (Dav1dFilterMode)h.filter; d.switchable_motion_mode = h.switchable_motion; d.use_ref_frame_mvs = h.use_ref_mvs; }
    d.refresh_context = h.refresh_ctx; auto &t = h.tile; d.tiling.uniform = t.uniform; d.tiling.n_bytes = t.log2c || t.log2r ? t.n_bytes : 0; d.tiling.min_log2_cols = t.minl2c; d.tiling.max_log2_cols = t.maxl2c; d.tiling.log2_cols = t.log2c; d.tiling.cols = t.cols; d.tiling.max_log2_rows = t.maxl2r; d.tiling.log2_rows = t.log2r; d.tiling.rows = t.rows; d.tiling.min_log2_rows = t.uniform ? std::max(t.minl2 - t.log2c, 0) : 0; d.tiling.update = t.log2c || t.log2r ? t.update : 0;
    for (int i = 0; i <= t.cols; i++) d.tiling.col_start_sb[i] = t.cs[i];
    for (int i = 0; i <= t.rows; i++) d.tiling.row_start_sb[i] = t.rs[i];
    auto &q = h.q; d.quant.yac = q.yac; d.quant.ydc_delta = q.ydc; if (!s.mono) { d.quant.udc_delta = q.udc; d.quant.uac_delta = q.uac; d.quant.vdc_delta = q.vdc; d.quant.vac_delta = q.vac; } d.quant.qm = q.qm; if (q.qm) { d.quant.qm_y = q.qmy; d.quant.qm_u = q.qmu; d.quant.qm_v = q.qmv; }
    auto &g = h.seg; d.segmentation.enabled = g.enabled; 
    if (g.enabled) { d.segmentation.update_map = g.update_map; d.segmentation.temporal = g.temporal; d.segmentation.update_data = g.update_data; d.segmentation.seg_data.preskip = g.preskip; d.segmentation.seg_data.last_active_segid = g.last_active; }
    for (int i = 0; i < 8; i++) { auto &x = d.segmentation.seg_data.d[i]; x.ref = g.enabled ? g.d[i].ref : -1; if (g.enabled) { x.delta_q = g.d[i].delta_q; x.delta_lf_y_v = g.d[i].lf[0]; x.delta_lf_y_h = g.d[i].lf[1]; x.delta_lf_u = g.d[i].lf[2]; x.delta_lf_v = g.d[i].lf[3]; x.skip = g.d[i].skip; x.globalmv = g.d[i].globalmv; } d.segmentation.lossless[i] = h.lossless[i]; d.segmentation.qidx[i] = h.qidx[i]; }
    d.delta.q.present = h.dq_present; d.delta.q.res_log2 = h.dq_res; d.delta.lf.present = h.dlf_present; d.delta.lf.res_log2 = h.dlf_res; d.delta.lf.multi = h.dlf_multi; d.all_lossless = h.coded_lossless;
    auto &l = h.lf; d.loopfilter.level_y[0] = l.level[0]; d.loopfilter.level_y[1] = l.level[1]; d.loopfilter.level_u = l.lu; d.loopfilter.level_v = l.lv; d.loopfilter.sharpness = l.sharp; d.loopfilter.mode_ref_delta_enabled = l.delta_enabled; d.loopfilter.mode_ref_delta_update = l.delta_update; for (int i = 0; i < 8; i++) d.loopfilter.mode_ref_deltas.ref_delta[i] = l.d.ref[i]; for (int i = 0; i < 2; i++) d.loopfilter.mode_ref_deltas.mode_delta[i] = l.d.mode[i];
    bool cd = !h.coded_lossless && !h.intrabc && s.cdef; d.cdef.damping = cd ? h.cdef.damping : 0; d.cdef.n_bits = h.cdef.bits; if (cd) for (int i = 0; i < 1 << h.cdef.bits; i++) { d.cdef.y_strength[i] = h.cdef.y[i]; if (!s.mono) d.cdef.uv_strength[i] = h.cdef.uv[i]; }
    static const int lrt[4] = {DAV1D_RESTORATION_NONE, DAV1D_RESTORATION_SWITCHABLE, DAV1D_RESTORATION_WIENER, DAV1D_RESTORATION_SGRPROJ};
    bool any = false; for (int i = 0; i < 3; i++) { d.restoration.type[i] = (Dav1dRestorationType)lrt[h.lr.type[i]]; any |= h.lr.type[i] != 0; } 
    if (any) { d.restoration.unit_size[0] = h.lr.size[0]; d.restoration.unit_size[1] = h.lr.size[1]; } else d.restoration.unit_size[0] = 8;
    d.txfm_mode = (Dav1dTxfmMode)(h.coded_lossless ? DAV1D_TX_4X4_ONLY : h.tx_select ? DAV1D_TX_SWITCHABLE : DAV1D_TX_LARGEST);
    d.switchable_comp_refs = h.comp_ref; d.skip_mode_allowed = h.skip_mode_allowed; d.skip_mode_enabled = h.skip_mode; if (h.skip_mode_allowed) for (int i = 0; i < 2; i++) d.skip_mode_refs[i] = h.skip_mode_refs[i] - 1;
    d.warp_motion = h.warp_motion; d.reduced_txtp_set = h.reduced_tx;
    for (int i = 0; i < 7; i++) { d.gmv[i].type = (Dav1dWarpedMotionType)h.gm[i + 1].type; for (int j = 0; j < 6; j++) d.gmv[i].matrix[j] = h.gm[i + 1].m[j]; }
    auto &f = h.fg; d.film_grain.present = f.apply; d.film_grain.update = f.apply ? f.update : 0; auto &x = d.film_grain.data;
    if (f.apply) {
        x.seed = f.seed; x.num_y_points = f.num_y; memcpy(x.y_points, f.y, sizeof f.y); x.chroma_scaling_from_luma = f.csfl; for (int p = 0; p < 2; p++) { x.num_uv_points[p] = f.num_uv[p]; memcpy(x.uv_points[p], f.uv[p], sizeof f.uv[p]); for (int i = 0; i < 25; i++) x.ar_coeffs_uv[p][i] = f.ar_uv[p][i]; x.uv_mult[p] = f.uv_mult[p]; x.uv_luma_mult[p] = f.uv_luma_mult[p]; x.uv_offset[p] = f.uv_offset[p]; }
        x.scaling_shift = f.scaling_shift; x.ar_coeff_lag = f.ar_lag; for (int i = 0; i < 24; i++) x.ar_coeffs_y[i] = f.ar_y[i]; x.ar_coeff_shift = f.ar_shift; x.grain_scale_shift = f.scale_shift; x.overlap_flag = f.overlap; x.clip_to_restricted_range = f.clip;
    }
}
