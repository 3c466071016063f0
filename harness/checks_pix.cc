// C01-C08, C11, C20, C21: decoded samples and reported headers against the model.
#include "chk.h"
using namespace av1m;

static void stats(const Stream &s, Outcome &o) { for (auto &x : s.st.n) o.inc(x.first, x.second); }
static i64 st(const Stream &s, const char *k) { auto it = s.st.n.find(k); return it == s.st.n.end() ? 0 : it->second; }
static void count_cfg(const Case &c, Outcome &o) { o.inc("multithreaded", c.get("threads", 1) > 1); o.inc("cpumask_limited", c.has("cpumask")); }

static void run_pixels(const Case &c, Outcome &o, Stream &s, int what, bool grain) {
    s = generate(c.knobs()); auto pk = packets_of(c, s); o.fp = stream_fp(pk); stats(s, o); count_cfg(c, o);
    Result r = decode(pk, cfg_of(c)); std::string m = against_model(s, r, expected(s, c.get("invisible", 0)), what, grain, &o);
    if (!m.empty()) FAILS(m);
}
// ---- C01 ----
static void gen_c01(Rng &r, Case &c) {
    base_case(r, c); c.set("nframes", r.pct(40) ? 1 : r.range(2, 4)); c.set("forcetype", 4);
    tools_case(r, c, {T_PALETTE, T_PALETTE, T_INTRABC, T_INTRABC, T_CFL, T_FILTERINTRA, T_INTRAEDGE, T_DIRECTIONAL, T_SMOOTH, T_RECTPART, T_EXTPART, T_MULTITILE, T_LOSSLESS, T_TXSPLIT, T_SEG, T_CDFUPDATE, T_INTRAONLY, T_SIZECHANGE});
    tile_case(r, c); cfg_case(r, c);
}
static void run_c01(const Case &c, Outcome &o) { Stream s; run_pixels(c, o, s, CMP_PIX, false); o.nontrivial = st(s, "intrablk") + st(s, "intrabc") >= 4; }
static Reg r1("C01", gen_c01, run_c01, "at least 4 intra coded blocks were decoded and compared");
// ---- C02 ----
static void inter_knobs(Rng &r, Case &c) { if (r.pct(60)) c.set("intrapct", pick(r, {0, 3, 10, 50})); if (r.pct(50)) c.set("newmvpct", pick(r, {5, 20, 70, 95})); if (r.pct(50)) c.set("mvmag", pick(r, {4, 16, 256, 1024, 8000})); if (r.pct(25)) c.set("coefpct", pick(r, {0, 5})); }
static void gen_c02(Rng &r, Case &c) {
    base_case(r, c); c.set("nframes", r.range(2, 7));
    tools_case(r, c, {T_SCALEDREF, T_INTERINTRA, T_WEDGE, T_OBMC, T_WARP, T_WARP, T_GM, T_COMPOUND, T_COMPOUND, T_JNT, T_REFMVS, T_REFMVS, T_SKIPMODE, T_SWITCHFRAME, T_HIDDEN, T_HPMV, T_SHORTSIG, T_INTMV, T_DUALFILTER, T_ERRRES, T_SIZECHANGE, T_EXTPART, T_SEG, T_SUPERRES, T_SHOWEXIST});
    tile_case(r, c); inter_knobs(r, c); cfg_case(r, c);
}
static void run_c02(const Case &c, Outcome &o) { Stream s; run_pixels(c, o, s, CMP_PIX, false); o.nontrivial = st(s, "interblk") >= 4; }
static Reg r2("C02", gen_c02, run_c02, "at least 4 inter coded blocks were decoded and compared");
// ---- C03 ----
static void gen_c03(Rng &r, Case &c) {
    base_case(r, c); if (r.pct(30)) { c.set("w", r.range(16, 400)); c.set("h", r.range(16, 400)); } c.set("nframes", r.range(1, 4));
    tools_case(r, c, {T_SUPERRES, T_SUPERRES, T_CDEF, T_CDEF, T_LR, T_LR, T_DEBLOCK, T_DEBLOCK, T_DELTALF, T_DELTAQ, T_SEG, T_MULTITILE, T_LOSSLESS, T_SIZECHANGE, T_TXSPLIT});
    if (c.has("tools") && r.pct(70)) c.set("tools", c.get("tools") | 1ll << pick(r, {T_DEBLOCK, T_CDEF, T_LR}));
    tile_case(r, c); if (r.pct(50)) c.set("qidx", r.range(0, 255)); cfg_case(r, c, 40);
}
static void run_c03(const Case &c, Outcome &o) { Stream s; run_pixels(c, o, s, CMP_PIX, false); o.nontrivial = st(s, "deblocked") || st(s, "cdef8x8") || st(s, "lr_wiener") || st(s, "lr_sgr") || st(s, "superres"); }
static Reg r3("C03", gen_c03, run_c03, "at least one edge, 8x8 block, restoration unit or frame was actually filtered or upscaled");
// ---- C04 ----
static void gen_c04(Rng &r, Case &c) {
    base_case(r, c, 200); c.set("nframes", r.range(1, 3));
    tools_case(r, c, {T_BIGCOEF, T_BIGCOEF, T_QM, T_QM, T_LOSSLESS, T_DELTAQ, T_SEG, T_TXSPLIT, T_TXSPLIT, T_NONDCT, T_NONDCT, T_REDUCEDTX, T_RECTPART, T_EXTPART});
    tile_case(r, c); c.set("coefpct", r.range(60, 100)); if (r.pct(60)) c.set("coefcap", pick(r, {1, 2, 8, 64, 1024})); if (r.pct(60)) c.set("coefmag", pick(r, {1, 2, 3, 6, 12, 20})); if (r.pct(60)) c.set("qidx", r.pct(30) ? r.range(0, 8) : r.range(0, 255)); cfg_case(r, c, 10);
}
static void run_c04(const Case &c, Outcome &o) { Stream s; run_pixels(c, o, s, CMP_PIX, false); o.nontrivial = st(s, "txblocks") >= 8; }
static Reg r4("C04", gen_c04, run_c04, "at least 8 transform blocks with coefficients were decoded and compared");
// ---- C05 ----
static void gen_c05(Rng &r, Case &c) {
    base_case(r, c, 110); c.set("nframes", r.range(5, 14)); c.set("grain", 1);
    tools_case(r, c, {T_SEG, T_TEMPORALSEG, T_TEMPORALSEG, T_GM, T_REFMVS, T_REFMVS, T_SHOWEXIST, T_SHOWNKEYEXIST, T_HIDDEN, T_ERRRES, T_SWITCHFRAME, T_INTRAONLY, T_FILMGRAIN, T_MULTITILE, T_CDFUPDATE, T_SIZECHANGE, T_SCALEDREF, T_SHORTSIG, T_KEYFRAMES, T_FRAMEID, T_DEBLOCK, T_SUPERRES, T_SKIPMODE});
    if (r.pct(25)) { // state carried across a key frame that is shown late, and in general by frames shown later
        i64 f = 1ll << T_SHOWEXIST | 1ll << T_SHOWNKEYEXIST | 1ll << T_HIDDEN; f |= r.pct(50) ? 1ll << T_SEG | 1ll << T_TEMPORALSEG : r.pct(50) ? 1ll << T_REFMVS | 1ll << T_GM : 1ll << T_CDFUPDATE;
        c.set("tools", c.get("tools", -1) | f | 1ll << T_KEYFRAMES); c.set("force", (c.get("force", 0) & ~(1ll << T_KEYFRAMES | 1ll << T_INTRAONLY | 1ll << T_SWITCHFRAME)) | f); if (r.pct(70)) { c.set("w", r.range(16, 72)); c.set("h", r.range(16, 72)); }
    }
    tile_case(r, c); if (r.pct(60)) c.set("cdfpct", 90); inter_knobs(r, c); if (r.pct(25)) c.set("seqs", r.range(2, 3)); cfg_case(r, c, 40);
}
static void run_c05(const Case &c, Outcome &o) {
    Stream s; run_pixels(c, o, s, CMP_PIX, true); int dep = 0, ts = 0; for (auto &f : s.frames) if (!f.from_existing) { dep += f.rf.hdr.primary_ref != 7; ts += f.rf.hdr.seg.temporal; }
    o.inc("frames_with_primary_ref", dep); o.inc("frames_temporal_seg", ts); o.nontrivial = dep >= 1 && s.frames.size() >= 4;
}
static Reg r5("C05", gen_c05, run_c05, "at least 4 frames were decoded of which at least one starts from the saved state of another");
// ---- C06 ----
static void gen_c06(Rng &r, Case &c) {
    base_case(r, c, 90); c.set("nframes", r.range(3, 16)); tools_case(r, c, {T_HIDDEN, T_HIDDEN, T_SHOWEXIST, T_SHOWEXIST, T_SHOWNKEYEXIST, T_SWITCHFRAME, T_INTRAONLY, T_KEYFRAMES, T_SIZECHANGE, T_ERRRES, T_SUPERRES, T_METADATA, T_MULTITG, T_PADDING, T_OBUEXT});
    c.set("coefpct", r.range(0, 40)); if (r.pct(40)) c.set("seqs", r.range(2, 3)); if (r.pct(40)) c.set("invisible", 1); if (r.pct(40)) c.set("split", 1 + r.below(1000)); if (r.pct(30)) c.set("feed", 1 + r.below(1000)); cfg_case(r, c, 50);
}
static void run_c06(const Case &c, Outcome &o) {
    Stream s = generate(c.knobs()); auto pk = packets_of(c, s); o.fp = stream_fp(pk); stats(s, o); count_cfg(c, o);
    Result r = decode(pk, cfg_of(c)); auto e = expected(s, c.get("invisible", 0)); std::string m = against_model(s, r, e, CMP_PIX, false, &o); if (!m.empty()) FAILS(m);
    for (size_t i = 0; i < e.size(); i++) {
        const auto &p = r.pics[i]; const auto &h = e[i]->rf.hdr;
        if (p.hdr.frame_offset != h.order_hint || p.hdr.width[1] != h.upscaled_w || p.hdr.height != h.h || p.hdr.frame_type != h.frame_type) FAIL("picture %zu: header says frame %d type %d %dx%d, coded %d type %d %dx%d", i, p.hdr.frame_offset, p.hdr.frame_type, p.hdr.width[1], p.hdr.height, h.order_hint, h.frame_type, h.upscaled_w, h.h);
        if (c.get("threads", 1) == 1 && !c.get("split") && !c.get("feed") && p.after != e[i]->tu) FAIL("picture %zu of temporal unit %d came out after unit %d was sent", i, e[i]->tu, p.after);
    }
    int hid = 0, ex = 0; for (auto &f : s.frames) { hid += !f.shown; ex += f.from_existing; } o.nontrivial = s.frames.size() >= 4 && (hid || ex);
}
static Reg r6("C06", gen_c06, run_c06, "at least 4 frames including a hidden or shown-existing one");
// ---- C07 ----
static void gen_c07(Rng &r, Case &c) {
    base_case(r, c, 100); c.set("nframes", r.range(1, 7)); tools_case(r, c, {T_TIMING, T_FRAMEID, T_FILMGRAIN, T_SEG, T_METADATA, T_METADATA, T_MULTITILE, T_RENDER, T_SIZECHANGE, T_GM, T_QM, T_DELTALF, T_LR, T_CDEF, T_SKIPMODE, T_SHORTSIG, T_OBUEXT, T_OPPARAM, T_SUPERRES, T_SHOWEXIST, T_REDUCEDSTILL, T_HIDDEN, T_DEBLOCK});
    c.set("coefpct", r.range(0, 30)); if (r.pct(30)) { c.set("w", r.range(16, 400)); c.set("h", r.range(16, 400)); c.set("skippct", 90); c.set("splitpct", 20); } if (r.pct(30)) c.set("seqs", r.range(2, 3)); if (r.pct(40)) c.set("layers", r.range(1, 15)); if (r.pct(30)) c.set("split", 1 + r.below(1000)); cfg_case(r, c, 30);
}
static void run_c07(const Case &c, Outcome &o) { Stream s; run_pixels(c, o, s, CMP_HDR | CMP_META, false); int nd = 0; for (auto &f : s.frames) nd += !f.rf.hdr.intra() || f.meta.cll || f.meta.mdcv || f.meta.t35.size() || f.rf.hdr.seg.enabled || f.fg.apply || f.rf.seq.timing_info_present; o.nontrivial = nd > 0; }
static Reg r7("C07", gen_c07, run_c07, "some frame is inter coded or carries metadata, segmentation, film grain or timing fields, and every field was compared");
// ---- C08 ----
static void gen_c08(Rng &r, Case &c) {
    base_case(r, c); if (r.pct(25)) { c.set("w", r.range(16, 300)); c.set("h", r.range(16, 300)); } c.set("nframes", r.range(1, 5)); c.set("grain", 1);
    tools_case(r, c, {T_FILMGRAIN}, 0); i64 t = c.get("tools", -1) | 1ll << T_FILMGRAIN; c.set("tools", t); c.set("force", c.get("force", 0) | 1ll << T_FILMGRAIN);
    c.set("coefpct", r.range(0, 60)); c.set("splitpct", r.range(0, 50)); if (r.pct(15)) c.set("invisible", 1); cfg_case(r, c, 40);
}
static void run_c08(const Case &c, Outcome &o) { Stream s; run_pixels(c, o, s, CMP_PIX, true); o.nontrivial = o.n["pictures_with_grain"] > 0; }
static Reg r8("C08", gen_c08, run_c08, "film grain was applied to at least one compared picture");
// ---- C11: instruction set masks ----
static void gen_c11(Rng &r, Case &c) {
    base_case(r, c); if (r.pct(35)) { c.set("w", r.range(16, 500)); c.set("h", r.range(16, 500)); } c.set("nframes", r.range(2, 5)); c.set("grain", 1);
    tools_case(r, c, {T_FILMGRAIN, T_FILMGRAIN, T_SUPERRES, T_SCALEDREF, T_CDEF, T_LR, T_DEBLOCK, T_PALETTE, T_CFL, T_FILTERINTRA, T_INTERINTRA, T_WEDGE, T_OBMC, T_WARP, T_COMPOUND, T_JNT, T_REFMVS, T_LOSSLESS, T_TXSPLIT, T_BIGCOEF, T_DUALFILTER, T_INTRABC});
    tile_case(r, c); inter_knobs(r, c); if (r.pct(20)) c.set("alloc", r.range(1, 3));
}
static void run_c11(const Case &c, Outcome &o) {
    Stream s = generate(c.knobs()); auto pk = tu_packets(s); o.fp = stream_fp(pk); stats(s, o); Cfg a = cfg_of(c); a.cpumask = 0; Result ref = decode(pk, a); if (!ref.bad.empty()) FAILS(ref.bad);
    for (unsigned m : {3u, 7u, 15u, 31u, 63u, 15u + 32u}) { a.cpumask = m; Result r = decode(pk, a); std::string e = r.bad; if (e.empty()) e = cmp_pics(r.pics, ref.pics); if (e.empty()) e = cmp_errs(r, ref); if (!e.empty()) FAILS(fmt("cpu mask %u against portable code: ", m) + e); o.inc("comparisons", ref.pics.size()); }
    o.nontrivial = ref.pics.size() > 0;
}
static Reg r11("C11", gen_c11, run_c11, "at least one picture was decoded and compared under all seven masks");

// ---- C21 ----
static void gen_c21(Rng &r, Case &c) {
    base_case(r, c, 90); c.set("nframes", r.range(2, 14)); tools_case(r, c, {T_HIDDEN, T_SHOWEXIST, T_SIZECHANGE, T_SCALEDREF, T_METADATA, T_FILMGRAIN, T_MULTITG, T_INTRAONLY, T_KEYFRAMES}, 45);
    if (c.has("tools")) c.set("tools", c.get("tools") | (1ll << T_HIDDEN | 1ll << T_SHOWEXIST) * r.pct(50)); c.set("layers", r.range(1, 15)); c.set("op", r.pct(40) ? 0 : r.pct(90) ? r.range(0, 15) : r.range(0, 31)); c.set("all_layers", r.pct(40)); c.set("coefpct", r.range(0, 30)); c.set("splitpct", r.range(0, 40)); if (r.pct(35)) c.set("seqs", r.range(2, 3));
    if (c.get("all_layers") && r.pct(30)) c.set("split", 1 + r.below(1000)); if (r.pct(25)) c.set("mergetu", 1 + r.below(1000)); if (r.pct(30)) c.set("feed", 1 + r.below(1000)); if (c.get("all_layers") && r.pct(20)) c.set("invisible", 1); if (r.pct(50)) c.set("grain", 1); cfg_case(r, c, 50);
}
static void run_c21(const Case &c, Outcome &o) {
    Stream s = generate(c.knobs()); auto pk = packets_of(c, s); if (c.get("mergetu", 0)) { Rng r((u64)c.get("mergetu")); std::vector<Pkt> m; for (auto &p : pk) if (!m.empty() && r.pct(60)) m.back().b.insert(m.back().b.end(), p.b.begin(), p.b.end()); else m.push_back(p); pk = m; }
    int op = (int)c.get("op", 0); bool all = c.get("all_layers", 1); o.fp = stream_fp(pk) ^ (u64)(op * 2 + all) * 0x9E3779B97F4A7C15ull; stats(s, o); count_cfg(c, o); bool inv = c.get("invisible", 0), grain = c.get("grain", 0);
    if (verbose > 1) for (auto &f : s.frames) printf("frame %d type %d tu %d tid %d sid %d shown %d existing %d obu %d seq %d idc %x\n", f.fno, f.rf.hdr.frame_type, f.tu, f.tid, f.sid, f.shown, f.from_existing, f.obu, f.seqno, s.seqs[f.seqno].op[0].idc);
    Result r = decode(pk, cfg_of(c)); if (verbose > 1) for (auto &x : r.pics) printf("got type %d sid %d tid %d ts %lld after %d\n", x.hdr.frame_type, x.hdr.spatial_id, x.hdr.temporal_id, (long long)x.ts, x.after); auto e = expected(s, inv, op, all); std::string m = against_model(s, r, e, CMP_PIX | CMP_HDR | (all ? CMP_META : 0), grain, &o); if (!m.empty()) FAILS(fmt("operating point %d, %s: ", op, all ? "all layers" : "highest layer") + m);
    auto full = expected(s, inv, 0, true); size_t shown = 0; for (auto &f : s.frames) shown += f.shown || inv; o.inc("pictures_left_out", shown - e.size()); o.nontrivial = e.size() > 0 && e.size() < shown;
}
static Reg r21("C21", gen_c21, run_c21, "at least one picture was output and at least one shown frame was left out");

// ---- C20: size limit, frame type selection, in-loop filter selection, strict mode ----
enum { M_INLOOP, M_STRICT, M_LIMIT, M_DFT, M_VIOL };
static void gen_c20(Rng &r, Case &c) {
    int m = pick(r, {M_INLOOP, M_INLOOP, M_INLOOP, M_STRICT, M_STRICT, M_LIMIT, M_LIMIT, M_LIMIT, M_DFT, M_DFT, M_DFT, M_VIOL}); base_case(r, c, m == M_INLOOP ? 0 : 110); c.set("mode", m);
    if (m == M_INLOOP) {
        if (r.pct(30)) { c.set("w", r.range(16, 300)); c.set("h", r.range(16, 300)); } c.set("nframes", r.range(1, 4)); c.set("inloop", r.range(0, 7)); c.set("grain", r.pct(30));
        tools_case(r, c, {T_SUPERRES, T_SUPERRES, T_CDEF, T_CDEF, T_LR, T_LR, T_DEBLOCK, T_DEBLOCK, T_DELTALF, T_SEG, T_LOSSLESS, T_MULTITILE, T_SCALEDREF, T_INTRABC}); tile_case(r, c); if (r.pct(50)) c.set("qidx", r.range(0, 255));
    } else {
        c.set("nframes", r.range(2, 14)); c.set("coefpct", r.range(0, 40)); c.set("splitpct", r.range(0, 50)); c.set("grain", r.pct(40));
        if (m == M_LIMIT) { tools_case(r, c, {T_SIZECHANGE, T_SIZECHANGE, T_SIZECHANGE, T_SUPERRES, T_SUPERRES, T_KEYFRAMES, T_KEYFRAMES, T_SCALEDREF, T_HIDDEN, T_SHOWEXIST, T_INTRAONLY}); c.set("limitsel", 1 + r.below(100000)); if (r.pct(60)) c.set("seqs", r.range(2, 4)); }
        else if (m == M_DFT) { tools_case(r, c, {T_INTRAONLY, T_INTRAONLY, T_KEYFRAMES, T_SWITCHFRAME, T_HIDDEN, T_HIDDEN, T_SHOWEXIST, T_SHOWEXIST, T_SHOWNKEYEXIST, T_METADATA, T_METADATA, T_FILMGRAIN, T_MULTITG, T_REFMVS, T_TEMPORALSEG}); c.set("dft", r.range(1, 3)); if (r.pct(30)) c.set("invisible", 1); if (r.pct(40)) c.set("seqs", r.range(2, 3)); }
        else { tools_case(r, c, {T_TIMING, T_TIMING, T_METADATA, T_INTRAONLY, T_SHOWEXIST, T_SHOWNKEYEXIST, T_MULTITILE, T_MULTITG, T_OPPARAM, T_PADDING, T_REDUCEDSTILL, T_CDFUPDATE}); if (m == M_STRICT) { c.set("strict", 1); c.set("coefpct", r.range(0, 90)); if (r.pct(40)) c.set("seqs", 2); } else c.set("violsel", 1 + r.below(100000)); }
        if (m != M_VIOL && r.pct(30)) c.set("split", 1 + r.below(1000));
    }
    if (r.pct(25) && m != M_LIMIT) c.set("feed", 1 + r.below(1000)); cfg_case(r, c, 40);
}
static void run_c20(const Case &c, Outcome &o) {
    int m = (int)c.get("mode", 0); ModelOpts mo; if (m == M_INLOOP) mo.filters = (int)c.get("inloop", 7);
    Stream s = generate(c.knobs(), mo); auto pk = packets_of(c, s); o.fp = stream_fp(pk) ^ (u64)m; count_cfg(c, o); bool grain = c.get("grain", 0), inv = c.get("invisible", 0); Cfg a = cfg_of(c); auto all = expected(s, inv); if (m != M_DFT) a.dft = 0; if (m != M_INLOOP) a.inloop = 7;
    if (m == M_INLOOP) {
        Result r = decode(pk, a); std::string e = against_model(s, r, all, CMP_PIX | CMP_HDR, grain, &o); if (!e.empty()) FAILS(fmt("in-loop filters %d: ", mo.filters) + e);
        o.inc(fmt("inloop_%d", mo.filters)); o.nontrivial = false; for (auto &f : s.frames) { auto &h = f.rf.hdr; if (h.lf.level[0] || h.lf.level[1] || h.cdef.bits || h.cdef.y[0] || h.cdef.uv[0] || h.lr.type[0] || h.lr.type[1] || h.lr.type[2]) o.nontrivial = mo.filters != 7; }
    } else if (m == M_STRICT) {
        Result r = decode(pk, a); std::string e = against_model(s, r, all, CMP_PIX | CMP_HDR | CMP_META, grain, &o); if (!e.empty()) FAILS("strict mode: " + e); o.inc("strict"); o.nontrivial = all.size() > 0;
    } else if (m == M_VIOL) {
        // an OBU with a violation that does not affect decoding: without strict mode everything is decoded, with it the unit is refused
        Rng r((u64)c.get("violsel", 1)); int t = r.range(0, (int)s.tus.size() - 1); std::vector<int> cand; for (size_t i = 0; i < s.tus[t].obus.size(); i++) { int ty = s.tus[t].obus[i].type; if (ty == 1 || ty == 3 || ty == 5) cand.push_back((int)i); } if (cand.empty()) return;
        Obu &ob = s.tus[t].obus[cand[r.below((u32)cand.size())]]; int how = r.range(0, 2), bit = 0; if (ob.payload.empty()) return; int type = ob.type; if (type == 5 && (ob.payload[0] != 1 && ob.payload[0] != 2)) return; // only light level and mastering display metadata have fixed contents
        if (how == 0) ob.payload.insert(ob.payload.end(), 1 + r.below(3), (u8)(1 + r.below(255))); // non-zero bits after the trailing one
        else if (how == 1) { size_t i = ob.payload.size(); while (i && !ob.payload[i - 1]) i--; if (!i) return; u8 &x = ob.payload[i - 1]; int low = x & -x; if (low > 1) x |= low >> (1 + r.below(1)); else ob.payload.insert(ob.payload.begin() + i, (u8)0x10); } // second one bit
        else bit = 1; // obu_forbidden_bit
        pk = tu_packets(s); if (bit) { size_t at = 0; for (auto &x : s.tus[t].obus) { if (&x == &ob) break; at += obu_bytes(x).size(); } pk[t].b[at] |= 0x80; }
        Cfg b = a; b.strict = 0; Result x = decode(pk, b); std::string e = against_model(s, x, all, CMP_PIX | CMP_HDR | CMP_META, grain, &o); if (!e.empty()) FAILS(fmt("violation %d in an OBU of type %d, not strict: ", how, type) + e);
        b.strict = 1; Result y = decode(pk, b); if (!y.bad.empty()) FAILS(y.bad); if (y.errs.empty()) FAIL("strict mode accepted violation %d in an OBU of type %d", how, type); if (y.errs[0] != DAV1D_ERR(EINVAL)) FAIL("strict mode: error %d", y.errs[0]);
        size_t n = 0; for (auto *f : all) if (f->tu < t) n++; if (a.threads == 1 && y.pics.size() < n) FAIL("strict mode: only %zu of %zu pictures before the violation", y.pics.size(), n); for (size_t i = 0; i < std::min(n, y.pics.size()); i++) { std::string q = cmp_pic(y.pics[i], x.pics[i], CMP_PIX | CMP_HDR | CMP_META); if (!q.empty()) FAILS(fmt("strict mode, picture %zu before the violation: ", i) + q); }
        o.inc(fmt("violation_%d", how)); o.nontrivial = true;
    } else if (m == M_LIMIT) {
        if (c.get("split", 0)) { Rng sr((u64)c.get("split")); pk.clear(); Pkt cur; auto flush = [&]() { if (!cur.b.empty()) pk.push_back(cur); cur = Pkt(); }; for (auto &tu : s.tus) { for (auto &ob : tu.obus) { auto b = obu_bytes(ob); cur.b.insert(cur.b.end(), b.begin(), b.end()); if (sr.pct(60)) flush(); } flush(); } o.fp = stream_fp(pk) ^ (u64)m; }
        Rng r((u64)c.get("limitsel", 1)); auto area = [](const OutFrame &f) { return (i64)f.rf.hdr.upscaled_w * f.rf.hdr.h; }; if (s.frames.empty()) return;
        i64 lim = area(s.frames[r.below((u32)s.frames.size())]); if (r.pct(20)) { auto &h = s.frames[r.below((u32)s.frames.size())].rf.hdr; lim = (i64)h.w * h.h; } lim += pick(r, {-1, 0, 0, 1}); if (lim < 1) lim = 1; a.size_limit = (unsigned)lim; o.fp ^= (u64)lim;
        // frames can be relied on until the first one over the limit, and again from a shown key frame in a later packet
        bool ok = true; int badtu = -1, over = 0; std::vector<const OutFrame *> want; for (auto &f : s.frames) { if (!f.from_existing && area(f) > lim) { ok = false; badtu = f.tu; over++; } else if (!f.from_existing && f.rf.hdr.frame_type == KEY_FRAME && f.shown && f.tu != badtu) ok = true; if (ok && (f.shown || inv)) want.push_back(&f); }
        Result x = decode(pk, a); if (!x.bad.empty()) FAILS(x.bad); o.inc(over ? over == (int)s.frames.size() ? "limit_all_over" : "limit_some_over" : "limit_none_over");
        if (!over) { std::string e = against_model(s, x, all, CMP_PIX | CMP_HDR, grain, &o); if (!e.empty()) FAILS(fmt("size limit %lld with no frame over it: ", (long long)lim) + e); o.nontrivial = all.size() > 0; return; }
        bool erange = false; for (int e : x.errs) erange |= e == DAV1D_ERR(ERANGE); if (!erange) FAIL("size limit %lld: no ERANGE although %d frames are over it", (long long)lim, over); if (x.errs[0] != DAV1D_ERR(ERANGE)) FAIL("size limit %lld: first error %d", (long long)lim, x.errs[0]);
        for (auto &p : x.pics) if ((i64)p.w * p.h > lim) FAIL("size limit %lld: a picture of %dx%d was output", (long long)lim, p.w, p.h);
        if (a.threads > 1) { o.nontrivial = want.size() > 0; } // (an error of the library may take the place of earlier pictures of other threads: order and contents only)
        size_t i = 0; std::string last; for (auto *f : want) { bool hit = false; for (; i < x.pics.size(); i++) { const Pic &p = x.pics[i]; std::string q; if (grain && f->fg.apply) { Picture g; apply_film_grain(g, *f->rf.pic, f->fg, f->rf.seq); q = cmp_model(p, g); } else q = cmp_model(p, *f->rf.pic); if (q.empty()) { hit = true; i++; break; } last = q; } if (!hit) FAIL("size limit %lld: the picture of frame %d (%dx%d, packet %d) is missing (%zu pictures, %zu expected; %s)", (long long)lim, f->fno, f->rf.hdr.upscaled_w, f->rf.hdr.h, f->tu, x.pics.size(), want.size(), last.c_str()); o.inc("pictures_compared"); }
        if (want.empty()) { bool any = false; for (auto &f : s.frames) any |= area(f) <= lim; if (!any && !x.pics.empty()) FAIL("size limit %lld: pictures although every frame is over it", (long long)lim); }
        o.nontrivial = true;
    } else {
        std::vector<const OutFrame *> want; int t = a.dft; size_t skipped = 0;
        for (auto *f : all) { auto &h = f->rf.hdr; bool skip = h.frame_type == KEY_FRAME ? false : h.frame_type == INTRA_ONLY_FRAME ? t == DAV1D_DECODEFRAMETYPE_KEY : t >= DAV1D_DECODEFRAMETYPE_INTRA; if (h.frame_type != KEY_FRAME && t == DAV1D_DECODEFRAMETYPE_REFERENCE && !f->from_existing && !h.refresh) skip = true; if (!skip) want.push_back(f); else skipped++; }
        Result x = decode(pk, a); std::string e = against_model(s, x, want, CMP_PIX | CMP_HDR | CMP_META, grain, &o); if (!e.empty()) FAILS(fmt("decode frame type %d: ", t) + e);
        o.inc(fmt("dft_%d", t)); o.inc("pictures_skipped", skipped); o.nontrivial = skipped > 0 && want.size() > 0;
    }
}
static Reg r20("C20", gen_c20, run_c20, "the setting left out at least one filter, frame or picture and something was decoded and compared (strict mode: something was decoded and compared)");
