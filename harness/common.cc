#include "chk.h"
using namespace av1m;
std::vector<Check> &registry() { static std::vector<Check> r; return r; }
int pick(Rng &r, IL l) { return *(l.begin() + r.below((u32)l.size())); }
u64 stream_fp(const std::vector<Pkt> &p) { u64 h = 1469598103934665603ull; for (auto &x : p) h = fnv(x.b.data(), x.b.size(), h); return h; }
std::vector<u8> concat(const std::vector<Pkt> &pk) { std::vector<u8> v; for (auto &p : pk) v.insert(v.end(), p.b.begin(), p.b.end()); return v; }

void base_case(Rng &r, Case &c, int maxdim) {
    c.set("seed", (i64)(r.next() >> 16));
    auto dim = [&]() { int d = r.pct(7) ? r.range(1, 15) : r.pct(45) ? r.range(16, 72) : r.pct(80) ? r.range(64, 150) : r.pct(85) ? r.range(128, 270) : r.range(200, 420); return maxdim ? std::min(d, maxdim) : d; };
    c.set("w", dim()); c.set("h", dim());
    if (r.pct(3)) { int l = r.pct(50) ? r.range(2049, 2400) : r.pct(60) ? r.range(4000, 4600) : r.range(8000, 8400), q = r.range(16, 40); bool tall = r.pct(60); c.set("w", tall ? q : l); c.set("h", tall ? l : q); } // long and thin: many superblock rows or columns
    if ((variant == "asm" || variant == "c") && !maxdim && r.below(1000) == 0) { int l = r.pct(50) ? r.range(65500, 65536) : r.range(9000, 65536), q = r.range(8, 24); bool tall = r.pct(50); c.set("w", tall ? q : l); c.set("h", tall ? l : q); c.set("nframes", 2); } // up to the largest size that can be coded
    c.set("layout", r.pct(50) ? 1 : r.range(0, 3)); c.set("hbd", r.pct(45) ? 0 : r.range(0, 2));
}
static const i64 ALLT = (1ll << (T_TUPACK + 1)) - 1;
void tools_case(Rng &r, Case &c, IL focus, int allpct) {
    if (r.pct(allpct)) return;
    i64 t = 0, f = 0; int p = pick(r, {20, 50, 80}); for (int i = 0; i <= T_TUPACK; i++) if (r.pct(p)) t |= 1ll << i;
    t |= (1ll << T_DIRECTIONAL) * r.pct(70) | (1ll << T_NONDCT) * r.pct(70) | (1ll << T_RECTPART) * r.pct(80) | (1ll << T_TXSPLIT) * r.pct(70) | (1ll << T_SMOOTH) * r.pct(70);
    int n = r.range(0, 4); for (int i = 0; i < n && focus.size(); i++) f |= 1ll << *(focus.begin() + r.below((u32)focus.size()));
    t |= f; if (t == ALLT) t = -1; c.set("tools", t); if (f) c.set("force", f);
}
void cfg_case(Rng &r, Case &c, int thread_pct) {
    if (r.pct(thread_pct)) { int t = r.range(2, 6); c.set("threads", t); c.set("delay", r.pct(40) ? 1 : r.pct(50) ? 0 : r.range(2, t)); }
    if (variant == "asm" && r.pct(50)) c.set("cpumask", pick(r, {0, 0, 1, 3, 3, 7, 15, 15, 15 + 32, 31, 31 + 32, 8, 16, 2}));
}
void tile_case(Rng &r, Case &c) {
    if (r.pct(60)) c.set("cdfpct", pick(r, {0, 20, 60, 85, 97})); if (r.pct(60)) c.set("coefpct", pick(r, {0, 10, 40, 70, 95})); if (r.pct(40)) c.set("splitpct", pick(r, {10, 30, 55, 75, 90}));
    if (r.pct(40)) c.set("coefmag", pick(r, {1, 2, 4, 8})); if (r.pct(30)) c.set("coefcap", pick(r, {4, 16, 256, 1024})); if (r.pct(30)) c.set("bigblk", 1); if (r.pct(20)) c.set("sb128", r.below(2)); if (r.pct(30)) c.set("skippct", pick(r, {0, 10, 60}));
    if (r.pct(20)) c.set("tilelog2", pick(r, {0, 1, 3, 4}));
}
Cfg cfg_of(const Case &c) {
    Cfg a; a.threads = (int)c.get("threads", 1); a.delay = (int)c.get("delay", 1); if (a.threads > 1 && a.delay > a.threads) a.delay = a.threads; a.cpumask = (unsigned)c.get("cpumask", -1); a.grain = (int)c.get("grain", 0); a.inloop = (int)c.get("inloop", 7); a.feed = (u64)c.get("feed", 0); a.alloc = (int)c.get("alloc", 0); a.invisible = (int)c.get("invisible", 0); a.strict = (int)c.get("strict", 0); a.op = (int)c.get("op", 0); a.all_layers = (int)c.get("all_layers", 1); a.hold = (int)c.get("hold", 0); a.dft = (int)c.get("dft", 0); a.size_limit = (unsigned)c.get("size_limit", 0); a.datamode = (int)c.get("datamode", 0); return a;
}
std::vector<Pkt> packets_of(const Case &c, const Stream &s) { return c.get("split", 0) ? split_packets(s, c.get("split", 0)) : tu_packets(s); }

std::vector<const OutFrame *> expected(const Stream &s, bool invisible, int op, bool all_layers) {
    std::vector<const OutFrame *> v;
    for (size_t i = 0; i < s.frames.size(); i++) {
        const OutFrame &f = s.frames[i]; const SeqHdr &q = s.seqs[f.seqno]; int idc = op < q.nop ? q.op[op].idc : q.op[0].idc;
        if (idc && !((idc >> f.tid & 1) && (idc >> (8 + f.sid) & 1))) continue;
        if (!f.shown && !invisible) continue;
        if (!all_layers && idc >> 8) { // only the highest spatial layer of the temporal unit
            bool higher = false; for (size_t j = 0; j < s.frames.size(); j++) { const OutFrame &g = s.frames[j]; if (g.tu == f.tu && g.shown && g.sid > f.sid && (idc >> g.tid & 1) && (idc >> (8 + g.sid) & 1)) higher = true; }
            if (higher) continue;
        }
        v.push_back(&f);
    }
    return v;
}
std::string against_model(const Stream &s, const Result &r, const std::vector<const OutFrame *> &e, int what, bool grain, Outcome *o) {
    if (!r.bad.empty()) return r.bad;
    if (r.open_res) return fmt("open failed with %d", r.open_res);
    for (size_t i = 0; i < std::min(e.size(), r.pics.size()); i++) {
        const OutFrame &f = *e[i]; const Pic &p = r.pics[i]; std::string m;
        if (what & CMP_PIX) {
            if (grain && f.fg.apply) { Picture g; apply_film_grain(g, *f.rf.pic, f.fg, f.rf.seq); m = cmp_model(p, g); if (o) o->inc("pictures_with_grain"); }
            else m = cmp_model(p, *f.rf.pic);
        }
        if (m.empty() && (what & CMP_HDR)) { if (!p.has_hdr) m = "no headers"; Dav1dSequenceHeader sh; Dav1dFrameHeader fh; fill_seq(sh, f.rf.seq); fill_hdr(fh, f.rf.hdr, f.rf.seq); Dav1dFrameHeader ph = p.hdr; if (ph.segmentation.seg_data.last_active_segid < 0) ph.segmentation.seg_data.last_active_segid = 0; if (fh.segmentation.seg_data.last_active_segid < 0) fh.segmentation.seg_data.last_active_segid = 0; if (!ph.restoration.type[0] && !ph.restoration.type[1] && !ph.restoration.type[2]) ph.restoration.unit_size[0] = ph.restoration.unit_size[1] = fh.restoration.unit_size[0] = fh.restoration.unit_size[1] = 0; if (m.empty()) m = cmp_seq(p.seq, sh); if (m.empty()) m = cmp_hdr(ph, fh); }
        if (m.empty() && (what & CMP_META)) {
            const Meta &q = f.meta;
            if (p.cll != q.cll) m = fmt("content light present %d, coded %d", p.cll, q.cll); else if (q.cll && (p.c.max_content_light_level != q.max_cll || p.c.max_frame_average_light_level != q.max_fall)) m = "content light values differ";
            else if (p.mdcv != q.mdcv) m = fmt("mastering display present %d, coded %d", p.mdcv, q.mdcv);
            else if (q.mdcv) { for (int k = 0; k < 3; k++) for (int j = 0; j < 2; j++) if (p.m.primaries[k][j] != q.prim[k][j]) m = "mastering display primaries differ"; for (int j = 0; j < 2; j++) if (p.m.white_point[j] != q.wp[j]) m = "mastering display white point differs"; if (p.m.max_luminance != q.maxl || p.m.min_luminance != q.minl) m = "mastering display luminance differs"; }
            if (m.empty()) { if (p.t35.size() != q.t35.size()) m = fmt("%zu T.35 messages, coded %zu", p.t35.size(), q.t35.size()); else for (size_t k = 0; k < q.t35.size(); k++) { if (p.t35[k].cc != q.t35[k].cc || p.t35[k].ext != q.t35[k].ext || p.t35[k].p != q.t35[k].p) m = fmt("T.35 message %zu differs", k); if (o) o->inc("t35_messages"); } }
            if (o) { o->inc("cll", q.cll); o->inc("mdcv", q.mdcv); }
        }
        if (m.empty() && (what & CMP_EVENTS)) { int ex = r.pics[i].events, want = f.events; if (ex != want) m = fmt("event flags %d, expected %d", ex, want); }
        if (!m.empty()) return fmt("picture %zu (coded frame %d): ", i, f.fno) + m;
        if (o) { o->inc("pictures_compared"); o->inc(fmt("bpc%d", p.bpc)); o->inc(fmt("layout%d", p.layout)); }
    }
    if (e.size() != r.pics.size()) return fmt("%zu pictures, expected %zu (errors: %zu, first %d)", r.pics.size(), e.size(), r.errs.size(), r.errs.empty() ? 0 : r.errs[0]);
    if (!r.errs.empty()) return fmt("error %d on a conforming stream", r.errs[0]);
    return "";
}
// ---- damage: generic and OBU aware mutations of a packet sequence ----
struct ObuPos { size_t at, pay, end; int type; bool sized; };
static std::vector<ObuPos> obu_list(const std::vector<u8> &b) {
    std::vector<ObuPos> v; size_t i = 0;
    while (i < b.size()) { ObuPos o; o.at = i; o.type = b[i] >> 3 & 15; bool ext = b[i] & 4; o.sized = b[i] & 2; size_t j = i + 1 + ext; if (j > b.size()) break; u64 n = 0; if (o.sized) { int sh = 0; for (;; sh += 7) { if (j >= b.size() || sh > 28) return v; n |= (u64)(b[j] & 127) << sh; if (!(b[j++] & 128)) break; } } else n = b.size() - j; if (n > b.size() - j) break; o.pay = j; o.end = j + (size_t)n; v.push_back(o); i = o.end; }
    return v;
}
static void set_payload(std::vector<u8> &b, const ObuPos &o, const std::vector<u8> &pay) { std::vector<u8> n(b.begin(), b.begin() + o.at); bool ext = b[o.at] & 4; n.push_back(b[o.at] | 2); if (ext) n.push_back(b[o.at + 1]); auto l = leb128((u32)pay.size()); n.insert(n.end(), l.begin(), l.end()); n.insert(n.end(), pay.begin(), pay.end()); n.insert(n.end(), b.begin() + o.end, b.end()); b = n; }
// change the payload of one OBU and keep the framing intact, so that the damage reaches the inner parsers
static void damage_obu(Rng &r, std::vector<Pkt> &pk) {
    auto &b = pk[r.below((u32)pk.size())].b; auto l = obu_list(b); if (l.empty()) return; const ObuPos o = l[r.pct(35) ? l.size() - 1 : r.below((u32)l.size())]; std::vector<u8> p(b.begin() + o.pay, b.begin() + o.end);
    auto pos = [&]() { return p.empty() ? 0u : r.pct(50) ? r.below((u32)std::min<size_t>(p.size(), 24)) : r.below((u32)p.size()); };
    switch (r.below(9)) {
    case 0: case 1: if (!p.empty()) p.resize(r.pct(40) ? p.size() - 1 - r.below((u32)std::min<size_t>(p.size(), 8)) : r.below((u32)p.size())); set_payload(b, o, p); if (r.pct(60) && o.type != 1 && o.type != 2) { auto q = obu_list(b); for (auto &x : q) if (x.at == o.at) b.resize(x.end); } break; // cut short, often the last thing in its packet
    case 2: if (!p.empty()) p[pos()] ^= 1 << r.below(8); set_payload(b, o, p); break;
    case 3: if (!p.empty()) { size_t a = pos(), n = 1 + r.below(6); p.erase(p.begin() + a, p.begin() + std::min(p.size(), a + n)); } set_payload(b, o, p); break;
    case 4: { size_t a = pos(); int n = 1 + r.below(6); for (int k = 0; k < n; k++) p.insert(p.begin() + a, r.pct(50) ? (u8)r.next() : (u8)pick(r, {0, 255, 128})); set_payload(b, o, p); break; }
    case 5: { int n = 1 + r.below(12); for (int k = 0; k < n && !p.empty(); k++) p[pos()] = (u8)r.next(); set_payload(b, o, p); break; }
    case 6: { std::vector<u8> x(b.begin() + o.at, b.begin() + o.end); b.insert(b.begin() + l[r.below((u32)l.size())].at, x.begin(), x.end()); break; } // repeat
    case 7: b.erase(b.begin() + o.at, b.begin() + o.end); break;
    case 8: { b[o.at] = (b[o.at] & 0x87) | pick(r, {1, 3, 4, 5, 6, 7}) << 3; break; } // another type
    }
}
// around the size fields of tiles: cut there (often the last thing in its packet), or change the size
static bool damage_tile(Rng &r, std::vector<Pkt> &pk) {
    std::vector<int> w; for (size_t i = 0; i < pk.size(); i++) if (pk[i].marks.size() > 1 || (!pk[i].marks.empty() && r.pct(20))) w.push_back((int)i); if (w.empty()) return false;
    Pkt &p = pk[w[r.below((u32)w.size())]]; u32 m = p.marks[r.below((u32)p.marks.size())]; auto l = obu_list(p.b); for (auto &o : l) if (m >= o.pay && m < o.end) {
        std::vector<u8> q(p.b.begin() + o.pay, p.b.begin() + o.end); size_t at = m - o.pay;
        if (r.pct(60)) { i64 n = (i64)at + r.range(-1, 5); q.resize(std::max<i64>(0, std::min<i64>(n, q.size()))); set_payload(p.b, o, q); if (r.pct(75)) { auto z = obu_list(p.b); for (auto &x : z) if (x.at == o.at) { p.b.resize(x.end); break; } } }
        else { size_t left = q.size() - at; u32 v = r.pct(40) ? (u32)(left - std::min<size_t>(left, r.below(6))) : r.pct(50) ? r.below(4) : 0xffffffffu >> r.below(26); int n = r.range(1, 4); for (int k = 0; k < n && at + k < q.size(); k++) q[at + k] = (u8)(v >> 8 * k); set_payload(p.b, o, q); }
        return true;
    }
    return false;
}
void damage(Rng &r, std::vector<Pkt> &pk, int nmut, int kind) {
    for (int m = 0; m < nmut && !pk.empty(); m++) {
        int i = r.below((u32)pk.size()); auto &b = pk[i].b; int k = kind >= 0 ? kind : (int)r.below(12);
        if (b.empty()) continue;
        if (kind < 0 && r.pct(12) && damage_tile(r, pk)) continue;
        if (kind < 0 && r.pct(50)) { damage_obu(r, pk); continue; }
        auto pos = [&]() { return r.pct(50) ? r.below((u32)std::min<size_t>(b.size(), 40)) : r.below((u32)b.size()); };
        switch (k) {
        case 0: b[pos()] ^= 1 << r.below(8); break;
        case 1: b[pos()] = (u8)r.next(); break;
        case 2: b.resize(r.below((u32)b.size()) + (r.pct(50) ? 0 : 0)); break;
        case 3: { int p = pos(), n = 1 + r.below(8); b.erase(b.begin() + p, b.begin() + std::min<size_t>(b.size(), p + n)); break; }
        case 4: { int p = pos(), n = 1 + r.below(8); std::vector<u8> x(n); for (auto &y : x) y = r.pct(50) ? (u8)r.next() : pick(r, {0, 0xff, 0x80, 0x7f}); b.insert(b.begin() + p, x.begin(), x.end()); break; }
        case 5: pk.erase(pk.begin() + i); break;
        case 6: { Pkt q = pk[i]; pk.insert(pk.begin() + r.below((u32)pk.size() + 1), q); break; }
        case 7: std::swap(pk[i], pk[r.below((u32)pk.size())]); break;
        case 8: { auto &d = pk[r.below((u32)pk.size())].b; if (d.empty()) break; int p = pos(), q = r.below((u32)d.size()), n = std::min<int>(1 + r.below(32), std::min<int>((int)(b.size() - p), (int)(d.size() - q))); if (&d == &b) memmove(&b[p], &b[q], n); else memcpy(&b[p], &d[q], n); break; }
        case 9: { int p = pos(); b[p] += pick(r, {1, -1, 16, -16, 127}); break; }
        case 10: { int n = 1 + r.below(16); for (int j = 0; j < n; j++) b[r.below((u32)b.size())] ^= 1 << r.below(8); break; }
        case 11: { auto d = pk[r.below((u32)pk.size())].b; int p = pos(); b.resize(p); int q = d.empty() ? 0 : r.below((u32)d.size()); b.insert(b.end(), d.begin() + q, d.end()); break; }
        }
    }
    for (size_t i = 0; i < pk.size();) if (pk[i].b.empty()) pk.erase(pk.begin() + i); else i++;
}
