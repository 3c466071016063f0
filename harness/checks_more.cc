// C31-C34: memory held over time, film grain as a separate step, extension points, messages.
#include "chk.h"
#include <unistd.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <deque>
using namespace av1m;
std::vector<Pkt> input_of(const Case &c, Outcome &o);
void small_case(Rng &r, Case &c, int maxdim, int maxf); void input_case(Rng &r, Case &c, int valid_pct); void rnd_settings(Rng &r, Case &c); void whole_tus(Case &c);

// ---------------------------------------------------------------- C31
static void gen_c31(Rng &r, Case &c) {
    small_case(r, c, 90, 6); c.set("coefpct", r.range(0, 20)); c.set("splitpct", r.range(0, 30)); input_case(r, c, 60); if (r.pct(25)) { int t = r.range(2, 4); c.set("threads", t); c.set("delay", r.range(0, t)); } if (r.pct(60)) c.set("grain", 1); rnd_settings(r, c); c.v.erase("cpumask");
    c.set("alloc", r.pct(60) ? r.range(1, 3) : 0); if (r.pct(20)) c.set("layers", r.range(1, 15)); c.set("size_limit", 200000); c.set("ops", (i64)(r.next() >> 20)); c.set("fl", r.range(0, 2)); if (r.pct(30)) c.set("datamode", 1); else c.v.erase("datamode"); if (r.pct(40) && c.has("tools")) c.set("tools", c.get("tools") | 1ll << T_METADATA);
}
static void run_c31(const Case &c, Outcome &o) {
    auto pk = input_of(c, o); Cfg cfg = cfg_of(c); bool mt = cfg.threads > 1, valid = !c.get("in", 0) && !c.get("split", 0) && !c.get("dft", 0); /* the data of an unfinished or skipped frame stays until the next one begins */ int fl = (int)c.get("fl", 0); { Cfg w; Decoder warm(w); } SHIM.huge = 1ul << 30; long base = SHIM.live;
    {
        Decoder D(cfg); if (D.open_res) FAIL("open failed with %d", D.open_res); Dav1dSettings ds; dav1d_default_settings(&ds); ds.n_threads = cfg.threads; ds.max_frame_delay = cfg.delay; int fd = dav1d_get_frame_delay(&ds);
        int R = mt ? 22 : 9; std::vector<long> live, bytes; std::vector<Dav1dPicture> kept; std::vector<int> keptud; long maxpic = 0; bool each = true; int outs = 0, errs = 0;
        auto drop = [&](size_t keep) { while (kept.size() > keep) { dav1d_picture_unref(&kept.back()); kept.pop_back(); keptud.pop_back(); } };
        const long bound = 8 + 2 * fd + 4; // references, frames in flight (before and after upscaling), and what waits to be returned
        for (int rd = 0; rd < R && D.bk.bad.empty(); rd++) {
            const int outs0 = outs;
            Rng r(subseed((u64)c.get("ops", 1), 7)), kr(subseed((u64)c.get("ops", 1), 8)); // every round the same
            auto get = [&]() { Pic p; int res; bool keep = fl && kr.pct(10) && kept.size() < 6; Dav1dPicture kp; memset(&kp, 0, sizeof kp); if (D.get(p, res, keep ? &kp : nullptr)) { outs++; if (keep) { kept.push_back(kp); keptud.push_back(p.ud); } } else if (res != AGAIN) errs++; long hp = D.bk.pic_out - (long)kept.size(); if (cfg.alloc && hp > maxpic) maxpic = hp; return res; };
            size_t cut = fl == 2 && !pk.empty() ? r.below((u32)pk.size()) : (size_t)-1;
            for (size_t i = 0; i < pk.size() && D.bk.bad.empty(); i++) {
                if (pk[i].b.empty()) continue; Dav1dData d; Pkt q = pk[i]; q.ts += 100000ll * rd; D.make(q, d); if (!d.data) { D.bk.fail("data wrap failed"); break; }
                for (int spin = 0;; spin++) { int res = dav1d_send_data(D.c, &d); if (!res) break; if (res != AGAIN) { errs++; dav1d_data_unref(&d); break; } if (get() == AGAIN && spin > 20000) { D.bk.fail("neither send_data nor get_picture makes progress"); dav1d_data_unref(&d); break; } }
                for (int n = r.below(3); n > 0; n--) if (get() == AGAIN) break;
                if (i == cut) { dav1d_flush(D.c); break; }
            }
            if (fl != 2 || pk.empty()) { int again = 0; for (int n = 0; again < 2 && n < 20000; n++) if (get() == AGAIN) again++; else again = 0; if (valid && !errs && D.bk.data_out) { D.bk.fail(fmt("%d input buffers still held after everything was drained", D.bk.data_out.load())); break; } }
            if (fl == 1) dav1d_flush(D.c);
            if (fl) { // nothing the caller handed over stays behind a flush, except with the pictures the caller holds
                std::set<void *> mem; for (auto &k : kept) mem.insert(k.data[0]); if (cfg.alloc && D.bk.pic_out != (int)mem.size()) D.bk.fail(fmt("after a flush %d pictures are outstanding while the caller holds %zu", D.bk.pic_out.load(), mem.size()));
                std::set<int> u; for (int x : keptud) if (x >= 0) u.insert(x); int most = 0; for (int x : keptud) most += x >= 0; if (valid && !errs && D.bk.ud_out > most) D.bk.fail(fmt("after a flush %d user data objects are referenced, the caller's %zu pictures explain %d", D.bk.ud_out.load(), kept.size(), most));
                if (valid && !errs && D.bk.data_out) D.bk.fail(fmt("after a flush %d input buffers are still held", D.bk.data_out.load())); o.inc("flush_accounts");
            }
            if (cfg.alloc && maxpic > bound) D.bk.fail(fmt("%ld pictures held with a frame delay of %d", maxpic, fd));
            drop(0); each &= outs > outs0; live.push_back(SHIM.live); bytes.push_back(SHIM.bytes);
        }
        drop(0); if (verbose > 1) { for (size_t i = 0; i < live.size(); i++) printf("round %zu: %ld blocks %ld bytes\n", i, live[i], bytes[i]); printf("delay %d most pictures %ld\n", fd, maxpic); }
        if (D.bk.bad.empty() && (int)live.size() == R && (fl == 1 || each)) { // (T.35 messages are kept until a frame comes)
            auto grows = [&](const std::vector<long> &v, long slack) { int last = mt ? 6 : 3; long hi = *std::max_element(v.begin() + 1, v.end() - last), lo = *std::min_element(v.end() - last, v.end()); return lo > hi + slack ? lo - hi : 0; };
            if (long g = grows(live, mt ? 10 : 0)) D.bk.fail(fmt("repeating the same input holds more and more memory blocks: %ld more in the last rounds than before", g)); else if (!mt) if (long g2 = grows(bytes, 0)) D.bk.fail(fmt("repeating the same input holds more and more memory: %ld bytes more in the last rounds than before", g2));
        }
        if (!D.bk.bad.empty() && o.viol.empty()) o.viol = D.bk.bad; D.close(); std::string b = D.books(); if (!b.empty()) FAILS(b); o.inc("rounds", R); o.inc("pictures", outs); o.inc("errors", errs); o.n["max_pictures_held"] = maxpic; o.nontrivial = outs + errs > 0;
    }
    (void)base;
}
static Reg r31("C31", gen_c31, run_c31, "the same input was decoded at least nine times by one decoder with at least one picture or error, and the memory held after each round compared");

// ---------------------------------------------------------------- C32
static void gen_c32(Rng &r, Case &c) {
    base_case(r, c, 200); c.set("nframes", r.range(1, 5)); tools_case(r, c, {T_FILMGRAIN, T_SHOWEXIST, T_SHOWNKEYEXIST, T_HIDDEN, T_METADATA}, 0); c.set("tools", c.get("tools", -1) | 1ll << T_FILMGRAIN); c.set("force", c.get("force", 0) | 1ll << T_FILMGRAIN);
    c.set("coefpct", r.range(0, 50)); c.set("splitpct", r.range(0, 50)); cfg_case(r, c, 45); c.set("alloc", r.pct(50) ? 0 : r.range(1, 3)); c.set("ops", (i64)(r.next() >> 20)); c.set("othert", r.range(1, 5)); if (r.pct(25)) c.set("seqs", 2);
}
static void run_c32(const Case &c, Outcome &o) {
    Stream s = generate(c.knobs()); auto pk = tu_packets(s); o.fp = stream_fp(pk); auto e = expected(s, false); Cfg cfg = cfg_of(c), oc = cfg; cfg.grain = 0; oc.threads = (int)c.get("othert", 1); oc.delay = 0; oc.grain = 1; Rng r(subseed((u64)c.get("ops", 1), 5)); size_t idx = 0;
    Decoder D(cfg), E(oc); { Pic p; int res; for (auto &x : pk) { Dav1dData d; E.make(x, d); while (dav1d_send_data(E.c, &d) == AGAIN) E.get(p, res); while (E.get(p, res)); } } /* a decoder that has decoded the same kind of video */ struct H { Dav1dPicture p; Pic copy; size_t i; }; std::vector<H> kept; std::string bad;
    auto grain = [&](H &h) {
        if (h.i >= e.size()) { bad = "more pictures than coded"; return; }
        const OutFrame &f = *e[h.i]; Decoder &X = r.pct(60) ? D : E; Dav1dPicture g; memset(&g, 0, sizeof g); int res = dav1d_apply_grain(X.c, &g, &h.p); if (res) { bad = fmt("apply_grain returned %d", res); return; }
        Pic x; copy_pic(g, x); x.events = h.copy.events; std::string m = cmp_pic(x, h.copy, CMP_HDR | CMP_META | CMP_PROPS); if (!m.empty()) m = "the grained picture's headers or metadata against its source: " + m;
        Picture w; if (f.fg.apply) { apply_film_grain(w, *f.rf.pic, f.fg, f.rf.seq); if (m.empty()) m = cmp_model(x, w); o.inc("pictures_grained"); } else { if (m.empty()) m = cmp_model(x, *f.rf.pic); o.inc("pictures_without_grain"); }
        if (m.empty() && f.fg.apply && g.p.w && x.d[0].size() && g.data[0] == h.p.data[0] && (f.fg.num_y || f.fg.num_uv[0] || f.fg.num_uv[1])) m = "the grained picture shares the memory of its source";
        if (m.empty() && r.pct(25) && f.fg.apply) { Dav1dPicture g2; memset(&g2, 0, sizeof g2); res = dav1d_apply_grain(X.c, &g2, &g); if (res) m = fmt("applying grain to the result returned %d", res); else { Pic y; copy_pic(g2, y); Picture w2; apply_film_grain(w2, w, f.fg, f.rf.seq); m = cmp_model(y, w2); if (!m.empty()) m = "applied twice: " + m; dav1d_picture_unref(&g2); o.inc("applied_twice"); } }
        if (m.empty()) { Pic z; copy_pic(h.p, z); z.events = h.copy.events; m = cmp_pic(z, h.copy); if (!m.empty()) m = "the source changed: " + m; }
        dav1d_picture_unref(&g); if (!m.empty()) bad = fmt("picture %zu: ", h.i) + m;
    };
    auto drop = [&](size_t k) { if (bad.empty() && r.pct(85)) grain(kept[k]); dav1d_picture_unref(&kept[k].p); kept.erase(kept.begin() + k); };
    auto get = [&]() { H h; memset(&h.p, 0, sizeof h.p); int res; if (D.get(h.copy, res, &h.p)) { h.i = idx++; if (bad.empty() && h.i < e.size()) { std::string m = cmp_model(h.copy, *e[h.i]->rf.pic); if (!m.empty()) bad = fmt("picture %zu before grain: ", h.i) + m; } kept.push_back(std::move(h)); if (r.pct(60)) drop(kept.size() - 1); while (kept.size() > 5) drop(r.below((u32)kept.size())); } else if (res != AGAIN && bad.empty()) bad = fmt("get_picture returned %d on a conforming stream", res); return res; };
    for (auto &p : pk) { if (!bad.empty()) break; Dav1dData d; D.make(p, d); for (int spin = 0;; spin++) { int res = dav1d_send_data(D.c, &d); if (!res) break; if (res != AGAIN) { bad = fmt("send_data returned %d", res); dav1d_data_unref(&d); break; } if (get() == AGAIN && spin > 20000) { bad = "no progress"; dav1d_data_unref(&d); break; } } for (int n = r.below(3); n > 0; n--) get(); }
    int again = 0; for (int n = 0; again < 2 && n < 20000 && bad.empty(); n++) if (get() == AGAIN) again++; else again = 0;
    if (bad.empty() && idx != e.size()) bad = fmt("%zu pictures, expected %zu", idx, e.size());
    if (r.pct(40)) dav1d_flush(D.c); while (!kept.empty()) drop(r.below((u32)kept.size()));
    D.close(); E.close(); if (bad.empty()) bad = D.books(); if (bad.empty()) bad = E.books(); if (!bad.empty()) FAILS(bad); o.nontrivial = o.n["pictures_grained"] > 0;
}
static Reg r32("C32", gen_c32, run_c32, "grain was applied to at least one returned picture as a separate step and compared with the model");

// ---------------------------------------------------------------- C33
static void put_leb(std::vector<u8> &b, u64 v, int len) { int need = 1; for (u64 x = v; x >>= 7;) need++; len = std::max(len, need); for (int i = 0; i < len; i++) { b.push_back((u8)((v >> (7 * i) & 0x7f) | (i + 1 < len ? 0x80 : 0))); } }
static void put_ignorable(std::vector<u8> &b, Rng &r, Outcome &o) {
    bool meta = r.pct(40), pad = !meta && r.pct(35); int type = meta ? 5 : pad ? 15 : pick(r, {0, 9, 10, 11, 12, 13, 14}); std::vector<u8> pl; 
    if (meta) { u64 t = pick(r, {0, 3, 5, 6, 7, 12, 31, 32, 100, 127, 128, 255, 256, 260, 1 << 20, 0x7fffffff}); put_leb(pl, t, r.pct(25) ? r.range(1, 5) : 0); o.inc(t == 3 || t == 5 ? "scalability_or_timecode_metadata" : "unknown_metadata"); } else o.inc(pad ? "padding" : "reserved_obu");
    int n = r.pct(30) ? 0 : r.pct(85) ? r.range(1, 24) : r.range(25, 400); for (int i = 0; i < n; i++) pl.push_back(r.pct(20) ? 0 : (u8)r.below(256)); if (r.pct(60)) pl.push_back(0x80);
    bool ext = r.pct(40); b.push_back((u8)(type << 3 | ext << 2 | 2 | r.pct(20))); if (ext) b.push_back((u8)(r.pct(60) ? r.below(4) << 5 | r.below(3) << 3 | r.below(8) : r.below(256))); put_leb(b, pl.size(), r.pct(25) ? r.range(1, 8) : 0); b.insert(b.end(), pl.begin(), pl.end());
}
// what the specification tells decoders to ignore: reserved bits, other encodings of sizes, zero bytes after the trailing bits, unknown OBUs
static std::vector<u8> embroider(const std::vector<u8> &in, Rng &r, int what, int density, Outcome &o) {
    std::vector<u8> b; size_t i = 0; 
    while (i < in.size()) {
        if (what & 1) while (r.pct(density)) put_ignorable(b, r, o);
        u8 h = in[i++]; int type = h >> 3 & 15; bool ext = h & 4, sz = h & 2; u8 x = 0; if (ext) x = in[i++]; size_t len = in.size() - i; if (sz) { u64 v = 0; for (int k = 0; k < 8; k++) { u8 q = in[i++]; v |= (u64)(q & 0x7f) << (7 * k); if (!(q & 0x80)) break; } len = (size_t)v; }
        std::vector<u8> pl(in.begin() + i, in.begin() + i + len); i += len;
        if ((what & 2) && r.pct(50)) { h |= 1; o.inc("reserved_bits"); if (ext) x |= r.below(8); }
        if ((what & 8) && sz && (type == 1 || type == 3 || type == 7 || (type == 5 && !pl.empty() && pl[0] != 4)) && r.pct(40)) { pl.insert(pl.end(), r.range(1, 5), 0); o.inc("zero_bytes_after_trailing_bits"); }
        if ((what & 8) && sz && type == 5 && !pl.empty() && pl[0] == 4 && r.pct(40)) { pl.insert(pl.end(), r.range(1, 5), 0); o.inc("zero_bytes_after_trailing_bits"); }
        if ((what & 16) && type == 5 && !pl.empty() && pl[0] < 128 && r.pct(50)) { std::vector<u8> q; put_leb(q, pl[0], r.range(2, 6)); q.insert(q.end(), pl.begin() + 1, pl.end()); pl = q; o.inc("padded_metadata_type"); }
        b.push_back(h); if (ext) b.push_back(x); if (sz) { int n = 0; if ((what & 4) && r.pct(50)) { n = r.range(1, 8); o.inc("padded_size_field"); } put_leb(b, pl.size(), n); } b.insert(b.end(), pl.begin(), pl.end());
        if (!sz) return b; // the last one
    }
    if (what & 1) while (r.pct(density)) put_ignorable(b, r, o);
    return b;
}
static void gen_c33(Rng &r, Case &c) {
    small_case(r, c, 80, 8); c.set("coefpct", r.range(0, 20)); c.set("splitpct", r.range(0, 30)); if (c.has("tools")) c.set("tools", c.get("tools") | 1ll << pick(r, {T_MULTITG, T_OBUEXT, T_METADATA, T_SHOWEXIST, T_OPPARAM})); if (r.pct(35)) c.set("layers", r.range(1, 15)); rnd_settings(r, c); if (r.pct(35)) { int t = r.range(2, 4); c.set("threads", t); c.set("delay", r.range(0, t)); }
    c.set("what", r.pct(50) ? 31 : r.range(1, 31)); c.set("density", pick(r, {8, 20, 45, 70})); c.set("ops", (i64)(r.next() >> 20)); if (r.pct(30)) c.set("split", 1 + r.below(1000)); if (r.pct(30)) c.set("own", 1); if (r.pct(50)) c.set("strict", 1); whole_tus(c);
}
static void run_c33(const Case &c, Outcome &o) {
    Stream s = generate(c.knobs()); auto pk = packets_of(c, s); Rng r(subseed((u64)c.get("ops", 1), 6)); std::vector<Pkt> q; size_t more = 0; for (size_t i = 0; i < pk.size(); i++) { if (c.get("own", 0) && (c.get("all_layers", 1) || !c.get("layers", 0)) && r.pct(30)) { Pkt e; for (int n = r.range(1, 3); n > 0; n--) put_ignorable(e.b, r, o); e.ts = -5; e.off = 0; q.push_back(e); o.inc("packets_of_ignorable_obus"); } Pkt e = pk[i]; e.marks.clear(); e.b = embroider(pk[i].b, r, (int)c.get("what", 31), (int)c.get("density", 20), o); e.size = (i64)pk[i].b.size(); more += e.b != pk[i].b; q.push_back(e); }
    o.fp = stream_fp(q); Cfg cfg = cfg_of(c); Cfg plain = cfg; plain.threads = 1; plain.delay = 1; std::vector<Pkt> pk0 = pk; for (auto &p : pk0) p.size = (i64)p.b.size();
    Result a = decode(pk0, plain), b = decode(q, cfg); if (!a.bad.empty()) FAILS(a.bad); if (!b.bad.empty()) FAILS(b.bad); std::string e = cmp_pics(b.pics, a.pics); if (e.empty()) e = cmp_errs(b, a); if (!e.empty()) FAILS("with OBUs, bits and bytes a decoder ignores added to the stream: " + e);
    o.inc("pictures_compared", a.pics.size()); o.nontrivial = a.pics.size() > 0 && more > 0;
}
static Reg r33("C33", gen_c33, run_c33, "at least one picture was compared between a stream and the same stream with ignorable additions");

// ---------------------------------------------------------------- C34
struct Log { std::string text; int n = 0; void *cookie = nullptr; std::string bad; std::mutex mu; };
static Log *the_log;
static void on_log(void *cookie, const char *f, va_list ap) { Log *l = the_log; if (!l) return; std::lock_guard<std::mutex> g(l->mu); if (cookie != l->cookie) l->bad = "logger called with a wrong cookie"; if (!f) { l->bad = "logger called without a message"; return; } char b[4096]; int k = vsnprintf(b, sizeof b, f, ap); if (k < 0) l->bad = "message does not format"; l->text += b; l->n++; }
struct Capture { int fd[2], save[2]; Capture() { for (int i = 0; i < 2; i++) { fflush(i ? stderr : stdout); fd[i] = memfd_create("cap", 0); save[i] = dup(i + 1); dup2(fd[i], i + 1); } } std::string end(int i) { fflush(i ? stderr : stdout); dup2(save[i], i + 1); close(save[i]); std::string s; char b[4096]; lseek(fd[i], 0, SEEK_SET); for (ssize_t n; (n = read(fd[i], b, sizeof b)) > 0;) s.append(b, n); close(fd[i]); return s; } };
static void gen_c34(Rng &r, Case &c) { small_case(r, c, 70, 5); c.set("coefpct", r.range(0, 20)); input_case(r, c, 12); rnd_settings(r, c); c.set("alloc", 0); if (r.pct(20)) c.set("layers", r.range(1, 15)); c.set("size_limit", r.pct(40) ? r.range(100, 4000) : 200000); c.set("mode", r.range(0, 1)); c.set("ops", (i64)(r.next() >> 20)); if (r.pct(25)) { int t = r.range(2, 4); c.set("threads", t); c.set("delay", r.range(0, t)); } }
static Result log_decode(const std::vector<Pkt> &pk, Cfg cfg, int logger, Log &l, std::string &out, std::string &err, bool nullcookie) { cfg.logger = logger; cfg.log_cb = (void *)on_log; cfg.log_cookie = l.cookie = nullcookie ? nullptr : &l.text; the_log = &l; Capture cp; Result r = decode(pk, cfg); out = cp.end(0); err = cp.end(1); the_log = nullptr; return r; }
static void run_c34(const Case &c, Outcome &o) {
    auto pk = input_of(c, o); Rng rr(subseed((u64)c.get("ops", 1), 3)); if (rr.pct(50)) for (auto &p : pk) if (rr.pct(40)) { std::vector<u8> x; put_ignorable(x, rr, o); p.b.insert(p.b.begin(), x.begin(), x.end()); p.marks.clear(); }
    SHIM.huge = 1ul << 30; Cfg cfg = cfg_of(c); std::string out, err; Log a, b, d; bool nc = rr.pct(30);
    Result x = log_decode(pk, cfg, 0, a, out, err, nc); if (!out.empty() || !err.empty()) FAIL("without a logger the decoder wrote \"%.60s\"", (out + err).c_str()); if (a.n) FAIL("the logger was called although none is set");
    Result y = log_decode(pk, cfg, 1, b, out, err, nc); if (!out.empty() || !err.empty()) FAIL("with a logger set the decoder wrote \"%.60s\" itself", (out + err).c_str()); if (!b.bad.empty()) FAILS(b.bad);
    Result z = log_decode(pk, cfg, 2, d, out, err, nc); if (!out.empty()) FAIL("the default logger wrote \"%.60s\" to standard output", out.c_str()); if (cfg.threads == 1 && err != b.text) FAIL("the default logger wrote \"%.80s\", a logger of the caller gets \"%.80s\"", err.c_str(), b.text.c_str());
    for (Result *q : {&y, &z}) { std::string e = q->bad.empty() ? x.bad : q->bad; if (e.empty() && (cfg.threads == 1 || (x.errs.empty() && q->errs.empty()))) { e = cmp_pics(q->pics, x.pics); if (e.empty()) e = cmp_errs(*q, x); } if (!e.empty()) FAILS("the result depends on the logger: " + e); }
    if (!b.text.empty() && b.text.back() != '\n') FAIL("a message without a line end: \"%.60s\"", b.text.c_str());
    o.inc("messages", b.n); o.inc("errors", x.errs.size()); o.nontrivial = b.n > 0;
}
static Reg r34("C34", gen_c34, run_c34, "at least one message reached the logger and the three logger settings were compared");

// ---------------------------------------------------------------- C35: builds with other options
static void gen_c35(Rng &r, Case &c) {
    base_case(r, c); if (r.pct(15)) { c.set("w", r.range(16, 300)); c.set("h", r.range(16, 300)); } c.set("nframes", r.range(1, 6)); tools_case(r, c, {T_SUPERRES, T_SCALEDREF, T_CDEF, T_LR, T_DEBLOCK, T_PALETTE, T_CFL, T_FILTERINTRA, T_INTERINTRA, T_WEDGE, T_OBMC, T_WARP, T_COMPOUND, T_JNT, T_REFMVS, T_LOSSLESS, T_TXSPLIT, T_BIGCOEF, T_DUALFILTER, T_INTRABC, T_FILMGRAIN, T_HIDDEN, T_SHOWEXIST, T_METADATA, T_SIZECHANGE}); tile_case(r, c);
    if (r.pct(40)) c.set("seqs", r.range(2, 4)); if (r.pct(50)) c.set("grain", 1); if (r.pct(25)) c.set("invisible", 1); cfg_case(r, c, 35);
    bool up = (variant == "only8") == !c.get("hbd", 0); if (!up && variant != "trim" && r.pct(60)) c.set("hbd", variant == "only8" ? 0 : r.range(1, 2)); // mostly something the build supports
}
static void run_c35(const Case &c, Outcome &o) {
    Stream s = generate(c.knobs()); auto pk = packets_of(c, s); o.fp = stream_fp(pk); bool v8 = variant != "only16", v16 = variant != "only8", logs = variant == "only8"; auto has = [&](int hbd) { return hbd ? v16 : v8; };
    Cfg cfg = cfg_of(c); Log l; cfg.logger = 1; cfg.log_cb = (void *)on_log; cfg.log_cookie = l.cookie = &l.text; the_log = &l; Result r = decode(pk, cfg); the_log = nullptr; if (!l.bad.empty()) FAILS(l.bad);
    auto all = expected(s, c.get("invisible", 0)); std::vector<const OutFrame *> e; int refused = 0; for (auto f : all) if (has(f->rf.seq.hbd)) e.push_back(f); for (auto &f : s.frames) refused += !has(f.rf.seq.hbd);
    std::vector<int> errs; if (refused) errs.swap(r.errs); std::string m = against_model(s, r, e, CMP_PIX | CMP_HDR | CMP_META, c.get("grain", 0), &o); if (!m.empty()) FAILS(m);
    if (refused) errs.swap(r.errs); if (!refused != r.errs.empty()) FAIL("%d frames of a bit depth the library is built without, %zu errors", refused, r.errs.size());
    bool said = false; for (int x : r.errs) said |= x == DAV1D_ERR(ENOPROTOOPT); if (refused && !said) FAIL("frames of a bit depth the library is built without are refused with %d", r.errs[0]);
    if (!logs && l.n) FAIL("the logger of a library built without logging was called: %.60s", l.text.c_str()); if (logs && refused && !l.n) FAIL("no message about the bit depth");
    o.inc("frames_refused", refused); o.inc("recovered", refused && !e.empty()); o.nontrivial = !e.empty() || refused;
}
static Reg r35("C35", gen_c35, run_c35, "at least one picture was compared with the model or at least one frame of an unsupported depth was refused");

// ---------------------------------------------------------------- C36: packet, properties and picture objects
struct Obj { std::atomic<int> freed{0}; int visible = 0; bool sent = false; u8 *buf = nullptr; void *want = nullptr; int id = 0; };
static std::atomic<const char *> obj_bad{nullptr};
static void obj_free(const u8 *p, void *ck) { Obj *b = (Obj *)ck; if (p != b->want) obj_bad = "a free callback got another pointer than the one it was given with"; if (b->freed.fetch_add(1)) obj_bad = "a free callback ran twice"; }
static bool same_props(const Dav1dDataProps &a, const Dav1dDataProps &b) { return a.timestamp == b.timestamp && a.duration == b.duration && a.offset == b.offset && a.size == b.size && a.user_data.data == b.user_data.data; }
static bool def_props(const Dav1dDataProps &m) { return m.timestamp == INT64_MIN && m.duration == 0 && m.offset == -1 && m.size == 0 && !m.user_data.data && !m.user_data.ref; }
static void gen_c36(Rng &r, Case &c) { small_case(r, c, 60, 8); c.set("coefpct", r.range(0, 15)); c.set("ops", (i64)(r.next() >> 20)); c.set("nops", r.range(10, 220)); c.set("ninst", r.pct(30) ? 2 : 1); c.set("bad", pick(r, {0, 0, 10, 25, 50})); c.set("flushpct", pick(r, {0, 0, 3})); if (r.pct(40)) { int t = r.range(2, 4); c.set("threads", t); c.set("delay", r.range(0, t)); } if (r.pct(30)) c.set("grain", 1); if (r.pct(30)) c.set("layers", r.range(1, 3)); }
static void run_c36(const Case &c, Outcome &o) {
    Stream s = generate(c.knobs()); std::vector<Pkt> pk = subseed((u64)c.get("ops"), 9) % 3 ? tu_packets(s) : split_packets(s, (u64)c.get("ops")); o.fp = stream_fp(pk) ^ c.hash(); Rng r(subseed((u64)c.get("ops", 1), 1)); Cfg cfg = cfg_of(c); cfg.alloc = 0; { Cfg w; Decoder warm(w); } SHIM.huge = 1ul << 30; obj_bad = nullptr;
    int ni = (int)c.get("ninst", 1), bad = (int)c.get("bad", 0); bool flushes = c.get("flushpct", 0) > 0; std::vector<u64> ref; if (!bad && !flushes) { Cfg q = cfg; Result R = decode(pk, q); if (!R.bad.empty() || R.errs.size()) { o.inconclusive = "reference: " + R.bad; return; } for (auto &p : R.pics) ref.push_back(p.hash()); }
    long live = SHIM.live; std::deque<Obj> objs, uds; struct Slot { Dav1dData d; Obj *o = nullptr, *u = nullptr; int step = -1; bool full = false; }; enum { NS = 3, NPR = 3, NPI = 4 };
    struct Inst { Decoder *D; int pos = 0; std::vector<u64> got; std::vector<Dav1dDataProps> sent; bool any = false; }; std::vector<Inst> in(ni); for (auto &x : in) x.D = new Decoder(cfg);
    Slot sl[NS]; for (auto &x : sl) memset(&x.d, 0, sizeof x.d); struct PS { Dav1dDataProps p; Obj *u = nullptr; } pr[NPR]; for (auto &x : pr) memset(&x.p, 0, sizeof x.p); struct PI { Dav1dPicture p; Obj *u = nullptr; bool full = false; u64 h = 0; } pi[NPI]; for (auto &x : pi) memset(&x.p, 0, sizeof x.p);
    std::string msg; auto drop = [&](Obj *&x) { if (!x) return; x->visible--; if (!x->sent && !x->visible && x->freed != 1) msg = "a reference that was never sent to a decoder was not freed when its last holder let go of it"; x = nullptr; };
    auto alive = [&] { for (auto *q : {&objs, &uds}) for (auto &x : *q) if (x.visible > 0 && x.freed) return false; return true; };
    auto find = [&](const u8 *d) -> Obj * { for (auto &x : uds) if (x.want == (void *)d) return &x; return nullptr; };
    int pics = 0, sends = 0, errors = 0, props = 0; i64 seq = 0; const char *what = "";
    auto step = [&]() -> std::string {
        Inst &x = in[r.below(ni)]; int k = r.below(100);
        if (k < 26) { what = "create or wrap"; Slot &q = sl[r.below(NS)]; if (q.full) return ""; // the structure is not initialised
            Pkt p; if (x.pos < (int)pk.size()) p = pk[x.pos]; else p.b = {0x12, 0}; q.step = x.pos < (int)pk.size() ? x.pos : -1; if (bad && r.pct(bad)) { q.step = -1; if (p.b.size() > 3) p.b[r.below((u32)p.b.size())] ^= 1 << r.below(8); if (r.pct(30)) p.b.resize(1 + r.below((u32)p.b.size())); }
            u8 *g = (u8 *)&q.d; for (size_t i = 0; i < sizeof q.d; i++) g[i] = (u8)r.next(); size_t n = p.b.size();
            if (r.pct(40)) { u8 *b = dav1d_data_create(&q.d, n); if (!b) return "dav1d_data_create failed"; if (b != q.d.data) return "dav1d_data_create returned another pointer than it stored"; memcpy(b, p.b.data(), n); q.o = nullptr; }
            else { objs.emplace_back(); Obj &b = objs.back(); b.buf = new u8[n]; memcpy(b.buf, p.b.data(), n); b.want = b.buf; if (dav1d_data_wrap(&q.d, b.buf, n, obj_free, &b)) { delete[] b.buf; return "dav1d_data_wrap failed"; } b.visible = 1; q.o = &b; if (q.d.data != b.buf) return "dav1d_data_wrap stored another pointer"; }
            q.full = true; if (q.d.sz != n || !q.d.ref) return fmt("size %zu instead of %zu", q.d.sz, n); Dav1dDataProps e; memset(&e, 0, sizeof e); e.timestamp = INT64_MIN; e.offset = -1; e.size = n; if (!same_props(q.d.m, e) || q.d.m.user_data.ref) return "the properties of a new packet are not the documented defaults";
            if (r.pct(50)) { q.d.m.timestamp = 1000 + seq; q.d.m.duration = 7 * seq; q.d.m.offset = seq << 20; q.d.m.size = (size_t)(seq * 3); seq++; } return ""; }
        if (k < 38) { what = "wrap_user_data"; Slot &q = sl[r.below(NS)]; if (!q.full || q.u) return ""; Dav1dData before = q.d; uds.emplace_back(); Obj &u = uds.back(); u.id = (int)uds.size(); u.want = &u.id; if (dav1d_data_wrap_user_data(&q.d, (const u8 *)u.want, obj_free, &u)) return "dav1d_data_wrap_user_data failed"; u.visible = 1; q.u = &u; if (q.d.m.user_data.data != u.want || !q.d.m.user_data.ref) return "user data not stored"; before.m.user_data = q.d.m.user_data; return memcmp(&before, &q.d, sizeof before) ? "attaching user data changed something else" : ""; }
        if (k < 44) { what = "unref of a packet"; Slot &q = sl[r.below(NS)]; dav1d_data_unref(&q.d); drop(q.o); drop(q.u); q.full = false; if (q.d.data || q.d.sz || q.d.ref || q.d.m.user_data.data || q.d.m.user_data.ref) return "not empty"; if (!def_props(q.d.m)) return "properties not reset"; return ""; }
        if (k < 68) { what = "send_data"; Slot *q = nullptr; for (auto &y : sl) if (y.full && (y.step == x.pos || y.step < 0) && (!q || r.below(2))) q = &y; if (!q) return ""; bool ours = q->step == x.pos; Dav1dData before = q->d; if (q->o) q->o->sent = true; if (q->u) q->u->sent = true; int res = dav1d_send_data(x.D->c, &q->d); sends++; if (res > 0) return fmt("returned %d", res);
            if (res == 0 || res != AGAIN) x.sent.push_back(before.m);
            if (res == 0) { if (q->d.data || q->d.sz || q->d.ref || q->d.m.user_data.ref) return "the packet was taken but not cleared"; if (!def_props(q->d.m)) return "the packet was taken but its properties not reset"; if (ours) x.pos++; else x.any = true; drop(q->o); drop(q->u); q->full = false; return ""; }
            if (memcmp(&before, &q->d, sizeof before)) return fmt("returned %d and changed the packet", res); if (res != AGAIN) { x.any = true; errors++; if (ours) { x.pos++; q->step = -1; } if (r.pct(70)) { dav1d_data_unref(&q->d); drop(q->o); drop(q->u); q->full = false; } } return ""; }
        if (k < 84) { what = "get_picture"; PI *q = nullptr; for (auto &y : pi) if (!y.full) q = &y; if (!q) return ""; Dav1dPicture zero = q->p; int res = dav1d_get_picture(x.D->c, &q->p); if (res > 0) return fmt("returned %d", res); if (res < 0) { if (memcmp(&zero, &q->p, sizeof zero)) return fmt("returned %d and changed the picture", res); if (res != AGAIN) { x.any = true; errors++; } return ""; }
            q->full = true; pics++; if (!q->p.data[0] || !q->p.ref || !q->p.frame_hdr || !q->p.seq_hdr) return "incomplete picture"; bool hit = false; for (auto &m : x.sent) hit |= same_props(m, q->p.m); if (!hit) return fmt("picture with properties of no packet that was sent (timestamp %lld, size %zu)", (long long)q->p.m.timestamp, q->p.m.size); if (q->p.m.user_data.data) { q->u = find(q->p.m.user_data.data); if (!q->u) return "picture with unknown user data"; if (q->u->freed) return "picture with user data that is already freed"; q->u->visible++; }
            Pic v; copy_pic(q->p, v); q->h = v.hash(); x.got.push_back(q->h); return ""; }
        if (k < 88) { what = "unref of a picture"; PI &q = pi[r.below(NPI)]; if (q.full) { Pic v; copy_pic(q.p, v); if (v.hash() != q.h) return "a held picture changed"; } dav1d_picture_unref(&q.p); q.full = false; drop(q.u); if (q.p.data[0] || q.p.data[1] || q.p.data[2] || q.p.ref || q.p.frame_hdr || q.p.frame_hdr_ref || q.p.seq_hdr || q.p.seq_hdr_ref || q.p.m.user_data.ref || q.p.content_light || q.p.mastering_display || q.p.itut_t35) return "not empty"; return ""; }
        if (k < 94) { what = "get_decode_error_data_props"; PS &q = pr[r.below(NPR)]; int res = dav1d_get_decode_error_data_props(x.D->c, &q.p); drop(q.u); if (res) return fmt("returned %d", res); props++; if (!bad && !flushes) { if (!def_props(q.p)) return fmt("no error, but properties of a packet (timestamp %lld, size %zu)", (long long)q.p.timestamp, q.p.size); } else { bool hit = def_props(q.p); for (auto &m : x.sent) hit |= same_props(m, q.p); if (!hit) return "properties of no packet that was sent"; } if (q.p.user_data.data) { q.u = find(q.p.user_data.data); if (!q.u || q.u->freed) return "user data unknown or already freed"; q.u->visible++; } return ""; }
        if (k < 97) { what = "unref of properties"; PS &q = pr[r.below(NPR)]; dav1d_data_props_unref(&q.p); drop(q.u); return def_props(q.p) ? "" : "not reset"; }
        if (k < 99) { what = "apply_grain"; PI *a = nullptr, *b = nullptr; for (auto &y : pi) if (y.full) a = &y; else b = &y; if (!a || !b || cfg.grain || x.got.empty() || ni > 1) return ""; int res = dav1d_apply_grain(x.D->c, &b->p, &a->p); if (res) return fmt("returned %d", res); b->full = true; if (!same_props(a->p.m, b->p.m)) return "other properties than the source"; b->u = a->u; if (b->u) b->u->visible++; Pic v; copy_pic(b->p, v); b->h = v.hash(); return ""; }
        what = "flush"; if (!flushes) return ""; dav1d_flush(x.D->c); x.any = true; return ""; };
    int nops = (int)c.get("nops", 50); for (int i = 0; i < nops && msg.empty(); i++) { std::string e = step(); if (!e.empty() && msg.empty()) msg = e; if (msg.empty() && obj_bad.load()) msg = obj_bad.load(); if (msg.empty() && !alive()) msg = "a buffer or user data was freed although a packet, picture or properties still refer to it"; if (!msg.empty()) msg = fmt("operation %d, %s: ", i, what) + msg; }
    if (msg.empty() && !bad && !flushes) for (auto &x : in) if (!x.any) for (size_t i = 0; i < x.got.size(); i++) if (i >= ref.size() || x.got[i] != ref[i]) { msg = fmt("picture %zu differs from plain decoding", i); break; }
    if (msg.empty()) { // everything goes, in random order
        std::vector<int> ord; for (int i = 0; i < NS + NPR + NPI + ni; i++) ord.push_back(i); for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below((u32)i)]);
        for (int i : ord) { if (i < NS) { dav1d_data_unref(&sl[i].d); drop(sl[i].o); drop(sl[i].u); } else if (i < NS + NPR) { dav1d_data_props_unref(&pr[i - NS].p); drop(pr[i - NS].u); } else if (i < NS + NPR + NPI) { PI &q = pi[i - NS - NPR]; if (q.full) { Pic v; copy_pic(q.p, v); if (v.hash() != q.h) msg = "at the end: a held picture changed"; } dav1d_picture_unref(&q.p); drop(q.u); } else in[i - NS - NPR - NPI].D->close(); if (!alive()) msg = "at the end: a buffer or user data was freed although a packet, picture or properties still refer to it"; if (!msg.empty()) break; }
        if (msg.empty() && obj_bad.load()) msg = obj_bad.load(); if (msg.empty()) for (auto *q : {&objs, &uds}) for (auto &y : *q) if (y.freed != 1) { msg = fmt("at the end: %s never freed", q == &objs ? "an input buffer" : "user data"); break; }
    }
    if (!msg.empty()) FAILS(msg);
    for (auto &x : in) delete x.D; for (auto &y : objs) delete[] y.buf;
    o.inc("pictures", pics); o.inc("sends", sends); o.inc("errors", errors); o.inc("error_properties", props); o.inc("user_data", uds.size()); o.inc("buffers", objs.size()); (void)live; o.nontrivial = sends > 1 && (pics || errors);
}
static Reg r36("C36", gen_c36, run_c36, "at least two packets were sent and a picture or an error came back, with every object checked after every operation");

// ---------------------------------------------------------------- C37: forbidden header values
static void gen_c37(Rng &r, Case &c) {
    small_case(r, c, 100, 8); c.set("coefpct", r.range(0, 20)); if (r.pct(30)) c.set("grain", 1); if (r.pct(20)) c.set("invisible", 1); if (r.pct(30)) { int t = r.range(2, 4); c.set("threads", t); c.set("delay", r.range(0, t)); } if (r.pct(25)) c.set("feed", 1 + r.below(1000)); if (r.pct(20)) c.set("op", 0);
    tools_case(r, c, {T_FILMGRAIN, T_FILMGRAIN, T_FILMGRAIN, T_FRAMEID, T_FRAMEID, T_MULTITILE, T_MULTITILE, T_TIMING, T_SIZECHANGE, T_HIDDEN, T_SHOWEXIST, T_INTRAONLY, T_SHORTSIG, T_METADATA});
    if (r.pct(25)) { int v = r.range(1, 6); c.set("sviol", v); i64 f = v == 5 ? 1ll << T_INTRAONLY : v == 6 ? 1ll << T_HIDDEN | 1ll << T_SHOWEXIST : 0; if (f) { c.set("tools", c.get("tools", -1) | f); c.set("force", c.get("force", 0) | f); c.set("nframes", r.range(4, 9)); c.v.erase("seqs"); } }
    else { c.set("viol", 1 + r.below(1000000)); c.set("strict", r.pct(40)); if (r.pct(15)) c.set("layers", r.range(1, 15)); if (r.pct(20)) { c.set("tilelog2", 4); c.set("sb128", 0); c.set(r.pct(70) ? "w" : "h", r.range(130, 360)); c.set("symcap", r.range(0, 100)); i64 f = 1ll << T_MULTITILE; c.set("tools", c.get("tools", -1) | f); c.set("force", c.get("force", 0) | f); } }
}
static void run_c37(const Case &c, Outcome &o) {
    Stream s = generate(c.knobs()); auto pk = tu_packets(s); o.fp = stream_fp(pk); Cfg cfg = cfg_of(c); bool inv = c.get("invisible", 0), grain = c.get("grain", 0); auto all = expected(s, inv); int sv = (int)c.get("sviol", 0); int what = CMP_PIX | CMP_HDR | CMP_META;
    if (!sv) {
        Result x = decode(pk, cfg); std::string names; for (auto &v : s.viols) { names += (names.empty() ? "" : ", ") + v.what + fmt(" (packet %d)", v.tu); o.inc(v.what); } std::vector<int> errs; errs.swap(x.errs);
        std::string e = against_model(s, x, all, what, grain, &o); if (!e.empty()) FAILS("with forbidden values [" + names + "] put between: " + e);
        for (int q : errs) if (q != DAV1D_ERR(EINVAL)) FAILS(fmt("error %d for a forbidden value, ", q) + names);
        if (errs.empty() != s.viols.empty() || errs.size() > s.viols.size() || (cfg.threads == 1 && errs.size() != s.viols.size() && !c.get("feed", 0))) FAILS(fmt("%zu errors for %zu forbidden values: ", errs.size(), s.viols.size()) + names);
        o.inc("forbidden_values", s.viols.size()); o.nontrivial = !s.viols.empty() && !all.empty(); return;
    }
    Cfg a = cfg; a.strict = 0; Result x = decode(pk, a); std::string e = against_model(s, x, all, what, grain, &o); if (!e.empty()) FAILS(fmt("value %d that only strict mode forbids, not strict: ", sv) + e); if (s.sviol_at < 0 || s.frames.empty()) { return; }
    a.strict = 1; Result y = decode(pk, a); if (!y.bad.empty()) FAILS(y.bad); if (y.errs.empty()) FAIL("strict mode accepted value %d", sv); if (y.errs[0] != DAV1D_ERR(EINVAL)) FAIL("strict mode: error %d", y.errs[0]);
    size_t n = 0; for (int i = 0; i < s.sviol_at && i < (int)s.frames.size(); i++) n += s.frames[i].shown || inv; 
    if (sv <= 4 && !y.pics.empty()) FAIL("strict mode: %zu pictures of sequences whose header it must refuse (value %d)", y.pics.size(), sv);
    if (y.pics.size() < n) FAIL("strict mode: only %zu of %zu pictures before value %d", y.pics.size(), n, sv); for (size_t i = 0; i < n; i++) { std::string q = cmp_pic(y.pics[i], x.pics[i], what); if (!q.empty()) FAILS(fmt("strict mode, picture %zu before value %d: ", i, sv) + q); }
    o.inc(fmt("strict_value_%d", sv)); o.nontrivial = true;
}
static Reg r37("C37", gen_c37, run_c37, "at least one forbidden value was refused and the pictures of the other frames compared");
