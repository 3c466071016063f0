// C09, C10, C12-C19, C22-C25, C29, C30: histories of API calls, threads, faults.
#include "chk.h"
#include <thread>
#include <deque>
#include <memory>
#include <unistd.h>
#include <math.h>
using namespace av1m;

// ---------------------------------------------------------------- shared generators
void small_case(Rng &r, Case &c, int maxdim = 130, int maxf = 9) {
    base_case(r, c, maxdim); c.set("nframes", r.range(2, maxf));
    tools_case(r, c, {T_MULTITILE, T_MULTITILE, T_HIDDEN, T_SHOWEXIST, T_SHOWNKEYEXIST, T_SUPERRES, T_CDEF, T_LR, T_FILMGRAIN, T_SCALEDREF, T_REFMVS, T_TEMPORALSEG, T_SEG, T_MULTITG, T_CDFUPDATE, T_KEYFRAMES, T_METADATA, T_OBMC, T_INTRABC, T_PALETTE, T_LOSSLESS, T_SIZECHANGE, T_INTRAONLY, T_SWITCHFRAME, T_OPPARAM});
    c.set("coefpct", r.range(0, 60)); if (r.pct(40)) c.set("splitpct", r.range(10, 60)); if (r.pct(30)) c.set("tilelog2", pick(r, {2, 3, 4})); if (r.pct(30)) c.set("seqs", r.range(2, 3));
}
// with one layer per temporal unit output, a packet boundary tells the decoder that the temporal unit is complete
void whole_tus(Case &c) { if (!c.get("all_layers", 1) && c.get("layers", 0)) { c.v.erase("split"); if (c.has("merge")) { c.set("merge", 1); c.set("split", 1); } } }
static void mt_cfg(Rng &r, Case &c) { int t = r.pct(85) ? r.range(2, 6) : r.range(7, 12); c.set("threads", t); c.set("delay", r.pct(25) ? 1 : r.pct(35) ? 0 : r.range(2, t)); if (r.pct(50)) c.set("grain", 1); }
void rnd_settings(Rng &r, Case &c) { if (r.pct(25)) c.set("invisible", 1); if (r.pct(25)) c.set("inloop", r.range(0, 7)); if (r.pct(20)) c.set("dft", r.range(1, 3)); if (r.pct(25)) c.set("strict", 1); if (r.pct(25)) c.set("all_layers", 0); if (r.pct(20)) c.set("op", r.range(0, 5)); if (r.pct(40)) c.set("grain", 1); if (r.pct(40)) c.set("alloc", r.range(1, 3)); if (r.pct(30)) c.set("datamode", 1); }
static std::vector<Pkt> stream_pkts(const Case &c, Outcome &o, Stream *sp = nullptr) { Stream s = generate(c.knobs()); auto pk = packets_of(c, s); o.fp = stream_fp(pk); if (sp) *sp = std::move(s); return pk; }
static bool sane_err(int e) { return e < 0 && e > -200 && e != AGAIN; }

// ---------------------------------------------------------------- C09
static void gen_c09(Rng &r, Case &c) { small_case(r, c, 200, 12); if (r.pct(35)) c.set("w", r.range(64, 400)); if (r.pct(25)) c.set("layers", r.range(1, 15)); mt_cfg(r, c); if (r.pct(15)) c.set("threads", r.range(13, 40)); if (r.pct(30)) c.set("split", 1 + r.below(1000)); if (r.pct(30)) c.set("feed", 1 + r.below(1000)); if (r.pct(25)) c.set("all_layers", 0); if (r.pct(20)) c.set("invisible", 1); if (r.pct(10)) c.set("inloop", r.range(0, 7)); whole_tus(c); }
static void c09_common(const Case &c, Outcome &o, bool sched) {
    Stream s; auto pk = stream_pkts(c, o, &s); Cfg a = cfg_of(c); Cfg b = a; b.threads = 1; b.delay = 1; b.feed = 0;
    Result ref = decode(pk, b); if (!ref.bad.empty()) FAILS(ref.bad); if (!ref.errs.empty()) FAIL("error %d on a conforming stream", ref.errs[0]);
    int reps = sched ? 1 : 2; for (int i = 0; i < reps; i++) {
        if (sched) sched_start((u64)c.get("ss", 1), (int)c.get("strat", 0));
        Result r = decode(pk, a);
        if (sched) { sched_stop(); o.inc("schedule_points", SCHED.steps); o.inc("thread_switches", SCHED.switches); o.inc("spurious_wakeups", SCHED.spurious); }
        std::string e = r.bad; if (e.empty()) e = cmp_pics(r.pics, ref.pics); if (e.empty()) e = cmp_errs(r, ref);
        if (!e.empty()) FAILS(fmt("%d threads, delay %d, against one thread: ", a.threads, a.delay) + e);
    }
    o.inc("pictures_compared", ref.pics.size()); o.inc("frame_threaded", a.delay != 1); o.nontrivial = ref.pics.size() > 1 && (!sched || SCHED.switches > 20);
}
static void run_c09(const Case &c, Outcome &o) { c09_common(c, o, false); }
static void gen_c09s(Rng &r, Case &c) { small_case(r, c, 90, 7); c.set("coefpct", r.range(0, 20)); c.set("splitpct", r.range(0, 35)); if (r.pct(30)) c.set("h", r.range(64, 170)); mt_cfg(r, c); if (c.get("threads") > 6) c.set("threads", 6); if (r.pct(15)) c.set("layers", r.range(1, 15)); if (r.pct(30)) c.set("feed", 1 + r.below(1000)); if (r.pct(20)) c.set("all_layers", 0); if (r.pct(6)) { c.set("w", r.range(16, 32)); c.set("h", r.range(2049, 2250)); c.set("nframes", 2); c.set("sb128", 0); c.set("splitpct", 0); c.set("coefpct", 5); c.set("symcap", 3000); if (r.pct(70)) { i64 t = c.get("tools", -1) | 1ll << T_CDEF; if (r.pct(60)) t &= ~(1ll << T_DEBLOCK); c.set("tools", t); } } else if (r.pct(22)) { // tall frames of small blocks with long vectors: every row waits for rows of other frames
        c.set("w", r.range(16, 40)); c.set("h", r.range(130, 400)); c.set("nframes", r.range(2, 4)); c.set("threads", r.range(2, 4)); c.set("delay", r.pct(60) ? 0 : 2); c.set("sb128", r.pct(80) ? 0 : 1); c.set("coefpct", r.range(0, 6)); c.set("splitpct", r.range(30, 90)); c.set("newmvpct", r.range(50, 95)); c.set("mvmag", pick(r, {16, 64, 128, 256, 512})); c.set("intrapct", r.range(0, 8)); c.set("cdfpct", pick(r, {0, 20, 60}));
        i64 t = c.get("tools", -1); if (r.pct(60)) t &= ~(1ll << T_CDEF | 1ll << T_LR | 1ll << T_SUPERRES); if (r.pct(50)) t &= ~(1ll << T_DEBLOCK); t &= ~(1ll << T_INTRAONLY | 1ll << T_KEYFRAMES | 1ll << T_SIZECHANGE); c.set("tools", t); c.set("force", c.get("force", 0) & ~(1ll << T_SUPERRES | 1ll << T_INTRAONLY | 1ll << T_KEYFRAMES | 1ll << T_INTRABC | 1ll << T_SIZECHANGE));
    }
    c.set("ss", (i64)(r.next() >> 20)); c.set("strat", r.range(0, 3)); }
static void run_c09s(const Case &c, Outcome &o) { c09_common(c, o, true); }
static Reg r9("C09", gen_c09, run_c09, "at least two pictures were compared between the threaded and the single-threaded decode");
static Reg r9s("C09S", gen_c09s, run_c09s, "at least two pictures were compared and the scheduler switched threads more than 20 times");

// ---------------------------------------------------------------- random sessions
struct Kept { Dav1dPicture p; Pic copy; };
// another thread of the caller that looks at pictures and releases them
struct Consumer {
    std::mutex m; std::deque<Kept> q; std::atomic<bool> stop{false}; std::string bad; long n = 0; std::thread t;
    Consumer() : t([this] { for (;;) { Kept k; { std::lock_guard<std::mutex> l(m); if (!q.empty()) { k = std::move(q.front()); q.pop_front(); } else if (stop) return; else k.p.data[0] = nullptr; } if (!k.p.data[0]) { std::this_thread::yield(); continue; } Pic p; copy_pic(k.p, p); p.events = k.copy.events; std::string s = cmp_pic(p, k.copy); if (!s.empty() && bad.empty()) bad = "a picture changed while another thread of the caller held it: " + s; dav1d_picture_unref(&k.p); n++; } }) {}
    ~Consumer() { end(); } void end() { if (t.joinable()) { stop = true; t.join(); } }
    void add(Kept &&k) { std::lock_guard<std::mutex> l(m); q.push_back(std::move(k)); }
};
struct Session {
    Consumer *cons = nullptr;
    Decoder *D = nullptr; Rng r; Outcome &o; std::vector<Kept> kept; bool checks_held = true; int flushes = 0, errors = 0, pics = 0, sends = 0; int keep_pct = 30; bool fresh_get = true; std::vector<Pic> *out = nullptr; std::vector<std::pair<int, i64>> errs; int clean_pics = -1; /* pictures returned before the first error */
    void err() { if (!errors++) clean_pics = pics; }
    Session(u64 seed, Outcome &o) : r(seed), o(o) {}
    std::string recheck(Kept &k) { Pic p; copy_pic(k.p, p); p.events = k.copy.events; std::string s = cmp_pic(p, k.copy); return s.empty() ? s : "a picture changed while the caller held it: " + s; }
    void drop(size_t i) { std::string s = recheck(kept[i]); if (!s.empty() && D) D->bk.fail(s); else if (!s.empty() && o.viol.empty()) o.viol = s; dav1d_picture_unref(&kept[i].p); kept.erase(kept.begin() + i); }
    int get() {
        Kept k; memset(&k.p, 0, sizeof k.p); int res; bool keep = r.pct(keep_pct);
        if (D->get(k.copy, res, keep ? &k.p : nullptr)) { pics++; if (out) out->push_back(k.copy); if (keep) { if (cons && r.pct(70)) cons->add(std::move(k)); else kept.push_back(std::move(k)); } } else if (res != AGAIN) { err(); errs.push_back({res, 0}); if (!sane_err(res)) D->bk.fail(fmt("get_picture returned %d", res)); }
        while (kept.size() > 12) drop(r.below((u32)kept.size()));
        return res;
    }
    void flush() { flushes++; dav1d_flush(D->c); }
    void misc() {
        switch (r.below(6)) {
        case 0: { Dav1dEventFlags f; if (dav1d_get_event_flags(D->c, &f)) D->bk.fail("get_event_flags failed"); break; }
        case 1: { Dav1dDataProps p; memset(&p, 0, sizeof p); if (dav1d_get_decode_error_data_props(D->c, &p)) D->bk.fail("get_decode_error_data_props failed"); dav1d_data_props_unref(&p); break; }
        case 2: if (!kept.empty()) drop(r.below((u32)kept.size())); break;
        case 3: if (!kept.empty()) { Kept &k = kept[r.below((u32)kept.size())]; Dav1dPicture g; memset(&g, 0, sizeof g); int res = dav1d_apply_grain(D->c, &g, &k.p); if (res == 0) { Pic x; copy_pic(g, x); dav1d_picture_unref(&g); } else if (!sane_err(res)) D->bk.fail(fmt("apply_grain returned %d", res)); else if (g.data[0] || g.ref) D->bk.fail("apply_grain failed but left a picture"); } break;
        case 4: if (!kept.empty()) { std::string s = recheck(kept[r.below((u32)kept.size())]); if (!s.empty()) D->bk.fail(s); } break;
        case 5: { Dav1dData d; memset(&d, 0, sizeof d); int res = dav1d_send_data(D->c, &d); if (res > 0) D->bk.fail("send_data of nothing returned a positive value"); break; }
        }
    }
    // feeds pk[from..to) with random calls in between; false: the decoder was closed on the way
    void feed(const std::vector<Pkt> &pk, size_t from, size_t to, int flush_pct = 0) {
        for (size_t i = from; i < to && D->bk.bad.empty(); i++) {
            if (pk[i].b.empty()) continue;
            Dav1dData d; D->make(pk[i], d); if (!d.data) { err(); continue; }
            for (int spin = 0;; spin++) {
                int res = dav1d_send_data(D->c, &d); sends++;
                if (res == 0) { if (d.data || d.sz) D->bk.fail("send_data succeeded but left the packet"); break; }
                if (res != AGAIN) { err(); errs.push_back({res, pk[i].ts}); if (!sane_err(res)) D->bk.fail(fmt("send_data returned %d", res)); if (!d.data) D->bk.fail("send_data failed but took the caller's reference"); dav1d_data_unref(&d); break; }
                if (!d.data) { D->bk.fail("send_data said try again but took the data"); break; }
                if (flush_pct && r.pct(2)) { flush(); if (r.pct(50)) { dav1d_data_unref(&d); break; } }
                if (get() == AGAIN && spin > 20000) { D->bk.fail("neither send_data nor get_picture makes progress"); dav1d_data_unref(&d); break; }
            }
            for (int n = r.below(4); n > 0; n--) if (get() == AGAIN && r.pct(70)) break;
            if (r.pct(25)) misc();
            if (flush_pct && r.pct(flush_pct)) flush();
        }
    }
    void drain() { int again = 0; for (int n = 0; again < 2 && D->bk.bad.empty(); n++) { if (get() == AGAIN) again++; else again = 0; if (n > 20000) { D->bk.fail("draining never ends"); break; } } }
    void drop_all() { while (!kept.empty()) drop(kept.size() - 1); }
};
static std::vector<Pkt> random_bytes_pkts(Rng &r, int n) {
    std::vector<Pkt> pk; for (int i = 0; i < n; i++) { Pkt p; int obus = r.range(1, 5); for (int k = 0; k < obus; k++) { int type = pick(r, {1, 2, 3, 4, 5, 6, 6, 7, 8, 15, 0, 9}); int len = r.pct(80) ? r.range(0, 60) : r.range(0, 600); bool ext = r.pct(20), sz = k + 1 < obus || r.pct(70); p.b.push_back(type << 3 | ext << 2 | sz << 1 | r.pct(3) << 7); if (ext) p.b.push_back((u8)r.next()); if (sz) { auto l = leb128(r.pct(95) ? len : (int)r.below(100000)); p.b.insert(p.b.end(), l.begin(), l.end()); } for (int j = 0; j < len; j++) p.b.push_back(r.pct(60) ? (u8)r.next() : 0); } p.ts = 1 + i; pk.push_back(p); } return pk;
}
// kinds of input: 0 conforming, 1 conforming headers with random tile data, 2 damaged, 3 random OBUs, 4 mix of two streams
void input_case(Rng &r, Case &c, int valid_pct) { if (r.pct(valid_pct)) c.set("in", 0); else { c.set("in", pick(r, {1, 1, 2, 2, 2, 2, 3, 4})); c.set("nmut", r.pct(60) ? r.range(1, 3) : r.range(1, 20)); if (c.get("in") == 2 && r.pct(35)) c.set("model", 0); } c.set("cseed", (i64)(r.next() >> 20)); if (r.pct(40)) c.set("split", 1 + r.below(1000)); }
std::vector<Pkt> input_of(const Case &c, Outcome &o) {
    int in = (int)c.get("in", 0); Rng r(subseed((u64)c.get("cseed", 1), 77)); Knobs k = c.knobs(); if (in == 1 || in == 4) k.model = in == 1 ? 0 : k.model;
    std::vector<Pkt> pk; if (in == 3) pk = random_bytes_pkts(r, r.range(2, 12)); else { Stream s = generate(k); pk = packets_of(c, s); }
    if (in == 4) { Knobs k2 = k; k2.seed = k.seed + 1; Stream t = generate(k2); auto q = packets_of(c, t); std::vector<Pkt> m; size_t a = 0, b = 0; while (a < pk.size() || b < q.size()) { if (b >= q.size() || (a < pk.size() && r.pct(60))) m.push_back(pk[a++]); else m.push_back(q[b++]); } pk = m; }
    if (in == 2 || in == 4) damage(r, pk, (int)c.get("nmut", 1), -1);
    o.fp = stream_fp(pk); o.inc(fmt("input_kind_%d", in)); return pk;
}
static bool parsed_something(const Session &s) { return s.pics > 0 || s.errors > 0; }
// a whole life of a decoder, with flushes, held pictures and an early close
static void life(const Case &c, Outcome &o, const std::vector<Pkt> &pk, int flush_pct, bool early_close) {
    Session S(subseed((u64)c.get("ops", 1), 3), o); Decoder D(cfg_of(c)); if (D.open_res) { if (!sane_err(D.open_res)) FAIL("open returned %d", D.open_res); FAIL("open failed with %d", D.open_res); }
    std::unique_ptr<Consumer> cons; if (c.get("cons", 0)) { cons.reset(new Consumer); S.cons = cons.get(); S.keep_pct = 70; }
    S.D = &D; size_t end = early_close && S.r.pct(40) ? S.r.below((u32)pk.size() + 1) : pk.size();
    S.feed(pk, 0, end, flush_pct); if (end == pk.size() && S.r.pct(75)) S.drain();
    if (flush_pct && S.r.pct(30)) S.flush();
    o.nontrivial = parsed_something(S); o.inc("pictures", S.pics); o.inc("errors", S.errors); o.inc("flushes", S.flushes); o.inc("sends", S.sends); o.inc("held_at_close", S.kept.size());
    D.close(); S.D = nullptr; S.drop_all(); if (cons) { cons->end(); o.inc("released_by_another_thread", cons->n); if (!cons->bad.empty()) FAILS(cons->bad); } std::string b = D.books(); if (!b.empty()) FAILS(b);
}
// ---------------------------------------------------------------- C10
static void gen_c10(Rng &r, Case &c) { small_case(r, c, 150, 12); mt_cfg(r, c); input_case(r, c, 40); if (r.pct(25)) c.set("layers", r.range(1, 15)); if (r.pct(30)) c.set("all_layers", 0); c.set("ops", (i64)(r.next() >> 20)); c.set("flushpct", pick(r, {0, 3, 10, 30})); c.set("size_limit", 600000); if (r.pct(20)) c.set("dft", r.range(1, 3)); if (r.pct(20)) c.set("invisible", 1); }
static void run_c10(const Case &c, Outcome &o) { auto pk = input_of(c, o); life(c, o, pk, (int)c.get("flushpct", 0), true); }
static void gen_c10s(Rng &r, Case &c) { gen_c10(r, c); if (c.get("w") > 100) c.set("w", r.range(16, 100)); if (c.get("h") > 100) c.set("h", r.range(16, 100)); c.set("nframes", r.range(2, 8)); if (c.get("threads") > 6) c.set("threads", 6); c.set("size_limit", 20000); c.set("coefpct", r.range(0, 20)); c.set("splitpct", r.range(0, 35)); c.set("ss", (i64)(r.next() >> 20)); c.set("strat", r.range(0, 3)); }
static void run_c10s(const Case &c, Outcome &o) {
    auto pk = input_of(c, o); sched_start((u64)c.get("ss", 1), (int)c.get("strat", 0)); life(c, o, pk, (int)c.get("flushpct", 0), true); sched_stop();
    o.inc("schedule_points", SCHED.steps); o.inc("thread_switches", SCHED.switches); o.inc("waits", SCHED.waits); o.nontrivial = o.nontrivial && SCHED.switches > 20;
}
static Reg r10("C10", gen_c10, run_c10, "the threaded decoder returned at least one picture or error");
static Reg r10s("C10S", gen_c10s, run_c10s, "the threaded decoder returned at least one picture or error and the scheduler switched threads more than 20 times");
// ---------------------------------------------------------------- C12
static void gen_c12(Rng &r, Case &c) { small_case(r, c, 130, 7); tile_case(r, c); input_case(r, c, 12); if (c.get("in") == 3) c.set("w", 16); if (r.pct(30)) { c.set("threads", r.range(2, 4)); c.set("delay", r.range(0, 4)); } rnd_settings(r, c); if (r.pct(25)) c.set("layers", r.range(1, 15)); c.set("ops", (i64)(r.next() >> 20)); c.set("flushpct", pick(r, {0, 0, 3, 15})); c.set("size_limit", 200000); if (r.pct(30)) c.set("coefmag", pick(r, {6, 12, 20})); if (r.pct(30)) c.set("mvmag", pick(r, {1024, 8000, 16000})); if (r.pct(30)) c.set("fill", r.range(0, 255)); }
static void run_c12(const Case &c, Outcome &o) { auto pk = input_of(c, o); SHIM.fill = (int)c.get("fill", -1); SHIM.huge = 1ul << 30; life(c, o, pk, (int)c.get("flushpct", 0), true); SHIM.fill = -1; }
static Reg r12("C12", gen_c12, run_c12, "the decoder produced at least one picture or error from the input");
// determinism under different fresh memory contents: a decode that reads uninitialised memory differs
static void gen_c12d(Rng &r, Case &c) { small_case(r, c, 130, 7); tile_case(r, c); input_case(r, c, 40); rnd_settings(r, c); c.set("alloc", 0); if (r.pct(30)) c.set("layers", r.range(1, 15)); c.set("size_limit", 200000); }
static void run_c12d(const Case &c, Outcome &o) {
    auto pk = input_of(c, o); Cfg a = cfg_of(c); SHIM.huge = 1ul << 30; SHIM.fill = 0x00; Result x = decode(pk, a); SHIM.fill = 0xff; Result y = decode(pk, a); SHIM.fill = 0x2a; Result z = decode(pk, a); SHIM.fill = -1;
    for (Result *q : {&y, &z}) { std::string e = q->bad.empty() ? x.bad : q->bad; if (e.empty()) e = cmp_pics(q->pics, x.pics); if (e.empty()) e = cmp_errs(*q, x); if (!e.empty()) FAILS("the result depends on the contents of fresh memory: " + e); }
    o.nontrivial = x.pics.size() + x.errs.size() > 0; o.inc("pictures", x.pics.size()); o.inc("errors", x.errs.size());
}
static Reg r12d("C12D", gen_c12d, run_c12d, "at least one picture or error was compared under three fills of fresh memory");
// ---------------------------------------------------------------- C13
static void gen_c13(Rng &r, Case &c) { gen_c12(r, c); c.v.erase("fill"); c.set("in", 0); input_case(r, c, 45); if (!c.has("alloc") && r.pct(70)) c.set("alloc", r.range(1, 3)); c.set("flushpct", pick(r, {0, 5, 15, 30})); if (r.pct(40)) { c.set("threads", r.range(2, 4)); c.set("delay", r.range(0, 4)); } if (r.pct(25)) c.set("cons", 1); }
static void run_c13(const Case &c, Outcome &o) {
    auto pk = input_of(c, o); for (size_t i = 0; i < pk.size(); i++) if (subseed((u64)c.get("seed", 1), i) % 6 == 0) pk[i].ud = -2; { Cfg w; Decoder warm(w); } long live = SHIM.live, thr = SHIM.threads; SHIM.huge = 1ul << 30; life(c, o, pk, (int)c.get("flushpct", 0), true); if (!o.viol.empty()) return;
    if (SHIM.live != live) FAIL("%ld memory blocks still allocated after closing and releasing everything", SHIM.live - live); if (SHIM.threads != thr) FAIL("%ld threads never joined", SHIM.threads - thr);
}
static Reg r13("C13", gen_c13, run_c13, "the decoder produced at least one picture or error, then every account was checked");
// ---------------------------------------------------------------- C14
static void gen_c14(Rng &r, Case &c) {
    small_case(r, c, 100, 7); c.set("coefpct", r.range(0, 30)); if (r.pct(45)) { c.set("threads", r.range(2, 4)); c.set("delay", r.range(0, 4)); } if (r.pct(30)) c.set("grain", 1); if (r.pct(40)) c.set("alloc", r.range(1, 3)); if (r.pct(30)) c.set("datamode", 1); if (r.pct(20)) c.set("invisible", 1);
    c.set("ops", (i64)(r.next() >> 20)); c.set("failmode", r.range(0, 4)); c.set("failpos", r.below(100000)); c.set("faillen", r.pct(70) ? 1 : r.pct(60) ? r.range(2, 6) : 1000000); c.set("flushafter", r.below(2)); c.set("size_limit", 200000); if (r.pct(30)) c.set("layers", r.range(1, 15)); c.set("metadata", 1); if (r.pct(50) && c.has("tools")) c.set("tools", c.get("tools") | 1ll << T_METADATA);
}
static std::vector<Pkt> second_stream(const Case &c, u64 salt, int dim, Stream *sp = nullptr) {
    Knobs k = c.knobs(); k.seed = (i64)(subseed((u64)k.seed, salt) >> 16); k.seqs = 1; k.model = 1; k.w = std::min<i64>(dim, k.w + (i64)(subseed(k.seed, 1) % 9)); k.h = std::min<i64>(dim, k.h + (i64)(subseed(k.seed, 2) % 9)); k.nframes = 1 + subseed(k.seed, 3) % 4; Stream s = generate(k); auto v = tu_packets(s); for (size_t i = 0; i < v.size(); i++) { v[i].ts = 5000000 + i; v[i].ud = (int)(500000 + i); } if (sp) *sp = std::move(s); return v;
}
// feed a clean stream, ignore what is left of earlier input, compare with a fresh decoder
static std::string clean_after(Decoder &D, const std::vector<Pkt> &b, const Cfg &cfg, int what, Outcome &o, bool none_before, bool errors_ok) {
    Cfg f = cfg; f.threads = 1; f.delay = 1; f.alloc = 0; f.feed = 0; Result ref = decode(b, f); if (!ref.bad.empty()) return ref.bad; if (!ref.errs.empty()) return fmt("error %d on a conforming stream", ref.errs[0]);
    std::vector<Pic> got; std::string bad; int again = 0, old = 0;
    auto get1 = [&]() { Pic p; int res; if (D.get(p, res)) { if (p.ts >= 5000000) got.push_back(std::move(p)); else { old++; if (none_before) bad = "a picture of the earlier input came out"; } } else if (res != AGAIN && !errors_ok) bad = fmt("get_picture returned %d", res); return res; };
    for (auto &p : b) { Dav1dData d; D.make(p, d); if (!d.data) return "data wrap failed"; for (int spin = 0;; spin++) { int res = dav1d_send_data(D.c, &d); if (!res) break; if (res != AGAIN) { dav1d_data_unref(&d); return fmt("send_data of a clean packet returned %d", res); } if (get1() == AGAIN && spin > 20000) { dav1d_data_unref(&d); return "no progress"; } } for (int n = 0; n < 8; n++) if (get1() == AGAIN) break; }
    for (int n = 0; again < 2 && n < 20000; n++) if (get1() == AGAIN) again++; else again = 0;
    if (!bad.empty()) return bad; std::string e = cmp_pics(got, ref.pics, what); if (e.empty()) o.inc("clean_pictures_compared", got.size()); o.inc("old_pictures", old); return e;
}
static void run_c14(const Case &c, Outcome &o) {
    auto a = stream_pkts(c, o); Stream bs; auto b = second_stream(c, 99, 110, &bs); { Cfg w; Decoder warm(w); } SHIM.huge = 1ul << 30;
    int fm = (int)c.get("failmode", 0); Cfg cfg = cfg_of(c); if (fm == 4 && !cfg.alloc) cfg.alloc = 1;
    // a run without faults counts the calls that can fail
    long n0 = SHIM.n, picn; std::vector<Pic> good, got; { Outcome q; Session S(subseed((u64)c.get("ops", 1), 3), q); S.out = &good; Decoder D(cfg); S.D = &D; if (!D.open_res) { S.feed(a, 0, a.size()); S.drain(); D.close(); } S.D = nullptr; S.drop_all(); picn = D.bk.npic; std::string x = D.books(); if (!x.empty()) FAILS("without faults: " + x); }
    long total = SHIM.n - n0, live = SHIM.live, thr = SHIM.threads; SHIM.failed = 0; long pos = total ? c.get("failpos", 0) % (total + 2) : 0; bool hurt = false;
    {
        Session S(subseed((u64)c.get("ops", 1), 3), o); if (fm != 4) { if (fm == 3) { SHIM.fail_seed = (u64)c.get("failpos", 0); SHIM.fail_permille = 1 + (int)(c.get("failpos", 0) % 40); } else { SHIM.fail_at = SHIM.n + pos; SHIM.fail_len = c.get("faillen", 1); } }
        Decoder D(cfg); if (fm == 4) { D.bk.fail_pic_at = picn ? c.get("failpos", 0) % (picn + 1) : 0; }
        if (D.open_res) { SHIM.fail_at = -1; SHIM.fail_permille = 0; hurt = true; if (!sane_err(D.open_res)) FAIL("open returned %d", D.open_res); if (D.c) FAIL("failed open left a context"); o.inc("open_failed"); }
        else {
            S.D = &D; S.out = &got; S.feed(a, 0, a.size()); if (S.r.pct(50)) S.drain(); S.out = nullptr; SHIM.fail_at = -1; SHIM.fail_permille = 0; hurt = SHIM.failed > 0 || (fm == 4 && D.bk.fail_pic_at < D.bk.npic); D.bk.fail_pic_at = -1; if (SHIM.failed == 0 && fm != 4) o.inc("no_fault_reached");
            // up to the first error, everything that comes out is what it should be
            { size_t n = std::min(S.clean_pics >= 0 ? (size_t)S.clean_pics : got.size(), std::min(got.size(), good.size())); for (size_t i = 0; i < n; i++) { std::string e = cmp_pic(got[i], good[i], CMP_PIX | CMP_HDR); if (!e.empty()) FAILS(fmt("picture %zu, returned %s, is not what it should be: ", i, S.errors ? "before the first error" : "without any error") + e); } o.inc("pictures_before_an_error", n); }
            if (c.get("flushafter", 0)) dav1d_flush(D.c); o.inc("errors", S.errors);
            std::string e = clean_after(D, b, cfg, CMP_PIX | CMP_HDR | CMP_PROPS, o, c.get("flushafter", 0), !c.get("flushafter", 0)); if (!e.empty()) { if (o.viol.empty()) o.viol = "after the failures stopped, a clean stream: " + e; }
            D.close(); S.D = nullptr; S.drop_all();
        }
        std::string x = D.books(); if (!x.empty() && o.viol.empty()) o.viol = x;
    }
    if (!o.viol.empty()) return;
    if (SHIM.live != live) FAIL("%ld memory blocks leaked after a failed allocation", SHIM.live - live); if (SHIM.threads != thr) FAIL("%ld threads never joined", SHIM.threads - thr);
    o.inc("faults_injected", SHIM.failed); o.inc("calls_that_can_fail", total); o.nontrivial = hurt; { u64 h = o.fp; h = fnv(&pos, sizeof pos, h); h = fnv(&fm, sizeof fm, h); o.fp = h; }
}
static Reg r14("C14", gen_c14, run_c14, "at least one allocation, picture request or thread creation was made to fail");
// ---------------------------------------------------------------- C15
static void gen_c15(Rng &r, Case &c) { small_case(r, c, 110, 10); if (c.has("tools")) c.set("tools", c.get("tools") | 1ll << pick(r, {T_MULTITG, T_OBUEXT, T_PADDING, T_METADATA, T_TUPACK})); if (r.pct(25)) c.set("layers", r.range(1, 15)); c.set("split", 1 + r.below(100000)); c.set("feed", r.pct(80) ? 1 + r.below(100000) : 0); c.set("merge", r.pct(30)); if (r.pct(45)) mt_cfg(r, c); if (r.pct(20)) c.set("invisible", 1); if (r.pct(15)) c.set("all_layers", 0); if (r.pct(20)) c.set("datamode", 1); whole_tus(c); }
static void run_c15(const Case &c, Outcome &o) {
    Stream s = generate(c.knobs()); auto tu = tu_packets(s); o.fp = stream_fp(tu); Cfg a = cfg_of(c), p = a; p.threads = 1; p.delay = 1; p.feed = 0; Result ref = decode(tu, p); if (!ref.bad.empty()) FAILS(ref.bad); if (!ref.errs.empty()) FAIL("error %d on a conforming stream", ref.errs[0]);
    std::vector<Pkt> pk; if (c.get("merge", 0)) { Rng r((u64)c.get("split", 1)); Pkt cur; for (auto &x : tu) { cur.b.insert(cur.b.end(), x.b.begin(), x.b.end()); if (r.pct(40)) { pk.push_back(cur); cur = Pkt(); } } if (!cur.b.empty()) pk.push_back(cur); } else pk = split_packets(s, (u64)c.get("split", 1));
    Result r = decode(pk, a); std::string e = r.bad; if (e.empty()) e = cmp_pics(r.pics, ref.pics, CMP_PIX | CMP_HDR | CMP_META | CMP_EVENTS); if (e.empty()) e = cmp_errs(r, ref); if (e.empty() && r.consumed != (int)pk.size()) e = fmt("%d of %zu packets consumed", r.consumed, pk.size());
    if (!e.empty()) FAILS(fmt("%zu packets instead of %zu: ", pk.size(), tu.size()) + e); o.inc("packets", pk.size()); o.inc("try_again_on_send", r.eagain_send); o.inc("pictures_compared", ref.pics.size()); o.nontrivial = ref.pics.size() > 1 && (pk.size() != tu.size() || c.get("feed", 0));
}
static Reg r15("C15", gen_c15, run_c15, "at least two pictures were compared with a different packetisation or call order");
// ---------------------------------------------------------------- C16
static void gen_c16(Rng &r, Case &c) { small_case(r, c, 110, 8); input_case(r, c, 50); if (r.pct(45)) mt_cfg(r, c); rnd_settings(r, c); c.v.erase("op"); c.set("dft", 0); if (r.pct(30)) c.set("layers", r.range(1, 15)); c.set("ops", (i64)(r.next() >> 20)); c.set("size_limit", 600000); c.set("stop", r.below(1000)); c.set("sameseq", r.pct(35)); if (r.pct(40)) { c.set("split", 1 + r.below(1000)); } if (c.has("tools")) c.set("tools", c.get("tools") | (1ll << T_OPPARAM | 1ll << T_TIMING | 1ll << T_METADATA) * r.pct(60)); if (r.pct(15)) { i64 f = 1ll << T_TIMING | 1ll << T_OPPARAM; c.set("tools", c.get("tools", -1) | f); c.set("force", c.get("force", 0) | f); c.set("split", 1 + r.below(1000)); c.set("stopseq", 1); } }
static void run_c16(const Case &c, Outcome &o) {
    auto a = input_of(c, o); Stream bs; auto b = c.get("sameseq", 0) ? [&] { Knobs k = c.knobs(); k.model = 1; bs = generate(k); auto v = tu_packets(bs); for (size_t i = 0; i < v.size(); i++) { v[i].ts = 5000000 + i; v[i].ud = (int)(500000 + i); } return v; }() : second_stream(c, 98, 120, &bs);
    SHIM.huge = 1ul << 30; Cfg cfg = cfg_of(c); cfg.events = 1; Session S(subseed((u64)c.get("ops", 1), 3), o); { Cfg quiet = cfg; quiet.events = S.r.pct(50); Decoder D(quiet); if (D.open_res) FAIL("open failed"); S.D = &D; int rounds = S.r.range(1, 2);
    for (int k = 0; k < rounds; k++) { size_t end = a.empty() ? 0 : (size_t)(c.get("stop", 500) * (a.size() + 1) / 1000); if (k) end = S.r.below((u32)a.size() + 1); if (c.get("stopseq", 0)) while (end < a.size() && end && !((a[end - 1].b.size() && (a[end - 1].b[0] >> 3 & 15) == 1))) end++; /* right after a sequence header */ S.feed(a, 0, end); if (S.r.pct(20)) S.drain(); dav1d_flush(D.c); if (S.r.pct(20)) dav1d_flush(D.c);
        Pic p; int res; if (S.r.pct(60)) { for (int i = 0; i < 3; i++) if (D.get(p, res)) FAIL("a picture came out right after a flush"); else if (res != AGAIN) FAIL("get_picture right after a flush returned %d", res); } }
    D.cfg.events = 1; { Dav1dEventFlags f; dav1d_get_event_flags(D.c, &f); } /* events of pictures returned before the flush may still be read */ std::string e = clean_after(D, b, cfg, CMP_ALL, o, true, false); o.inc("pictures_before", S.pics); o.inc("errors_before", S.errors);
    if (e.empty()) { Dav1dDataProps p; memset(&p, 0, sizeof p); dav1d_get_decode_error_data_props(D.c, &p); if (p.user_data.data || p.timestamp != INT64_MIN) e = "error properties of the earlier input survived the flush"; dav1d_data_props_unref(&p); }
    if (!e.empty() && o.viol.empty()) o.viol = "after a flush: " + e; D.close(); S.D = nullptr; S.drop_all(); std::string x = D.books(); if (!x.empty() && o.viol.empty()) o.viol = x; }
    o.nontrivial = S.sends > 0 && o.n["clean_pictures_compared"] > 0;
}
static Reg r16("C16", gen_c16, run_c16, "input was fed before the flush and pictures of the stream after it were compared with a fresh decoder");
// ---------------------------------------------------------------- C17
static void gen_c17(Rng &r, Case &c) { small_case(r, c, 110, 10); input_case(r, c, 70); if (r.pct(55)) mt_cfg(r, c); rnd_settings(r, c); c.set("dft", 0); c.set("ops", (i64)(r.next() >> 20)); c.set("flushpct", pick(r, {0, 5, 20})); c.set("size_limit", 600000); if (r.pct(30)) c.set("layers", r.range(1, 15)); }
static void run_c17(const Case &c, Outcome &o) {
    auto pk = input_of(c, o); Stream bs; auto b = second_stream(c, 97, 120, &bs); Session S(subseed((u64)c.get("ops", 1), 3), o); S.keep_pct = 85; SHIM.huge = 1ul << 30; { Decoder D(cfg_of(c)); if (D.open_res) FAIL("open failed"); S.D = &D; S.feed(pk, 0, pk.size(), (int)c.get("flushpct", 0)); if (S.r.pct(60)) S.drain(); if (S.r.pct(50)) S.flush(); S.feed(b, 0, b.size()); if (S.r.pct(60)) S.drain();
    size_t n = S.kept.size(); o.inc("pictures_held_over_close", n); o.inc("pictures", S.pics); if (S.r.pct(80)) { D.close(); S.D = nullptr; }
    // use the heap so that freed memory would change
    std::vector<void *> junk; for (int i = 0; i < 200; i++) { size_t m = (size_t)64 << S.r.below(12); void *q = malloc(m); memset(q, 0xEE, m); junk.push_back(q); } for (void *q : junk) free(q);
    while (!S.kept.empty()) S.drop(S.r.below((u32)S.kept.size()));
    if (D.c) D.close(); S.D = nullptr; std::string x = D.books(); if (!x.empty()) FAILS(x); o.nontrivial = n > 0; }
}
static Reg r17("C17", gen_c17, run_c17, "at least one returned picture was held until the end and compared with its first contents");
// ---------------------------------------------------------------- C18
static void gen_c18(Rng &r, Case &c) { small_case(r, c, 90, 12); if (r.pct(70)) c.set("split", 1 + r.below(100000)); c.set("feed", r.pct(50) ? 1 + r.below(1000) : 0); if (r.pct(55)) mt_cfg(r, c); if (r.pct(25)) c.set("invisible", 1); if (c.has("tools")) c.set("tools", c.get("tools") | (1ll << T_HIDDEN | 1ll << T_SHOWEXIST | 1ll << T_MULTITG) * r.pct(60)); c.set("ps", (i64)(r.next() >> 20)); if (r.pct(30)) c.set("err", 1); if (r.pct(30)) c.set("datamode", 1); if (r.pct(40)) c.set("grain", 1); }
static void run_c18(const Case &c, Outcome &o) {
    Stream s = generate(c.knobs()); o.fp = 0; Rng r(subseed((u64)c.get("ps", 1), 1)); std::vector<Pkt> pk; std::vector<std::vector<int>> where(s.tus.size());
    { int style = c.get("split", 0) ? (int)(c.get("split") % 3) : 3; Pkt cur; auto flush = [&]() { if (cur.b.empty()) return; pk.push_back(cur); cur = Pkt(); }; for (size_t t = 0; t < s.tus.size(); t++) { for (auto &ob : s.tus[t].obus) { auto b = obu_bytes(ob); where[t].push_back((int)pk.size()); cur.b.insert(cur.b.end(), b.begin(), b.end()); if (style == 0 || (style == 1 && r.pct(50)) || (style == 2 && r.pct(12))) flush(); } if (style == 3) flush(); } flush(); }
    for (size_t i = 0; i < pk.size(); i++) { auto &p = pk[i]; p.ts = r.pct(10) ? INT64_MIN : r.pct(10) ? INT64_MAX : (i64)(r.next() >> 8); p.dur = r.pct(10) ? 0 : (i64)(r.next() >> 16); p.off = r.pct(10) ? -1 : (i64)(r.next() >> 10); p.size = r.pct(30) ? -1 : (i64)(r.next() >> 20); p.ud = r.pct(20) ? -1 : r.pct(10) ? -2 : (int)(r.next() >> 34); }
    o.fp = stream_fp(pk); Cfg cfg = cfg_of(c);
    if (c.get("err", 0)) { // damage one packet and look at the properties of the errors
        Rng q(subseed((u64)c.get("ps", 1), 2)); std::vector<Pkt> one{pk[q.below((u32)pk.size())]}; size_t at = q.below((u32)pk.size()); one[0] = pk[at]; for (int k = 0; k < 3; k++) damage(q, one, 1, pick(q, {0, 1, 2, 10})); if (one.empty()) { o.fp = 0; return; } pk[at].b = one[0].b; for (size_t i = 0; i < pk.size(); i++) { pk[i].ts = 100 + (i64)i; pk[i].off = 7 * (i64)i; pk[i].ud = (int)i; }
        cfg.size_limit = 600000; SHIM.huge = 1ul << 30; Result x = decode(pk, cfg); if (!x.bad.empty()) FAILS(x.bad);
        i64 first = (i64)at; for (auto &f : s.frames) if (!f.from_existing && where[f.tu][f.obu0] <= (int)at && where[f.tu][f.obu] >= (int)at) first = std::min<i64>(first, where[f.tu][f.obu0]); // a frame is known by the packet with its first tile group
        for (size_t i = 0; i < x.errs.size(); i++) { auto &e = x.errprops[i]; if (e.got) FAIL("get_decode_error_data_props returned %d", e.got); i64 id = e.ts - 100; if (e.ts == INT64_MIN) FAIL("error %d reported while packet %d was sent carries no packet properties", x.errs[i], x.errpkt[i]); if (id < 0 || id >= (i64)pk.size() || e.off != 7 * id || e.ud != id) FAIL("error %d: properties ts %lld offset %lld user %d are those of no packet", x.errs[i], (long long)e.ts, (long long)e.off, e.ud); if (id > x.errpkt[i]) FAIL("error carries the properties of packet %lld, which was not sent yet", (long long)id); if (id < first) FAIL("error carries the properties of packet %lld, before the damaged packet %zu", (long long)id, at); if (cfg.threads == 1 && !cfg.feed && id != x.errpkt[i] && cfg.delay == 1) { if (!x.errs.empty() && id + 1 < x.errpkt[i]) FAIL("error reported while sending packet %d carries the properties of packet %lld", x.errpkt[i], (long long)id); } o.inc("errors_checked"); }
        o.nontrivial = !x.errs.empty(); return;
    }
    Result x = decode(pk, cfg); auto e = expected(s, c.get("invisible", 0)); std::string m = against_model(s, x, e, 0, false, &o); if (!m.empty()) FAILS(m); int two = 0;
    for (size_t i = 0; i < e.size(); i++) { const Pkt &p = pk[where[e[i]->tu][e[i]->obu0]]; const Pic &q = x.pics[i]; u64 want = p.size >= 0 ? (u64)p.size : p.b.size(); if (q.ts != p.ts || q.dur != p.dur || q.off != p.off || q.size != want || q.ud != p.ud) FAIL("picture %zu (frame %d) carries ts %lld dur %lld off %lld size %llu user %d; its packet %d has ts %lld dur %lld off %lld size %llu user %d", i, e[i]->fno, (long long)q.ts, (long long)q.dur, (long long)q.off, (unsigned long long)q.size, q.ud, where[e[i]->tu][e[i]->obu0], (long long)p.ts, (long long)p.dur, (long long)p.off, (unsigned long long)want, p.ud); two += e[i]->from_existing; }
    o.inc("shown_existing", two); o.nontrivial = e.size() > 1;
}
static Reg r18("C18", gen_c18, run_c18, "at least two pictures carried distinct packet properties, or an error was reported and its properties checked");
// ---------------------------------------------------------------- C19
static int frame_headers(const std::vector<Pkt> &pk) { // upper bound of the frames coded in (possibly damaged) packets
    int n = 0; for (auto &p : pk) { size_t i = 0; while (i < p.b.size()) { u8 h = p.b[i++]; int type = h >> 3 & 15; if (h & 4) i++; size_t len = p.b.size() > i ? p.b.size() - i : 0; if (h & 2) { u64 v = 0; int k = 0; bool ok = false; for (; k < 8 && i < p.b.size(); k++) { u8 b = p.b[i++]; v |= (u64)(b & 127) << (7 * k); if (!(b & 128)) { ok = true; break; } } if (!ok || v > p.b.size() - i) { if (type == 3 || type == 6 || type == 7) n++; break; } len = v; } if (type == 3 || type == 6 || type == 7) n++; i += len; } } return n;
}
static void gen_c19(Rng &r, Case &c) { small_case(r, c, 110, 10); c.set("in", pick(r, {1, 2, 2, 2, 2, 4, 3})); c.set("nmut", r.pct(70) ? r.range(1, 4) : r.range(5, 25)); c.set("cseed", (i64)(r.next() >> 20)); if (r.pct(40)) c.set("split", 1 + r.below(1000)); if (r.pct(50)) mt_cfg(r, c); if (r.pct(25)) c.set("invisible", 1); if (r.pct(20)) c.set("strict", 1); if (r.pct(25)) c.set("layers", r.range(1, 15)); c.set("size_limit", 600000); c.set("same", r.pct(50)); if (r.pct(30)) c.set("alloc", r.range(1, 3)); if (r.pct(30)) c.set("inloop", r.range(0, 7)); c.set("ops", (i64)(r.next() >> 20)); }
static void run_c19(const Case &c, Outcome &o) {
    auto a = input_of(c, o); Stream bs; std::vector<Pkt> b; if (c.get("same", 0)) { bs = generate(c.knobs()); b = tu_packets(bs); for (size_t i = 0; i < b.size(); i++) { b[i].ts = 5000000 + i; b[i].ud = (int)(500000 + i); } } else b = second_stream(c, 95, 120, &bs);
    if (c.get("model", 1) == 0 && c.get("same", 0)) { Knobs k = c.knobs(); k.model = 1; bs = generate(k); b = tu_packets(bs); for (size_t i = 0; i < b.size(); i++) { b[i].ts = 5000000 + i; b[i].ud = (int)(500000 + i); } }
    for (auto &p : a) { p.ts = 10; p.ud = 3; } SHIM.huge = 1ul << 30; Cfg cfg = cfg_of(c); Decoder D(cfg); if (D.open_res) FAIL("open failed"); int out = 0, errs = 0; std::string bad;
    auto get1 = [&]() { Pic p; int res; if (D.get(p, res)) out++; else if (res != AGAIN) { errs++; if (!sane_err(res)) bad = fmt("get_picture returned %d", res); } return res; };
    Rng r(subseed((u64)c.get("ops", 1), 8)); for (auto &p : a) { Dav1dData d; D.make(p, d); for (int spin = 0;; spin++) { int res = dav1d_send_data(D.c, &d); if (!res) break; if (res != AGAIN) { errs++; if (!sane_err(res)) bad = fmt("send_data returned %d", res); dav1d_data_unref(&d); break; } if (get1() == AGAIN && spin > 20000) { dav1d_data_unref(&d); FAIL("no progress on damaged data"); } } for (int n = r.below(3); n > 0; n--) if (get1() == AGAIN) break; }
    bool drained = r.pct(50); if (drained) { int again = 0; for (int n = 0; again < 2 && n < 20000; n++) if (get1() == AGAIN) again++; else again = 0; int cap = frame_headers(a) * (cfg.invisible ? 1 : 1); if (out > cap) FAIL("%d pictures from %d coded frames", out, cap); }
    if (!bad.empty()) FAILS(bad);
    std::string e = clean_after(D, b, cfg, CMP_PIX | CMP_HDR | CMP_PROPS, o, drained, true); D.close(); if (!e.empty()) FAILS("after damaged data, from the next sequence header and key frame: " + e); std::string x = D.books(); if (!x.empty()) FAILS(x);
    o.inc("pictures_from_damaged", out); o.inc("errors", errs); o.nontrivial = errs > 0 && o.n["clean_pictures_compared"] > 0;
}
static Reg r19("C19", gen_c19, run_c19, "the damaged part made the decoder report an error and pictures after it were compared");
// what one damaged temporal unit may and may not spoil: everything that does not depend on it comes out right, nothing that failed comes out
static void gen_c19i(Rng &r, Case &c) { small_case(r, c, 90, 14); c.set("nframes", r.range(4, 14)); if (r.pct(50)) mt_cfg(r, c); if (c.has("tools")) c.set("tools", c.get("tools") | (1ll << T_MULTITILE | 1ll << T_MULTITG) * r.pct(50)); c.v.erase("seqs"); if (r.pct(15)) c.set("seqs", 2); if (r.pct(40)) c.set("cdfpct", 90); c.set("how", r.range(0, 4)); c.set("cseed", (i64)(r.next() >> 20)); if (r.pct(30)) c.set("feed", 1 + r.below(1000)); }
static void run_c19i(const Case &c, Outcome &o) {
    Stream s = generate(c.knobs()); Rng r(subseed((u64)c.get("cseed", 1), 5)); if (s.tus.size() < 2) return; int how = (int)c.get("how", 0);
    std::vector<std::pair<int, int>> cand; for (size_t t = 1; t < s.tus.size(); t++) { bool sh = false; for (auto &ob : s.tus[t].obus) sh |= ob.type == 1; if (sh) continue; for (size_t i = 0; i < s.tus[t].obus.size(); i++) { auto &ob = s.tus[t].obus[i]; if ((ob.type == 4 || ob.type == 6) && !ob.marks.empty()) cand.push_back({(int)t, (int)i}); } }
    if (cand.empty()) return; auto [tu, at] = cand[r.below((u32)cand.size())]; Obu &ob = s.tus[tu].obus[at]; int nfr = 0; for (auto &f : s.frames) nfr += f.tu == tu; bool ends = true; for (size_t i = at + 1; i < s.tus[tu].obus.size(); i++) { int ty = s.tus[tu].obus[i].type; if (ty != 15) ends = ends && (ty == 4); }
    if (how == 0) { size_t room = ob.payload.size() - ob.marks[0]; if (!room) return; ob.payload.resize(ob.payload.size() - std::min<size_t>(room, r.pct(50) ? 1 + r.below(3) : 1 + r.below((u32)room))); }
    else if (how == 1) { for (int n = 0; n < 4 && ob.marks[0] + n < ob.payload.size(); n++) if (r.pct(70)) ob.payload[ob.marks[0] + n] = 0xff; }
    else if (how == 2) { for (int n = r.range(1, 6); n > 0; n--) if (ob.payload.size() > ob.marks[0]) ob.payload[ob.marks[0] + r.below((u32)(ob.payload.size() - ob.marks[0]))] = (u8)r.next(); }
    else if (how == 3) s.tus[tu].obus.erase(s.tus[tu].obus.begin() + at);
    else s.tus[tu].obus.clear();
    std::vector<Pkt> pk = tu_packets(s); for (size_t i = 0; i < pk.size(); i++) { pk[i].ts = 1000 + (i64)i; pk[i].ud = (int)i; } if (how == 4) pk.erase(pk.begin() + tu); o.fp = stream_fp(pk) ^ (u64)tu; o.inc(fmt("damage_%d", how));
    // which frames depend on the damage
    int slot[8]; for (int &x : slot) x = -1; std::map<int, bool> bad; std::vector<bool> fb; bool all = false; int lost = -1; // (the rest of a packet is dropped at an error)
    for (auto &f : s.frames) {
        auto &h = f.rf.hdr; bool b = f.tu == tu || f.tu == lost; auto sb = [&](int i) { return slot[i] < 0 ? false : slot[i] == 1 << 30 || bad[slot[i]]; }; bool anyslot = false; for (int i = 0; i < 8; i++) anyslot |= sb(i);
        if (f.from_existing) { bool src = bad[f.fno] || all; fb.push_back(b || src); if (b || src) lost = f.tu; if (src && (b || true)) { for (int &x : slot) x = 1 << 30; all = true; } else if (h.frame_type == KEY_FRAME) { for (int &x : slot) x = b ? 1 << 30 : f.fno; if (b) all = true; } continue; }
        if (h.frame_type == KEY_FRAME && f.shown && !b) all = false;
        if (!h.intra()) { for (int x : h.refidx) b |= sb(x); if (h.short_sig) b |= anyslot; } else if (h.frame_type == INTRA_ONLY_FRAME && h.primary_ref != 7) b |= anyslot; else if (h.frame_type == KEY_FRAME && !f.shown && h.primary_ref != 7) b |= anyslot;
        if (!(h.frame_type == KEY_FRAME && f.shown)) b |= all && !h.intra(); bad[f.fno] = b; fb.push_back(b); if (b) lost = f.tu; for (int i = 0; i < 8; i++) if (h.refresh >> i & 1) slot[i] = f.fno;
    }
    SHIM.huge = 1ul << 30; Cfg cfg = cfg_of(c); Result x = decode(pk, cfg); if (!x.bad.empty()) FAILS(x.bad); bool grain = c.get("grain", 0);
    std::set<i64> spoiled, failed; for (size_t i = 0; i < s.frames.size(); i++) if (fb[i]) spoiled.insert(1000 + s.frames[i].tu); spoiled.insert(1000 + tu); spoiled.insert(1001 + tu);
    for (size_t i = 0; i < x.errs.size(); i++) { if (!sane_err(x.errs[i])) FAIL("error %d", x.errs[i]); i64 ts = x.errprops[i].ts; failed.insert(ts); if (!spoiled.count(ts)) FAIL("error %d for packet %lld, which does not depend on the damaged one (%d)", x.errs[i], (long long)ts - 1000, tu); }
    size_t j = 0, k = 0; std::map<i64, int> got; for (auto &p : x.pics) got[p.ts]++;
    for (size_t i = 0; i < s.frames.size(); i++) { auto &f = s.frames[i]; if (!f.shown || fb[i]) continue; i64 ts = 1000 + f.tu; while (j < x.pics.size() && x.pics[j].ts != ts) j++; if (j >= x.pics.size()) FAIL("the picture of packet %d is missing although nothing it depends on was damaged (packet %d was)", f.tu, tu); const Pic &p = x.pics[j++]; std::string m; if (grain && f.fg.apply) { Picture g; apply_film_grain(g, *f.rf.pic, f.fg, f.rf.seq); m = cmp_model(p, g); } else m = cmp_model(p, *f.rf.pic); if (!m.empty()) FAIL("the picture of packet %d is wrong although nothing it depends on was damaged (packet %d was): %s", f.tu, tu, m.c_str()); k++; if (f.tu > tu) o.inc("independent_pictures_after_damage"); }
    for (size_t i = 0; i < s.frames.size(); i++) { auto &f = s.frames[i]; i64 ts = 1000 + f.tu; int n = 0; for (auto &g : s.frames) n += g.tu == f.tu; if (f.shown && n == 1 && failed.count(ts) && got[ts]) { if (f.tu == tu && !ends) continue; FAIL("a picture was output for packet %d although decoding it failed", f.tu); } int sh = 0; for (auto &g : s.frames) sh += g.tu == f.tu && g.shown; if (got[ts] > sh) FAIL("%d pictures of packet %d with %d shown frames", got[ts], f.tu, sh); }
    if (nfr == 1 && how < 3 && failed.count(1000 + tu) && (cfg.threads == 1 || cfg.delay == 1)) { // without frame threads what refers to a frame that failed is refused as well
        int sl = 0, fno = -1; for (size_t fi = 0; fi < s.frames.size(); fi++) { auto &f = s.frames[fi]; auto &h = f.rf.hdr; if (f.tu < tu) continue; if (f.tu == tu) { if (f.from_existing || (h.frame_type == KEY_FRAME && f.shown)) break; fno = f.fno; sl = h.refresh; continue; } if (fno < 0 || !sl || (f.from_existing && h.frame_type == KEY_FRAME)) break;
            if (f.from_existing) { if (f.fno == fno || fb[fi]) break; continue; } bool uses = false; if (!h.intra()) for (int q : h.refidx) uses |= sl >> q & 1; int n = 0; for (auto &g : s.frames) n += g.tu == f.tu; if (uses && n == 1) { if (got[1000 + f.tu]) FAIL("packet %d holds a frame that refers to the frame of packet %d, which failed, and a picture came out", f.tu, tu); o.inc("dependent_frames_refused"); } sl &= ~h.refresh; } }
    o.inc("errors", x.errs.size()); o.nontrivial = k > 0 && !x.errs.empty();
}
static Reg r19i("C19I", gen_c19i, run_c19i, "an error was reported and at least one picture that does not depend on the damage was compared");
// ---------------------------------------------------------------- C22
static void gen_c22(Rng &r, Case &c) { c.set("seed", (i64)(r.next() >> 16)); c.set("nops", r.range(1, 8)); c.set("mut", r.pct(45) ? r.range(1, 4) : 0); }
static SeqHdr seq_of(u64 seed, Rng &r) { Knobs k; k.seed = (i64)(seed >> 16); k.w = r.range(16, 65); k.h = r.range(16, 65); k.nframes = 1; k.layout = r.range(0, 3); k.hbd = r.range(0, 2); k.symcap = 0; k.splitpct = 0; if (r.pct(40)) k.layers = r.range(1, 15); if (r.pct(60)) k.force = (1ll << T_TIMING) * r.pct(60) | (1ll << T_FRAMEID) * r.pct(50) | (1ll << T_REDUCEDSTILL) * r.pct(15); Stream s = generate(k); SeqHdr q = s.seqs[0]; if (r.pct(40)) { q.wbits = r.range(7, 16); q.hbits = r.range(7, 16); q.max_w = 1 + r.below(1u << q.wbits); q.max_h = 1 + r.below(1u << q.hbits); } return q; }
// independent OBU walk: 0 and the payload of the last sequence header, or the expected error
static void run_c22(const Case &c, Outcome &o) {
    Rng r(subseed((u64)c.get("seed", 1), 5)); int n = (int)c.get("nops", 1); std::vector<u8> buf; bool have = false; SeqHdr last; int nseq = 0; std::vector<size_t> ends; std::vector<std::pair<size_t, size_t>> seqpos;
    for (int i = 0; i < n; i++) {
        Obu ob; int kind = r.below(10); ob.ext = r.pct(25); ob.tid = r.below(8); ob.sid = r.below(4);
        if (kind < 4) { SeqHdr q = seq_of(r.next(), r); BitWriter w; write_seq_hdr(w, q); ob.type = 1; ob.payload = w.b; if (r.pct(20)) ob.payload.insert(ob.payload.end(), r.range(1, 3), 0); last = q; have = true; nseq++; }
        else { ob.type = pick(r, {2, 3, 4, 5, 6, 7, 8, 15, 0, 9, 12}); int len = ob.type == 2 ? 0 : r.pct(70) ? r.range(0, 30) : r.range(100, 300); for (int k = 0; k < len; k++) ob.payload.push_back((u8)r.next()); }
        ob.has_size = i == n - 1 && r.pct(30) ? 0 : 1 + (r.pct(10) ? r.range(1, 2) : 0); auto b = obu_bytes(ob); size_t at = buf.size(); buf.insert(buf.end(), b.begin(), b.end()); ends.push_back(buf.size()); if (ob.type == 1) seqpos.push_back({at, buf.size()}); if (!ob.has_size) break;
    }
    int mut = (int)c.get("mut", 0); std::vector<u8> orig = buf;
    if (!mut) {
        u8 *q = (u8 *)malloc(buf.size()); memcpy(q, buf.data(), buf.size()); Dav1dSequenceHeader h, w; memset(&h, 0xA5, sizeof h); int res = dav1d_parse_sequence_header(&h, q, buf.size());
        std::string e; if (have) { if (res) e = fmt("returned %d for a buffer with %d sequence headers", res, nseq); else { fill_seq(w, last); e = cmp_seq(h, w); } } else if (res != DAV1D_ERR(ENOENT)) e = fmt("returned %d for a buffer without a sequence header", res);
        if (e.empty() && memcmp(q, orig.data(), orig.size())) e = "input modified"; 
        // the decoder itself reports the same header when it decodes a stream with it
        free(q); if (!e.empty()) FAILS(e); o.inc(have ? "found" : "no_entry"); o.fp = fnv(buf.data(), buf.size()); o.nontrivial = true;
        // cut at an OBU boundary: still well formed; cut inside an OBU with a size field: malformed
        size_t cut = 1 + r.below((u32)buf.size()); bool at_end = false; for (size_t x : ends) at_end |= x == cut; u8 *z = (u8 *)malloc(cut); memcpy(z, buf.data(), cut); memset(&h, 0, sizeof h); res = dav1d_parse_sequence_header(&h, z, cut); free(z);
        if (at_end) { int cnt = 0; for (auto &x : seqpos) cnt += x.second <= cut; if (cnt ? res != 0 : res != DAV1D_ERR(ENOENT)) FAIL("cut after a whole OBU with %d sequence headers before it: returned %d", cnt, res); }
        else if (!(ends.size() && ends.back() == buf.size() && ends.size() >= 1 && cut > (ends.size() > 1 ? ends[ends.size() - 2] : 0)) && res != DAV1D_ERR(EINVAL)) FAIL("cut inside an OBU: returned %d", res);
        return;
    }
    std::vector<Pkt> pk(1); pk[0].b = buf; damage(r, pk, mut, -1); if (pk.empty()) return; buf = pk[0].b; u8 *q = (u8 *)malloc(buf.size()); memcpy(q, buf.data(), buf.size()); Dav1dSequenceHeader h; memset(&h, 0xA5, sizeof h); int res = dav1d_parse_sequence_header(&h, q, buf.size()); free(q); o.fp = fnv(buf.data(), buf.size());
    if (res > 0 || (res && res != DAV1D_ERR(EINVAL) && res != DAV1D_ERR(ENOENT))) FAIL("returned %d", res); o.inc(res == 0 ? "damaged_parsed" : "damaged_rejected"); o.nontrivial = true;
    // "no entry" exactly when a walk over the OBUs finds none
    bool ok = true, seq = false; size_t i = 0; while (i < buf.size()) { u8 hd = buf[i++]; int type = hd >> 3 & 15; if (hd & 4) i++; if (i > buf.size()) { ok = false; break; } size_t len = buf.size() - i; if (hd & 2) { u64 v = 0; bool fin = false; for (int k = 0; k < 8 && i < buf.size(); k++) { u8 b = buf[i++]; v |= (u64)(b & 127) << (7 * k); if (!(b & 128)) { fin = true; break; } } if (!fin || v > buf.size() - i) { ok = false; break; } len = v; } if (type == 1) seq = true; i += len; }
    if (ok && !seq && res != DAV1D_ERR(ENOENT)) FAIL("returned %d for well formed OBUs without a sequence header", res); if (seq && res == DAV1D_ERR(ENOENT)) FAIL("no entry although there is a sequence header"); if (!ok && res == 0) FAIL("accepted a buffer with a broken OBU"); if (!ok && !seq && res == DAV1D_ERR(ENOENT)) FAIL("no entry for a buffer with a broken OBU");
}
static Reg r22("C22", gen_c22, run_c22, "a buffer of OBUs was parsed and the result checked");
// the header the decoder reports for a stream is the one stand-alone parsing returns for its packets
static void gen_c22b(Rng &r, Case &c) { base_case(r, c, 60); c.set("nframes", r.range(1, 3)); c.set("symcap", 0); c.set("splitpct", 0); tools_case(r, c, {T_TIMING, T_FRAMEID, T_OPPARAM, T_REDUCEDSTILL, T_FILMGRAIN}); if (r.pct(50)) c.set("seqs", r.range(2, 3)); if (r.pct(40)) c.set("layers", r.range(1, 15)); }
static void run_c22b(const Case &c, Outcome &o) {
    Stream s; auto pk = stream_pkts(c, o, &s); Result x = decode(pk, cfg_of(c)); if (!x.bad.empty()) FAILS(x.bad); size_t pi = 0; Dav1dSequenceHeader cur; bool have = false;
    for (size_t i = 0; i < pk.size(); i++) { Dav1dSequenceHeader h; int res = dav1d_parse_sequence_header(&h, pk[i].b.data(), pk[i].b.size()); if (!res) { cur = h; have = true; } else if (res != DAV1D_ERR(ENOENT)) FAIL("packet %zu of a conforming stream: returned %d", i, res); for (; pi < x.pics.size() && x.pics[pi].after == (int)i; pi++) { if (!have) FAIL("a picture before any sequence header"); std::string e = cmp_seq(x.pics[pi].seq, cur); if (x.pics[pi].hdr.show_existing_frame == 0 && e.empty()) o.inc("headers_compared"); if (!e.empty()) { bool ex = false; for (auto &f : s.frames) ex |= f.from_existing; if (!ex) FAILS("decoder and stand-alone parser disagree: " + e); } } }
    o.nontrivial = o.n["headers_compared"] > 0;
}
static Reg r22b("C22B", gen_c22b, run_c22b, "at least one picture's sequence header was compared with stand-alone parsing");
// ---------------------------------------------------------------- C23
static int alloc_ok(Dav1dPicture *, void *) { return DAV1D_ERR(ENOMEM); }
static void rel_ok(Dav1dPicture *, void *) {}
static void gen_c23(Rng &r, Case &c) { c.set("seed", (i64)(r.next() >> 16)); c.set("kind", r.below(3)); }
static int exp_delay(int t, int d) { if (t == 0) t = -1; if (d) return std::min(d, t); int k = 1; while (k * k < t) k++; return std::min(k, 8); }
static void run_c23(const Case &c, Outcome &o) {
    Rng r(subseed((u64)c.get("seed", 1), 6)); int kind = (int)c.get("kind", 0); o.fp = c.hash(); long live = SHIM.live;
    auto val = [&](int lo, int hi) { return r.pct(60) ? r.range(lo, hi) : r.pct(50) ? (r.pct(50) ? lo : hi) : pick(r, {lo - 1, hi + 1, -1, INT32_MIN, INT32_MAX, hi + 1000, lo - 1000}); };
    if (kind == 0) { // settings
        Dav1dSettings s, before; dav1d_default_settings(&s); if (s.n_threads || s.max_frame_delay || s.apply_grain != 1 || s.operating_point || s.all_layers != 1 || s.frame_size_limit || s.strict_std_compliance || s.output_invisible_frames || s.inloop_filters != DAV1D_INLOOPFILTER_ALL || s.decode_frame_type != DAV1D_DECODEFRAMETYPE_ALL) FAIL("default settings are not the documented ones"); s.logger.callback = nullptr;
        s.n_threads = r.pct(80) ? val(1, r.pct(80) ? 8 : 256) : 1; s.max_frame_delay = r.pct(70) ? val(0, r.pct(60) ? 10 : 256) : 0; s.operating_point = r.pct(60) ? val(0, 31) : 0; s.decode_frame_type = (Dav1dDecodeFrameType)(r.pct(50) ? val(0, 3) : 0); s.frame_size_limit = r.pct(40) ? (unsigned)r.next() : 0; s.strict_std_compliance = r.below(2); s.output_invisible_frames = r.below(2); s.all_layers = r.below(2); s.apply_grain = r.below(2); s.inloop_filters = (Dav1dInloopFilterType)r.below(8);
        int am = r.pct(60) ? 0 : r.range(1, 6); Dav1dPicAllocator def = s.allocator; bool aok = true; if (am == 1) { s.allocator.alloc_picture_callback = alloc_ok; s.allocator.release_picture_callback = rel_ok; } else if (am == 2) { s.allocator.alloc_picture_callback = nullptr; aok = false; } else if (am == 3) { s.allocator.release_picture_callback = nullptr; aok = false; } else if (am == 4) { s.allocator.alloc_picture_callback = alloc_ok; aok = false; } else if (am == 5) { s.allocator.release_picture_callback = rel_ok; aok = false; } else if (am == 6) { s.allocator.cookie = &s; aok = false; } (void)def;
        bool tok = s.n_threads >= 0 && s.n_threads <= 256, dok = s.max_frame_delay >= 0 && s.max_frame_delay <= 256; bool ok = tok && dok && aok && s.operating_point >= 0 && s.operating_point <= 31 && (int)s.decode_frame_type >= 0 && (int)s.decode_frame_type <= 3;
        int fd = dav1d_get_frame_delay(&s); if (tok && dok) { int t = s.n_threads; if (fd < 1) FAIL("frame delay %d", fd); if (s.max_frame_delay && fd > s.max_frame_delay) FAIL("frame delay %d exceeds the requested maximum %d", fd, s.max_frame_delay); if (t && fd > t) FAIL("frame delay %d with %d threads", fd, t); if (t && fd != exp_delay(t, s.max_frame_delay)) FAIL("frame delay %d for %d threads and maximum %d, documented %d", fd, t, s.max_frame_delay, exp_delay(t, s.max_frame_delay)); } else if (fd >= 0) FAIL("frame delay %d for invalid settings", fd);
        before = s; Dav1dContext *ctx = nullptr; live = SHIM.live; long thr = SHIM.threads; int res = dav1d_open(&ctx, &s); if (memcmp(&before, &s, sizeof s)) FAIL("open changed the settings");
        if (ok ? res != 0 : res >= 0) FAIL("open returned %d for %s settings (threads %d delay %d op %d type %d allocator case %d)", res, ok ? "valid" : "invalid", s.n_threads, s.max_frame_delay, s.operating_point, (int)s.decode_frame_type, am); if (res && ctx) FAIL("failed open left a context"); if (!res && !ctx) FAIL("open succeeded without a context"); if (!res) { if (s.n_threads > 1 && SHIM.threads - thr != s.n_threads) FAIL("%ld worker threads for %d requested", SHIM.threads - thr, s.n_threads); if (s.n_threads == 1 && SHIM.threads != thr) FAIL("worker threads in single-threaded mode"); dav1d_close(&ctx); if (ctx) FAIL("close left the pointer"); } if (SHIM.live != live || SHIM.threads != thr) FAIL("open or close leaked"); o.inc(ok ? "valid" : "refused"); o.nontrivial = true;
    } else if (kind == 1) { // invalid arguments
        Cfg cf; cf.threads = r.range(1, 3); cf.delay = r.range(0, 3); { Cfg w; Decoder warm(w); } live = SHIM.live; { Decoder D(cf); Dav1dPicture p; memset(&p, 0, sizeof p); Dav1dData d; memset(&d, 0, sizeof d); Dav1dSettings s; dav1d_default_settings(&s); Dav1dContext *nc = nullptr; Dav1dDataProps dp; memset(&dp, 0, sizeof dp); Dav1dEventFlags ev; u8 b[4] = {0x12, 0, 0, 0}; int res; Dav1dSequenceHeader sh;
        auto fre = [](const u8 *, void *) {};
        for (int k = 0; k < 12; k++) switch (r.below(18)) {
            case 0: res = dav1d_open(nullptr, &s); if (res >= 0) FAIL("open(NULL) returned %d", res); break; case 1: res = dav1d_open(&nc, nullptr); if (res >= 0 || nc) FAIL("open without settings returned %d", res); break;
            case 2: res = dav1d_send_data(nullptr, &d); if (res >= 0) FAIL("send_data(NULL) returned %d", res); break; case 3: res = dav1d_send_data(D.c, nullptr); if (res >= 0) FAIL("send_data of NULL returned %d", res); break;
            case 4: { Dav1dData e; memset(&e, 0, sizeof e); e.data = b; e.sz = 0; res = dav1d_send_data(D.c, &e); if (res >= 0 || e.data != b) FAIL("send_data of an empty packet returned %d", res); e.sz = SIZE_MAX / 2 + 1; res = dav1d_send_data(D.c, &e); if (res >= 0 || e.data != b) FAIL("send_data of a packet with an absurd size returned %d", res); break; }
            case 5: res = dav1d_get_picture(nullptr, &p); if (res >= 0) FAIL("get_picture(NULL) returned %d", res); break; case 6: res = dav1d_get_picture(D.c, nullptr); if (res >= 0) FAIL("get_picture into NULL returned %d", res); break;
            case 7: res = dav1d_apply_grain(nullptr, &p, &p); if (res >= 0) FAIL("apply_grain(NULL) returned %d", res); res = dav1d_apply_grain(D.c, nullptr, &p); if (res >= 0) FAIL("apply_grain into NULL returned %d", res); res = dav1d_apply_grain(D.c, &p, nullptr); if (res >= 0) FAIL("apply_grain of NULL returned %d", res); break;
            case 8: dav1d_close(nullptr); nc = nullptr; dav1d_close(&nc); break; case 9: res = dav1d_get_event_flags(nullptr, &ev); if (res >= 0) FAIL("get_event_flags(NULL) returned %d", res); res = dav1d_get_event_flags(D.c, nullptr); if (res >= 0) FAIL("get_event_flags into NULL returned %d", res); break;
            case 10: res = dav1d_get_decode_error_data_props(nullptr, &dp); if (res >= 0) FAIL("error props(NULL) returned %d", res); res = dav1d_get_decode_error_data_props(D.c, nullptr); if (res >= 0) FAIL("error props into NULL returned %d", res); break; case 11: res = dav1d_get_frame_delay(nullptr); if (res >= 0) FAIL("get_frame_delay(NULL) returned %d", res); break;
            case 12: res = dav1d_parse_sequence_header(nullptr, b, 2); if (res >= 0) FAIL("parse into NULL returned %d", res); res = dav1d_parse_sequence_header(&sh, nullptr, 2); if (res >= 0) FAIL("parse of NULL returned %d", res); res = dav1d_parse_sequence_header(&sh, b, 0); if (res >= 0) FAIL("parse of nothing returned %d", res); res = dav1d_parse_sequence_header(&sh, b, SIZE_MAX / 2 + 1); if (res >= 0) FAIL("parse of an absurd size returned %d", res); break;
            case 13: if (dav1d_data_create(nullptr, 8)) FAIL("data_create(NULL) returned memory"); if (dav1d_data_create(&d, SIZE_MAX / 2 + 1) || d.data) FAIL("data_create of an absurd size returned memory"); break;
            case 14: res = dav1d_data_wrap(nullptr, b, 4, fre, nullptr); if (res >= 0) FAIL("data_wrap(NULL) returned %d", res); res = dav1d_data_wrap(&d, nullptr, 4, fre, nullptr); if (res >= 0 || d.data) FAIL("data_wrap of NULL returned %d", res); res = dav1d_data_wrap(&d, b, 4, nullptr, nullptr); if (res >= 0 || d.data) FAIL("data_wrap without a free callback returned %d", res); res = dav1d_data_wrap(&d, b, SIZE_MAX / 2 + 1, fre, nullptr); if (res >= 0 || d.data) FAIL("data_wrap of an absurd size returned %d", res); break;
            case 15: res = dav1d_data_wrap_user_data(nullptr, b, fre, nullptr); if (res >= 0) FAIL("wrap_user_data(NULL) returned %d", res); res = dav1d_data_wrap_user_data(&d, b, nullptr, nullptr); if (res >= 0 || d.m.user_data.ref) FAIL("wrap_user_data without a free callback returned %d", res); break;
            case 16: dav1d_data_unref(nullptr); dav1d_picture_unref(nullptr); dav1d_data_props_unref(nullptr); memset(&p, 0, sizeof p); dav1d_picture_unref(&p); break;
            case 17: { int x = dav1d_version_api(); if (x != (DAV1D_API_VERSION_MAJOR << 16 | DAV1D_API_VERSION_MINOR << 8 | DAV1D_API_VERSION_PATCH)) FAIL("API version %x", x); if (!dav1d_version() || !*dav1d_version()) FAIL("no version"); break; }
        }
        // the decoder still works
        Knobs k; k.seed = (i64)(r.next() >> 16); k.nframes = 2; k.w = k.h = 32; Stream st = generate(k); auto pk = tu_packets(st); for (auto &x : pk) x.ts += 5000000; std::string e = clean_after(D, pk, cf, CMP_ALL, o, false, false); if (!e.empty()) FAILS("after refused calls: " + e); D.close(); e = D.books(); if (!e.empty()) FAILS(e); }
        if (SHIM.live != live) FAIL("refused calls leaked %ld blocks", SHIM.live - live); o.nontrivial = true;
    } else { // the delay the decoder shows: how many packets with one shown frame it takes before the first picture
        Knobs k; k.seed = (i64)(r.next() >> 16); k.nframes = 14; k.w = 16; k.h = 16; k.tools = 0; k.symcap = 0; Stream st = generate(k); auto pk = tu_packets(st); int t = r.range(1, 16), d = r.pct(40) ? 0 : r.range(1, 12); Dav1dSettings s; dav1d_default_settings(&s); s.n_threads = t; s.max_frame_delay = d; int fd = dav1d_get_frame_delay(&s); Cfg cf; cf.threads = t; cf.delay = d; Decoder D(cf); if (D.open_res) FAIL("open failed");
        int sent = 0, got = 0, maxdelay = 0; for (auto &p : pk) { Dav1dData dd; D.make(p, dd); int res = dav1d_send_data(D.c, &dd); if (res) { dav1d_data_unref(&dd); FAIL("send_data returned %d with nothing pending", res); } sent++; Pic q; if (D.get(q, res)) got++; else if (res != AGAIN) FAIL("get_picture returned %d", res); int held = fd == 1 ? 0 : fd; if (got != std::max(0, sent - held)) FAIL("%d pictures after %d packets with a reported frame delay of %d", got, sent, fd); maxdelay = std::max(maxdelay, sent - got); }
        Pic q; int res, again = 0; for (; again < 2;) if (D.get(q, res)) got++, again = 0; else again++; if (got != sent) FAIL("%d pictures from %d packets", got, sent); o.inc("delay_measured"); o.nontrivial = true;
    }
}
static Reg r23("C23", gen_c23, run_c23, "settings, refused calls or the visible delay were checked");
// ---------------------------------------------------------------- C24
static void gen_c24(Rng &r, Case &c) { base_case(r, c, 60); c.set("nframes", r.range(2, 14)); tools_case(r, c, {T_OPPARAM, T_OPPARAM, T_TIMING, T_TIMING, T_HIDDEN, T_SHOWEXIST, T_SHOWNKEYEXIST, T_KEYFRAMES}); i64 t = c.get("tools", -1); c.set("tools", t | 1ll << T_TIMING | 1ll << T_OPPARAM); if (r.pct(60)) c.set("force", c.get("force", 0) | 1ll << T_TIMING | (1ll << T_OPPARAM) * r.pct(60)); c.set("coefpct", r.range(0, 20)); c.set("splitpct", r.range(0, 30)); if (r.pct(55)) c.set("seqs", r.range(2, 4)); if (r.pct(35)) c.set("layers", r.range(1, 15)); if (r.pct(40)) c.set("split", 1 + r.below(1000)); if (r.pct(40)) c.set("feed", 1 + r.below(1000)); if (r.pct(25)) c.set("invisible", 1); if (r.pct(50)) mt_cfg(r, c); }
static void run_c24(const Case &c, Outcome &o) {
    Stream s; auto pk = stream_pkts(c, o, &s); Result x = decode(pk, cfg_of(c)); bool inv = c.get("invisible", 0); auto e = expected(s, inv); std::string m = against_model(s, x, e, 0, false, &o); if (!m.empty()) FAILS(m); int ev = 0;
    for (size_t i = 0; i < e.size(); i++) { int want = inv ? e[i]->events_inv : e[i]->events; if (x.pics[i].events != want) FAIL("picture %zu (frame %d%s): event flags %d, expected %d", i, e[i]->fno, e[i]->from_existing ? ", shown existing" : "", x.pics[i].events, want); ev += want != 0; o.inc("new_sequence", want & 1); o.inc("new_op_params", want >> 1 & 1); }
    o.nontrivial = e.size() > 1 && ev > 0;
}
static Reg r24("C24", gen_c24, run_c24, "at least two pictures were checked of which one raised an event");
// ---------------------------------------------------------------- C25
static void gen_c25(Rng &r, Case &c) { base_case(r, c); if (r.pct(50)) { c.set("w", r.range(16, 300)); c.set("h", r.range(16, 300)); } c.set("nframes", r.range(2, 7)); tools_case(r, c, {T_SUPERRES, T_SCALEDREF, T_SIZECHANGE, T_FILMGRAIN, T_FILMGRAIN, T_CDEF, T_LR, T_PALETTE, T_INTRABC, T_OBMC, T_WARP, T_DEBLOCK, T_MULTITILE}); tile_case(r, c); cfg_case(r, c, 45); c.set("alloc", r.range(1, 3)); if (r.pct(60)) c.set("grain", 1); if (r.pct(30)) c.set("seqs", 2); if (r.pct(20)) c.set("invisible", 1); c.set("hold", r.below(2)); }
static void run_c25(const Case &c, Outcome &o) {
    Stream s; auto pk = stream_pkts(c, o, &s); Cfg a = cfg_of(c), b = a; b.alloc = 0; b.hold = 0; Result x = decode(pk, a); if (!x.bad.empty()) FAILS(x.bad); Result y = decode(pk, b); if (!y.bad.empty()) FAILS("built-in allocator: " + y.bad); std::string e = cmp_pics(x.pics, y.pics); if (e.empty()) e = cmp_errs(x, y); if (!e.empty()) FAILS("own allocator against built-in: " + e); o.inc("pictures_compared", x.pics.size()); o.inc(fmt("allocator_mode_%d", a.alloc)); o.nontrivial = x.pics.size() > 0;
}
static Reg r25("C25", gen_c25, run_c25, "at least one picture was decoded into user allocated memory and compared");
// ---------------------------------------------------------------- C29
static void gen_c29(Rng &r, Case &c) { small_case(r, c, 100, 6); c.set("ninst", r.range(2, 6)); c.set("inst", (i64)(r.next() >> 20)); if (r.pct(50)) c.set("grain", 1); }
static void run_c29(const Case &c, Outcome &o) {
    int n = (int)c.get("ninst", 2); std::vector<std::vector<Pkt>> pk(n); std::vector<Cfg> cf(n); std::vector<Result> res(n), ref(n); Rng r(subseed((u64)c.get("inst", 1), 4));
    for (int i = 0; i < n; i++) { Knobs k = c.knobs(); if (i && r.pct(80)) { k.seed = (i64)(r.next() >> 16); if (r.pct(60)) { k.w = r.range(16, 100); k.h = r.range(16, 100); k.layout = r.range(0, 3); k.hbd = r.range(0, 2); } } Stream s = generate(k); pk[i] = tu_packets(s); Cfg &a = cf[i]; a.grain = r.below(2); a.threads = r.pct(50) ? 1 : r.range(2, 3); a.delay = a.threads == 1 ? 1 : r.range(0, a.threads); a.alloc = r.below(4); a.inloop = r.pct(70) ? 7 : r.range(0, 7); a.feed = r.pct(30) ? 1 + r.below(100) : 0; }
    int rounds = 2; std::vector<std::vector<Result>> rr(n); std::vector<std::thread> th; std::atomic<int> gate{0};
    for (int i = 0; i < n; i++) th.emplace_back([&, i] { gate++; while (gate.load() < n) std::this_thread::yield(); for (int k = 0; k < rounds; k++) rr[i].push_back(decode(pk[i], cf[i])); });
    for (auto &t : th) t.join();
    for (int i = 0; i < n; i++) { Cfg a = cf[i]; a.threads = 1; a.delay = 1; a.alloc = 0; a.feed = 0; ref[i] = decode(pk[i], a); if (!ref[i].bad.empty()) FAILS(ref[i].bad); for (auto &x : rr[i]) { std::string e = x.bad; if (e.empty()) e = cmp_pics(x.pics, ref[i].pics); if (e.empty()) e = cmp_errs(x, ref[i]); if (!e.empty()) FAILS(fmt("instance %d of %d running concurrently: ", i, n) + e); o.inc("pictures_compared", x.pics.size()); } o.fp = fnv(&i, sizeof i, o.fp ^ stream_fp(pk[i])); }
    o.inc("instances", n); o.nontrivial = o.n["pictures_compared"] > 1;
}
static Reg r29("C29", gen_c29, run_c29, "at least two decoders ran at the same time and their pictures were compared with decoding alone");
// ---------------------------------------------------------------- C30
static void gen_c30(Rng &r, Case &c) { small_case(r, c, 150, 9); mt_cfg(r, c); if (c.get("threads") > 8) c.set("threads", 8); input_case(r, c, 75); c.set("ops", (i64)(r.next() >> 20)); c.set("flushpct", pick(r, {0, 0, 5, 15})); c.set("size_limit", 600000); if (r.pct(20)) c.set("invisible", 1); if (r.pct(20)) c.set("layers", r.range(1, 15)); if (r.pct(20)) c.set("all_layers", 0); if (r.pct(30)) c.set("alloc", r.range(1, 3));  if (r.pct(40)) c.set("cons", 1); }
static void run_c30(const Case &c, Outcome &o) { auto pk = input_of(c, o); life(c, o, pk, (int)c.get("flushpct", 0), true); }
static Reg r30("C30", gen_c30, run_c30, "the threaded decoder returned at least one picture or error while the caller read its pictures");
