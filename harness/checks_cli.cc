// C26-C28: the command line decoder, run as a program on generated files.
#include <sys/resource.h>
#include <signal.h>
#include "chk.h"
#include <unistd.h>
#include <spawn.h>
#include <signal.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#if __has_include(<xxhash.h>)
#define XXH_INLINE_ALL
#include <xxhash.h>
#define HAVE_XXH 1
#else
#define HAVE_XXH 0
#endif
using namespace av1m;
typedef std::vector<u8> Bytes; typedef std::vector<std::string> Args;

// ---- files and processes ----
static double mono() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static bool put_file(const std::string &p, const Bytes &b) { FILE *f = fopen(p.c_str(), "wb"); if (!f) return false; bool ok = b.empty() || fwrite(b.data(), 1, b.size(), f) == b.size(); return !fclose(f) && ok; }
static bool get_file(const std::string &p, Bytes &b) { b.clear(); FILE *f = fopen(p.c_str(), "rb"); if (!f) return false; u8 t[65536]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n); fclose(f); return true; }
static std::string text(const Bytes &b) { return std::string(b.begin(), b.end()); }
struct Dir { // scratch directory of a case
    std::string p; Dir() { static int n; p = scratch_dir + fmt("/cli.%d.%d", getpid(), n++); mkdir(p.c_str(), 0700); }
    void clear(const std::string &sub) { std::string q = p + "/" + sub; std::vector<std::string> l = list(sub); for (auto &x : l) unlink((q + "/" + x).c_str()); rmdir(q.c_str()); }
    std::vector<std::string> list(const std::string &sub) const { std::vector<std::string> v; if (DIR *d = opendir((p + "/" + sub).c_str())) { while (dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name); closedir(d); } std::sort(v.begin(), v.end()); return v; }
    ~Dir() { clear("out"); clear("out2"); clear("."); rmdir(p.c_str()); }
};
struct Cli { int status = -1; bool sig = false, hung = false, spawned = false; std::string err; Bytes out; Bytes trace; bool has_trace = false; };
extern char **environ;
static std::string trace_path() { static std::string s = [] { std::string t = cli_path + "-trace"; return access(t.c_str(), X_OK) ? std::string() : t; }(); return s; }
static i64 file_limit = -1; // no file written by the tool may get longer than this (writing more fails, as on a full disk)
static Cli run_cli(const Dir &d, const Args &a, bool trace = false, int perturb = -1) {
    Cli r; std::string exe = trace && !trace_path().empty() ? trace_path() : cli_path, so = d.p + "/stdout", se = d.p + "/stderr", tr = d.p + "/trace", cwd = d.p + "/out"; mkdir(cwd.c_str(), 0700); unlink(tr.c_str());
    std::vector<char *> av; av.push_back((char *)"dav1d"); for (auto &x : a) av.push_back((char *)x.c_str()); av.push_back(nullptr);
    std::vector<std::string> es; for (char **e = environ; *e; e++) if (strncmp(*e, "VCHK_TRACE=", 11) && strncmp(*e, "MALLOC_PERTURB_=", 16)) { std::string s = *e; if (!s.compare(0, 13, "ASAN_OPTIONS=")) s += ":max_allocation_size_mb=600"; es.push_back(s); }
    if (trace) es.push_back("VCHK_TRACE=" + tr); if (perturb >= 0) es.push_back(fmt("MALLOC_PERTURB_=%d", perturb));
    std::vector<char *> ev; for (auto &x : es) ev.push_back((char *)x.c_str()); ev.push_back(nullptr);
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0); posix_spawn_file_actions_addopen(&fa, 1, so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addopen(&fa, 2, se.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addchdir_np(&fa, cwd.c_str());
    struct rlimit ol, nl; bool lim = file_limit >= 0 && !getrlimit(RLIMIT_FSIZE, &ol); void (*osig)(int) = SIG_DFL; if (lim) { osig = signal(SIGXFSZ, SIG_IGN); nl = ol; nl.rlim_cur = (rlim_t)file_limit; setrlimit(RLIMIT_FSIZE, &nl); }
    pid_t pid; int e = posix_spawn(&pid, exe.c_str(), &fa, nullptr, av.data(), ev.data()); posix_spawn_file_actions_destroy(&fa); if (lim) { setrlimit(RLIMIT_FSIZE, &ol); signal(SIGXFSZ, osig); }
    if (e) return r; r.spawned = true;
    double t0 = mono(), last = t0; int st = 0; for (;;) { pid_t w = waitpid(pid, &st, WNOHANG); if (w == pid) break; double t = mono(); if (t - t0 > 45) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r.hung = true; break; } usleep(t - t0 < 0.05 ? 300 : 2000); if (t - last > 0.5) { last = t; while (mono() - t < 0.012) {} } /* show that this process is alive */ }
    if (WIFSIGNALED(st)) { r.sig = true; r.status = WTERMSIG(st); } else r.status = WEXITSTATUS(st);
    Bytes b; get_file(se, b); r.err = text(b); get_file(so, r.out); if (trace && exe != cli_path) r.has_trace = get_file(tr, r.trace);
    if (verbose > 1) { std::string s; for (auto &x : a) s += " '" + x + "'"; fprintf(stderr, "cli%s -> %s%d\n%s\n", s.c_str(), r.sig ? "signal " : "", r.status, r.err.substr(0, 1500).c_str()); }
    return r;
}
// how a run may end at all
static std::string sane(const Cli &r) {
    if (!r.spawned) return "";
    if (r.hung) return "the command line decoder did not end";
    if (r.sig) return fmt("the command line decoder was ended by signal %d", r.status);
    if (r.status != 0 && r.status != 1) { std::string e = r.err; size_t p = e.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = e.find("runtime error"); if (p == std::string::npos) p = 0; else { size_t q = e.rfind('\n', p); p = q == std::string::npos ? 0 : q + 1; } return fmt("the command line decoder ended with status %d: ", r.status) + e.substr(p, 400); }
    return "";
}
#define SANE(r) do { if (!(r).spawned) { o.inconclusive = "the tool could not be started"; return; } std::string s_ = sane(r); if (!s_.empty()) FAILS(s_); } while (0)

// ---- containers ----
static void le(Bytes &b, u64 v, int n) { while (n--) { b.push_back((u8)v); v >>= 8; } }
struct IvfOpt { u32 tb0 = 25, tb1 = 1, frames = 0; std::vector<u64> ts; };
static Bytes ivf(const std::vector<Bytes> &pk, const IvfOpt &q, int w, int h) { Bytes b = {'D', 'K', 'I', 'F', 0, 0, 32, 0, 'A', 'V', '0', '1'}; le(b, w, 2); le(b, h, 2); le(b, q.tb0, 4); le(b, q.tb1, 4); le(b, q.frames, 4); le(b, 0, 4); for (size_t i = 0; i < pk.size(); i++) { le(b, pk[i].size(), 4); le(b, i < q.ts.size() ? q.ts[i] : i, 8); b.insert(b.end(), pk[i].begin(), pk[i].end()); } return b; }
static void app(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
// Annex B: temporal_unit(size) of frame_unit(size) of obu_length + OBU, the size field inside the OBU optional
static Bytes annexb(const Stream &s, Rng &r, bool split_units, std::vector<std::pair<size_t, Bytes>> *obus = nullptr) {
    Bytes f; for (auto &t : s.tus) {
        std::vector<Bytes> units; Bytes u; std::vector<std::pair<size_t, Bytes>> local; std::vector<std::pair<size_t, size_t>> place; // (unit, end offset in unit)
        std::vector<Bytes> raw; for (size_t i = 0; i < t.obus.size(); i++) {
            Bytes x = obu_bytes(t.obus[i], r.pct(40) ? 1 : 0); Bytes l = leb128(x.size(), r.pct(8) ? r.range(2, 5) : 0); app(u, l); app(u, x); raw.push_back(x); place.push_back({units.size(), u.size()});
            bool frame_end = t.obus[i].type == 6 || t.obus[i].type == 4 || t.obus[i].type == 3; // not exact for frames in several tile groups, so only between frame starts
            bool next_starts = i + 1 < t.obus.size() && (t.obus[i + 1].type == 6 || t.obus[i + 1].type == 3);
            if (split_units && frame_end && next_starts && r.pct(60)) { units.push_back(u); u.clear(); }
        }
        if (!u.empty()) units.push_back(u);
        Bytes tu; std::vector<size_t> ustart; for (auto &x : units) { app(tu, leb128(x.size(), r.pct(8) ? r.range(2, 5) : 0)); ustart.push_back(tu.size()); app(tu, x); }
        app(f, leb128(tu.size(), r.pct(8) ? r.range(3, 5) : 0)); size_t base = f.size(); app(f, tu);
        if (obus) for (size_t i = 0; i < raw.size(); i++) obus->push_back({base + ustart[place[i].first] + place[i].second, raw[i]});
    }
    return f;
}
static std::vector<Bytes> tus_of(const Stream &s) { std::vector<Bytes> v; for (auto &t : s.tus) v.push_back(tu_bytes(t)); return v; }
static std::vector<Pkt> to_pkts(const std::vector<Bytes> &v) { std::vector<Pkt> p; for (auto &x : v) { Pkt k; k.b = x; p.push_back(k); } return p; }

// ---- the library on the same packets ----
static void pic_bytes(const Pic &p, Bytes &b) { for (int k = 0; k < 3; k++) for (u16 x : p.d[k]) { b.push_back((u8)x); if (p.bpc > 8) b.push_back((u8)(x >> 8)); } }
static Bytes all_bytes(const std::vector<Pic> &v, size_t n = (size_t)-1) { Bytes b; for (size_t i = 0; i < v.size() && i < n; i++) pic_bytes(v[i], b); return b; }
// what the tool documents: give packets one by one, write pictures as they come, go on after damaged frames, stop at any other error
struct Loop { std::vector<Pic> pics; int exit = 0, open_res = 0; bool stopped = false; std::string bad; int errors = 0; };
static Loop lib_loop(const std::vector<Pkt> &pk, const Cfg &cfg, unsigned limit) {
    Loop L; Cfg c = cfg; c.events = 0; Decoder D(c); L.open_res = D.open_res; if (D.open_res) { L.exit = 1; L.bad = D.bk.bad; return L; }
    auto full = [&] { return limit && L.pics.size() >= limit; }; bool stop = false;
    for (size_t i = 0; i < pk.size() && !stop && !full(); i++) {
        if (pk[i].b.empty()) continue; Dav1dData d; D.make(pk[i], d); bool given = false; int spin = 0;
        while (!stop && !full() && !given) {
            int e = dav1d_send_data(D.c, &d); if (e == 0) given = true; else if (e != AGAIN) { dav1d_data_unref(&d); given = true; L.errors++; if (e != DAV1D_ERR(EINVAL)) { stop = true; break; } }
            Pic p; int res; if (D.get(p, res)) L.pics.push_back(std::move(p)); else if (res != AGAIN) { L.errors++; if (res != DAV1D_ERR(EINVAL)) stop = true; } else if (!given && ++spin > 100000) { L.bad = "no progress"; stop = true; }
        }
        if (!given && d.data) dav1d_data_unref(&d);
    }
    int again = 0, n = 0; while (!stop && !full()) { Pic p; int res; if (D.get(p, res)) L.pics.push_back(std::move(p)); else if (res == AGAIN) { if (++again >= 1) break; } else { L.errors++; if (res != DAV1D_ERR(EINVAL)) stop = true; } if (++n > 100000) { L.bad = "draining never ends"; break; } }
    D.close(); L.stopped = stop; L.exit = stop || L.pics.empty(); if (L.bad.empty()) L.bad = D.books(); return L;
}
static std::string where(const Bytes &got, const Bytes &want) { size_t n = std::min(got.size(), want.size()), i = 0; while (i < n && got[i] == want[i]) i++; return fmt("%zu bytes written, %zu expected, first difference at %zu", got.size(), want.size(), i); }
struct Tr { std::string s; std::vector<u32> masks; struct P { i64 ts, off; u64 sz, h; }; std::vector<P> p; };
static Tr parse_trace(const Bytes &b) { Tr t; std::string s = text(b); size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) break; std::string l = s.substr(i, j - i); i = j + 1; if (l[0] == 'S') t.s = l.substr(2); else if (l[0] == 'M') t.masks.push_back((u32)strtoul(l.c_str() + 2, 0, 10)); else if (l[0] == 'P') { long long a, c; unsigned long long z, h; if (sscanf(l.c_str() + 2, "%lld %lld %llu %llx", &a, &c, &z, &h) == 4) t.p.push_back({a, c, z, h}); } } return t; }

static void cli_case(Rng &r, Case &c, int maxf) {
    base_case(r, c, 130); c.set("nframes", r.range(1, maxf)); tools_case(r, c, {T_PADDING, T_METADATA, T_OBUEXT, T_HIDDEN, T_SHOWEXIST, T_TUPACK, T_MULTITG, T_KEYFRAMES, T_SIZECHANGE, T_MULTITILE, T_FILMGRAIN});
    if (r.pct(30)) c.set("symcap", r.range(0, 400)); c.set("cseed", (i64)(r.next() >> 20)); if (r.pct(20)) { c.set("seqs", 2); c.set("seqvar", 0); }
}
static void tool_threads(const Case &c, Args &a) { a.push_back("--threads"); a.push_back(fmt("%d", (int)c.get("threads", 1))); if (c.has("delay")) { a.push_back("--framedelay"); a.push_back(fmt("%d", (int)c.get("delay"))); } }
static Cfg tool_cfg(const Case &c) { Cfg g; g.threads = 1; g.delay = 1; g.strict = 1; g.grain = 1; g.op = 0; (void)c; return g; }

// ---- C26 ----
static void gen_c26(Rng &r, Case &c) {
    cli_case(r, c, 6); if (r.pct(30)) { c.set("threads", r.range(2, 5)); if (r.pct(50)) c.set("delay", r.range(0, 2)); } if (r.pct(10)) c.set("layers", r.range(1, 15));
    c.set("mode", pick(r, {0, 0, 0, 0, 1, 1, 2, 3, 4})); if (r.pct(20)) c.set("lead", 1 + r.below(100000));
}
struct Sec5Cut { bool open_fails = false; std::vector<Bytes> pk; };
static Sec5Cut cut_section5(const Bytes &f, size_t cut) { // what the temporal units inside the first cut bytes are
    Sec5Cut q; size_t i = 0; std::vector<std::pair<size_t, size_t>> ob; bool complete = true; // [start,end)
    while (i < cut) { size_t s = i++; if (f[s] & 4) { if (i >= cut) { q.open_fails = true; break; } i++; } u64 n = 0; int sh = 0; bool ok = false; while (i < cut) { u8 v = f[i++]; n |= (u64)(v & 127) << sh; sh += 7; if (!(v & 128)) { ok = true; break; } } if (!ok) { q.open_fails = true; break; } if (n > cut - i) { complete = false; ob.push_back({s, i + (size_t)n}); break; } i += n; ob.push_back({s, i}); }
    Bytes cur; bool bad = false; for (auto &x : ob) { if ((f[x.first] >> 3 & 15) == 2 && !cur.empty()) { q.pk.push_back(cur); cur.clear(); bad = false; } if (x.second > cut) { bad = true; cur.clear(); break; } cur.insert(cur.end(), f.begin() + x.first, f.begin() + x.second); }
    if (!cur.empty() && !bad) q.pk.push_back(cur); (void)complete; return q;
}
static void run_c26(const Case &c, Outcome &o) {
    Stream s = generate(c.knobs()); Rng r((u64)c.get("cseed")); Dir d; int mode = (int)c.get("mode");
    if (c.get("lead", 0) && s.tus[0].obus.size() > 1) { Rng q((u64)c.get("lead")); for (int n = q.range(1, 2); n > 0; n--) { Obu x; x.type = pick(q, {15, 15, 0, 9, 13}); for (int k = q.range(x.type == 15, 3); k > 0; k--) x.payload.push_back((u8)q.below(256)); x.payload.push_back(0x80); s.tus[0].obus.insert(s.tus[0].obus.begin() + 1, x); } o.inc("ignorable_before_sequence_header"); }
    std::vector<Bytes> tus = tus_of(s); o.fp = stream_fp(tu_packets(s)) ^ c.hash();
    int w = s.seqs[0].max_w, h = s.seqs[0].max_h; bool split_units = r.pct(50); std::vector<std::pair<size_t, Bytes>> aobus;
    IvfOpt iq; iq.frames = (u32)tus.size(); u64 t = 0; int tsmode = mode == 3 ? r.range(0, 4) : r.below(2); // 0 plain, 1 gaps, 2 large, 3 not increasing, 4 first one large
    for (size_t i = 0; i < tus.size(); i++) { if (tsmode == 2 && !i) t = r.next() >> 2; iq.ts.push_back(t); t += tsmode == 0 ? 1 : 1 + r.below(tsmode == 2 ? 1u << 30 : 5000); }
    if (tsmode == 3 && tus.size() > 1) { int k = r.range(1, (int)tus.size() - 1); iq.ts[k] = iq.ts[k - 1] - (iq.ts[k - 1] ? r.below(2) : 0); }
    if (mode == 3) { iq.tb0 = pick(r, {0, 1, 24, 30000, 1000}); iq.tb1 = pick(r, {0, 1, 1001, 1000, 7}); iq.frames = r.pct(30) ? 0 : r.range(1, 100000); }
    Bytes fi = ivf(tus, iq, w, h), fs = concat(to_pkts(tus)), fa = annexb(s, r, split_units, &aobus);
    Cfg cf = tool_cfg(c); struct Con { const char *name; const Bytes *f; } con[3] = {{"ivf", &fi}, {"section5", &fs}, {"annexb", &fa}};
    std::string out = d.p + "/out/o.yuv"; auto base = [&](const std::string &in) { Args a = {"-q", "-i", in, "-o", out}; tool_threads(c, a); return a; };

    static const char *const names[] = {"stream", "s.obu", "x.bin", "a.ivf"}; auto fresh = [&] { unlink(out.c_str()); };
    // one run; the output must be want and the status success exactly when something was decoded
    auto check = [&](const char *what, const Args &a, const Bytes &want, bool any, Cli *keep, bool trace) -> std::string {
        fresh(); Cli x = run_cli(d, a, trace); if (!x.spawned) { o.inconclusive = "the tool could not be started"; return "?"; } std::string e = sane(x); if (!e.empty()) return std::string(what) + ": " + e;
        Bytes got; bool there = get_file(out, got);
        if (x.status != (any ? 0 : 1)) return fmt("%s: exit status %d although %s (%s)", what, x.status, any ? "pictures were decoded" : "nothing could be decoded", x.err.substr(0, 120).c_str());
        if (there != any) return fmt("%s: %s", what, any ? "no output file" : "an output file without pictures");
        if (got != want) return std::string(what) + ": " + where(got, want);
        o.inc(std::string("runs_") + what); if (keep) *keep = x; return "";
    };
    if (mode == 4) { // not an IVF file with AV1 inside
        Bytes f = fi; int at = r.range(2, 11); if (r.pct(50)) { static const char *const cc[] = {"VP90", "VP80", "av01", "AV02", "H264", "AV0\0"}; memcpy(&f[8], cc[r.below(6)], 4); at = 8; } else { u8 was = f[at]; while (f[at] == was) f[at] = (u8)r.below(256); }
        std::string in = d.p + "/" + names[r.below(4)]; put_file(in, f); bool named = at >= 8 && r.pct(50); Args a = base(in); if (named) { a.insert(a.begin(), "ivf"); a.insert(a.begin(), "--demuxer"); }
        fresh(); Cli x = run_cli(d, a); SANE(x); Bytes got; if (x.status == 0 || get_file(out, got)) FAIL("byte %d of the IVF header changed: the file was decoded%s", at, named ? " with --demuxer ivf" : ""); o.inc("other_ivf_refused"); o.nontrivial = true; return;
    }
    if (mode == 0 || mode == 3) {
        Loop L = lib_loop(to_pkts(tus), cf, 0); if (!L.bad.empty()) { o.inconclusive = "library: " + L.bad; return; } Bytes want = all_bytes(L.pics);
        for (int k = 0; k < (mode == 3 ? 1 : 3); k++) for (int detect = 0; detect < 2; detect++) {
            std::string in = d.p + "/" + names[r.below(4)]; put_file(in, *con[k].f); Args a = base(in); if (!detect) { a.insert(a.begin(), con[k].name); a.insert(a.begin(), "--demuxer"); }
            Cli x; std::string e = check(fmt("%s%s", con[k].name, detect ? "_detected" : "").c_str(), a, want, !L.pics.empty(), &x, true); unlink(in.c_str()); if (e == "?") return; if (!e.empty()) FAILS(e);
            if (x.has_trace) {
                Tr t = parse_trace(x.trace); Bytes all; size_t off = 32; std::vector<Bytes> aob; for (auto &q : aobus) aob.push_back(q.second); const std::vector<Bytes> &exp = k == 2 ? aob : tus;
                if (t.p.size() != exp.size()) FAIL("%s: the decoder was given %zu packets, the file has %zu", con[k].name, t.p.size(), exp.size());
                bool mon = true; for (size_t i = 1; i < tus.size(); i++) if (iq.ts[i] <= iq.ts[i - 1]) mon = false;
                for (size_t i = 0; i < exp.size(); i++) {
                    if (t.p[i].sz != exp[i].size() || t.p[i].h != fnv(exp[i].data(), exp[i].size())) FAIL("%s: packet %zu given to the decoder is not the one in the file", con[k].name, i);
                    if (k == 0) {
                        u64 ts = mon ? iq.ts[i] : i * (u64)(iq.frames / tus.size());
                        if ((u64)t.p[i].ts != ts) FAIL("ivf: packet %zu has timestamp %lld, expected %lld", i, (long long)t.p[i].ts, (long long)ts); if (t.p[i].off != (i64)off) FAIL("ivf: packet %zu has offset %lld, it is at %zu", i, (long long)t.p[i].off, off);
                        off += 12 + exp[i].size(); o.inc(mon ? "timestamps_kept" : "timestamps_generated");
                    }
                }
            }
        }
        o.nontrivial = !L.pics.empty() && (tus.size() > 1 || aobus.size() > 3);
    } else {
        int k = r.below(3); const Bytes &f = *con[k].f; size_t cut; std::vector<Bytes> pk; bool ofail = false;
        std::vector<size_t> ends; if (k == 0) { size_t q = 32; ends.push_back(q); for (auto &x : tus) { q += 12 + x.size(); ends.push_back(q); } } else if (k == 1) { size_t q = 0; for (auto &t2 : s.tus) for (auto &ob : t2.obus) { q += obu_bytes(ob, 1).size(); ends.push_back(q); } } else for (auto &x : aobus) ends.push_back(x.first);
        if (r.pct(65)) { i64 q = (i64)ends[r.below((u32)ends.size())] + r.range(-14, 14); cut = q < 0 ? 0 : std::min<size_t>(f.size(), q); } else cut = r.below((u32)f.size() + 1); if (r.pct(15)) cut = std::min<size_t>(cut, r.below(64));
        if (k == 0) { if (cut < 32) ofail = true; else { size_t q = 32; for (auto &x : tus) { q += 12 + x.size(); if (q <= cut) pk.push_back(x); else break; } } }
        else if (k == 1) { Sec5Cut q = cut_section5(f, cut); ofail = q.open_fails; if (!ofail) pk = q.pk; }
        else for (auto &x : aobus) if (x.first <= cut) pk.push_back(x.second); else break;
        Bytes part(f.begin(), f.begin() + cut), want; bool any = false; std::string in = d.p + "/" + names[r.below(4)]; put_file(in, part);
        if (!ofail && !pk.empty()) { Loop L = lib_loop(to_pkts(pk), cf, 0); if (!L.bad.empty()) { o.inconclusive = "library: " + L.bad; return; } any = !L.pics.empty(); if (any) want = all_bytes(L.pics); }
        if (mode == 1) {
            Args a = base(in); a.insert(a.begin(), con[k].name); a.insert(a.begin(), "--demuxer"); std::string e = check(fmt("%s_cut", con[k].name).c_str(), a, want, any, nullptr, false); if (e == "?") return; if (!e.empty()) FAILS(fmt("first %zu of %zu bytes: ", cut, f.size()) + e);
        } else {
            // which container it is must follow from the content of the file alone
            Bytes got[2]; bool there[2]; Cli x[2]; for (int i = 0; i < 2; i++) { fresh(); x[i] = run_cli(d, base(in), false, i ? 0x0a ^ 0xff : 0xff); SANE(x[i]); there[i] = get_file(out, got[i]); }
            if (x[0].status != x[1].status || there[0] != there[1] || got[0] != got[1]) FAIL("%s, first %zu of %zu bytes: two runs on the same file differ (status %d and %d, %zu and %zu bytes written)", con[k].name, cut, f.size(), x[0].status, x[1].status, got[0].size(), got[1].size());
            if (there[0] && (got[0] != want || !any)) FAIL("%s, first %zu of %zu bytes, detected: ", con[k].name, cut, f.size()); if ((x[0].status == 0) != there[0]) FAIL("detected: exit status %d, output file %d", x[0].status, there[0]);
            o.inc(there[0] ? "detected_cut_decoded" : "detected_cut_refused");
        }
        o.nontrivial = cut < f.size(); o.inc(any ? "cut_some_pictures" : "cut_no_pictures");
    }
}
static Reg r26("C26", gen_c26, run_c26, "a stream of several units decoded from each container, or a file cut before its end");

// malformed files under the sanitizers: any error or output, never a crash or a hang
static void gen_c26m(Rng &r, Case &c) { cli_case(r, c, 3); c.set("w", r.range(1, 64)); c.set("h", r.range(1, 64)); c.set("symcap", r.range(0, 60)); c.set("nmut", r.range(1, 6)); c.set("mode", r.below(6)); if (r.pct(25)) c.set("tiny", 1); }
static void run_c26m(const Case &c, Outcome &o) {
    Rng r((u64)c.get("cseed")); Dir d; int mode = (int)c.get("mode"); Bytes f; bool tiny = c.get("tiny", 0);
    auto size_field = [&](Bytes &b) { u64 v = pick(r, {0, 1, 2, 127, 128, 2047, 2048, 2049, 65535}); if (r.pct(55)) v = r.pct(50) ? 0xffffffffull - r.below(r.pct(50) ? 16 : 4200) : 0x7fffffffull - r.below(r.pct(50) ? 16 : 4200); if (r.pct(15)) v = 0x80000000ull + r.below(4200); if (r.pct(4)) v = r.next(); app(b, leb128(v & 0xffffffffffull, r.pct(10) ? 8 : 0)); return v; };
    auto obu_hdr = [&](Bytes &b, bool size) { int ty = pick(r, {1, 2, 3, 5, 6, 15, 15, 4, 8, 0, 9}); bool ext = r.pct(15); b.push_back(ty << 3 | ext << 2 | (size ? 2 : 0)); if (ext) b.push_back(r.below(256)); };
    if (mode < 3) { // a valid file, damaged
        Stream s = generate(c.knobs()); std::vector<Bytes> tus = tus_of(s); if (mode == 0) { IvfOpt q; q.frames = (u32)tus.size(); f = ivf(tus, q, 64, 64); } else if (mode == 1) f = concat(to_pkts(tus)); else f = annexb(s, r, r.pct(50));
        for (int i = (int)c.get("nmut", 1); i > 0 && !f.empty(); i--) { size_t at = r.pct(75) ? r.below((u32)std::min<size_t>(f.size(), 64)) : r.below((u32)f.size()); switch (r.below(7)) { case 0: f[at] ^= 1 << r.below(8); break; case 1: f[at] = (u8)pick(r, {0, 255, 128, 127, 1, 2}); break; case 2: f.resize(at); break; case 3: { Bytes v; size_field(v); f.insert(f.begin() + at, v.begin(), v.end()); break; } case 4: { Bytes v; size_field(v); for (size_t k = 0; k < v.size() && at + k < f.size(); k++) f[at + k] = v[k]; break; } case 5: f.erase(f.begin() + at, f.begin() + std::min(f.size(), at + 1 + r.below(8))); break; case 6: if (mode == 0 && f.size() > 44) { u32 v = r.pct(50) ? 0xffffffffu - r.below(64) : r.below(300); for (int k = 0; k < 4; k++) f[32 + k] = v >> 8 * k; } break; } }
    } else if (mode == 3) { // low-overhead format from pieces
        f = {0x12, 0}; if (r.pct(10)) f = {0x16, (u8)r.below(256), 0}; for (int n = r.range(0, 6); n > 0; n--) { obu_hdr(f, r.pct(92)); u64 v = size_field(f); if (r.pct(60)) for (u64 k = 0; k < std::min<u64>(v, 3000); k++) f.push_back((u8)r.next()); }
    } else if (mode == 4) { // Annex B from pieces
        Bytes p; u64 a = 0xffffffffull - r.below(100), b = a - 5 - r.below(100); if (r.pct(40)) { a = 4000; b = 3900; } app(f, leb128(a)); app(f, leb128(b)); if (r.pct(50)) f.push_back(1), f.push_back(0x10); else { Bytes l; u64 v = r.pct(60) ? 0x7fffffffull - r.below(50) : 0xffffff00ull - 300 - r.below(5000); app(f, leb128(v)); f.push_back(0x12); f.push_back(0); }
        for (int n = r.range(0, 6); n > 0; n--) { size_field(f); obu_hdr(f, r.pct(50)); if (r.pct(60)) size_field(f); for (int k = r.below(40); k > 0; k--) f.push_back((u8)r.next()); }
    } else { // IVF from pieces
        f = {'D', 'K', 'I', 'F', 0, 0, 32, 0, 'A', 'V', '0', '1', 64, 0, 64, 0}; for (int k = 0; k < 16; k++) f.push_back(r.pct(40) ? 0 : (u8)r.next()); for (int n = r.below(4); n > 0; n--) { u32 v = r.pct(50) ? r.below(100) : r.pct(50) ? 0xffffffffu - r.below(40) : (u32)r.next(); le(f, v, 4); le(f, r.pct(50) ? r.next() : r.below(4), 8); for (u32 k = 0; k < std::min(v, 60u); k++) f.push_back((u8)r.next()); }
    }
    if (tiny) f.resize(std::min<size_t>(f.size(), r.below(60))); if (r.pct(30)) f.resize(f.size() + r.below(5000), (u8)pick(r, {0, 255, 128, 18}));
    o.fp = fnv(f.data(), f.size()); std::string in = d.p + "/f"; put_file(in, f);
    for (int k = 0; k < 4; k++) {
        static const char *const n[] = {nullptr, "ivf", "section5", "annexb"}; if (k && !r.pct(50)) continue;
        Args a = {"-q", "-i", in, "--muxer", "null", "--threads", "1", "--sizelimit", "100000"}; if (n[k]) { a.push_back("--demuxer"); a.push_back(n[k]); } if (r.pct(10)) { a.push_back("-s"); a.push_back(fmt("%d", r.range(1, 3))); }
        Cli x = run_cli(d, a); if (!x.spawned) { o.inconclusive = "the tool could not be started"; return; } std::string e = sane(x); if (!e.empty()) FAILS(fmt("malformed file, demuxer %s: ", n[k] ? n[k] : "detected") + e); o.inc(x.status ? "refused" : "decoded");
    }
    o.nontrivial = !f.empty();
}
static Reg r26m("C26M", gen_c26m, run_c26m, "a malformed container file was given to the sanitized tool with detection and with explicit demuxers");

// ---- checksums, independent of the tool ----
static std::string md5_hex(const Bytes &in) {
    static const int S[64] = {7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21};
    u32 K[64]; for (int i = 0; i < 64; i++) K[i] = (u32)(i64)(__builtin_fabs(__builtin_sin(i + 1.0)) * 4294967296.0);
    Bytes m = in; u64 bits = (u64)in.size() * 8; m.push_back(0x80); while (m.size() % 64 != 56) m.push_back(0); le(m, bits, 8);
    u32 a0 = 0x67452301, b0 = 0xefcdab89, c0 = 0x98badcfe, d0 = 0x10325476;
    for (size_t p = 0; p < m.size(); p += 64) { u32 M[16]; for (int i = 0; i < 16; i++) M[i] = m[p + 4 * i] | m[p + 4 * i + 1] << 8 | m[p + 4 * i + 2] << 16 | (u32)m[p + 4 * i + 3] << 24; u32 A = a0, B = b0, C = c0, D = d0; for (int i = 0; i < 64; i++) { u32 F; int g; if (i < 16) F = (B & C) | (~B & D), g = i; else if (i < 32) F = (D & B) | (~D & C), g = (5 * i + 1) % 16; else if (i < 48) F = B ^ C ^ D, g = (3 * i + 5) % 16; else F = C ^ (B | ~D), g = (7 * i) % 16; F += A + K[i] + M[g]; A = D; D = C; C = B; B += F << S[i] | F >> (32 - S[i]); } a0 += A; b0 += B; c0 += C; d0 += D; }
    std::string h; for (u32 v : {a0, b0, c0, d0}) for (int i = 0; i < 4; i++) h += fmt("%02x", v >> 8 * i & 255); return h;
}
static std::string xxh3_hex(const Bytes &b) {
#if HAVE_XXH
    XXH128_hash_t h = XXH3_128bits(b.data(), b.size()); return fmt("%016llx%016llx", (unsigned long long)h.high64, (unsigned long long)h.low64);
#else
    (void)b; return "";
#endif
}
static bool tool_has_xxh3() { static int v = -1; if (v < 0) { Dir d; Cli x = run_cli(d, {"--muxer", "help", "--nosuchoption"}); v = HAVE_XXH && x.err.find("'xxh3'") != std::string::npos; } return v; }
static u64 gcd64(u64 a, u64 b) { while (b) { u64 t = a % b; a = b; b = t; } return a; }
static std::string y4m_head(const Pic &p, u64 fn, u64 fd) {
    static const char *const ss[4][3] = {{"mono", "mono10", "mono12"}, {"420jpeg", "420p10", "420p12"}, {"422", "422p10", "422p12"}, {"444", "444p10", "444p12"}};
    std::string cs = ss[p.layout][(p.bpc - 8) / 2]; if (p.layout == 1 && p.bpc == 8) cs = p.seq.chr == 1 ? "420mpeg2" : p.seq.chr == 2 ? "420" : "420jpeg";
    u64 aw = (u64)p.h * p.hdr.render_width, ah = (u64)p.w * p.hdr.render_height, g = gcd64(aw, ah);
    return fmt("YUV4MPEG2 W%d H%d F%llu:%llu Ip A%llu:%llu C%s\n", p.w, p.h, (unsigned long long)fn, (unsigned long long)fd, (unsigned long long)(aw / g), (unsigned long long)(ah / g), cs.c_str());
}

// ---- C27 ----
enum { F_YUV, F_Y4M, F_MD5, F_XXH, F_NULL };
static void gen_c27(Rng &r, Case &c) { cli_case(r, c, 5); c.set("mode", pick(r, {0, 0, 1, 1, 2, 3})); if (r.pct(30)) { c.set("threads", r.range(2, 5)); if (r.pct(50)) c.set("delay", r.range(0, 2)); } if (r.pct(25)) c.set("layout", 1), c.set("hbd", 0); if (r.pct(30)) c.set("tools", c.get("tools", -1) | 1ll << T_RENDER | 1ll << T_SIZECHANGE); }
static void run_c27(const Case &c, Outcome &o) {
    Stream s = generate(c.knobs()); Rng r((u64)c.get("cseed")); Dir d; int mode = (int)c.get("mode"); std::vector<Bytes> tus = tus_of(s); o.fp = stream_fp(tu_packets(s)) ^ c.hash(); bool xx = tool_has_xxh3();
    IvfOpt iq; iq.frames = (u32)tus.size(); u64 fn = 25, fd = 1; bool as_ivf = r.pct(75); std::string in = d.p + "/in";
    if (r.pct(60)) { iq.tb0 = pick(r, {30000, 60, 24, 1000, 90000, 0, 3}); iq.tb1 = pick(r, {1001, 1, 1000, 7, 0}); if (r.pct(50)) iq.frames = r.range(0, 3000); }
    if (as_ivf) { fn = (u64)iq.tb0 * tus.size(); fd = (u64)iq.tb1 * iq.frames; if (!fn || !fd) fn = fd = 0; else { u64 g = gcd64(fn, fd); fn /= g; fd /= g; } put_file(in, ivf(tus, iq, s.seqs[0].max_w, s.seqs[0].max_h)); } else put_file(in, concat(to_pkts(tus)));
    int fmtk = r.below(xx ? 5 : 4); if (!xx && fmtk == F_XXH) fmtk = F_NULL; int grain = r.below(2); Args a = {"-q", "-i", in, "--filmgrain", fmt("%d", grain)}; tool_threads(c, a); if (r.pct(25)) a.push_back("--negstride"); unsigned limit = r.pct(15) ? r.range(1, 4) : 0; if (limit) { a.push_back("-l"); a.push_back(fmt("%u", limit)); }
    Cfg cf = tool_cfg(c); cf.grain = grain; Loop L = lib_loop(to_pkts(tus), cf, limit); if (!L.bad.empty() || L.stopped) { o.inconclusive = "library: " + L.bad; return; } bool any = !L.pics.empty();
    static const char *const mux[] = {"yuv", "yuv4mpeg2", "md5", "xxh3", "null"}, *const ext[] = {"yuv", "y4m", "md5", "xxh3", "null"};
    auto content = [&](const std::vector<Pic> &v) -> Bytes { // what a file of this format holds for these pictures
        Bytes b; if (fmtk == F_Y4M) { std::string hd = y4m_head(v[0], fn, fd); b.insert(b.end(), hd.begin(), hd.end()); for (auto &p : v) { static const char fr[] = "FRAME\n"; b.insert(b.end(), fr, fr + 6); pic_bytes(p, b); } return b; }
        b = all_bytes(v); if (fmtk == F_MD5 || fmtk == F_XXH) { std::string hx = (fmtk == F_MD5 ? md5_hex(b) : xxh3_hex(b)) + "\n"; b.assign(hx.begin(), hx.end()); } return b;
    };
    if (mode == 2) { // --verify
        Bytes b = all_bytes(L.pics); bool useX = xx && r.pct(40); std::string hx = useX ? xxh3_hex(b) : md5_hex(b); if (!any) return; int kind = r.below(4); std::string arg = hx; bool good = true;
        if (kind == 1) for (char &ch : arg) ch = (char)toupper(ch); if (kind == 2) { int k = r.below(32); char old = arg[k]; do arg[k] = "0123456789abcdef"[r.below(16)]; while (arg[k] == old); good = false; } if (kind == 3) { if (r.pct(50)) arg.resize(r.below(32)); else { Bytes b2 = b; if (!b2.empty()) b2[r.below((u32)b2.size())] ^= 1; arg = useX ? xxh3_hex(b2) : md5_hex(b2); } good = false; }
        a.push_back("--verify"); a.push_back(arg); if (useX || r.pct(30)) { a.push_back("--muxer"); a.push_back(useX ? "xxh3" : "md5"); }
        Cli x = run_cli(d, a); SANE(x); if ((x.status == 0) != good) FAIL("--verify %s with the checksum being %s: exit status %d", arg.c_str(), hx.c_str(), x.status); if (!x.out.empty()) FAIL("--verify wrote %zu bytes to standard output", x.out.size()); if (!d.list("out").empty()) FAIL("--verify wrote a file");
        o.inc(good ? "verify_right" : "verify_wrong"); o.nontrivial = true; return;
    }
    // where to write
    int nm = r.below(100); bool byname = r.pct(60) || fmtk == F_NULL; std::string name; bool frame = false, dash = false;
    if (mode == 1 || (mode == 3 && r.pct(25))) { // per-frame files
        static const char *const pat[] = {"f%n", "%5n_x", "a%05n", "%w x%h-%n", "%n%n", "100%%%n", "p%q%3n", "%1n.%w", "x%12n"}; name = pat[r.below(9)]; frame = true; if (r.pct(40)) { auto fld = [&](char ch) { std::string q = "%"; if (r.pct(70)) q += fmt(r.pct(25) ? "0%d" : "%d", (int)r.below(21)); return q + ch; }; name = std::string(r.pct(50) ? "p" : "") + (r.pct(30) ? fld('w') + "x" : "") + fld('n') + (r.pct(30) ? "-" + fld('h') : "") + (r.pct(15) ? "%9" : ""); } if (byname && r.pct(25)) { static const char *const np[] = {"fixed", "%wx%h", "n%", "%%", "%5"}; name = np[r.below(5)]; }
    } else if (nm < 12) { dash = true; byname = true; name = "-"; }
    else { static const char *const pl[] = {"o", "video.1", "a%d", "%w", "%nx", "dir.x", ".h"}; name = pl[r.below(7)]; if (!byname && name.find("%n") != std::string::npos) name = "o"; }
    if (!byname || r.pct(40)) if (!dash) name += std::string(".") + ext[byname ? r.below(5) : fmtk];
    if (byname) { a.push_back("--muxer"); a.push_back(std::string(frame ? "frame" : "") + mux[fmtk]); }
    if (!(fmtk == F_NULL && byname && r.pct(50) && !frame)) { a.push_back(r.pct(50) ? "-o" : "--output"); a.push_back(name); } else name = "";
    // expected files
    std::map<std::string, Bytes> want; Bytes wout;
    if (any && fmtk != F_NULL) {
        if (!frame) { if (dash) wout = content(L.pics); else want[name] = content(L.pics); }
        else for (size_t i = 0; i < L.pics.size(); i++) {
            std::string q; for (size_t k = 0; k < name.size();) { if (name[k] != '%') { q += name[k++]; continue; } size_t e = k + 1; while (e < name.size() && isdigit((u8)name[e])) e++; char ch = e < name.size() ? name[e] : 0; if (ch != 'n' && ch != 'w' && ch != 'h') { q += name[k++]; continue; } int v = ch == 'n' ? (int)i : ch == 'w' ? L.pics[i].w : L.pics[i].h, wd = e > k + 1 ? atoi(name.substr(k + 1, e - k - 1).c_str()) : 0; q += fmt("%0*d", wd, v); k = e + 1; }
            want[q] = content({L.pics[i]});
        }
    }
    if (mode == 3) { // the place written to has no more room at some point
        std::vector<size_t> sz; if (!wout.empty()) sz.push_back(wout.size()); for (auto &f : want) sz.push_back(f.second.size()); if (frame && any && fmtk != F_NULL) for (auto &p : L.pics) sz.push_back(content({p}).size()); /* later files may replace earlier ones */ if (sz.empty()) return;
        size_t mx = *std::max_element(sz.begin(), sz.end()); i64 q = r.pct(60) ? (i64)sz[r.below((u32)sz.size())] + r.range(-3, 1) : r.pct(50) ? (i64)r.below((u32)mx + 1) : (i64)r.below(64); file_limit = q < 0 ? 0 : q; bool fails = false; for (size_t v : sz) if ((i64)v > file_limit) fails = true;
        Cli x = run_cli(d, a); i64 lim = file_limit; file_limit = -1; SANE(x); if ((x.status != 0) != fails) FAIL("%s%s: files may hold %lld bytes, %s: exit status %d", mux[fmtk], frame ? " per frame" : "", (long long)lim, fails ? "which is not enough for the output" : "which is enough", x.status);
        auto check1 = [&](const Bytes &got, const Bytes &w) { return fails ? got.size() <= w.size() && std::equal(got.begin(), got.end(), w.begin()) : got == w; };
        for (auto &f : d.list("out")) { Bytes got; get_file(d.p + "/out/" + f, got); if (!want.count(f)) FAIL("unexpected file \"%s\"", f.c_str()); if (!check1(got, want[f]) && (!fails || !frame || want.size() == L.pics.size())) FAIL("\"%s\": %zu bytes, not %s of the %zu expected ones", f.c_str(), got.size(), fails ? "the beginning" : "the content", want[f].size()); }
        o.inc(fails ? "write_failed" : "write_limit_enough"); o.inc(fmt("%s_%s", fails ? "write_failed" : "write_ok", mux[fmtk])); o.nontrivial = fails; return;
    }
    Cli x = run_cli(d, a); SANE(x); if (x.status != (any ? 0 : 1)) FAIL("exit status %d, %zu pictures (%s)", x.status, L.pics.size(), x.err.substr(0, 150).c_str());
    std::string tag = fmt("%s%s%s", mux[fmtk], frame ? " per frame" : "", byname ? "" : " by extension"); std::vector<std::string> have = d.list("out");
    for (auto &f : have) if (!want.count(f)) FAIL("%s: unexpected file \"%s\" (output name \"%s\")", tag.c_str(), f.c_str(), name.c_str());
    for (auto &f : want) { Bytes got; if (!get_file(d.p + "/out/" + f.first, got)) FAIL("%s: no file \"%s\" (output name \"%s\")", tag.c_str(), f.first.c_str(), name.c_str()); if (got != f.second) { if (fmtk != F_YUV) { std::string g = text(got).substr(0, 120), e = text(f.second).substr(0, 120); size_t q = g.find('\n'); if (q != std::string::npos) g.resize(q); q = e.find('\n'); if (q != std::string::npos) e.resize(q); if (g != e) FAIL("%s: \"%s\" begins with \"%s\", expected \"%s\"", tag.c_str(), f.first.c_str(), g.c_str(), e.c_str()); } FAIL("%s: \"%s\": ", tag.c_str(), f.first.c_str()); } }
    if (x.out != wout) FAILS(tag + ": standard output: " + where(x.out, wout));
    o.inc(tag); for (auto &p : L.pics) { o.inc(fmt("bpc%d", p.bpc)); o.inc(fmt("layout%d", p.layout)); } o.nontrivial = any;
}
static Reg r27("C27", gen_c27, run_c27, "at least one picture was written and every file compared byte by byte (or the checksum verification decided)");

// ---- C28 ----
static void gen_c28(Rng &r, Case &c) {
    cli_case(r, c, 8); c.set("mode", pick(r, {0, 0, 0, 0, 0, 1, 2, 2, 3})); if (r.pct(35)) c.set("layers", r.range(1, 15)); if (c.get("mode") == 3) c.set("nmut", r.range(1, 3));
}
static void run_c28(const Case &c, Outcome &o) {
    Stream s = generate(c.knobs()); Rng r((u64)c.get("cseed")); Dir d; int mode = (int)c.get("mode"); std::vector<Pkt> pk = to_pkts(tus_of(s)); if (mode == 3) damage(r, pk, (int)c.get("nmut", 1), -1);
    o.fp = stream_fp(pk) ^ c.hash(); std::vector<Bytes> raw; for (auto &p : pk) raw.push_back(p.b); IvfOpt iq; iq.frames = (u32)raw.size(); std::string in = d.p + "/in.ivf", out = d.p + "/out/o.yuv"; if (raw.empty()) return;
    bool any_in = mode == 3 || r.pct(70); Bytes fi = any_in ? ivf(raw, iq, s.seqs[0].max_w, s.seqs[0].max_h) : concat(pk); put_file(in, fi);
    std::vector<Args> opt; // each option with its argument(s), shuffled
    auto num = [&](i64 v) { return r.pct(15) ? fmt("0x%llx", (long long)v) : fmt("%lld", (long long)v); };
    auto add = [&](const char *n, const std::string &v) { if (r.pct(50)) opt.push_back({std::string("--") + n + "=" + v}); else opt.push_back({std::string("--") + n, v}); };
    auto adds = [&](const char *n, char sh, const std::string &v) { int k = r.below(3); if (k == 0) opt.push_back({std::string("-") + sh + v}); else if (k == 1) opt.push_back({std::string("-") + sh, v}); else add(n, v); };
    Cfg cf = tool_cfg(c); cf.all_layers = 1; int want_thr = 0, want_delay = 0; bool neg = false; unsigned limit = 0, skip = 0; std::vector<u32> masks; bool wants_times = false, quiet = r.pct(60); std::string muxer; bool grain_set = false;
    if (r.pct(80)) { want_thr = r.pct(50) ? 1 : r.range(2, 8); add("threads", num(want_thr)); } if (r.pct(50)) { want_delay = r.range(0, 4); add("framedelay", num(want_delay)); }
    if (r.pct(45)) { limit = r.range(0, 8); adds("limit", 'l', num(limit)); } if (r.pct(30)) { skip = r.range(0, 4); adds("skip", 's', num(skip)); }
    if (r.pct(40)) { int g = r.below(4) ? r.below(2) : 7; cf.grain = !!g; grain_set = true; add("filmgrain", num(g)); }
    if (c.get("layers", 0) ? r.pct(70) : r.pct(15)) { cf.op = c.get("layers", 0) ? r.below(4) : r.below(32); add("oppoint", num(cf.op)); } if (c.get("layers", 0) ? r.pct(60) : r.pct(15)) { int v = r.pct(20) ? 3 : r.below(2); cf.all_layers = !!v; add("alllayers", num(v)); }
    if (r.pct(30)) { cf.invisible = r.below(2); add("outputinvisible", num(cf.invisible)); } if (r.pct(25)) { neg = true; opt.push_back({"--negstride"}); } if (r.pct(20)) { cf.strict = r.below(2); add("strict", num(cf.strict)); }
    if (r.pct(40)) { static const char *const n[] = {"none", "deblock", "nodeblock", "cdef", "nocdef", "restoration", "norestoration", "all"}; static const int v[] = {0, 1, 6, 2, 5, 4, 3, 7}; int k = r.below(8); cf.inloop = v[k]; add("inloopfilters", r.pct(75) ? n[k] : num(v[k])); }
    if (r.pct(35)) { static const char *const n[] = {"all", "reference", "intra", "key"}; int k = r.below(4); cf.dft = k; add("decodeframetype", r.pct(75) ? n[k] : num(k)); }
    if (variant == "asm" && r.pct(35)) { static const char *const n[] = {"none", "sse2", "ssse3", "sse41", "avx2", "avx512icl"}; static const u32 v[] = {0, 1, 3, 7, 15, 31}; int k = r.below(6); u32 m = v[k]; if (r.pct(30)) { m = r.below(64); add("cpumask", num(m)); } else add("cpumask", n[k]); masks.push_back(m); }
    if (mode == 2 || r.pct(15)) { int k = r.range(-1, 2); i64 a = s.seqs[0].max_w, b = s.seqs[0].max_h, lim = mode == 2 ? a * b + (k == 2 ? -(i64)r.below((u32)(a * b)) : k) : a * b * r.range(2, 8); if (s.frames.size() && mode == 2 && r.pct(60)) { auto &f = s.frames[r.below((u32)s.frames.size())]; lim = (i64)f.rf.hdr.upscaled_w * f.rf.hdr.h + r.range(-1, 0); a = f.rf.hdr.upscaled_w; b = f.rf.hdr.h; } if (lim < 0) lim = 0; cf.size_limit = (unsigned)lim; if (r.pct(40)) { cf.size_limit = (unsigned)(a * b); add("sizelimit", fmt("%lldx%lld", (long long)a, (long long)b)); } else add("sizelimit", num(lim)); }
    u64 rt = 0, rcache = 0; if (r.pct(15)) { // a limited frame rate
        if (r.pct(60)) { rcache = r.below(5); add("realtimecache", num((i64)rcache)); }
        int k = r.below(7); if (k == 6 && !any_in) k = 0; static const char *const fr[] = {"100000", "100000/1", "1e6", "300000/3.5", "500", "1000/3"}; static const double fv[] = {100000, 100000, 1e6, 300000 / 3.5, 500, 1000 / 3.};
        if (k == 6) { iq.tb0 = r.range(300, 1200); iq.tb1 = r.range(1, 2); rt = 1000000000ull * iq.tb1 / iq.tb0; opt.push_back({"--realtime"}); fi = ivf(raw, iq, s.seqs[0].max_w, s.seqs[0].max_h); put_file(in, fi); } else { rt = (u64)(1e9 / fv[k]); opt.push_back({std::string("--realtime=") + fr[k]}); }
    }
    std::string times = d.p + "/times"; if (r.pct(15)) { wants_times = true; quiet = false; add("frametimes", times); }
    if (r.pct(20)) { muxer = r.pct(50) ? "md5" : "yuv"; add("muxer", muxer); if (muxer == "md5" && !grain_set) cf.grain = 0; } if (quiet) opt.push_back({r.pct(50) ? "-q" : "--quiet"}); if (any_in && r.pct(20)) add("demuxer", "ivf");
    adds("input", 'i', in); adds("output", 'o', out);
    for (size_t i = opt.size(); i > 1; i--) std::swap(opt[i - 1], opt[r.below((u32)i)]);
    bool bad = false; std::string what;
    if (mode == 1) { // something that must be refused
        bad = true; Args x; static const char *const inv[] = {"threads", "framedelay", "limit", "skip", "filmgrain", "oppoint", "alllayers", "strict", "outputinvisible", "realtimecache"}; int k = r.below(12);
        static const char *const junk[] = {"abc", "", "1x", "--", "1 2", "0xg", "1.5", "x1"};
        if (k < 3) x = {fmt("--%s=%s", inv[r.below(10)], junk[r.below(8)])};
        else if (k == 3) x = {std::string("--inloopfilters=") + (const char *[]){"", "foo", "NONE", "deblock,cdef", "7x"}[r.below(5)]};
        else if (k == 4) x = {std::string("--decodeframetype=") + (const char *[]){"", "inter", "Key", "4", "keys", "17"}[r.below(6)]};
        else if (k == 5) x = {std::string("--cpumask=") + (const char *[]){"", "avx3", "sse", "0xq", "12 "}[r.below(5)]};
        else if (k == 6) x = {std::string("--sizelimit=") + (const char *[]){"", "x", "10x", "axb", "10x10x", "4294967295", "65536x65536", "5y"}[r.below(8)]};
        else if (k == 7) x = {std::string("--realtime=") + (const char *[]){"x", "1/", "/2", "25/1a", "1//2"}[r.below(5)]};
        else if (k == 8) x = {(const char *[]){"stray", "--nosuch", "-z", "--thread!"}[r.below(4)]};
        else if (k == 9) x = {(const char *[]){"--threads=257", "--threads=-1", "--framedelay=257", "--oppoint=32", "--framedelay=-2", "--oppoint=4294967295"}[r.below(6)]};
        else if (k == 10) x = {(const char *[]){"--muxer=foo", "--demuxer=foo", "--muxer=frame", "--muxer=YUV", "--verify=00000000000000000000000000000000", "--input=/nonexistent/x", "--output=/nonexistent/dir/x.yuv", "--output=noextension"}[r.below(8)]};
        else { x = {}; for (size_t i = 0; i < opt.size(); i++) { const std::string &q = opt[i][0]; if (!q.compare(0, 2, "-i") || !q.compare(0, 7, "--input")) { opt.erase(opt.begin() + i); break; } } what = "no input"; }
        if (!x.empty()) { what = x[0]; // the same option given later must not hide it
            std::string nm = x[0].substr(0, x[0].find('=')); for (size_t i = 0; i < opt.size();) { const std::string &q = opt[i][0]; bool same = q == nm || !q.compare(0, nm.size() + 1, nm + "="); if (nm == "--input") same |= !q.compare(0, 2, "-i"); if (nm == "--output") same |= !q.compare(0, 2, "-o"); if (nm == "--limit") same |= !q.compare(0, 2, "-l"); if (nm == "--skip") same |= !q.compare(0, 2, "-s"); if (what == "--output=noextension") same |= q == "--muxer" || !q.compare(0, 8, "--muxer="); if (same) opt.erase(opt.begin() + i); else i++; }
            opt.insert(opt.begin() + r.below((u32)opt.size() + 1), x); }
    }
    Args a; for (auto &x : opt) for (auto &y : x) a.push_back(y);
    // the part of the input that is decoded
    std::vector<Pkt> use(pk.begin() + std::min<size_t>(skip, pk.size()), pk.end()); if (skip) while (!use.empty()) { Dav1dSequenceHeader q; if (!dav1d_parse_sequence_header(&q, use[0].b.data(), use[0].b.size())) break; use.erase(use.begin()); }
    int thr = want_thr, del = want_delay; Cfg ref = cf; if (neg) ref.alloc = 2; ref.alloc = 0; if (mode == 3) { ref.threads = 1; }
    bool exact = true; Loop L; if (!bad) { if (mode == 3 && (thr != 1)) { a.push_back("--threads=1"); thr = 1; } if (!use.empty()) L = lib_loop(use, ref, limit); else L.exit = 1; if (!L.bad.empty()) { o.inconclusive = "library: " + L.bad; return; } if (thr != 1 && cf.size_limit && !use.empty() && (L.stopped || lib_loop(use, ref, 0).stopped)) exact = false; /* frames may still be under way when a later packet stops the run */ }
    double wall = mono(); Cli x = run_cli(d, a, true); wall = mono() - wall; SANE(x); std::string cmd; for (auto &y : a) if (y.compare(0, d.p.size(), d.p)) cmd += " " + y;
    if (bad) { if (x.status == 0) FAIL("\"%s\" was accepted", what.c_str()); Bytes g; if (get_file(out, g) && !g.empty()) FAIL("\"%s\" was refused but %zu bytes were written", what.c_str(), g.size()); o.inc("refused"); o.nontrivial = true; return; }
    if (x.status != L.exit && (exact || L.stopped)) FAIL("exit status %d, expected %d (%zu pictures%s):%s -- %s", x.status, L.exit, L.pics.size(), L.stopped ? ", stopped by an error" : "", cmd.c_str(), x.err.substr(x.err.size() > 150 ? x.err.size() - 150 : 0).c_str());
    Bytes got, want = all_bytes(L.pics); bool there = get_file(out, got); if (!exact && there && muxer != "md5") { bool pre = got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin()); if (!pre) FAILS("before the error: " + where(got, want) + ":" + cmd); }
    if (exact) { if (there != !L.pics.empty()) FAIL("%zu pictures, output file %d:%s", L.pics.size(), there, cmd.c_str()); if (there) { if (muxer == "md5") { std::string hx = md5_hex(want) + "\n"; if (text(got) != hx) FAIL("checksum of the output differs:%s", cmd.c_str()); } else if (got != want) FAILS(where(got, want) + ":" + cmd); } }
    if (exact && !L.pics.empty() && muxer != "yuv" && (grain_set || muxer == "md5") && !wants_times && r.pct(60)) { // the same run checking a checksum instead of writing
        Args v; for (size_t i = 0; i < opt.size(); i++) { const std::string &q = opt[i][0]; if (!q.compare(0, 2, "-o") || !q.compare(0, 8, "--output") ) { if (q.compare(0, 17, "--outputinvisible")) continue; } for (auto &y : opt[i]) v.push_back(y); } if (mode == 3 && want_thr != 1) v.push_back("--threads=1");
        std::string hx = md5_hex(want); bool good = r.pct(70); if (!good) hx[r.below(32)] ^= 1; v.push_back("--verify=" + hx); Cli y = run_cli(d, v); SANE(y); int we = good ? L.exit : 1; if (y.status != we) FAIL("--verify with the %s checksum: exit status %d, expected %d (%zu pictures%s):%s", good ? "right" : "wrong", y.status, we, L.pics.size(), L.stopped ? ", stopped by an error" : "", cmd.c_str()); o.inc(L.stopped ? "verified_after_stop" : "verified");
    }
    if (x.has_trace && L.open_res == 0 && !use.empty()) {
        Tr t = parse_trace(x.trace); std::string ws = fmt("%d %d %d %d %d %u %d %d %d %d %d", thr, del, cf.grain, cf.op, cf.all_layers, cf.size_limit, cf.strict, cf.invisible, cf.inloop, cf.dft, neg); if (t.s != ws) FAIL("decoder opened with settings %s (threads, delay, grain, point, layers, size limit, strict, invisible, filters, frame types, allocator), expected %s:%s", t.s.c_str(), ws.c_str(), cmd.c_str());
        if (t.masks != masks) FAIL("CPU mask %s, expected %s:%s", t.masks.empty() ? "not set" : fmt("%u", t.masks[0]).c_str(), masks.empty() ? "not set" : fmt("%u", masks[0]).c_str(), cmd.c_str()); o.inc("settings_traced");
    }
    if (wants_times && exact) { Bytes b; get_file(times, b); size_t n = std::count(b.begin(), b.end(), '\n'); if (n != L.pics.size() && !use.empty()) FAIL("%zu lines in the frame times file, %zu pictures:%s", n, L.pics.size(), cmd.c_str()); o.inc("frametimes");
        double sum = 0; size_t k = 0, q = 0; for (std::string t = text(b); q < t.size(); q = t.find('\n', q) + 1) { k++; sum += strtod(t.c_str() + q, 0); if (rt && sum < (double)rt * k) FAIL("the first %zu pictures took %.0f ns according to the frame times, at a rate of one every %llu ns:%s", k, sum, (unsigned long long)rt, cmd.c_str()); }
        if (sum > (wall + 0.001) * 1e9 + (double)(rt * rcache)) FAIL("the frame times add up to %.0f ns, the run took %.0f:%s", sum, wall * 1e9, cmd.c_str()); }
    if (exact && !quiet) { // the progress report
        size_t k = 0, q = 0; unsigned n = 0, m = 0; while ((q = x.err.find("Decoded ", q)) != std::string::npos) { k++; m = 0; int z = sscanf(x.err.c_str() + q, "Decoded %u/%u frames", &n, &m); q += 8; if (z < 1 || n != k) FAIL("progress report %zu says %u:%s", k, n, cmd.c_str()); if (z == 2 && any_in) { unsigned w = (unsigned)raw.size(); if (limit && limit < w) w = limit; if (m != w) FAIL("progress report: %u frames in all, expected %u:%s", m, w, cmd.c_str()); } }
        if (k != L.pics.size() && !use.empty()) FAIL("%zu progress reports, %zu pictures:%s", k, L.pics.size(), cmd.c_str()); o.inc("progress_reports", k);
    } else if (quiet && x.err.find("Decoded ") != std::string::npos) FAIL("progress report although quiet:%s", cmd.c_str());
    if (rt && exact && L.pics.size() > rcache) { double need = (double)(rt * (L.pics.size() - rcache)) / 1e9; if (wall < need - 0.0005) FAIL("%zu pictures in %.4f s, at a rate of one every %llu ns with %llu cached it takes %.4f s:%s", L.pics.size(), wall, (unsigned long long)rt, (unsigned long long)rcache, need, cmd.c_str()); o.inc("rate_limited"); }
    o.inc(fmt("mode%d", mode)); o.inc("pictures", L.pics.size()); if (L.stopped) o.inc("stopped_by_error"); if (L.errors) o.inc("runs_with_errors"); if (skip) o.inc("skip"); if (limit) o.inc("limit"); if (neg) o.inc("negstride"); o.nontrivial = !L.pics.empty() || L.stopped;
}
static Reg r28("C28", gen_c28, run_c28, "pictures were written (or decoding stopped at an error) and compared with the library run with the settings the options name, or an invalid command line was refused");
