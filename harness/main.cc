// Case runner: every case runs in its own process; failures are re-run, shrunk and written out.
#include "chk.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <poll.h>
#include <signal.h>
#include <fcntl.h>
#include <stdio.h>
#include <dirent.h>
#include <time.h>
using namespace av1m;
std::string scratch_dir = "/tmp", cli_path, variant; int verbose = 0, thorough = 0;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
u64 fnv(const void *p, size_t n, u64 h) { const u8 *b = (const u8 *)p; while (n--) h = (h ^ *b++) * 1099511628211ull; return h; }

std::string Case::str() const { std::string s = "prop=" + prop; for (auto &x : v) s += fmt(" %s=%lld", x.first.c_str(), (long long)x.second); return s; }
bool Case::parse(const std::string &s) { v.clear(); size_t i = 0; while (i < s.size()) { while (i < s.size() && isspace((u8)s[i])) i++; size_t j = i; while (j < s.size() && !isspace((u8)s[j])) j++; if (j == i) break; std::string t = s.substr(i, j - i); i = j; size_t e = t.find('='); if (e == std::string::npos) continue; if (t.substr(0, e) == "prop") prop = t.substr(e + 1); else v[t.substr(0, e)] = strtoll(t.c_str() + e + 1, 0, 0); } return !prop.empty(); }
u64 Case::hash() const { std::string s = str(); return fnv(s.data(), s.size()); }
Knobs Case::knobs() const { Knobs k;
#define K(n, d) { auto it = v.find(#n); if (it != v.end()) k.n = it->second; }
    AV1M_KNOBS(K)
#undef K
    return k; }

static std::string esc(const std::string &s) { std::string r; for (char ch : s) { u8 c = ch; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) r += fmt("\\u%04x", c); else r += c; } return r; }

struct Run { std::string viol, inconclusive; bool nontrivial = false; u64 fp = 0; std::map<std::string, i64> n; };
// all threads of a process asleep and no CPU time used?
static bool task_state(pid_t pid, u64 &cpu, bool &asleep) {
    cpu = 0; asleep = true; DIR *d = opendir(fmt("/proc/%d/task", pid).c_str()); if (!d) return false;
    while (dirent *e = readdir(d)) { if (e->d_name[0] == '.') continue; FILE *f = fopen(fmt("/proc/%d/task/%s/stat", pid, e->d_name).c_str(), "r"); if (!f) continue; char b[1024]; size_t n = fread(b, 1, 1023, f); b[n] = 0; fclose(f); char *p = strrchr(b, ')'); if (!p) continue; char st; u64 ut = 0, stt = 0; int pp; long l; u64 u; if (sscanf(p + 2, "%c %d %ld %ld %ld %ld %llu %llu %llu %llu %llu %llu %llu", &st, &pp, &l, &l, &l, &l, (unsigned long long *)&u, (unsigned long long *)&u, (unsigned long long *)&u, (unsigned long long *)&u, (unsigned long long *)&u, (unsigned long long *)&ut, (unsigned long long *)&stt) < 13) continue; cpu += ut + stt; if (st != 'S') asleep = false; }
    closedir(d); return true;
}
static std::string errfile;
static Run run_case(const Check &ck, const Case &c, double limit) {
    Run r; int fd[2]; if (pipe(fd)) { r.inconclusive = "pipe"; return r; }
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { close(fd[0]); close(fd[1]); r.inconclusive = "fork"; return r; }
    if (!pid) {
        close(fd[0]); setpgid(0, 0);
        int ef = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (ef >= 0) { dup2(ef, 2); close(ef); }
        Outcome o; ck.run(c, o);
        std::string s; auto line = [&](const char *k, const std::string &x) { std::string y = x; for (char &ch : y) if (ch == '\n') ch = ' '; s += std::string(k) + " " + y + "\n"; };
        if (!o.viol.empty()) line("V", o.viol); if (!o.inconclusive.empty()) line("I", o.inconclusive); line("T", o.nontrivial ? "1" : "0"); line("F", fmt("%llu", (unsigned long long)o.fp)); for (auto &x : o.n) line("N", x.first + " " + fmt("%lld", (long long)x.second)); s += "E\n";
        size_t off = 0; while (off < s.size()) { ssize_t w = write(fd[1], s.data() + off, s.size() - off); if (w <= 0) break; off += w; }
        close(fd[1]);
        exit(0); // let leak checkers run
    }
    close(fd[1]); std::string buf; double t0 = now(), sleep_since = 0; u64 last_cpu = 0; bool killed = false, dead = false; 
    for (;;) {
        pollfd p{fd[0], POLLIN, 0}; int pr = poll(&p, 1, 500); if (pr > 0) { char b[4096]; ssize_t n = read(fd[0], b, sizeof b); if (n <= 0) break; buf.append(b, n); continue; }
        u64 cpu; bool asleep; double t = now();
        if (task_state(pid, cpu, asleep)) { if (asleep && cpu == last_cpu) { if (!sleep_since) sleep_since = t; if (t - sleep_since > 8) { dead = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); break; } } else sleep_since = 0; last_cpu = cpu; }
        if (t - t0 > limit) { killed = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); break; }
    }
    // after the result: the process must also end
    int st = 0; double t1 = now(); while (!dead && !killed) { pid_t w = waitpid(pid, &st, WNOHANG); if (w == pid) break; usleep(500); if (now() - t1 > limit) { killed = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); } }
    if (dead || killed) waitpid(pid, &st, 0);
    kill(-pid, SIGKILL); // anything the case left running
    close(fd[0]);
    if (dead) { r.viol = "deadlock: every thread of the decoder process waits and none runs"; return r; }
    if (killed) { r.inconclusive = "time limit"; return r; }
    std::string errs; { FILE *f = fopen(errfile.c_str(), "r"); if (f) { char b[8192]; size_t n = fread(b, 1, sizeof b - 1, f); b[n] = 0; errs = b; fclose(f); } }
    auto san = [&]() { std::string s; for (const char *k : {"runtime error:", "ERROR: AddressSanitizer", "ERROR: LeakSanitizer", "WARNING: ThreadSanitizer", "WARNING: MemorySanitizer", "Assertion", "SCHED:", "MODEL"}) { size_t p = errs.find(k); if (p != std::string::npos) { size_t b = errs.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; s = errs.substr(b, errs.find('\n', p) - b); break; } } return s; };
    if (WIFSIGNALED(st)) { int sg = WTERMSIG(st); if (sg == SIGKILL) r.inconclusive = "killed"; else { r.viol = fmt("crash: signal %d ", sg) + san(); } }
    else if (WEXITSTATUS(st) == 97) { r.inconclusive = "scheduler step limit"; }
    else if (WEXITSTATUS(st) == 99) { r.inconclusive = "model: " + errs.substr(0, 300); }
    else if (WEXITSTATUS(st) != 0) { std::string s = san(); r.viol = fmt("exit status %d: ", WEXITSTATUS(st)) + (s.empty() ? errs.substr(0, 300) : s); }
    size_t i = 0; bool complete = false; while (i < buf.size()) { size_t j = buf.find('\n', i); if (j == std::string::npos) break; std::string l = buf.substr(i, j - i); i = j + 1; if (l[0] == 'V') r.viol = l.substr(2) + (r.viol.empty() ? "" : " / " + r.viol); else if (l[0] == 'I') r.inconclusive = l.substr(2); else if (l[0] == 'T') r.nontrivial = l[2] == '1'; else if (l[0] == 'F') r.fp = strtoull(l.c_str() + 2, 0, 10); else if (l[0] == 'N') { size_t s = l.rfind(' '); r.n[l.substr(2, s - 2)] = strtoll(l.c_str() + s, 0, 10); } else if (l[0] == 'E') complete = true; }
    if (!complete && r.viol.empty() && r.inconclusive.empty()) r.viol = "case process ended early without a result: " + errs.substr(0, 200);
    for (char &ch : r.viol) if (ch == '\n') ch = ' ';
    return r;
}

static double case_limit = 60;
static std::string vclass(const std::string &v) { return v.substr(0, 5) == "crash" ? "crash" : v.substr(0, 4) == "exit" ? "exit" : v.substr(0, 8) == "deadlock" ? "deadlock" : "mismatch"; }
static Case shrink(const Check &ck, Case c, std::string &msg, double budget, int &tried) {
    double t0 = now(); tried = 0; std::string cls = vclass(msg);
    auto attempt = [&](const Case &x) { if (now() - t0 > budget) return false; if (x.v == c.v) return false; tried++; Run r = run_case(ck, x, case_limit); if (!r.viol.empty() && vclass(r.viol) == cls) { c = x; msg = r.viol; return true; } return false; };
    bool progress = true; int rounds = 0;
    while (progress && now() - t0 < budget && rounds++ < 3) {
        progress = false;
        for (const char *k : {"nframes", "w", "h", "nmut", "nops", "ninst", "threads", "delay", "seqs", "layers", "symcap", "flips"}) {
            if (!c.v.count(k)) continue; i64 lo = !strcmp(k, "layers") || !strcmp(k, "symcap") ? 0 : 1; i64 cur = c.v[k];
            if (!strcmp(k, "symcap") && cur < 0) cur = 40000;
            i64 a = lo, b = cur; int it = 0; while (a < b && it++ < 18) { i64 m = (a + b) / 2; Case x = c; x.v[k] = m; if (attempt(x)) { b = m; progress = true; } else a = m + 1; }
        }
        if (!c.v.count("symcap") && c.get("model", 1)) { Case x = c; x.v["symcap"] = 20000; if (attempt(x)) progress = true; }
        { i64 t = c.get("tools", -1) & ((1ll << 60) - 1); for (int step = 16; step >= 1; step /= 2) for (int b = 0; b < 60; b += step) { i64 m = ((1ll << step) - 1) << b; i64 cur = c.get("tools", -1) & ((1ll << 60) - 1); if (!(cur & m)) continue; Case x = c; x.v["tools"] = cur & ~m; if (attempt(x)) progress = true; } (void)t; }
        for (auto kv : std::map<std::string, i64>(c.v)) { static const std::set<std::string> keep = {"seed", "nframes", "w", "h", "tools", "symcap", "model", "cseed", "grain", "mode"}; if (keep.count(kv.first)) continue; Case x = c; x.v.erase(kv.first); if (attempt(x)) { progress = true; continue; } if (kv.second) { x = c; x.v[kv.first] = 0; if (attempt(x)) progress = true; } }
    }
    return c;
}

std::vector<Pkt> input_of(const Case &c, Outcome &o);
int main(int argc, char **argv) {
    signal(SIGPIPE, SIG_IGN);
    std::string id, replay, out, rdir, emit; u64 seed = 1; int worker = 0, workers = 1, cases = -1; double tlimit = 1e9; std::string onecase;  double shrink_budget = 40; bool racy = false;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--racy") racy = true; else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 0); else if (a == "--worker") worker = atoi(nx().c_str()); else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--cases") cases = atoi(nx().c_str()); else if (a == "--time") tlimit = atof(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--rdir") rdir = nx(); else if (a == "--scratch") scratch_dir = nx(); else if (a == "--cli") cli_path = nx(); else if (a == "--case") onecase = nx(); else if (a == "--thorough") thorough = 1; else if (a == "-v") verbose++; else if (a == "--emit") emit = nx(); else if (a == "--trap") SHIM.trap = 1; else if (a == "--case-limit") case_limit = atof(nx().c_str()); else if (a == "--shrink") shrink_budget = atof(nx().c_str()); else if (a == "--variant") variant = nx(); else id = a; }
    if (!replay.empty()) { FILE *f = fopen(replay.c_str(), "r"); if (!f) { perror("replay"); return 2; } char b[65536]; size_t n = fread(b, 1, sizeof b - 1, f); b[n] = 0; fclose(f); std::string s = b, l; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); l = s.substr(i, j - i); i = j + 1; if (l.rfind("case ", 0) == 0) onecase = l.substr(5); } }
    Case pc; if (!onecase.empty()) { pc.parse(onecase); if (!pc.prop.empty()) id = pc.prop; }
    const Check *ck = nullptr; for (auto &x : registry()) if (id == x.id) ck = &x;
    if (!ck) { fprintf(stderr, "no such check %s\n", id.c_str()); return 2; }
    errfile = scratch_dir + fmt("/err.%d", getpid());
    if (!emit.empty()) { // write the stream of a case as an IVF file
        Stream st = generate(pc.knobs()); Outcome eo; auto pk = pc.has("in") ? input_of(pc, eo) : packets_of(pc, st); FILE *f = fopen(emit.c_str(), "wb"); if (!f) return 2; u8 h[32] = {'D', 'K', 'I', 'F', 0, 0, 32, 0, 'A', 'V', '0', '1'}; auto put = [&](u8 *p, u64 v, int n) { while (n--) { *p++ = (u8)v; v >>= 8; } };
        put(h + 12, st.seqs[0].max_w, 2); put(h + 14, st.seqs[0].max_h, 2); put(h + 16, 25, 4); put(h + 20, 1, 4); put(h + 24, pk.size(), 4); fwrite(h, 1, 32, f); u64 t = 0; for (auto &p : pk) { u8 fh[12]; put(fh, p.b.size(), 4); put(fh + 4, t++, 8); fwrite(fh, 1, 12, f); fwrite(p.b.data(), 1, p.b.size(), f); } fclose(f); return 0; }
    if (!onecase.empty()) {
        pc.prop = id; if (verbose > 1) { Outcome o; ck->run(pc, o); printf("%s\n", o.viol.c_str()); return !o.viol.empty(); }
        Run r = run_case(*ck, pc, case_limit * 10); unlink(errfile.c_str()); printf("%s%s nontrivial=%d\n", r.viol.empty() ? r.inconclusive.empty() ? "PASS" : "INCONCLUSIVE " : "FAIL ", (r.viol + r.inconclusive).c_str(), r.nontrivial); if (verbose) for (auto &x : r.n) printf("  %s %lld\n", x.first.c_str(), (long long)x.second); return r.viol.empty() ? 0 : 1; }
    if (cases < 0) cases = 100;
    double t0 = now(); i64 evals = 0, nontriv = 0, inconc = 0; std::set<u64> fps; std::map<std::string, i64> n; std::vector<std::string> samples; std::string viol_msg; Case viol_case; bool found = false; std::map<std::string, i64> incn; int reproduced = 0, tried = 0; std::string orig;
    std::vector<std::pair<std::string, std::string>> flaky;
    auto dump = [&]() {
        if (out.empty()) return; std::string tmp = out + ".tmp"; FILE *f = fopen(tmp.c_str(), "w"); if (!f) return;
        fprintf(f, "{\"evals\":%lld,\"nontrivial\":%lld,\"inconclusive\":%lld,\"wall\":%.2f,\"rule\":\"%s\",\"samples\":[", (long long)evals, (long long)nontriv, (long long)inconc, now() - t0, esc(ck->rule).c_str());
        for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
        fprintf(f, "],\"fps\":["); size_t q = 0; for (u64 h : fps) fprintf(f, "%s\"%llx\"", q++ ? "," : "", (unsigned long long)h);
        fprintf(f, "],\"n\":{"); q = 0; for (auto &x : n) fprintf(f, "%s\"%s\":%lld", q++ ? "," : "", esc(x.first).c_str(), (long long)x.second);
        fprintf(f, "},\"inc\":{"); q = 0; for (auto &x : incn) fprintf(f, "%s\"%s\":%lld", q++ ? "," : "", esc(x.first).c_str(), (long long)x.second); fprintf(f, "},\"flaky\":[");
        q = 0; for (auto &x : flaky) fprintf(f, "%s{\"msg\":\"%s\",\"case\":\"%s\"}", q++ ? "," : "", esc(x.first).c_str(), esc(x.second).c_str()); fprintf(f, "]");
        if (found) fprintf(f, ",\"viol\":{\"msg\":\"%s\",\"case\":\"%s\",\"orig\":\"%s\",\"reproduced\":%d,\"shrink_runs\":%d}", esc(viol_msg).c_str(), esc(viol_case.str()).c_str(), esc(orig).c_str(), reproduced, tried);
        fprintf(f, "}\n"); fclose(f); rename(tmp.c_str(), out.c_str());
    };
    for (int i = worker; i < cases; i += workers) {
        if (now() - t0 > tlimit) { n["stopped_by_time"]++; break; }
        Rng r(subseed(seed, fnv(id.data(), id.size()), i)); Case c; c.prop = id; ck->gen(r, c);
        Run x = run_case(*ck, c, case_limit); evals++;
        if (verbose) printf("%d %s\n   -> %s%s nt=%d\n", i, c.str().c_str(), x.viol.c_str(), x.inconclusive.c_str(), x.nontrivial);
        if (!x.inconclusive.empty() && x.viol.empty()) { inconc++; incn[x.inconclusive.substr(0, 120)]++; }
        for (auto &k : x.n) n[k.first] += k.second;
        if (x.nontrivial) { u64 h = x.fp ? x.fp : c.hash(); fps.insert(h); nontriv++; if (samples.size() < 3) samples.push_back(c.str()); }
        if (!x.viol.empty()) {
            int rep = 0; for (int k = 0; k < 15 && !(k >= 3 && rep); k++) if (!run_case(*ck, c, case_limit).viol.empty()) rep++;
            if (!rep && !racy) { flaky.push_back({x.viol, c.str()}); n["violations_not_reproduced"]++; if (flaky.size() >= 4) break; continue; } // go on looking
            found = true; orig = c.str(); viol_msg = x.viol; viol_case = c; reproduced = std::min(rep, 3); dump(); /* in case shrinking is cut short */ if (rep) viol_case = shrink(*ck, c, viol_msg, shrink_budget, tried); break;
        }
    }
    unlink(errfile.c_str()); dump();
    if (found) printf("FAIL %s\n  case %s\n", viol_msg.c_str(), viol_case.str().c_str());
    return found ? 1 : 0;
}
