#pragma once
#include "dec.h"
#include "shim.h"
struct Case {
    std::map<std::string, i64> v; std::string prop;
    i64 get(const char *k, i64 d = 0) const { auto it = v.find(k); return it == v.end() ? d : it->second; }
    bool has(const char *k) const { return v.count(k); }
    void set(const char *k, i64 x) { v[k] = x; }
    av1m::Knobs knobs() const; std::string str() const; bool parse(const std::string &s);
    u64 hash() const;
};
struct Outcome {
    std::string viol; bool nontrivial = false; std::map<std::string, i64> n; std::string inconclusive; u64 fp = 0; std::vector<u8> input;
    void inc(const std::string &k, i64 d = 1) { n[k] += d; }
};
typedef void (*GenFn)(Rng &, Case &); typedef void (*RunFn)(const Case &, Outcome &);
struct Check { const char *id; GenFn gen; RunFn run; const char *rule; };
std::vector<Check> &registry();
struct Reg { Reg(const char *id, GenFn g, RunFn r, const char *rule) { registry().push_back({id, g, r, rule}); } };
#define FAIL(...) do { if (o.viol.empty()) o.viol = fmt(__VA_ARGS__); return; } while (0)
#define FAILS(s) do { if (o.viol.empty()) o.viol = (s); return; } while (0)
u64 fnv(const void *p, size_t n, u64 h = 1469598103934665603ull);
extern std::string scratch_dir, cli_path, variant; extern int verbose, thorough;

// ---- shared by the checks (common.cc) ----
typedef std::initializer_list<int> IL;
int pick(Rng &r, IL l);
void base_case(Rng &r, Case &c, int maxdim = 0);       // seed, size, format, a few stream shape knobs
void tools_case(Rng &r, Case &c, IL focus, int allpct = 35); // which coding tools a stream may / must use
void cfg_case(Rng &r, Case &c, int thread_pct = 30);   // threads, delay, cpumask, (asm builds) packet feeding
void tile_case(Rng &r, Case &c);                       // knobs of the block level generator
Cfg cfg_of(const Case &c);
std::vector<Pkt> packets_of(const Case &c, const av1m::Stream &s);
u64 stream_fp(const std::vector<Pkt> &p);
struct Expect { const av1m::OutFrame *f; };
std::vector<const av1m::OutFrame *> expected(const av1m::Stream &s, bool invisible = false, int op = 0, bool all_layers = true);
// compare decoder output with the model (what: CMP_*; pixels with or without grain)
std::string against_model(const av1m::Stream &s, const Result &r, const std::vector<const av1m::OutFrame *> &e, int what, bool grain, Outcome *o = nullptr);
std::string dump_path(const char *name);
// damage
void damage(Rng &r, std::vector<Pkt> &pk, int nmut, int kind);
std::vector<u8> concat(const std::vector<Pkt> &pk);
