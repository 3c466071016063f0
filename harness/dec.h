// Driver around the public dav1d API: feeds packets, collects pictures, and keeps books on everything handed over.
#pragma once
#include "../model/av1m.h"
#include <atomic>
#include <set>
#include <mutex>
extern "C" {
#include <dav1d/dav1d.h>
}
#include <errno.h>
using av1m::u8; using av1m::u16; using av1m::u32; using av1m::u64; using av1m::i64; using av1m::Rng; using av1m::subseed;
#define AGAIN DAV1D_ERR(EAGAIN)

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

struct Pkt { std::vector<u8> b; i64 ts = INT64_MIN, dur = 0, off = -1; i64 size = -1; int ud = -1; /*user data id, -1: none*/ std::vector<u32> marks; /*positions of tile sizes and tile data*/ };

struct Cfg {
    int threads = 1, delay = 1, grain = 0, op = 0, all_layers = 1; unsigned size_limit = 0; int strict = 0, invisible = 0, inloop = 7, dft = 0;
    int alloc = 0;      // 0 library default, 1 own allocator (checked), 2 own with negative strides, 3 own with large odd strides
    u64 feed = 0;       // 0: plain loop, otherwise seed of a random call interleaving
    u64 flushes = 0;
    u32 cpumask = ~0u;
    int hold = 0;       // keep pictures alive until after close and re-check them
    int events = 1;     // query event flags after each picture
    int datamode = 0;   // 0 wrap, 1 dav1d_data_create
    int logger = 0; void *log_cb = nullptr, *log_cookie = nullptr; // 0 none, 1 own, 2 the default
};

struct Pic {
    int w = 0, h = 0, layout = 0, bpc = 0; Dav1dSequenceHeader seq; Dav1dFrameHeader hdr; bool has_hdr = false;
    std::vector<u16> d[3]; int pw[3] = {}, ph[3] = {};
    i64 ts = 0, dur = 0, off = 0; u64 size = 0; int ud = -1;
    bool cll = false, mdcv = false; Dav1dContentLightLevel c; Dav1dMasteringDisplay m; std::vector<av1m::Meta::T35> t35;
    int events = 0; int after = -1; // index of the packet last sent before it came out
    u64 hash() const;
};
struct Result {
    int open_res = 0; std::vector<Pic> pics; std::vector<int> errs; std::vector<int> errpkt; // errors in order and the packet being sent
    struct EP { int got; i64 ts; i64 off; int ud; }; std::vector<EP> errprops;
    std::string bad; // violation of a rule that holds for every run (accounting etc.)
    int consumed = 0, eagain_send = 0; std::vector<u64> order; // (kind) events
    int max_delay_seen = 0;
};

// A decoder with its books; used directly by the stateful checks.
struct Books {
    std::mutex mu; std::map<void *, std::vector<u8> *> pics; // outstanding pictures of the own allocator
    std::atomic<int> data_out{0}, ud_out{0}, pic_out{0}; i64 npic = 0, ndata = 0;
    std::string bad; void fail(const std::string &s) { std::lock_guard<std::mutex> l(mu); if (bad.empty()) bad = s; }
    int mode = 0; bool check_size = true; i64 fail_pic_at = -1; int last_w = 0, last_h = 0; std::set<void *> live_alloc;
    void *main_thread = nullptr;
};
struct Decoder {
    Books bk; Dav1dContext *c = nullptr; Cfg cfg; int open_res = 0;
    explicit Decoder(const Cfg &cfg); ~Decoder();
    int send(const Pkt &p, Dav1dData &d); // builds the data and sends it; on EAGAIN keep d and call resend
    void make(const Pkt &p, Dav1dData &d);
    bool get(Pic &out, int &res, Dav1dPicture *keep = nullptr);
    void close();
    std::string books();
};
void copy_pic(const Dav1dPicture &p, Pic &o);
Result decode(const std::vector<Pkt> &pk, const Cfg &cfg);
std::string cmp_hdr(const Dav1dFrameHeader &a, const Dav1dFrameHeader &b);
std::string cmp_seq(const Dav1dSequenceHeader &a, const Dav1dSequenceHeader &b);
enum { CMP_PIX = 1, CMP_HDR = 2, CMP_META = 4, CMP_PROPS = 8, CMP_EVENTS = 16, CMP_ALL = 31 };
std::string cmp_pic(const Pic &a, const Pic &b, int what = CMP_ALL);
std::string cmp_pics(const std::vector<Pic> &a, const std::vector<Pic> &b, int what = CMP_ALL);
std::string cmp_errs(const Result &a, const Result &b);
// model picture -> comparison
std::string cmp_model(const Pic &a, const av1m::Picture &m);
void fill_hdr(Dav1dFrameHeader &d, const av1m::FrameHdr &h, const av1m::SeqHdr &s);
void fill_seq(Dav1dSequenceHeader &d, const av1m::SeqHdr &s);
// packets
std::vector<Pkt> tu_packets(const av1m::Stream &s);              // one packet per temporal unit
std::vector<Pkt> split_packets(const av1m::Stream &s, u64 seed); // random OBU boundaries
