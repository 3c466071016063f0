/* Linked in front of the dav1d command line tool: with VCHK_TRACE set it notes the settings the tool opens the decoder
 * with and every packet the decoder takes. The tool and the library are otherwise unchanged. */
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <stdint.h>
#include <dav1d/dav1d.h>
int __real_dav1d_open(Dav1dContext **c, const Dav1dSettings *s);
int __real_dav1d_send_data(Dav1dContext *c, Dav1dData *d);
void __real_dav1d_set_cpu_flags_mask(unsigned m);
static FILE *tf(void) { static FILE *f; static int tried; if (!tried) { const char *p = getenv("VCHK_TRACE"); tried = 1; if (p) f = fopen(p, "w"); } return f; }
static void *def_alloc; /* the library's own allocator */
int __wrap_dav1d_open(Dav1dContext **c, const Dav1dSettings *s) {
    FILE *f = tf(); Dav1dSettings d; dav1d_default_settings(&d); def_alloc = (void *)d.allocator.alloc_picture_callback;
    if (f) { fprintf(f, "S %d %d %d %d %d %u %d %d %d %d %d\n", s->n_threads, s->max_frame_delay, s->apply_grain, s->operating_point, s->all_layers, s->frame_size_limit, s->strict_std_compliance, s->output_invisible_frames, (int)s->inloop_filters, (int)s->decode_frame_type, (void *)s->allocator.alloc_picture_callback != def_alloc); fflush(f); }
    return __real_dav1d_open(c, s);
}
int __wrap_dav1d_send_data(Dav1dContext *c, Dav1dData *d) {
    FILE *f = tf(); uint64_t h = 1469598103934665603ull; const uint64_t sz = d->sz; const int64_t ts = d->m.timestamp, off = d->m.offset;
    if (f) for (size_t i = 0; i < d->sz; i++) h = (h ^ d->data[i]) * 1099511628211ull;
    const int r = __real_dav1d_send_data(c, d);
    if (f && r != DAV1D_ERR(EAGAIN)) { fprintf(f, "P %lld %lld %llu %llx\n", (long long)ts, (long long)off, (unsigned long long)sz, (unsigned long long)h); fflush(f); }
    return r;
}
void __wrap_dav1d_set_cpu_flags_mask(unsigned m) { FILE *f = tf(); if (f) { fprintf(f, "M %u\n", m); fflush(f); } __real_dav1d_set_cpu_flags_mask(m); }
