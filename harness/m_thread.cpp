// Concurrent reads and traces: threads (C25).
#include "geom.hpp"
#include <pthread.h>
#include <sched.h>
#include <string.h>

namespace {
struct Job {
  bool reading = false;
  Img im;
  at_fitting_opts_type *opts = nullptr;
  Encoded enc;
  char path[700];
  int rounds = 1;
  unsigned spin = 0;
  unsigned yields = 0;
  bool poll = false;
  uint64_t digest = 0;
  unsigned lists = 0;
  int w = 0, h = 0;
};
pthread_barrier_t *g_barrier;

uint64_t mixm(uint64_t h, uint64_t v) { return hash_bytes(&v, sizeof v, h); }
void msgs(const char *m, at_msg_type t, void *d) { uint64_t *h = (uint64_t *)d; *h = hash_bytes(m, strlen(m), *h + (uint64_t)t); }
struct Y { unsigned every, n; };
bool yielding(void *d) { Y *y = (Y *)d; if (y->every && ++y->n % y->every == 0) sched_yield(); return false; }
void yielding_progress(float, void *d) { yielding(d); }

uint64_t one(Job &j) {
  uint64_t h = 1, mh = 7;
  at_bitmap *b;
  if (j.reading) {
    at_bitmap_reader *rd = reader(j.enc.suffix);
    at_input_opts_type *o = at_input_opts_new();
    b = at_bitmap_read(rd, j.path, o, msgs, &mh);
    at_input_opts_free(o);
  } else b = to_bitmap(j.im);
  if (b) {
    j.w = b->width; j.h = b->height;
    at_bitmap *k = at_bitmap_copy(b);
    if (k->width && k->height && (size_t)k->width * k->height < 1000000) h = hash_bytes(k->bitmap, (size_t)k->width * k->height * k->np, mixm(h, (uint64_t)k->width << 32 | k->height));
    at_bitmap_free(k);
  }
  if (b && b->width && b->height && (size_t)b->width * b->height <= 2500) {
    at_fitting_opts_type *o = at_fitting_opts_copy(j.opts);
    Y y{j.yields, 0}, z{j.yields, 0};
    at_splines_type *s = at_splines_new_full(b, o, msgs, &mh, j.poll ? yielding_progress : nullptr, &y, j.poll ? yielding : nullptr, &z);
    j.lists = s ? s->length : 0;
    h = mixm(h, hash_splines(s));
    h = hash_bytes(b->bitmap, (size_t)b->width * b->height * b->np, h);
    if (s) at_splines_free(s);
    at_fitting_opts_free(o);
  }
  if (b) at_bitmap_free(b);
  return mixm(h, mh);
}
void *run(void *p) {
  Job &j = *(Job *)p;
  if (g_barrier) pthread_barrier_wait(g_barrier);
  for (volatile unsigned i = 0; i < j.spin; i++) {}
  uint64_t d = 0;
  for (int k = 0; k < j.rounds; k++) d = mixm(d, one(j));
  j.digest = d;
  return nullptr;
}
}

MODE(threads) {
  Rng &r = c.rng;
  int n = r.range(2, 8);
  std::vector<Job> jobs((size_t)n);
  int theme = (int)r.u(4);        // all centerline, all outline, same format, anything
  int fmt = (int)r.u((uint32_t)NENC);
  bool reduce = r.p(0.15);        // slow
  for (int i = 0; i < n; i++) {
    Job &j = jobs[(size_t)i];
    if (r.p(theme == 2 ? 0.9 : 0.25)) {
      int f = theme == 2 ? fmt : (int)r.u((uint32_t)NENC);
      j.enc = gen_encoded(r, f, 20);
      if (strcmp(j.enc.suffix, "gf")) {
        j.reading = true;
        if (r.p(0.2)) mutate(r, j.enc.data, j.enc.body);
        char nm[32];
        snprintf(nm, sizeof nm, "in%d.img", i);
        snprintf(j.path, sizeof j.path, "%s", scratch_path(nm));
        write_file(j.path, j.enc.data.data(), j.enc.data.size());
      }
    }
    GenOpt g;
    g.maxdim = 24;
    j.im = r.p(0.5) ? gen_image(r, g) : gen_strokes(r, g, r.p(0.5), RGB{255, 255, 255});
    j.opts = gen_opts(r, j.im);
    if (j.opts->background_color) j.opts->background_color->g = j.opts->background_color->b = j.opts->background_color->r;
    if (theme == 0) j.opts->centerline = true;
    if (theme == 1) j.opts->centerline = false;
    if (!reduce) j.opts->color_count = 0;
    j.rounds = r.range(1, 3);
    j.spin = r.p(0.5) ? 0 : r.u(20000);
    j.yields = r.p(0.3) ? 0 : (unsigned)r.range(10, 300);
    j.poll = r.p(0.5);
  }
  // alone, one after the other, then together
  std::vector<uint64_t> alone;
  bool first_alone = r.p(0.5);
  if (first_alone) for (auto &j : jobs) { run(&j); alone.push_back(j.digest); }
  pthread_barrier_t bar;
  pthread_barrier_init(&bar, nullptr, (unsigned)n);
  g_barrier = &bar;
  std::vector<pthread_t> t((size_t)n);
  for (int i = 0; i < n; i++) if (pthread_create(&t[(size_t)i], nullptr, run, &jobs[(size_t)i])) harness_error("pthread_create failed");
  for (int i = 0; i < n; i++) pthread_join(t[(size_t)i], nullptr);
  g_barrier = nullptr;
  pthread_barrier_destroy(&bar);
  std::vector<uint64_t> together;
  for (auto &j : jobs) together.push_back(j.digest);
  if (!first_alone) for (auto &j : jobs) { run(&j); alone.push_back(j.digest); }
  int solid = 0;
  for (int i = 0; i < n; i++) {
    Job &j = jobs[(size_t)i];
    if (alone[(size_t)i] != together[(size_t)i]) report("differs-when-concurrent", "thread %d of %d (%s %dx%d%s) obtained another result than alone", i, n, j.reading ? j.enc.suffix : "trace", j.w, j.h, j.opts->centerline ? " centerline" : "");
    if (j.lists) solid++;
    use_hash(alone[(size_t)i]);
  }
  count("threads", n);
  count("results_compared", n);
  count("threads_with_splines", solid);
  c.nontrivial = solid > 1;
  sample("%d threads: first %s %dx%d%s -> %u lists, %d rounds", n, jobs[0].reading ? jobs[0].enc.suffix : "trace", jobs[0].w, jobs[0].h, jobs[0].opts->centerline ? " centerline" : "", jobs[0].lists, jobs[0].rounds);
  for (auto &j : jobs) at_fitting_opts_free(j.opts);
}
