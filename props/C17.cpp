// C17: the memory pool, the large-page allocator and schedules kept in the pool.
#include "sweeps.h"
#include "MemoryPool.hpp"
const char *prop_id = "C17";
const char *prop_rule = "One run = one of: a history of up to 60 pool operations (allocate at either end with any size and alignment, mark, release by moving head or tail to a mark, release all, membership queries, reinitialise, with mapping and allocation faults) against a reference ring; a level schedule built in the pool next to one built in ordinary memory, swept and released with other pool blocks around it; a matrix whose arrays lie in the pool, symmetrised, copied, transposed, split, rebased and released; or a sequence of large-page allocations and releases with failing mmap and failing malloc.";
void prop_setup() { gen::huge_ok = false; } // the pool has a fixed size
namespace { using namespace gen;
typedef SpMP::MemoryPool Pool;
struct Blk { unsigned char *p; size_t n; unsigned char pat; double lo, hi; };
size_t skip(const Blk &b, size_t i) { return b.n > 100000 && i == 300 ? b.n - 300 : i; } // only the ends of a large block
void paint(const Blk &b) { for (size_t i = 0; i < b.n; i = skip(b, i + 1)) b.p[i] = (unsigned char)(b.pat + i); }
void verify(const Blk &b, const char *when) { for (size_t i = 0; i < b.n; i = skip(b, i + 1)) if (b.p[i] != (unsigned char)(b.pat + i)) fail("overlap", "%s: byte %zu of a live %zu-byte block was changed", when, i, b.n); }

void pool_history(Pool *P, bool singleton) {
  // the state of a pool as its client knows it: live blocks in ring order, keyed along the ring
  size_t cap = 0; char *base = nullptr; std::vector<Blk> live; double hk = 0, tk = 0; struct Mark { size_t off; double key; }; std::vector<Mark> marks; int serial = 0;
  bool big = chance(1, 12); if (big) { sim::big_mappings(true); probe("pool-beyond-2GB"); }
  auto part = [&](size_t n) { return n < (1u << 30) ? (size_t)pick((uint32_t)n) : (size_t)((double)n / 65536 * pick(65536)) / 8 * 8 + pick(8); };
  auto init = [&](bool fresh) {
    cap = chance(1, 8) ? 4 + pick(40) : chance(1, 3) ? 64 * (size_t)range(1, 40) : (size_t)range(40, 3000);
    if (big) cap = ((size_t)1 << (int[]){31, 32, 33, 34}[pick(4)]) + (chance(1, 2) ? pick(5000) : (size_t)pick(1 << 30)) - (chance(1, 2) ? 4096 : 0);
    bool nomap = !big && chance(1, 2), oom = nomap && chance(1, 8); sim::mmap_mode(nomap); int f0 = sim::alloc_failures(); if (oom) sim::alloc_fail_after(fresh && !singleton ? 2 : 1);
    note("pool %zu%s%s", cap, nomap ? " nomap" : "", oom ? " oom" : "");
    live.clear(); marks.clear(); hk = tk = 0; base = nullptr;
    int code = 0; bool ok = sim::guarded([&] { if (fresh && !singleton) P = wl::pool_new(cap); else P->initialize(cap); }, &code);
    bool failed = sim::alloc_failures() > f0; sim::alloc_fail_after(0);
    if (!ok) { if (!failed) fail("false-failure", "initialising a pool of %zu bytes ends the process although memory is available", cap); probe("pool-init-exit"); return false; }
    if (failed) { probe("pool-without-memory"); cap = 0; void *q = P->allocate(8); if (q) fail("unusable-address", "a pool that could not get memory hands out %p", q); q = P->allocateFront(8); if (q) fail("unusable-address", "a pool that could not get memory hands out %p from its front", q); if (P->contains(&cap) || P->contains(nullptr)) fail("contains", "a pool without memory contains something"); return true; }
    if (cap > 2) { base = (char *)P->allocate(1, 1); if (!base || (!big && !sim::readable(base, cap))) fail("out-of-range", "a pool of %zu bytes does not own %zu bytes", cap, cap); if ((uintptr_t)base & 4095) fail("misaligned", "pool memory is not page aligned"); P->deallocateAll(); }
    return true;
  };
  if (!init(true)) return;
  int nops = range(1, 60);
  for (int op = 0; op < nops; ++op) {
    int k = (int)pick(16);
    if (k < 9) {
      bool front = k >= 6; size_t al = (size_t)1 << (int[]){6, 6, 6, 4, 3, 7, 8, 12, 0}[pick(9)], n; 
      switch (pick(6)) { case 0: n = 1 + pick(8); break; case 1: n = 1 + part(cap + 2); break; case 2: n = 64 * (1 + pick(6)); break; case 3: n = cap / 2 + 1 + pick(3); break; case 4: n = chance(1, 4) ? (size_t)-1 - pick(300) : chance(1, 2) ? ((size_t)1 << 40) + pick(100) : cap + pick(100); break; default: n = 1 + pick(200); }
      size_t h0 = P->getHead(), t0 = P->getTail(); unsigned char *p = (unsigned char *)(front ? P->allocateFront(n, (int)al) : P->allocate(n, (int)al));
      if (!p) {
        probe("exhausted");
        if (P->getHead() != h0 || P->getTail() != t0) fail("exhausted-moved", "a refused allocation moved the ends of the pool");
        if (cap && n < cap) { // the gap at the requested end must really be too small, allowing for alignment and the reserved byte
          size_t gap = t0 >= h0 ? front ? std::max(h0, cap - t0) : std::max(cap - t0, h0) : h0 - t0;
          if (gap > n + 2 * al + 1) fail("false-exhaustion", "%zu bytes (alignment %zu) refused at the %s of a %zu-byte pool with head %zu, tail %zu", n, al, front ? "front" : "back", cap, h0, t0);
        }
        continue;
      }
      if (!base || (char *)p < base || n > cap || (size_t)((char *)p - base) > cap - n) fail("out-of-range", "%zu bytes from a %zu-byte pool start at offset %ld", n, cap, base ? (long)((char *)p - base) : -1);
      if ((uintptr_t)p & (al - 1)) fail("misaligned", "block at offset %ld is not aligned to %zu", (long)((char *)p - base), al);
      for (auto &b : live) if (p < b.p + b.n && b.p < p + n) fail("overlap", "a new %zu-byte block at offset %ld overlaps a live one at %ld", n, (long)((char *)p - base), (long)((char *)b.p - base));
      Blk b{p, n, (unsigned char)(17 * ++serial), 0, 0}; paint(b);
      if (front) { b.hi = hk; b.lo = hk -= 1; live.insert(live.begin(), b); probe("front-block"); } else { b.lo = tk; b.hi = tk += 1; live.push_back(b); }
      if (!P->contains(p) || !P->contains(p + n - 1)) fail("contains", "a live block is not recognised as pool memory");
      if (P->getTail() < P->getHead()) probe("wrapped");
    } else if (k < 11) { if (!cap) continue; bool t = pick(2); marks.push_back({t ? P->getTail() : P->getHead(), t ? tk : hk}); }
    else if (k < 14) { // release by a mark
      if (marks.empty()) continue; Mark m = marks[pick((uint32_t)marks.size())]; bool t = pick(2);
      // a mark left by releasing everything behind or in front of it may no longer lie in the ring
      if (t) { P->setTail(m.off); tk = m.key; } else { P->setHead(m.off); hk = m.key; }
      std::vector<Blk> keep; for (auto &b : live) { verify(b, "release"); if (b.lo >= hk && b.hi <= tk) keep.push_back(b); } live.swap(keep);
      std::vector<Mark> mk; for (auto &x : marks) if (x.key >= hk && x.key <= tk) mk.push_back(x); marks.swap(mk);
      if (P->getHead() != P->getTail() && live.empty() && hk == tk) { /* nothing live: both ends meet */ fail("release", "everything is released but head %zu and tail %zu differ", P->getHead(), P->getTail()); }
      probe(t ? "tail-release" : "head-release");
    } else if (k == 14) {
      int x; if (P->contains(nullptr) || P->contains(&x)) fail("contains", "foreign memory is recognised as pool memory");
      if (base && (P->contains(base - 1) || P->contains(base + cap))) fail("contains", "memory next to the pool is recognised as pool memory");
      for (auto &b : live) if (!P->contains(b.p + part(b.n))) fail("contains", "a live block is not recognised as pool memory");
    } else if (chance(1, 3)) { for (auto &b : live) verify(b, "release all"); if (chance(1, 2)) { P->deallocateAll(); live.clear(); marks.clear(); hk = tk = 0; if (P->getHead() != P->getTail()) fail("release", "head and tail differ after releasing everything"); }
      else { P->finalize(); if (P->contains(base)) fail("contains", "a finalised pool still contains its former memory"); if (void *q = P->allocate(8)) fail("unusable-address", "a finalised pool hands out %p", q); if (!init(false)) return; probe("reinitialised"); } }
    for (auto &b : live) if (b.n <= 256 || op == nops - 1) verify(b, "later operation");
  }
  if (singleton) P->finalize(); else wl::pool_del(P);
}

void pool_schedule() {
  Pool *P = Pool::getSingleton(); sim::mmap_mode(chance(1, 2)); P->initialize((size_t)1 << 20);
  // push the ends of the ring to somewhere else first
  size_t skip = 64 * (size_t)pick(chance(1, 3) ? 14000 : 200); if (skip) { P->allocate(skip); if (skip > 380000 || chance(1, 2)) P->setHead(P->getTail()); }
  std::vector<Blk> mine; auto take = [&](int k) { for (int i = 0; i < k; ++i) { size_t n = 1 + pick(900); unsigned char *p = (unsigned char *)(pick(3) == 0 ? P->allocateFront(n) : P->allocate(n)); if (!p) continue; Blk b{p, n, (unsigned char)(31 * (mine.size() + 1)), 0, 0}; paint(b); mine.push_back(b); } };
  take((int)pick(3)); size_t mark = P->getTail(), head = P->getHead();
  sched::Opt o; o.maxn = 50; o.pool = true; sched::Case c = sched::make(o); take((int)pick(3));
  for (auto &b : mine) verify(b, "schedule construction");
  sched::check_structure(c);
  SpMP::LevelSchedule *s = c.s; int m = c.h.m, nt = s->ntasks;
  // same task graph as in ordinary memory
  SpMP::LevelSchedule *q = wl::ls_new(); q->useBarrier = c.barrier; q->transitiveReduction = c.red; q->fuseSpMV = c.fuse; q->aggregateForVectorization = c.agg; wl::construct(q, c.A, c.how2, c.uns);
  if (q->ntasks != nt || q->levIndices != s->levIndices || q->taskBoundaries != s->taskBoundaries || q->threadBoundaries != s->threadBoundaries || memcmp(q->threadContToOrigPerm, s->threadContToOrigPerm, (size_t)m * 4) || memcmp(q->origToThreadContPerm, s->origToThreadContPerm, (size_t)m * 4)) fail("pool-differs", "the schedule built in the pool is not the one built in ordinary memory");
  if (!c.barrier) for (int k = 0; k < nt; ++k) for (int d = 0; d < 2; ++d) { const short *a = d ? q->nparentsBackward : q->nparentsForward, *b = d ? s->nparentsBackward : s->nparentsForward; int **x = d ? q->parentsBackward : q->parentsForward, **y = d ? s->parentsBackward : s->parentsForward;
    if (a[k] != b[k]) fail("pool-differs", "task %d has %d parents in the pool, %d in ordinary memory", k, b[k], a[k]); std::vector<int> u(x[k], x[k] + a[k]), v(y[k], y[k] + b[k]); std::sort(u.begin(), u.end()); std::sort(v.begin(), v.end()); if (u != v) fail("pool-differs", "task %d has other parents in the pool", k); }
  // everything it keeps lies in the pool, in separate places
  std::vector<std::pair<const char *, size_t>> reg = {{(const char *)s->threadContToOrigPerm, (size_t)m * 4}, {(const char *)s->origToThreadContPerm, (size_t)m * 4}};
  if (!c.barrier) { reg.push_back({(const char *)s->nparentsForward, (size_t)nt * 2}); reg.push_back({(const char *)s->nparentsBackward, (size_t)nt * 2}); reg.push_back({(const char *)s->parentsForward, (size_t)nt * 8}); reg.push_back({(const char *)s->parentsBackward, (size_t)nt * 8}); reg.push_back({(const char *)s->taskFinished, (size_t)nt * 4}); for (int k = 0; k < nt; ++k) { if (s->nparentsForward[k]) reg.push_back({(const char *)s->parentsForward[k], (size_t)s->nparentsForward[k] * 4}); if (s->nparentsBackward[k]) reg.push_back({(const char *)s->parentsBackward[k], (size_t)s->nparentsBackward[k] * 4}); } }
  for (auto &b : mine) reg.push_back({(const char *)b.p, b.n});
  std::sort(reg.begin(), reg.end()); for (size_t i = 0; i < reg.size(); ++i) { if (!reg[i].second) continue; if (!P->contains(reg[i].first) || !P->contains(reg[i].first + reg[i].second - 1)) fail("contains", "part of a pool schedule lies outside the used part of the pool"); if (i + 1 < reg.size() && reg[i].first + reg[i].second > reg[i + 1].first) fail("overlap", "two parts of a pool schedule overlap"); }
  wl::ls_del(q); take((int)pick(3));
  if (!c.fuse || c.barrier) sched::run_sweeps(c); else sched::run_sweeps(c);
  for (auto &b : mine) verify(b, "sweeps");
  sched::check_structure(c); wl::ls_del(s); for (auto &b : mine) verify(b, "schedule release");
  wl::csr_del(c.A); (void)mark; (void)head; P->finalize(); probe("pool-schedule");
}

// a matrix whose arrays the client took from the pool
void pool_matrix() {
  Pool *P = Pool::getSingleton(); sim::set_threads(threads(8)); sim::mmap_mode(chance(1, 2)); P->initialize((size_t)1 << 19);
  std::vector<Blk> mine; auto take = [&](int k) { for (int i = 0; i < k; ++i) { size_t n = 1 + pick(900); unsigned char *p = (unsigned char *)(pick(3) == 0 ? P->allocateFront(n) : P->allocate(n)); if (!p) continue; Blk b{p, n, (unsigned char)(31 * (mine.size() + 1)), 0, 0}; paint(b); mine.push_back(b); } };
  take((int)pick(3)); bool halo = chance(1, 4); HCsr h = from_graph(maybe_relabel(graph(1, 40)), (int)pick(2), false, halo); int m = h.m; size_t nnz = (size_t)h.nnz();
  if (m && chance(1, 2)) { int i = (int)pick((uint32_t)m); auto &r = h.rows[i]; int k = (int)pick((uint32_t)h.epos[i]); if (r[k].first != i) { if (k < h.dpos[i]) --h.dpos[i]; r.erase(r.begin() + k); --h.epos[i]; --nnz; } }
  note("pool matrix %d nnz=%zu base=%d%s", m, nnz, h.base, halo ? " halo" : "");
  bool front = chance(1, 3), diags = chance(1, 2); auto get = [&](size_t n) { void *p = front ? P->allocateFront(n ? n : 1) : P->allocate(n ? n : 1); if (!p) fail("false-failure", "the pool refuses %zu bytes", n); return p; };
  SpMP::CSR *A = wl::csr_default(); A->m = m; A->n = h.n; A->rowptr = (int *)get((size_t)(m + 1) * 4); A->colidx = (int *)get(nnz * 4); A->values = (double *)get(nnz * 8); if (halo) A->extptr = (int *)get((size_t)m * 4); A->diagptr = (int *)get((size_t)m * 4); if (diags) { A->diag = (double *)get((size_t)m * 8); A->idiag = (double *)get((size_t)m * 8); }
  int q = h.base; A->rowptr[0] = q; for (int i = 0; i < m; ++i) { A->diagptr[i] = q + h.dpos[i]; if (halo) A->extptr[i] = q + h.epos[i]; if (diags) { A->diag[i] = h.rows[i][h.dpos[i]].second; A->idiag[i] = 1 / A->diag[i]; } for (auto &e : h.rows[i]) { A->colidx[q - h.base] = e.first + h.base; A->values[q - h.base] = e.second; ++q; } A->rowptr[i + 1] = q; }
  take((int)pick(3)); auto s0 = sim::alloc_serial(); int base = h.base;
  if (!A->useMemoryPool_()) fail("contains", "a matrix in the pool is not recognised");
  for (int ops = (int)pick(5); ops-- > 0;) {
    switch (pick(7)) {
    case 0: case 1: { int *rp = nullptr, *dp = nullptr, *ep = nullptr, *ci = nullptr; size_t t0 = P->getTail(), h0 = P->getHead(); bool ref = true; std::vector<std::set<int>> want((size_t)m); for (int i = 0; i < m; ++i) for (int k = 0; k < h.epos[i]; ++k) { want[i].insert(h.rows[i][k].first); want[h.rows[i][k].first].insert(i); } for (int i = 0; i < m; ++i) ref = ref && (int)want[i].size() == h.epos[i];
      bool sym = SpMP::getSymmetricNnzPattern(A, &rp, &dp, &ep, &ci); if (sym != ref) fail("wrong-verdict", "pattern of a pool matrix reported %ssymmetric", sym ? "" : "not "); if (P->getHead() != h0) fail("pool-moved", "symmetrising moved the head of the pool");
      if (sym) { if (rp) fail("unexpected-arrays", "row pointers returned for a symmetric pattern"); if (P->getTail() != t0) fail("pool-moved", "symmetrising a symmetric pattern keeps pool memory"); probe("pool-symmetric"); }
      else { if (!P->contains(rp) || !P->contains(rp + m)) fail("contains", "row pointers of the symmetric pattern are not in the used part of the pool"); for (int i = 0; i < m; ++i) { std::vector<int> g(ci + rp[i] - base, ci + rp[i + 1] - base), w; for (int c : want[i]) w.push_back(c + base); for (int k = h.epos[i]; k < (int)h.rows[i].size(); ++k) w.push_back(h.rows[i][k].first + base); if (g != w) fail("wrong-pattern", "row %d of the symmetric pattern of a pool matrix is wrong", i); if (dp[i] < rp[i] || dp[i] >= rp[i + 1] || ci[dp[i] - base] != i + base) fail("diagonal-marker", "diagonal marker of row %d is wrong", i); } wl::free_mm(dp); wl::free_mm(ep); wl::free_mm(ci); probe("pool-symmetrised"); if (chance(1, 2)) P->setTail(t0); } break; }
    case 2: { SpMP::CSR *B = wl::csr_copy(A); if (!A->equals(*B)) fail("wrong-copy", "a copy of a pool matrix differs"); if (B->useMemoryPool_()) fail("contains", "a copy of a pool matrix lies in the pool"); wl::csr_del(B); break; }
    case 3: if (!halo) { SpMP::CSR *B = A->transpose(), *C = B->transpose(); expect_rows("wrong-transpose", "twice transposed pool matrix", gen::read("twice transposed pool matrix", C).rows, h.rows); wl::csr_del(B); wl::csr_del(C); } break;
    case 4: if (pick(2)) A->make1BasedIndexing(); else A->make0BasedIndexing(); base = A->getBase(); break;
    case 5: if (diags) { A->computeInverseDiag(); SpMP::CSR *L = wl::csr_default(), *U = wl::csr_default(); SpMP::splitLU(*A, L, U); if ((size_t)(L->getNnz() + U->getNnz() + m) != nnz) fail("wrong-split", "parts of a pool matrix lose entries"); wl::csr_del(L); wl::csr_del(U); } break;
    default: { take(1); break; } }
    for (auto &b : mine) verify(b, "operation on a pool matrix");
    Got g = gen::read("pool matrix", A); if (g.base != base) fail("source-changed", "index base of a pool matrix is %d", g.base); expect_rows("source-changed", "pool matrix", g.rows, h.rows, true);
  }
  std::string snap((const char *)A->rowptr, (size_t)(m + 1) * 4); const char *rp = (const char *)A->rowptr; int end = (int)pick(3);
  if (end) { A->dealloc(); if (A->rowptr || A->colidx || A->values || A->diag || A->idiag || A->diagptr || A->extptr) fail("not-released", "a released pool matrix keeps an array"); }
  if (end == 2) { A->n = 2; A->alloc(2, 2, pick(2)); if (A->useMemoryPool_()) fail("contains", "a matrix allocated after its pool arrays were given up lies in the pool"); A->rowptr[0] = 0; A->rowptr[1] = 1; A->rowptr[2] = 2; A->colidx[0] = 0; A->colidx[1] = 1; A->values[0] = A->values[1] = 2; probe("pool-matrix-reused"); }
  wl::csr_del(A); if (memcmp(rp, snap.data(), snap.size())) fail("overlap", "releasing a pool matrix changed pool memory"); for (auto &b : mine) verify(b, "release of a pool matrix");
  int k; std::string l = sim::leaks_since(s0, &k); if (k) fail("not-released", "%d blocks are still held after a pool matrix is gone: %s", k, l.c_str());
  P->finalize(); probe("pool-matrix");
}

void huge() {
  std::vector<Blk> live; int nops = range(1, 8); auto s0 = sim::alloc_serial();
  for (int op = 0; op < nops; ++op) {
    if (live.empty() || pick(3)) {
      size_t n = (size_t[]){0, 1, 4096, 2097151, 2097152, 2097153, 100, 1000000}[pick(8)]; bool silly = chance(1, 8); if (silly) n = (size_t)-1 - pick(5000000);
      bool nomap = chance(1, 2), oom = chance(1, 4); sim::mmap_mode(nomap); int f0 = sim::alloc_failures(); if (oom && nomap) sim::alloc_fail_after(1);
      unsigned char *p = (unsigned char *)wl::huge_alloc(n); bool failed = sim::alloc_failures() > f0; sim::alloc_fail_after(0); note("huge %zu%s%s", n, nomap ? " nomap" : "", oom ? " oom" : "");
      if (!p) { if (!failed && !silly) fail("false-failure", "allocating %zu bytes fails although memory is available", n); probe("huge-failure-reported"); continue; }
      if (silly) fail("unusable-address", "allocating %zu bytes yields %p", n, (void *)p);
      if (n && !sim::readable(p, n)) fail("unusable-address", "%zu bytes at %p are not usable", n, (void *)p);
      if ((uintptr_t)p & 4095) fail("misaligned", "large-page block is not page aligned");
      for (auto &b : live) if (p < b.p + b.n && b.p < p + n) fail("overlap", "two large blocks overlap");
      Blk b{p, n, (unsigned char)(37 * op + 5), 0, 0}; if (n) { p[0] = b.pat; p[n - 1] = (unsigned char)~b.pat; } live.push_back(b); probe(nomap ? "huge-fallback" : "huge-mapped");
    } else { size_t i = pick((uint32_t)live.size()); Blk b = live[i]; if (b.n && (b.n > 1 ? b.p[0] != b.pat || b.p[b.n - 1] != (unsigned char)~b.pat : b.p[0] != (unsigned char)~b.pat)) fail("overlap", "contents of a large block changed"); wl::huge_free(b.p); live.erase(live.begin() + (long)i); probe("huge-free"); }
  }
  for (auto &b : live) wl::huge_free(b.p);
  wl::huge_free(nullptr); int k; std::string l = sim::leaks_since(s0, &k); if (k) fail("not-released", "%d large blocks were released but are still held: %s", k, l.c_str());
}
}
void prop_case() {
  int form = (int)pick(12);
  if (form < 6) { bool single = chance(1, 3); auto s0 = sim::alloc_serial(); pool_history(single ? Pool::getSingleton() : nullptr, single); int k; std::string l = sim::leaks_since(s0, &k); if (k) fail("not-released", "after the pool is gone, %d of its blocks are still held: %s", k, l.c_str()); }
  else if (form < 9) pool_schedule();
  else if (form < 11) pool_matrix();
  else huge();
  sim::coverage((uint64_t)form * 1000003 + sim::now() / 16);
}
