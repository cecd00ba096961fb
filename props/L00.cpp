// The simulator's memory model itself: sequential consistency, or x86-TSO in runs with store buffers.
#include "gen.h"
const char *prop_id = "L00";
const char *prop_rule = "One run = one litmus test under one seeded schedule.";
void prop_setup() {}
void prop_case() {
  int kind = (int)pick(10); sim::set_threads(kind == 5 ? 4 : 2 + (int)pick(2));
  int *x = gen::sut_ints(1, 0), *y = gen::sut_ints(1, 0), *r = gen::sut_ints(68, 0);
  bool tso = sim::store_buffers(); note("litmus %d %s", kind, tso ? "TSO" : "SC");
  wl::litmus(kind, x, y, r);
  auto seen = [&](const char *n) { probe(n); };
  switch (kind) {
  case 0: case 9: if (!r[0] && !r[1]) { if (!tso) fail("impossible", "store buffering outcome without store buffers"); seen(kind ? "SB-relaxed-plain" : "SB-relaxed"); } break;
  case 1: case 2: if (!r[0] && !r[1]) fail("impossible", "store buffering outcome across fences"); break;
  case 3: if (r[0] && !r[1]) fail("impossible", "message passing reordered"); if (r[0]) seen("MP-delivered"); break;
  case 4: if (r[0] && r[1]) fail("impossible", "load buffering outcome"); break;
  case 5: if (r[0] && !r[1] && r[2] && !r[3]) fail("impossible", "independent reads saw the writes in different orders"); break;
  case 6: if (r[0] != 1 || r[1] != 2 || r[2] != 1) fail("impossible", "own store not read back"); break;
  case 7: if (*x == 1 && *y == 1) fail("impossible", "2+2W outcome"); break;
  case 8: if (r[0] && !r[1]) fail("impossible", "block copy visible before an older store"); if (r[2] && !r[3]) fail("impossible", "flag visible before the block copy"); break;
  }
  if ((kind == 3 || kind == 8) && *x + *y != 2) fail("impossible", "a store was lost");
}
