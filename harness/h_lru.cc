// C20-C25: see lru_world.h. One translation unit per type of cache, to compile
// them in parallel; this one defines the virtual clock.
#include "clock.h"
#include "common.h"
void lruPart0(vh::Run&, vh::Rng&, int);
void lruPart1(vh::Run&, vh::Rng&, int);
void lruPart2(vh::Run&, vh::Rng&, int);
void lruPart3(vh::Run&, vh::Rng&, int);
void lruPart4(vh::Run&, vh::Rng&, int);
void lruPart5(vh::Run&, vh::Rng&, int);
void lruPart6(vh::Run&, vh::Rng&, int);

int main(int argc, char** argv) {
  return vh::runMain(argc, argv, [] {}, [](vh::Run& r) {
    static void (*const part[])(vh::Run&, vh::Rng&, int) = {lruPart0, lruPart1, lruPart2, lruPart3, lruPart4, lruPart5};
    vh::Rng g = r.caseRng();
    int nops = r.thorough() ? g.range(10, 600) : g.range(10, 220);
    if (r.cur % 13 == 12) lruPart6(r, g, nops);
    else part[r.cur % 6](r, g, nops);
  });
}
