#include "lru_world.h"
void lruPart0(vh::Run& r, vh::Rng& g, int nops) {
  World<int, Cache<int>> w(r, g);
  w.run(nops);
}
