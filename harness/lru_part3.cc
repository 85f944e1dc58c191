#define NDEBUG  // as in release builds
#include "lru_world.h"
void lruPart3(vh::Run& r, vh::Rng& g, int nops) {
  World<int, Cache2<int>> w(r, g);
  w.run(nops);
}
