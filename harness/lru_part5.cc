#define NDEBUG  // as in release builds
#include "lru_world.h"
void lruPart5(vh::Run& r, vh::Rng& g, int nops) {
  World<std::string, Cache2<std::string>> w(r, g);
  w.run(nops);
}
