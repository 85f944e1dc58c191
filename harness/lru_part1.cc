#define NDEBUG  // as in release builds
#include "lru_world.h"
void lruPart1(vh::Run& r, vh::Rng& g, int nops) {
  World<std::string, Cache<std::string>> w(r, g);
  w.run(nops);
}
