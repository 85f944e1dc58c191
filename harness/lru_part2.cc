#include "lru_world.h"
void lruPart2(vh::Run& r, vh::Rng& g, int nops) {
  World<std::string_view, Cache<std::string_view>> w(r, g);
  w.run(nops);
}
