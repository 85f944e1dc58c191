#include "lru_world.h"
void lruPart4(vh::Run& r, vh::Rng& g, int nops) {
  World<std::string_view, Cache2<std::string_view>> w(r, g);
  w.run(nops);
}
