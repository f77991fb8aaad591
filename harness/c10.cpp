#include "crash.hpp"
using namespace pbt;
static void run(Ctx &c) {
    GenOpts g;
    g.var = 2;
    g.bigPages = c.chance(1, 8);
    g.maxBlocks = 6;
    Cfg cfg = genCfg(c, g);
    if (c.chance(1, 2)) cfg.numVar = cfg.eraseSize * (uint32_t)c.range(2, 4);
    cfg.settle();
    crashHistory(c, cfg, 75, 2);
}
Check pbt::theCheck = {"C10", "histories with variable-length values and up to five crashes between any two storage operations; non-trivial: values of recovered records were read and compared", run, 20000, 250000};
