#include "crash.hpp"
using namespace pbt;
static void run(Ctx &c) {
    GenOpts g;
    g.bigPages = c.chance(1, 8);
    g.maxBlocks = 6;
    Cfg cfg = genCfg(c, g);
    crashHistory(c, cfg, 30, 0);
}
Check pbt::theCheck = {"C08", "histories with up to five crashes between any two storage operations (also during recovery), the storage rebuilt from the prefix of the operation log; non-trivial: a recovery returned records, compared with the history", run, 24000, 300000};
