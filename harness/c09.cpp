#include "crash.hpp"
using namespace pbt;
static void run(Ctx &c) {
    GenOpts g;
    g.rlc = 2;
    g.bigPages = c.chance(1, 8);
    g.maxBlocks = 7;
    Cfg cfg = genCfg(c, g);
    crashHistory(c, cfg, 40, 1);
}
Check pbt::theCheck = {"C09", "histories with record-level consistency and up to five crashes between any two storage operations; every insert acknowledged before the crash must be recovered; non-trivial: a recovery returned records, compared with the history", run, 24000, 300000};
