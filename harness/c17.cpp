#include "qkit.hpp"
using namespace pbt;
// C17: aggregation yields one exact row per group.
static void run(Ctx &c) {
    QOpts o;
    o.join = c.chance(1, 6);
    if (c.chance(1, 15)) o.maxRows = 400;
    o.huge = c.chance(1, 800);
    if (o.huge) o.db = o.join = false;
    bool huge = o.huge;
    QTree q(c, o);
    Node *in = huge ? q.feed(c.chance(1, 2)) : q.gen((int)c.draw(3), c.chance(1, 2), false);
    Node *top = q.aggregate(in, in->out.keyed && c.chance(1, 3), true);
    c.log("%s -> %zu rows from %zu", top->text.c_str(), top->out.rows.size(), in->out.rows.size());
    q.init(top);
    q.run(top);
    size_t n = in->out.rows.size(), g = top->out.rows.size();
    c.tagIf(n == 0, "empty input");
    c.tagIf(g == 1, "one group");
    c.tagIf(g > 1 && g < n, "groups of several rows");
    c.tagIf(!top->out.avg.empty(), "average");
    q.release(top, c.chance(1, 2));
    q.releaseRest();
    if (n >= 2) c.nontrivial();
}
Check pbt::theCheck = {"C17", "an aggregation over an input of at least two rows", run};
