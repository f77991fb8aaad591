#include "qkit.hpp"
using namespace pbt;
// C18: key equijoin returns every matching pair exactly once.
static void run(Ctx &c) {
    QOpts o;
    o.agg = c.chance(1, 3);
    QTree q(c, o);
    Node *a = q.gen((int)c.draw(3), true, false), *b = q.gen((int)c.draw(3), true, false);
    Node *j = q.join(a, b), *top = j;
    // what pulls from the join may ask again after its end
    if (c.chance(1, 6)) top = q.aggregate(top, c.chance(1, 2), true);
    else if (c.chance(1, 8)) top = q.selection(top);
    else if (c.chance(1, 8)) top = q.projection(top, true);
    c.log("%s -> %zu rows", top->text.c_str(), top->out.rows.size());
    q.init(top);
    q.checkSchemas(top);
    q.run(top);
    size_t x = a->out.rows.size(), y = b->out.rows.size(), m = j->out.rows.size();
    c.tagIf(x == 0 || y == 0, "an empty input");
    c.tagIf(m == 0, "no common key");
    c.tagIf(m && m < std::min(x, y), "some keys match");
    c.tagIf(top != j, "operator over the join");
    q.release(top, false);
    q.releaseRest();
    if (x >= 2 && y >= 2) c.nontrivial();
}
Check pbt::theCheck = {"C18", "a join of two inputs of at least two rows each", run};
