#include "qkit.hpp"
using namespace pbt;
// C16: table scan, projection and selection compute relational results.
static void run(Ctx &c) {
    QOpts o;
    o.agg = c.chance(1, 8);
    o.join = c.chance(1, 10);
    QTree q(c, o);
    Node *top = q.gen(1 + (int)c.draw(4), c.chance(1, 2));
    c.log("%s -> %zu rows", top->text.c_str(), top->out.rows.size());
    q.init(top);
    q.run(top);
    size_t in = 0;
    bool work = false;
    for (auto &n : q.nodes) {
        in = std::max(in, n->out.rows.size());
        if (n->kind == N_SEL) { c.tag("selection"); work = true; if (!n->out.rows.empty() && n->out.rows.size() < n->in[0]->out.rows.size()) c.tag("selective selection"); }
        if (n->kind == N_PROJ) { c.tag("projection"); work = true; }
        if (n->kind == N_SCAN) c.tag("table scan");
    }
    c.tagIf(top->out.rows.empty(), "empty result");
    q.release(top, c.chance(1, 2));
    q.releaseRest();
    if (work && in >= 2) c.nontrivial();
}
Check pbt::theCheck = {"C16", "a composition with at least one selection or projection over an input of at least two rows", run};
