// C20: writer bookkeeping
#include "scenario.hpp"
using namespace drv;
static void history(Rng &r)
{
    Scenario s;
    s.deep = r.coin();
    begin(s, r);
    noteModel(s.m);
    checkBookkeeping(s, "at the start");
    int n = 1 + s.steps(r, 24);
    for (int i = 0; i < n; i++)
        step(s, r);
    s.w->Close();
    finishModel(s);
    checkHierarchy(s, parseFile(s.out.str()));
    s.w.reset();
}
std::vector<Case> drv::cases{{"history", history, 1}};
