// C19: state, output and input bounds hold at the steps they are given for.
#include "../lin/harness.hpp"
using namespace lin;

static void body(mc::Ctx &t)
{
    bool dy;
    Dims d = size(t, dy, false);
    const M &D = decode(d, dy, t);
    Bench b(d, dy);
    Conf cf = Conf::demo(d);
    cf.apply(*b.c);
    int n = 1 + t.choose(t.thorough ? 3 : 2, "calls");
    for (int i = 0; i < n; i++)
    {
        Item it = std::vector<Item>{SB, IB, OB, CONSTR}[t.choose(4, "setter")];
        Op o = form(t, d, it, i, n == 1);
        o.side = t.choose(n == 1 ? SIDES : 2, "sides");
        if (i && i + 1 == n && o.side == 1)
            o.side = 4; // remove what was set
        t.check(apply(b.c.get(), cf, o), o.str() + "-returned");
        if (t.thorough && i + 1 < n && t.flag("step"))
            b.step(meas(d, 1), lastu(d, 1));
    }
    // the measured state is inside, or makes a bound of step 0 fail
    V x0 = meas(d, t.choose(2, "state")), u0 = lastu(d, 1);
    int out = t.choose(3, "outside");
    if (out)
        x0[t.choose(d.nx, "component")] = out == 1 ? 9.5 : -9.25;
    if (t.flag("last-input-far"))
        u0.setConstant(40);
    b.step(x0, u0);
    t.check(b.called, "no-problem");
    Bench tw(d, dy);
    cf.unbounded().apply(*tw.c);
    tw.step(x0, u0);
    Reduction R = reduce(t, cf, x0, tw.call, D, "dynamics");
    Halves got = halves(b.call, R), want = cf.halves(x0);
    sameHalves(t, got, want, "bound");
    t.observe(got.h.size() * 2 + got.empty);
    for (auto &h : got.h)
        t.observeM(h.a), t.observeD(h.b);
}

int main(int argc, char **argv)
{
    mc::Spec s;
    s.property = "C19";
    s.body = body;
    s.rule = "one execution: a sequence of bound setter calls, then a step; the rows of the solver as half-spaces of the free moves are compared with the ones of the specified bounds on the trajectories of the model";
    s.bound = "every slice and index of every setter once, sequences of two (three) calls over an alphabet; lower, upper, both, equal, no, positive, negative, zero, narrow, wide and alternating bounds; measured states inside and outside";
    s.assumptions = {STANDIN};
    return lin::main(argc, argv, s);
}
