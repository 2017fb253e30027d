// C21: the scalar constraint binds the state and the command of the same step.
#include "../lin/harness.hpp"
using namespace lin;

static void body(mc::Ctx &t)
{
    bool dy;
    Dims d = size(t, dy);
    const M &D = decode(d, dy, t);
    Bench b(d, dy);
    Conf cf = Conf::demo(d);
    cf.apply(*b.c);
    int n = 1 + t.choose(3, "calls");
    for (int i = 0; i < n; i++)
    {
        Op o = form(t, d, SCALAR, i + (n == 1 ? t.choose(3, "multipliers") : 0), n == 1 || t.thorough);
        o.side = n == 1 ? t.choose(SIDES, "sides") : t.choose(2, "sides") * (1 + i);
        if (n == 3 && !t.thorough && o.form == SLICE && i == 1)
            throw mc::Skip();
        t.check(apply(b.c.get(), cf, o), o.str() + "-returned");
        if (n == 2 && i == 0 && t.flag("step"))
            b.step(meas(d, 2), lastu(d, 1));
        if (n == 2 && i == 0 && t.flag("rebuild")) // anything else leaves it in force
            apply(b.c.get(), cf, {WEIGHTS, MATRIX, 3});
    }
    V x0 = meas(d, t.choose(2, "state")), u0 = lastu(d, 1);
    if (t.flag("outside"))
        x0[0] = 30;
    b.step(x0, u0);
    t.check(b.called, "no-problem");
    Bench tw(d, dy);
    cf.unbounded().apply(*tw.c);
    tw.step(x0, u0);
    Reduction R = reduce(t, cf, x0, tw.call, D, "dynamics");
    Halves got = halves(b.call, R), want = cf.halves(x0);
    sameHalves(t, got, want, "scalar");
    t.observe(got.h.size() * 2 + got.empty);
    for (auto &h : got.h)
        t.observeM(h.a), t.observeD(h.b);
}

int main(int argc, char **argv)
{
    mc::Spec s;
    s.property = "C21";
    s.body = body;
    s.rule = "one execution: one to three scalar constraint calls, then a step; the rows of the solver as half-spaces of the free moves are compared with the ones of the specified intervals on the trajectories of the model";
    s.bound = "every slice and index of the setter once, sequences of two and three calls over an alphabet; lower, upper, both, equal, no, positive, negative, zero, narrow and wide limits; state only, input only and mixed multipliers";
    s.assumptions = {STANDIN};
    return lin::main(argc, argv, s);
}
