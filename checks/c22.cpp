// C22: the problem depends only on the last accepted value of each item.
#include "../lin/harness.hpp"
using namespace lin;

static void body(mc::Ctx &t)
{
    bool dy;
    Dims d = size(t, dy, false);
    if (!t.thorough && dy && d.ph > 3)
        throw mc::Skip();
    Bench b(d, dy);
    Conf cf = Conf::demo(d);
    if (t.flag("configured"))
        cf.apply(*b.c);
    else
    {
        cf = Conf(d);
        cf.model(0);
        t.check(b.c->model(cf.A, cf.B, cf.C), "model-returned");
    }
    int n = 3;
    V x0 = meas(d, 1), u0 = lastu(d, 1);
    for (int i = 0; i < n; i++)
    {
        int what = t.choose(13, "operation");
        if (what < 10)
        {
            Op o = form(t, d, (Item)what, i, t.thorough && i == n - 1);
            o.side = what >= SB ? i % 3 : 0;
            t.check(apply(b.c.get(), cf, o), o.str() + "-returned");
        }
        else if (what == 10) // a step, solved or not
        {
            int st = std::vector<int>{OSQP_SOLVED, OSQP_PRIMAL_INFEASIBLE, OSQP_MAX_ITER_REACHED}[i];
            b.step(meas(d, 2), lastu(d, 0), [&](const stub::Call &cl)
                   { stub::Answer a; a.status = st; a.x = vec((int)cl.q.size(), 44); a.y = vec((int)cl.l.size(), 45); return a; });
        }
        else if (what == 11)
        {
            Params p;
            p.warm = true;
            p.maxiter = 7;
            b.c->params(p);
        }
        else // refused with an exception
        {
            int k = i;
            bool thrown = false;
            try
            {
                if (k == 0)
                    b.c->sampling(0.1);
                else if (k == 1)
                    b.c->inputScale(V::Ones(d.nu));
                else
                    b.c->stateScale(V::Ones(d.nx));
            }
            catch (const std::exception &)
            {
                thrown = true;
            }
            t.check(thrown, "scaling-or-sampling-accepted");
        }
        if (i + 1 == n)
        {
            b.step(x0, u0);
            t.check(b.called, "no-problem");
        }
    }
    Bench f(d, dy);
    cf.apply(*f.c);
    f.step(x0, u0);
    t.check(f.called, "no-problem");
    sameProblem(t, b.call, f.call, "problem");
    t.observeM(b.call.q);
    t.observeM(b.call.l);
    t.observeM(b.call.u);
    t.observe(mc::mix((uint64_t)(b.call.P.sum() * 1e6), (uint64_t)(b.call.A.sum() * 1e6)));
}

int main(int argc, char **argv)
{
    mc::Spec s;
    s.property = "C22";
    s.body = body;
    s.rule = "one execution: a sequence of setter calls, valid or rejected, with steps in between, then a step; the problem is compared with the one of a fresh controller configured once with the last accepted values";
    s.bound = "sequences of 3 operations over 13 kinds, every form of the setters with slices at both ends and out of range (every slice for the last operation in the thorough tier)";
    s.assumptions = {STANDIN};
    s.split = 4;
    return lin::main(argc, argv, s);
}
