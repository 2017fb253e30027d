// C18: the equality rows admit exactly the trajectories of the model from the measured state.
#include "../lin/harness.hpp"
using namespace lin;

static void body(mc::Ctx &t)
{
    bool dy;
    Dims d = size(t, dy);
    const M &D = decode(d, dy, t);
    Bench b(d, dy);
    Conf cf = Conf::demo(d);
    int init = t.choose(4 + Conf::FLAVOURS, "initial"); // everything, nothing but the model, no disturbance model, special models, bounds
    if (init == 1)
    {
        cf = Conf(d);
        cf.model(0);
        b.c->model(cf.A, cf.B, cf.C);
    }
    else
    {
        if (init == 2)
            cf.Bd.setZero(), cf.Dd.setZero();
        if (init == 3 + Conf::FLAVOURS)
        {
            cf.ul.setConstant(-2), cf.uh.setConstant(2.5);
            cf.xl.setConstant(-3), cf.xh.setConstant(3.5);
            cf.yl.setConstant(-4), cf.yh.setConstant(4.5);
        }
        else if (init > 2)
            cf.flavour(init - 3);
        cf.apply(*b.c);
    }
    int steps = t.thorough ? 3 : 2;
    for (int s = 0; s < steps; s++)
    {
        if (s || init)
        {
            int what = t.choose(init == 1 && !s ? 4 : 6, "change");
            Op o{MODEL, MATRIX, 1 + s};
            bool done = true;
            switch (what)
            {
            case 1:
                o.item = DISTURB;
                break;
            case 2:
                o = form(t, d, EXO, 1 + s, t.thorough ? s < 2 : s == 1 && !init);
                break;
            case 3:
                break;
            case 4:
                o.item = REFS;
                break;
            case 5:
                o.item = WEIGHTS;
                break;
            default:
                done = false;
            }
            if (done)
                t.check(apply(b.c.get(), cf, o), o.str() + "-returned");
        }
        // the third last input and the fourth state are beyond every bound
        int xi = s + 1 == steps ? t.choose(4, "state") : 1, ui = t.choose(s + 1 == steps ? 3 : 2, "last-input");
        V x0 = meas(d, xi % 3) * (xi == 3 ? 60 : 1), u0 = lastu(d, ui > 0) * (ui == 2 ? 40 : 1);
        int wi = s + 1 < steps || t.flag("moves");
        V w = wi ? vec(cf.free(), 700 + s, 1.3) : V(V::Zero(cf.free()));
        Reduction R;
        Quad cost;
        Result r = b.step(x0, u0, [&](const stub::Call &cl)
                          {
            R = reduce(t, cf, x0, cl, D, "dynamics");
            cost = quad(cl, R);
            stub::Answer a;
            a.x = R.z0 + R.Z * w;
            a.y = V::Zero(cl.l.size());
            a.obj = 1.5;
            // the answer satisfies the rows
            V e = cl.A * a.x;
            for (int i = 0; i < e.size(); i++)
                if (cl.l[i] == cl.u[i])
                    t.check(std::fabs(e[i] - cl.l[i]) <= 1e-7, "dynamics-row-violated");
            return a; });
        t.check(b.called, "no-problem");
        Traj want = cf.traj(x0, w);
        Seq got = b.c->seq();
        t.nearM(got.X, want.X, 1e-7, "state-sequence");
        t.nearM(got.U, want.U, 1e-7, "input-sequence");
        t.nearM(got.Y, want.Y, 1e-7, "output-sequence");
        t.nearM(r.cmd, V(want.U.row(0).transpose()), 1e-7, "command");
        Result l = b.c->last();
        t.check(l.code == r.code && l.feasible == r.feasible && l.status == r.status && l.cmd == r.cmd && l.cost == r.cost, "last-result");
        t.observeM(got.X);
        t.observeM(got.Y);
        // the first increment is counted from the last applied input: moving that input moves the
        // linear part of the cost as the weights of the first increment say
        if (s + 1 == steps && init != 5 && cf.wd.col(0).minCoeff() > 0) // 5: lost among the large gains
        {
            V u1 = u0 + vec(d.nu, 650, 1.1);
            V g = cost.g;
            Quad moved;
            b.step(x0, u1, [&](const stub::Call &cl)
                   {
                moved = quad(cl, reduce(t, cf, x0, cl, D, "dynamics"));
                stub::Answer a;
                a.x = V::Zero(cl.q.size());
                a.y = V::Zero(cl.l.size());
                return a; });
            V dg = moved.g - g, want = cf.quad(x0, u1).g - cf.quad(x0, u0).g;
            t.check(dg.norm() > 1e-9, "last-input-ignored");
            t.nearM(V(dg / dg.norm()), V(want / want.norm()), 1e-6, "last-input");
        }
    }
}

int main(int argc, char **argv)
{
    mc::Spec s;
    s.property = "C18";
    s.body = body;
    s.rule = "one execution: two (three) steps with a change in between; the affine solution set of the equality rows is compared with the trajectories of the model, and the reported sequence with the trajectory the solver answered";
    s.bound = "every size of the check; every change and slice of the disturbances before each step; measured states and last inputs over an alphabet; all the moves (by linearity)";
    s.assumptions = {STANDIN};
    return lin::main(argc, argv, s);
}
