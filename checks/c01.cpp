// C01: sequence and command are the trajectory of the solver's answer.
#include "../nl/harness.hpp"
using namespace nl;

static void body(mc::Ctx &t)
{
    std::unique_ptr<Bench> b(bench(t));
    const Dims d = b->d;
    int sc = t.choose(3, "scaling");
    bool out = t.flag("output");
    bool warm = t.flag("warm");
    Fun f{d, 0, out};
    if (sc && t.flag("scale-last"))
    {
        b->functions(f);
        scaling(*b->c, sc);
    }
    else
    {
        scaling(*b->c, sc);
        b->functions(f);
    }
    if (t.flag("continuous"))
        b->c->sampling(0.3);
    Params q;
    q.warm = warm;
    q.hard = false;
    b->c->params(q);
    int steps = t.thorough ? 3 : 2;
    for (int s = 0; s < steps; s++)
    {
        // something else changes between the steps
        switch (s ? t.choose(5, "between") : 0)
        {
        case 1:
            q.warm = !q.warm;
            b->c->params(q);
            break;
        case 2:
            f = Fun{d, s, true};
            b->functions(f);
            break;
        case 3:
            sc = (sc + 1) % 3;
            b->c->stateScale(xscale(d, sc));
            b->c->inputScale(uscale(d, sc));
            break;
        case 4:
            b->c->inputBoundsAll(V::Constant(d.nu, -100), V::Constant(d.nu, 100));
            b->c->stateBoundsAll(V::Constant(d.nx, -100), V::Constant(d.nx, 100));
            break;
        }
        int answer = t.choose((t.thorough ? 6 : 4) + SPECIAL, "answer");
        if (answer >= (t.thorough ? 6 : 4))
            answer = -1 - (answer - (t.thorough ? 6 : 4));
        bool steady = answer == -5; // as the others, in physical units
        int me = s + 1 == steps && t.flag("zero") ? 3 : s;
        V x0 = meas(d, me), u0 = lastu(d, me);
        Traj seen;
        Result r = b->step(x0, u0, [&](shim::Problem &p)
                           {
            V z = point(p.n, answer);
            if (steady)
                z = Decode(t, *b, p).steady(x0, u0, 0.25);
            seen = b->see(t, p, z);
            // leave other trajectories behind
            V g;
            p.value(point(p.n, answer + 1), g);
            p.eqs(point(p.n, answer + 2));
            p.ineqs(point(p.n, answer + 3));
            return shim::Answer{NLOPT_XTOL_REACHED, z, 3.5 + answer}; });
        t.check(r.status == SUCCESS, "no-result", "status " + std::to_string(r.status) + " " + r.msg);
        Seq q = b->c->seq();
        t.check(q.X.rows() == d.ph + 1 && q.X.cols() == d.nx && q.U.rows() == d.ph + 1 && q.U.cols() == d.nu && q.Y.rows() == d.ph + 1 && q.Y.cols() == d.ny, "sequence-size");
        t.nearM(q.X.row(0), x0.transpose(), 1e-9, "state-row-0");
        t.nearM(q.X, seen.X, 1e-9, "state-sequence");
        t.nearM(q.U, seen.U, 1e-9, "input-sequence");
        for (int k = d.ch; k <= d.ph; k++)
            t.nearM(q.U.row(k), q.U.row(d.ch - 1), 1e-12, "input-held");
        t.nearM(q.Y, f.outs(q.X, q.U), 1e-9, "output-sequence");
        t.nearM(r.cmd, q.U.row(0).transpose(), 1e-12, "command");
        Result l = b->c->last();
        t.check(l.code == r.code && l.cost == r.cost && l.status == r.status && l.feasible == r.feasible && l.msg == r.msg, "last-result");
        t.nearM(l.cmd, r.cmd, 0, "last-command");
        // the values really are those of the answer: one entry of the solver's vector each
        V zz(d.ph * d.nx);
        t.observeM(q.X);
        t.observeM(q.U);
        t.observeM(q.Y);
    }
}

// the answers determine the sequence: a unit change of every decision variable changes exactly
// one state, one held input or the slack, by the scaling
static void entries(mc::Ctx &t)
{
    std::unique_ptr<Bench> b(bench(t));
    const Dims d = b->d;
    int sc = t.choose(3, "scaling");
    Fun f{d, 0, true};
    b->functions(f);
    scaling(*b->c, sc);
    Params q;
    q.hard = false;
    b->c->params(q);
    V x0 = meas(d, 0), u0 = lastu(d, 0);
    int n = d.ph * d.nx + d.ch * d.nu + 1;
    int i = t.choose(n, "variable");
    V base = point(n, 0);
    Seq s[2];
    for (int k = 0; k < 2; k++)
    {
        V z = base;
        if (k)
            z[i] += 1;
        b->step(x0, u0, [&](shim::Problem &p)
                {
            t.check((int)p.n == n, "number-of-variables");
            return shim::Answer{NLOPT_SUCCESS, z, 0}; });
        s[k] = b->c->seq();
    }
    M dx = s[1].X - s[0].X, du = s[1].U - s[0].U;
    int nx = (dx.array().abs() > 1e-12).count(), nu = (du.array().abs() > 1e-12).count();
    t.check(dx.row(0).isZero(1e-12), "measured-state-changed");
    // rows of a held input count once
    int rows = 0;
    for (int k = 0; k < d.ch; k++)
        rows += (du.row(k).array().abs() > 1e-12).count();
    t.check(nx + rows <= 1, "variable-changes-several-entries");
    if (nx == 1)
        for (int j = 0; j < d.nx; j++)
            t.check(dx.col(j).isZero(1e-12) || std::fabs(dx.col(j).sum() - xscale(d, sc)[j]) < 1e-9, "state-scale");
    if (rows == 1)
        for (int j = 0; j < d.nu; j++)
            for (int k = 0; k < d.ch; k++)
                t.check(std::fabs(du(k, j)) < 1e-12 || std::fabs(du(k, j) - uscale(d, sc)[j]) < 1e-9, "input-scale");
    t.observeM(dx);
    t.observeM(du);
}

int main(int argc, char **argv)
{
    quiet();
    if (!shim::selftest())
        return 2;
    mc::Spec s;
    s.property = "C01";
    s.body = [](mc::Ctx &t)
    {
        if (t.flag("entries"))
            entries(t);
        else
            body(t);
    };
    s.rule = "one execution: a controller (size, scaling, output function, warm start, discretisation), then steps in which the solver answers a vector of the alphabet; the reported sequence is compared with what the user functions saw for that vector";
    s.bound = "2 steps (3 thorough) with a reconfiguration between them, 4 (6) answers, every variable of the decision vector alone";
    s.assumptions = {"the solver is replaced by the harness, which answers any vector", "user functions are deterministic"};
    s.split = 3;
    return mc::run(argc, argv, s);
}
