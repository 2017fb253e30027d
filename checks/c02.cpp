// C02: values of the user's objective and constraints at the trajectory of the decision vector.
#include "../nl/harness.hpp"
using namespace nl;

static void body(mc::Ctx &t)
{
    std::unique_ptr<Bench> b(bench(t));
    const Dims d = b->d;
    int sc = t.choose(3, "scaling");
    Fun f{d, 0, t.flag("output")};
    bool cont = (t.thorough || sc == 0) && t.flag("continuous");
    bool hard = sc || t.flag("hard");
    Bench twin(d, b->c->dynamic);
    for (Bench *q : {b.get(), &twin})
    {
        q->functions(f);
        scaling(*q->c, sc);
        if (cont)
            q->c->sampling(0.2);
        Params par;
        par.hard = hard;
        q->c->params(par);
    }
    int steps = 2;
    for (int s = 0; s < steps; s++)
    {
        V x0 = meas(d, s), u0 = lastu(d, s);
        if (s == 1)
            switch (t.choose(3, "between"))
            {
            case 1: // redefinition
                f.v = 1;
                b->functions(f);
                twin.functions(f);
                break;
            case 2:
                sc = (sc + 1) % 3;
                for (Bench *q : {b.get(), &twin})
                {
                    q->c->stateScale(xscale(d, sc));
                    q->c->inputScale(uscale(d, sc));
                }
                break;
            }
        // what vectors mean, learned on another controller
        Decode dec;
        Rows rows;
        twin.step(x0, u0, [&](shim::Problem &p)
                  {
            dec = Decode(t, twin, p);
            M val(p.nEq(), 4), exp(d.ne, 4);
            for (int i = 0; i < 4; i++)
            {
                V z = i == 3 ? dec.steady(x0, u0, 0.5) : point(p.n, i == 2 ? -3 : 5 + i);
                Traj q = dec.full(dec(z), x0), w = twin.see(t, p, z);
                t.nearM(w.X, q.X, 1e-9, "states");
                t.nearM(w.U, q.U, 1e-9, "inputs");
                t.nearM(w.Y, f.outs(q.X, q.U), 1e-9, "outputs");
                val.col(i) = p.eqs(z);
                exp.col(i) = f.eq(q.X, q.U);
            }
            t.check((int)p.nEq() == d.ph * d.nx + d.ne, "number-of-equalities", std::to_string(p.nEq()));
            t.check((int)p.nIneq() == d.ni, "number-of-inequalities", std::to_string(p.nIneq()));
            rows = Rows::match(t, d, val, exp);
            return shim::Answer{}; });
        // the controller, evaluated in any order
        b->step(x0, u0, [&](shim::Problem &p)
                {
            if (s == 0 && t.flag("skip")) // no evaluation in the first step
                return shim::Answer{NLOPT_SUCCESS, point(p.n, 3), 1};
            int evals = (t.thorough ? 2 : 1) + s;
            V last;
            for (int e = 0; e < evals; e++)
            {
                int kind = t.choose(6, "evaluation");
                int pt = s && !e && !t.thorough ? 1 : t.choose(s && e + 1 == evals ? 5 : 2, "point");
                if (s && e + 1 == evals && pt)
                    pt++; // repeated rows, a constant trajectory
                V z = pt == 3 ? dec.steady(x0, u0, -0.5) : point(p.n, pt == 2 ? -2 : pt);
                if (pt == 4) // the one before with another slack
                    z = dec.moved(last, -1, 1.25);
                if (pt == 5) // close to the one before
                    z = dec.moved(last, d.ph > 1 ? d.nx : 0, 3e-7);
                last = z;
                Traj q = dec.full(dec(z), x0);
                M Y = f.outs(q.X, q.U);
                V g;
                M J;
                b->argsOk = true;
                if (kind < 2)
                {
                    double v = kind ? p.value(z, g) : p.value(z);
                    t.near(v, f.obj(q.X, Y, q.U, q.s), 1e-9, "objective-value");
                    t.observeD(v);
                }
                else if (kind < 4)
                {
                    V v = kind == 3 ? p.ineqs(z, J) : p.ineqs(z);
                    t.nearM(v, f.ineq(q.X, Y, q.U, q.s), 1e-9, "inequality-values");
                    t.observeM(v);
                }
                else
                {
                    V v = kind == 5 ? p.eqs(z, J) : p.eqs(z), ex = f.eq(q.X, q.U);
                    for (int i = 0; i < d.ne; i++)
                        t.near(v[rows.user[i]], ex[i], 1e-9, "equality-value");
                    t.observeM(v);
                }
                t.check(b->argsOk, "argument-sizes", "a user function received arguments of a wrong size or index");
            }
            return shim::Answer{NLOPT_SUCCESS, point(p.n, 3), 1}; });
    }
}

int main(int argc, char **argv)
{
    quiet();
    if (!shim::selftest())
        return 2;
    mc::Spec s;
    s.property = "C02";
    s.body = body;
    s.rule = "one execution: a controller, two steps with a change between them, in each step a sequence of evaluations (objective, inequalities, equalities, with or without derivatives) at points of the alphabet";
    s.bound = "1 and 2 (2 and 3) evaluations in the steps, of 6 kinds at 2 points";
    s.assumptions = {"the solver is replaced by the harness", "user functions are deterministic"};
    s.split = 9;
    return mc::run(argc, argv, s);
}
