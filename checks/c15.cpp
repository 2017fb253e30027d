// C15: scaling does not change the meaning.
#include "../nl/harness.hpp"
using namespace nl;

static void body(mc::Ctx &t)
{
    std::unique_ptr<Bench> b(bench(t));
    const Dims d = b->d;
    Bench plain(d, b->c->dynamic);
    Bench *q[2] = {b.get(), &plain};
    int depth = t.thorough ? 4 : 3;
    bool first = t.flag("functions-first"), cont = false, scaled = false;
    int v = 0, s0 = 0;
    V xs = V::Ones(d.nx), us = V::Ones(d.nu); // the scaling in force
    Params par;
    par.hard = false;
    auto functions = [&]()
    {
        for (auto *c : q)
            c->functions(Fun{d, v});
        first = true;
    };
    for (auto *c : q)
        c->c->params(par);
    if (first)
        functions();
    auto step = [&](int o)
    {
        if (!first)
            functions();
        V x0 = meas(d, s0 % 3), u0 = lastu(d, s0 % 3);
        struct Seen
        {
            V lo, hi, start, answer;
            std::vector<double> obj;
            M ineq, user, dyn, jac, dynjac, D;
            Result r;
            Seq q;
        } s[2];
        for (int i = 0; i < 2; i++)
        {
            s[i].r = q[i]->step(x0, u0, [&](shim::Problem &p)
                                {
                Decode dec(t, *q[i], p);
                dec.interval(t, p.lb, p.ub, s[i].lo, s[i].hi);
                s[i].start = dec(p.x0);
                s[i].D = dec.D;
                const int K = 3;
                M E(p.nEq(), K), U(d.ne, K), eqjac;
                const M toPhysical = dec.D.inverse();
                s[i].ineq.resize(d.ni, K);
                s[i].dyn.resize(d.ph * d.nx, K);
                Fun f{d, v};
                for (int k = 0; k < K; k++)
                {
                    // the same physical point
                    V fr = point(p.n, 5 + k);
                    V z = dec.encode(fr);
                    s[i].obj.push_back(p.value(z));
                    s[i].ineq.col(k) = p.ineqs(z);
                    E.col(k) = p.eqs(z);
                    Traj tr = dec.full(fr, x0);
                    U.col(k) = f.eq(tr.X, tr.U);
                    if (k == 0)
                    {
                        // the derivatives with respect to the physical trajectory
                        V g;
                        M J;
                        p.value(z, g);
                        p.ineqs(z, J);
                        p.eqs(z, eqjac);
                        s[i].jac.resize(1 + d.ni, p.n);
                        s[i].jac.row(0) = g.transpose() * toPhysical;
                        if (d.ni)
                            s[i].jac.bottomRows(d.ni) = J * toPhysical;
                        eqjac = (eqjac * toPhysical).eval();
                    }
                }
                Rows rows = Rows::match(t, d, E, U);
                // the residuals of the dynamics, up to a factor
                s[i].dynjac.resize(d.ph * d.nx, p.n);
                for (size_t r = 0; r < rows.dyn.size(); r++)
                    s[i].dynjac.row(r) = eqjac.row(rows.dyn[r]) / (std::fabs(E(rows.dyn[r], 0)) > 1e-12 ? E(rows.dyn[r], 0) : 1);
                for (size_t r = 0; r < rows.dyn.size(); r++)
                    s[i].dyn.row(r) = E.row(rows.dyn[r]) / (std::fabs(E(rows.dyn[r], 0)) > 1e-12 ? E(rows.dyn[r], 0) : 1);
                s[i].answer = point(p.n, 4 + o);
                shim::Answer a;
                a.x = dec.encode(s[i].answer);
                a.f = 1.5;
                a.code = o == 3 ? NLOPT_FAILURE : NLOPT_SUCCESS;
                return a; });
            s[i].q = q[i]->c->seq();
        }
        t.nearM(s[0].lo, s[1].lo, 1e-9, "lower-bounds");
        t.nearM(s[0].hi, s[1].hi, 1e-9, "upper-bounds");
        t.nearM(s[0].start, s[1].start, 1e-8, "starting-point");
        // the solver's variables are divided by the scaling in force
        V by = V::Ones(s[0].D.rows());
        for (int k = 0; k < d.ph; k++)
            by.segment(k * d.nx, d.nx) = xs;
        for (int k = 0; k < d.ch; k++)
            by.segment(d.ph * d.nx + k * d.nu, d.nu) = us;
        t.nearM(s[0].D, M(by.asDiagonal() * s[1].D), 1e-9, "scaled-variables");
        for (size_t k = 0; k < s[0].obj.size(); k++)
            t.near(s[0].obj[k], s[1].obj[k], 1e-8, "objective");
        t.nearM(s[0].ineq, s[1].ineq, 1e-8, "inequalities");
        t.nearM(s[0].jac, s[1].jac, 1e-4, "derivatives");
        // same zero sets: the normalised residuals are a permutation of each other
        std::vector<bool> used(s[1].dyn.rows(), false);
        for (int r = 0; r < s[0].dyn.rows(); r++)
        {
            int hit = -1;
            for (int k = 0; k < s[1].dyn.rows() && hit < 0; k++)
                if (!used[k] && ((s[0].dyn.row(r) - s[1].dyn.row(k)).array().abs() <= 1e-6 * (1 + s[1].dyn.row(k).array().abs())).all() &&
                    (s[0].dynjac.row(r) - s[1].dynjac.row(k)).cwiseAbs().maxCoeff() <= 1e-4 * (1 + s[1].dynjac.row(k).cwiseAbs().maxCoeff()))
                    hit = k;
            t.check(hit >= 0, "dynamics", "a residual of the scaled problem is not one of the problem");
            used[hit] = true;
        }
        t.check(s[0].r.status == s[1].r.status && s[0].r.code == s[1].r.code && s[0].r.feasible == s[1].r.feasible && s[0].r.cost == s[1].r.cost, "result");
        t.nearM(s[0].r.cmd, s[1].r.cmd, 1e-9, "command");
        t.nearM(s[0].q.X, s[1].q.X, 1e-9, "state-sequence");
        t.nearM(s[0].q.U, s[1].q.U, 1e-9, "input-sequence");
        t.nearM(s[0].q.Y, s[1].q.Y, 1e-9, "output-sequence");
        t.observeM(s[0].start);
        t.observeM(s[0].q.U);
        s0++;
    };
    for (int o = 0; o < depth; o++)
    {
        int op = t.choose(12, "operation");
        switch (op)
        {
        case 0:
        case 1:
            b->c->stateScale(xs = xscale(d, 1 + op));
            scaled = true;
            break;
        case 2:
        case 3:
            b->c->inputScale(us = uscale(d, op - 1));
            scaled = true;
            break;
        case 4:
            for (auto *c : q)
                c->c->stateBounds(ramp(d.nx, -0.5 - o, .1), ramp(d.nx, 0.6 + o, .2), 0, d.ph - o % 2 * (d.ph > 1));
            break;
        case 5:
            for (auto *c : q)
                c->c->inputBoundsAll(ramp(d.nu, -0.1 - o, .1), ramp(d.nu, 0.3 + o, .2));
            break;
        case 6:
            par.warm = !par.warm;
            for (auto *c : q)
                c->c->params(par);
            break;
        case 7:
            par.hard = !par.hard;
            for (auto *c : q)
                c->c->params(par);
            break;
        case 8:
            cont = true;
            for (auto *c : q)
                c->c->sampling(0.15 * (1 + o));
            break;
        case 9:
            v = o + 1;
            if (first)
                functions();
            break;
        case 10: // a step with a solution
            step(o);
            break;
        case 11: // a failed one
            step(3);
            break;
        }
    }
    if (!scaled)
    {
        b->c->stateScale(xs = xscale(d, 1));
        b->c->inputScale(us = uscale(d, 2));
    }
    step(1);
}

int main(int argc, char **argv)
{
    quiet();
    if (!shim::selftest())
        return 2;
    mc::Spec s;
    s.property = "C15";
    s.body = body;
    s.rule = "one execution: a history of calls given to two controllers of which one is also scaled (anywhere in the history, repeatedly), with steps; the problems are compared in physical units";
    s.bound = "histories of 3 (4) calls out of 12 and a final step";
    s.assumptions = {"positive scalings", "the solver is replaced by the harness"};
    s.split = 4;
    return mc::run(argc, argv, s);
}
