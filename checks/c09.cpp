// C09: is_feasible.
#include "../nl/harness.hpp"
using namespace nl;

static void body(mc::Ctx &t)
{
    std::unique_ptr<Bench> b(bench(t));
    const Dims d = b->d;
    int setup = t.choose(t.thorough ? 6 : 3, "setup");
    int sc = setup == 1 || setup == 2 || setup == 5 ? 1 : 0;
    bool hard = setup == 0 || setup == 5, warm = setup == 2 || setup == 3;
    static const double tols[] = {NaN, 0.25, 0};
    int ti = t.choose(3, "tolerance-ineq"), te = t.choose(3, "tolerance-eq");
    Fun f{d, 0};
    b->objective(f);
    b->state(f);
    b->output(f);
    scaling(*b->c, sc);
    Params par;
    par.hard = hard;
    par.warm = warm;
    b->c->params(par);
    // the values of the constraints on the trajectory of the answer, the contrary elsewhere
    Traj ans;
    V ci, ce;
    bool want = true, learning = false, wrong = false;
    auto same = [&](const M &X, const M *Y, const M &U, const double *s)
    {
        return X.isApprox(ans.X, 1e-9) && U.isApprox(ans.U, 1e-9) && (!Y || Y->isApprox(ans.Y, 1e-9)) && (!s || std::fabs(*s - ans.s) < 1e-9);
    };
    auto setI = [&](double tol)
    {
        return b->c->ineq([&](V &c, const M &X, const M &Y, const M &U, double s)
                          {
            if (learning || !ans.X.size())
                c.setZero();
            else if (same(X, &Y, U, &s))
                c = ci;
            else
            {
                wrong = true;
                c.setConstant(want ? 10 : -10);
            } }, tol);
    };
    auto setE = [&](double tol)
    {
        return b->c->eq([&](V &c, const M &X, const M &U)
                        {
            if (learning || !ans.X.size())
                c.setZero();
            else if (same(X, nullptr, U, nullptr))
                c = ce;
            else
            {
                wrong = true;
                c.setConstant(want ? 10 : 0);
            } }, tol);
    };
    bool noI = d.ni && t.flag("without-ineq"), noE = d.ne && t.flag("without-eq");
    bool I = d.ni && !noI, E = d.ne && !noE;
    if (I)
        t.check(setI(tols[ti]), "ineq-refused");
    if (E)
        t.check(setE(tols[te]), "eq-refused");
    auto toli = [&](double v)
    { return v != v ? (double)1e-10f : (double)(float)v; };
    double TI = toli(tols[ti]), TE = toli(tols[te]);
    int steps = t.thorough ? 3 : 2;
    for (int s = 0; s < steps; s++)
    {
        if (s && t.flag("redefine"))
        {
            // another tolerance
            TI = 0.5;
            TE = 0.125;
            if (I)
                setI(TI);
            if (E)
                setE(TE);
        }
        V x0 = meas(d, s), u0 = lastu(d, s);
        ci = V::Constant(d.ni, -1);
        ce = V::Zero(d.ne);
        want = true;
        if (I)
        {
            const double v[] = {-1, TI, TI + 1e-12 + TI * 1e-6, 1, NaN, 0, inf, -inf, 1e-300 + TI};
            bool all = s == 0 || t.thorough;
            int i = t.choose(all ? d.ni : 1, "ineq-component"), k = t.choose(all ? 9 : 4, "ineq-value");
            if (!all)
                i = d.ni - 1;
            ci[i] = v[k];
        }
        if (E)
        {
            const double v[] = {0, TE, -TE, TE + 1e-12 + TE * 1e-6, -(TE + 1e-12 + TE * 1e-6), NaN, -1, 1, -inf};
            bool all = s == 0 || t.thorough;
            int i = t.choose(all ? d.ne : 1, "eq-component"), k = t.choose(all ? 9 : 3, "eq-value");
            ce[i] = v[k];
        }
        for (int i = 0; I && i < d.ni; i++)
            want = want && ci[i] <= TI;
        for (int i = 0; E && i < d.ne; i++)
            want = want && std::fabs(ce[i]) <= TE;
        int code = s && t.choose(2, "code") ? NLOPT_MAXEVAL_REACHED : NLOPT_FTOL_REACHED;
        Result r = b->step(x0, u0, [&](shim::Problem &p)
                           {
            learning = true;
            V z = point(p.n, 4 + s);
            if (hard)
                z = z.cwiseMax(p.lb).cwiseMin(p.ub);
            ans = b->see(t, p, z);
            // other evaluations afterwards
            p.value(point(p.n, 7));
            p.ineqs(point(p.n, 8));
            p.eqs(point(p.n, 9));
            learning = false;
            wrong = false;
            return shim::Answer{code, z, 1}; });
        t.check(r.status == (code == NLOPT_MAXEVAL_REACHED ? MAX_ITERATION : SUCCESS), "no-step", r.msg);
        if (r.feasible != want)
        {
            std::ostringstream o;
            o << "is_feasible " << r.feasible << " for inequalities " << ci.transpose() << " (tolerance " << TI << ") equalities " << ce.transpose() << " (tolerance " << TE << ")"
              << (wrong ? ", evaluated on another trajectory" : "");
            t.check(false, "is-feasible", o.str());
        }
        t.check(b->c->last().feasible == want, "last-is-feasible");
        t.observe(want * 2 + s);
        t.observeM(ci);
        t.observeM(ce);
        ans = Traj();
    }
}

int main(int argc, char **argv)
{
    quiet();
    if (!shim::selftest())
        return 2;
    mc::Spec s;
    s.property = "C09";
    s.body = body;
    s.rule = "one execution: tolerances, which constraints are set, and steps with chosen values of the constraints on the trajectory of the answer (the contrary values on any other trajectory)";
    s.bound = "2 (3) steps, 9 values around the tolerance, infinite and NaN for every component";
    s.assumptions = {"the solver is replaced by the harness"};
    s.split = 6;
    return mc::run(argc, argv, s);
}
