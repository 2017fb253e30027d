// C10: optimizer parameters.
#include "../nl/harness.hpp"
using namespace nl;

static std::vector<Params> variants()
{
    std::vector<Params> v;
    v.push_back({});                                          // the defaults, given explicitly
    v.push_back({250, 1.5, true, 1e-5, 2e-6, 3e-7, 4e-8, false});
    v.push_back({7, 0, false, 0, -1, 1e-3, -1, true});
    v.push_back({1, -3, false, -1, 1e-9, -1, 0.5, false});
    v.push_back({100000, 1e-3, true, 0.25, 0, 0, 0, true});
    v.push_back({0, 1e-6, true, -1, -1, -1, -1, false});     // no limit of iterations, next to no time
    return v;
}

static void verify(mc::Ctx &t, Bench &b, const Params &q, int s, bool warmable, const Traj &lastSolution)
{
    const Dims d = b.d;
    V z;
    b.step(meas(d, s % 3), lastu(d, s % 3), [&](shim::Problem &p)
           {
        t.check(p.frel == q.frel, "relative_ftol", std::to_string(p.frel));
        t.check(p.xrel == q.xrel, "relative_xtol", std::to_string(p.xrel));
        t.check(p.fabs == q.fabs, "absolute_ftol", std::to_string(p.fabs));
        t.check((p.xabs.array() == q.xabs).all(), "absolute_xtol");
        t.check((p.xweights.array() == 1).all(), "x-weights");
        t.check(p.maxeval == q.maxiter, "maximum_iteration", std::to_string(p.maxeval));
        t.check(q.time > 0 ? p.maxtime == q.time : p.maxtime <= 0, "time_limit", std::to_string(p.maxtime));
        t.check(!(p.stopval > -inf), "stopval");
        t.check(!p.maximize && p.hasObjective(), "objective");
        Decode dec(t, b, p);
        V l, u;
        dec.interval(t, p.lb, p.ub, l, u);
        int n = l.size() - 1;
        t.check(q.hard ? l[n] == 0 && u[n] == 0 : l[n] == -inf && u[n] == inf, "slack-bounds");
        // warm start
        V g = dec(p.x0);
        if (warmable || !q.warm)
        {
            V cold(n + 1), warm = q.warm ? Decode::flat(d, lastSolution) : V(V::Zero(n + 1));
            V w = warm;
            for (int k = 0; k < d.ph; k++)
            {
                cold.segment(k * d.nx, d.nx) = meas(d, s % 3);
                w.segment(k * d.nx, d.nx) = warm.segment(std::min(k + 1, d.ph - 1) * d.nx, d.nx);
            }
            for (int k = 0; k < d.ch; k++)
            {
                cold.segment(d.ph * d.nx + k * d.nu, d.nu) = lastu(d, s % 3);
                w.segment(d.ph * d.nx + k * d.nu, d.nu) = warm.segment(d.ph * d.nx + std::min(k + 1, d.ch - 1) * d.nu, d.nu);
            }
            t.nearM(V(g.head(n)), V((q.warm ? w : cold).head(n)), 1e-8, "warm-start");
        }
        t.observeM(l);
        t.observeM(g);
        t.observe(p.maxeval);
        return shim::Answer{NLOPT_SUCCESS, p.x0, 1}; });
}

static void body(mc::Ctx &t)
{
    std::unique_ptr<Bench> b(bench(t));
    const Dims d = b->d;
    static const std::vector<Params> vs = variants();
    Fun f{d, 0};
    bool late = t.flag("functions-last");
    if (!late)
        b->functions(f);
    Params q;
    bool have = false;
    Traj sol;
    int depth = t.thorough ? 5 : 4, nv = (int)vs.size();
    for (int o = 0; o < depth; o++)
    {
        int op = t.choose(nv + 8, "operation");
        if (op < nv)
        {
            q = vs[op];
            b->c->params(q);
            continue;
        }
        switch (op - nv)
        {
        case 0:
            q = {};
            b->c->defaultParams();
            break;
        case 1:
            b->c->stateBoundsAll(V::Constant(d.nx, -50 - o), V::Constant(d.nx, 50 + o));
            b->c->inputBoundsAll(V::Constant(d.nu, -50 - o), V::Constant(d.nu, 50 + o));
            break;
        case 2:
            b->c->stateScale(xscale(d, 1));
            break;
        case 3:
            b->c->inputScale(uscale(d, 1));
            break;
        case 4:
            f.v = o + 1;
            b->functions(f);
            break;
        case 5:
            b->c->sampling(0.1);
            break;
        case 6: // a step
        case 7: // a failed one
            if (late)
                b->functions(f);
            late = false;
            b->step(meas(d, 0), lastu(d, 0), [&](shim::Problem &p)
                    {
                V z = point(p.n, 4 + o).cwiseMax(p.lb).cwiseMin(p.ub);
                if (op - nv == 6)
                    sol = b->see(t, p, z);
                return shim::Answer{op - nv == 6 ? NLOPT_SUCCESS : NLOPT_ROUNDOFF_LIMITED, z, 1}; });
            have = have || op - nv == 6;
            break;
        }
    }
    if (late)
        b->functions(f);
    verify(t, *b, q, 1, have, sol);
}

int main(int argc, char **argv)
{
    quiet();
    if (!shim::selftest())
        return 2;
    mc::Spec s;
    s.property = "C10";
    s.body = body;
    s.rule = "one execution: a history of setOptimizerParameters calls, other setters and steps, then a step in which everything the solver was told is compared with the last parameters";
    s.bound = "histories of 4 (5) calls, 7 sets of parameters, 8 other calls";
    s.assumptions = {"the solver is replaced by the harness"};
    s.split = 4;
    return mc::run(argc, argv, s);
}
