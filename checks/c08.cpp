// C08: where the solver starts.
#include "../nl/harness.hpp"
using namespace nl;

static void body(mc::Ctx &t)
{
    std::unique_ptr<Bench> b(bench(t));
    const Dims d = b->d;
    int sc = t.choose(3, "scaling");
    Fun f{d, 0};
    b->functions(f);
    scaling(*b->c, sc);
    Params par;
    par.hard = false;
    bool explicitParams = t.flag("parameters");
    if (explicitParams)
    {
        par.warm = t.flag("warm");
        b->c->params(par);
    }
    else
        par = Params{}; // documented defaults: hard, cold
    int nfree = d.ph * d.nx + d.ch * d.nu + 1;
    V pl = V::Constant(nfree, -inf), pu = V::Constant(nfree, inf);
    V stored;
    bool have = false;
    int steps = t.thorough ? 4 : 3;
    for (int s = 0; s < steps; s++)
    {
        int me = s + 1 == steps && t.flag("zero") ? 3 : s % 3;
        V x0 = meas(d, me), u0 = lastu(d, me);
        switch (t.choose(s ? 6 : 3, "before"))
        {
        case 1: // bounds which cut the guess
        {
            V a = V::Constant(d.nx, -0.5 - 0.1 * s), c = V::Constant(d.nx, 0.4 + 0.1 * s);
            b->c->stateBoundsAll(a, c);
            for (int k = 0; k < d.ph; k++)
                pl.segment(k * d.nx, d.nx) = a, pu.segment(k * d.nx, d.nx) = c;
            break;
        }
        case 2:
        {
            // only the last step of the control horizon
            V a = V::Constant(d.nu, 0.1 + 0.1 * s), c = V::Constant(d.nu, 0.6 + 0.1 * s);
            b->c->inputBounds(a, c, d.ch - 1, d.ch);
            pl.segment(d.ph * d.nx + (d.ch - 1) * d.nu, d.nu) = a;
            pu.segment(d.ph * d.nx + (d.ch - 1) * d.nu, d.nu) = c;
            break;
        }
        case 3:
            par.warm = !par.warm;
            b->c->params(par);
            break;
        case 4:
            par.hard = !par.hard;
            b->c->params(par);
            break;
        case 5:
            sc = (sc + 1) % 3;
            b->c->stateScale(xscale(d, sc));
            b->c->inputScale(uscale(d, sc));
            break;
        }
        V l = pl, u = pu;
        if (par.hard)
            l[nfree - 1] = u[nfree - 1] = 0;
        // the documented guess
        V g(nfree);
        if (par.warm && have)
        {
            int o = 0;
            for (int k = 0; k < d.ph; k++)
                for (int j = 0; j < d.nx; j++)
                    g[o++] = stored[std::min(k + 1, d.ph - 1) * d.nx + j];
            for (int k = 0; k < d.ch; k++)
                for (int j = 0; j < d.nu; j++)
                    g[o++] = stored[d.ph * d.nx + std::min(k + 1, d.ch - 1) * d.nu + j];
            g[o] = stored[o];
        }
        else
        {
            for (int k = 0; k < d.ph; k++)
                g.segment(k * d.nx, d.nx) = x0;
            for (int k = 0; k < d.ch; k++)
                g.segment(d.ph * d.nx + k * d.nu, d.nu) = u0;
            g[nfree - 1] = 0;
        }
        V unclamped = g;
        for (int i = 0; i < nfree; i++)
            g[i] = std::max(l[i], std::min(u[i], g[i]));
        int o = t.choose(4, "outcome");
        V answer;
        bool called = false;
        int inv = shim::state().invalid;
        Result r = b->step(x0, u0, [&](shim::Problem &p)
                           {
            called = true;
            Decode dec(t, *b, p);
            V start = dec(p.x0);
            for (unsigned i = 0; i < p.n; i++)
                t.check(p.lb[i] <= p.x0[i] && p.x0[i] <= p.ub[i], "outside-the-bounds");
            t.nearM(start, g, 1e-8, par.warm && have ? "warm-start" : "cold-start");
            V z = point(p.n, 4 + s + 3 * o);
            answer = dec(z);
            t.observeM(start);
            // 2: failure, 3: failure after the solver
            return shim::Answer{o < 2 ? NLOPT_SUCCESS : NLOPT_FAILURE, z, 1}; });
        t.check(called && shim::state().invalid == inv, "solver-refused-the-start", r.msg);
        if (o < 2)
        {
            t.check(r.status == SUCCESS, "no-step", r.msg);
            stored = answer;
            have = true;
        }
        if (o == 3) // the configuration is given again
            b->functions(f);
    }
}

int main(int argc, char **argv)
{
    quiet();
    if (!shim::selftest())
        return 2;
    mc::Spec s;
    s.property = "C08";
    s.body = body;
    s.rule = "one execution: a sequence of steps with outcome (two solutions, failure, failure followed by a repeated configuration) and a change before each of them (bounds, warm start, hard or soft, scaling); the starting point of the solver is decoded and compared with the documented guess";
    s.bound = "3 (4) steps, 4 outcomes, 6 changes";
    s.assumptions = {"the solver is replaced by the harness"};
    s.split = 6;
    return mc::run(argc, argv, s);
}
