// C33: the Python module drives the same controllers.
#include "pair.hpp"
#include "../py/py.hpp"

static const std::vector<nl::Dims> ND = {{2, 1, 1, 3, 1, 2, 1}, {1, 2, 3, 4, 2, 1, 2}};
static const std::vector<lin::Dims> LD = {{2, 1, 1, 1, 3, 2}, {1, 2, 1, 2, 4, 1}, {2, 2, 2, 1, 2, 2}};

// every parameter on its own
static void parameters(mc::Ctx &t, const Pairs &pr)
{
    if (t.flag("linear"))
    {
        lin::Dims d = t.pick(pr.ld, "size");
        lin::Bench a(d, pr.lin[0](d)), b(d, pr.lin[1](d));
        lin::Bench *q[2] = {&a, &b};
        lin::Params p;
        int n = t.choose(14, "parameter");
        if (n == 0)
            p.maxiter = 37;
        if (n == 1)
            p.time = 2.5;
        if (n == 2)
            p.warm = true;
        if (n == 3)
            p.alpha = 1.25;
        if (n == 4)
            p.rho = 0.5;
        if (n == 5)
            p.eps_rel = 0.03;
        if (n == 6)
            p.eps_abs = 0.04;
        if (n == 7)
            p.eps_pinf = 0.05;
        if (n == 8)
            p.eps_dinf = 0.06;
        if (n == 9)
            p.verbose = true;
        if (n == 10)
            p.adaptive = false;
        if (n == 11)
            p.polish = false;
        lin::Conf cf = lin::Conf::demo(d);
        std::vector<double> px, py;
        for (auto *x : q)
        {
            cf.apply(*x->c);
            n == 13 ? x->c->defaultParams() : x->c->params(p);
        }
        for (int k = 0; k < 3; k++)
        {
            std::vector<double> s[2];
            for (int i = 0; i < 2; i++)
            {
                q[i]->step(lin::meas(d, k), lin::lastu(d, k), [&](const stub::Call &c)
                           {
                    stub::Answer o;
                    o.status = OSQP_SOLVED;
                    o.x = lin::vec((int)c.q.size(), 50 + k), o.y = lin::vec((int)c.l.size(), 60 + k), o.obj = 1.5;
                    return o; });
                auto &c = q[i]->call;
                auto &g = c.set;
                s[i] = {(double)g.max_iter, g.time_limit, (double)g.warm_start, g.alpha, g.rho, g.eps_rel, g.eps_abs, g.eps_prim_inf, g.eps_dual_inf,
                        (double)g.verbose, (double)g.adaptive_rho, (double)g.polish, (double)c.warm};
                for (double v : c.wx)
                    s[i].push_back(v);
                for (double v : c.wy)
                    s[i].push_back(v);
                t.check(q[i]->called, "no-problem");
            }
            same(t, s[0], s[1], "another-parameter");
            // the stored solution, given back (reversed)
            px = a.c->primal(), py = a.c->dual();
            t.check(b.c->primal() == px && b.c->dual() == py, "another-stored-start");
            if (k == 1)
            {
                std::reverse(px.begin(), px.end());
                for (auto &v : py)
                    v += 0.5;
                for (auto *x : q)
                    x->c->setWarm(px, py);
            }
        }
        return;
    }
    nl::Dims d = t.pick(pr.nd, "size");
    Bench a(d, pr.nl[0](d)), b(d, pr.nl[1](d));
    Bench *q[2] = {&a, &b};
    nl::Params p;
    int n = t.choose(10, "parameter");
    if (n == 0)
        p.maxiter = 37;
    if (n == 1)
        p.time = 2.5;
    if (n == 2)
        p.warm = true;
    if (n == 3)
        p.frel = 0.03;
    if (n == 4)
        p.xrel = 0.04;
    if (n == 5)
        p.fabs = 0.05;
    if (n == 6)
        p.xabs = 0.06;
    if (n == 7)
        p.hard = false;
    for (auto *x : q)
    {
        n == 9 ? x->c->defaultParams() : x->c->params(p);
        t.check(x->functions(Fun{d, 0, true}), "functions-refused");
    }
    bool reset = t.flag("reset");
    for (int k = 0; k < 2; k++)
    {
        std::vector<double> s[2];
        for (int i = 0; i < 2; i++)
            q[i]->step(meas(d, k), lastu(d, k), [&](shim::Problem &pb)
                       {
                s[i] = problem(*q[i], pb, 1);
                return shim::Answer{NLOPT_SUCCESS, point(pb.n, 4 + k), 2.5}; });
        same(t, s[0], s[1], "another-parameter");
        if (reset)
            for (auto *x : q)
                x->c->resetStats();
        auto e = a.c->stats(), f = b.c->stats();
        t.check(e.n == f.n && e.byStatus == f.byStatus && f.n == (reset ? 0 : k + 1), "another-statistic");
        // the durations, of this controller
        t.check(f.tot >= 0 && (reset ? f.tot == 0 : f.tot >= f.max && f.min <= f.avg && f.avg <= f.max), "durations", std::to_string(f.min) + " " + std::to_string(f.max));
    }
}

static void logs(mc::Ctx &t)
{
    bool linear = t.flag("linear");
    int level = t.choose(4, "level");
    std::string p = t.flag("prefix") ? "robot" : "";
    std::string a = script::log(linear, level, p, 1), b = script::log(linear, level, p, 0);
    t.check(a == b, "another-log", a + " / " + b);
    std::string c = script::constants();
    t.check(c.empty(), "another-constant", c);
    t.observe(std::hash<std::string>()(a));
}

int main(int argc, char **argv)
{
    quiet();
    if (!shim::selftest())
        return 2;
    script::init();
    mc::Spec s;
    Pairs pr;
    pr.nd = ND, pr.ld = LD;
    pr.nl[0] = [](const nl::Dims &d) { return nl::make(d, true); };
    pr.nl[1] = script::makeNl;
    pr.lin[0] = [](const lin::Dims &d) { return lin::make(d, true); };
    pr.lin[1] = script::makeLin;
    pr.tol = {1e-10f, 0.25};
    pr.constraints = false;
    s.property = "C33";
    s.body = [&](mc::Ctx &t)
    {
        switch (t.choose(4, "part"))
        {
        case 0:
            pairNonlinear(t, pr);
            break;
        case 1:
            pairLinear(t, pr);
            break;
        case 2:
            parameters(t, pr);
            break;
        default:
            logs(t);
        }
    };
    s.rule = "one execution: the same history of calls and steps (with a given solution, a failure or an iteration limit) given to a controller directly and to one of the same sizes through the module of python/pybind_export.cpp, compiled against a stand-in of pybind11 which dispatches the calls and converts arguments and results; problems, results, sequences, counters, parameters, messages and constants are compared";
    s.bound = "histories of 3 (4) calls out of 15 and a step, linear: of 2 calls out of 12 kinds and two steps; every parameter on its own; every log level with and without a prefix";
    s.assumptions = {"the solver is replaced by the harness", lin::STANDIN, "pybind11 is replaced by a stand-in: registration, overloads in order, conversion of numbers, arrays, lists, functions, enumerations and registered classes"};
    s.split = 5;
    return mc::run(argc, argv, s);
}
