// C24: the settings and the starting point of the linear solver are the ones requested.
#include "../lin/harness.hpp"
using namespace lin;

static void body(mc::Ctx &t)
{
    bool dy;
    Dims d = size(t, dy, false);
    if (dy && !(d == STATIC[0]) && !(d == STATIC[4]))
        throw mc::Skip();
    Bench b(d, dy);
    Conf cf = Conf::demo(d);
    cf.apply(*b.c);
    Params p; // the documented defaults
    std::vector<double> px, py;
    int n = t.thorough ? 5 : 4, nz = 0, nc = 0;
    {
        Bench k(d, dy);
        cf.apply(*k.c);
        k.step(meas(d, 0), lastu(d, 0));
        nz = (int)k.call.q.size(), nc = (int)k.call.l.size();
    }
    auto step = [&](int st, int i)
    {
        stub::Answer a;
        a.status = st;
        a.x = vec(nz, 80 + i), a.y = vec(nc, 90 + i);
        if (st == 0)
            stub::state().setup = [](const stub::Call &)
            { return (int)OSQP_LINSYS_SOLVER_INIT_ERROR; };
        b.step(meas(d, i % 3), lastu(d, i % 2), [&](const stub::Call &)
               { return a; });
        stub::state().setup = nullptr;
        if (st == 0)
            return;
        t.check(b.called, "no-problem");
        const OSQPSettings &s = b.call.set;
        t.check(s.alpha == p.alpha, "alpha");
        t.check(s.rho == p.rho, "rho");
        t.check((s.adaptive_rho != 0) == p.adaptive, "adaptive-rho");
        t.check(s.eps_rel == p.eps_rel, "eps-rel");
        t.check(s.eps_abs == p.eps_abs, "eps-abs");
        t.check(s.eps_prim_inf == p.eps_pinf, "eps-prim-inf");
        t.check(s.eps_dual_inf == p.eps_dinf, "eps-dual-inf");
        t.check(s.max_iter == p.maxiter, "max-iter");
        t.check((s.polish != 0) == p.polish, "polish");
        t.check((s.verbose != 0) == p.verbose, "verbose");
        t.check(s.time_limit == p.time, "time-limit");
        bool want = p.warm && !px.empty() && !py.empty();
        t.check(b.call.warm == want, want ? "cold-start" : "warm-start");
        if (want)
        {
            t.nearM(b.call.wx, V(Eigen::Map<V>(px.data(), px.size())), 1e-12, "primal-start");
            t.nearM(b.call.wy, V(Eigen::Map<V>(py.data(), py.size())), 1e-12, "dual-start");
        }
        if (st == OSQP_SOLVED || st == OSQP_SOLVED_INACCURATE || st == OSQP_MAX_ITER_REACHED || st == OSQP_TIME_LIMIT_REACHED)
        {
            px.assign(a.x.data(), a.x.data() + nz);
            py.assign(a.y.data(), a.y.data() + nc);
        }
        t.observe(mc::mix(b.call.warm, b.call.id * 0 + (int)(s.alpha * 100) + s.max_iter));
        if (want)
            t.observeM(b.call.wx);
    };
    for (int i = 0; i < n; i++)
    {
        int op = t.choose(14, "operation");
        switch (op)
        {
        case 0:
            p.warm = true;
            b.c->params(p);
            break;
        case 1:
            p.warm = false;
            b.c->params(p);
            break;
        case 2: // every other field
            p.alpha = 1.1 + .1 * i, p.rho = 1e-3 * (1 + i), p.eps_rel = 1e-5, p.eps_abs = 2e-5 * (1 + i), p.eps_pinf = 3e-5, p.eps_dinf = 4e-5;
            p.maxiter = 11 + i, p.time = 0.5 + i, p.polish = false, p.adaptive = false, p.verbose = i % 2 == 0;
            b.c->params(p);
            break;
        case 3:
            p = Params();
            p.maxiter = 1;
            p.time = i % 2 ? 2 : 0;
            p.alpha = i % 2 ? 1.9 : 0.2;
            p.eps_rel = 1e-9;
            p.warm = i % 2;
            p.eps_abs = 0;
            b.c->params(p);
            break;
        case 4:
            p = Params();
            b.c->defaultParams();
            break;
        case 5:
        case 6:
        {
            int k = op == 5 ? i : 7;
            V x = vec(nz, 30 + k), y = vec(nc, 40 + k);
            px.assign(x.data(), x.data() + nz);
            py.assign(y.data(), y.data() + nc);
            if (op == 6 && i % 2)
                px.clear(), py.clear(); // nothing to start from
            b.c->setWarm(px, py);
            break;
        }
        case 7:
            apply(b.c.get(), cf, {REFS, MATRIX, i});
            break;
        default:
            step(std::vector<int>{OSQP_SOLVED, OSQP_SOLVED_INACCURATE, OSQP_MAX_ITER_REACHED, OSQP_PRIMAL_INFEASIBLE, OSQP_SIGINT, 0}[op - 8], i);
        }
        t.check(b.c->primal() == px, "stored-primal");
        t.check(b.c->dual() == py, "stored-dual");
    }
    step(OSQP_TIME_LIMIT_REACHED, n);
    step(OSQP_SOLVED, n + 1);
}

int main(int argc, char **argv)
{
    mc::Spec s;
    s.property = "C24";
    s.body = body;
    s.rule = "one execution: a sequence of parameter changes, warm start assignments and steps with chosen outcomes; settings, starting points and stored points are compared with a reference model at every step";
    s.bound = "sequences of 4 (5) operations out of 14, followed by two steps";
    s.assumptions = {STANDIN, "warm start points of the right size (or empty)"};
    s.split = 4;
    return lin::main(argc, argv, s);
}
