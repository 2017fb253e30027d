// C25: the quadratic program given to the solver is well formed at every step.
#include "../lin/harness.hpp"
using namespace lin;

static void formed(mc::Ctx &t, const stub::Call &c)
{
    int n = (int)c.q.size(), m = (int)c.l.size();
    t.check(c.P.rows() == n && c.P.cols() == n && c.A.cols() == n && c.A.rows() == m && c.u.size() == m, "dimensions");
    t.check(c.P.allFinite() && c.q.allFinite() && c.A.allFinite(), "not-finite");
    for (int i = 0; i < m; i++)
    {
        t.check(!std::isnan(c.l[i]) && !std::isnan(c.u[i]) && c.l[i] < 1e25 && c.u[i] > -1e25, "bounds-not-numbers", "row " + std::to_string(i));
        t.check(c.l[i] <= c.u[i], "bounds-crossed", "row " + std::to_string(i));
    }
    auto sorted = [&](const std::vector<long long> &p, const std::vector<long long> &i, const char *key)
    {
        for (size_t j = 0; j + 1 < p.size(); j++)
            for (long long k = p[j]; k + 1 < p[j + 1]; k++)
                t.check(i[k] < i[k + 1], key, "column " + std::to_string(j));
    };
    sorted(c.Pp, c.Pi, "P-not-sorted");
    sorted(c.Ap, c.Ai, "A-not-sorted");
    Eigen::SelfAdjointEigenSolver<M> es(c.P);
    t.check(es.eigenvalues().minCoeff() > -1e-9 * (1 + es.eigenvalues().cwiseAbs().maxCoeff()), "not-convex", "smallest eigenvalue " + std::to_string(es.eigenvalues().minCoeff()));
}

static void body(mc::Ctx &t)
{
    bool dy;
    Dims d = size(t, dy);
    Bench b(d, dy);
    stub::state().refused = 0;
    int mo = t.choose(2 + Conf::FLAVOURS, "model");
    Conf cf = Conf::demo(d, mo % 2);
    if (mo > 1)
        cf.flavour(mo - 2);
    int w = t.choose(5, "weights");
    if (w == 1 || w == 4)
        cf.wy.setZero();
    if (w == 2 || w == 4)
        cf.wu.setZero();
    if (w == 3 || w == 4)
        cf.wd.setZero();
    int bd = t.choose(6, "bounds"); // none, both, lower, upper, equal, equal with disturbances removed
    if (bd)
    {
        auto fill = [&](M &l, M &h, int n, int cols, int id)
        { auto [a, c] = bounds(n, cols, id, bd == 1 ? 0 : bd == 2 ? 1 : bd == 3 ? 2 : 3); l = a, h = c; };
        int which = t.choose(4, "which");
        if (which == 0 || which == 3)
            fill(cf.xl, cf.xh, d.nx, d.ph, 301);
        if (which == 1 || which == 3)
            fill(cf.yl, cf.yh, d.ny, d.ph, 303);
        if (which == 2 || which == 3)
        {
            M l, h;
            fill(l, h, d.nu, d.ch, 305);
            for (int k = 0; k < d.ch; k++)
                cf.inputStep(k, l.col(k), h.col(k));
        }
        if (bd == 5)
            cf.Bd.setZero(), cf.Dd.setZero();
    }
    int sc = t.choose(4, "scalar");
    if (sc)
    {
        cf.hasScalar = true;
        cf.sx = sc == 2 ? V(V::Zero(d.nx)) : vec(d.nx, 310), cf.su = sc == 3 ? V(V::Zero(d.nu)) : vec(d.nu, 311);
        cf.smn[d.ph - 1] = -2, cf.smx.setConstant(3);
        if (sc == 3)
            cf.smn = cf.smx;
    }
    cf.apply(*b.c);
    std::vector<long long> p[4];
    for (int s = 0; s < 3; s++)
    {
        if (s == 1)
        {
            // the configuration of the next step: data which changes at every step
            int c = t.choose(4, "change");
            if (c == 1)
                apply(b.c.get(), cf, {EXO, MATRIX, 1});
            if (c == 2)
                apply(b.c.get(), cf, {REFS, MATRIX, 1});
            if (c == 3)
                apply(b.c.get(), cf, {EXO, SLICE, 2, 0, 1}), apply(b.c.get(), cf, {SB, SLICE, 2, d.ph - 1, d.ph});
        }
        int st = s == 0 ? t.choose(2, "outcome") : 0;
        b.step(meas(d, s), lastu(d, s % 2), [&](const stub::Call &c)
               { stub::Answer a; a.status = st ? OSQP_PRIMAL_INFEASIBLE : OSQP_SOLVED; a.x = vec((int)c.q.size(), 9); a.y = vec((int)c.l.size(), 8); return a; });
        t.check(b.called && stub::state().refused == 0, "refused", stub::state().refusal);
        formed(t, b.call);
        std::vector<long long> *g[4] = {&b.call.Pp, &b.call.Pi, &b.call.Ap, &b.call.Ai};
        for (int k = 0; k < 4; k++)
        {
            if (s)
                t.check(p[k] == *g[k], "structure-changed");
            p[k] = *g[k];
        }
        t.observeM(b.call.q);
        t.observeM(b.call.l);
        t.observeM(b.call.u);
    }
}

int main(int argc, char **argv)
{
    mc::Spec s;
    s.property = "C25";
    s.body = body;
    s.rule = "one execution: a configuration and three steps with changes of the data; every quadratic program is validated";
    s.bound = "every size of the check, 5 weightings, bounds on every quantity in 5 forms, 4 scalar constraints, changes between the steps";
    s.assumptions = {STANDIN, "nonnegative weights, consistent bounds"};
    return lin::main(argc, argv, s);
}
