// C32: the linear controller returns the optimum of its problem.
#include "../lin/harness.hpp"
using namespace lin;

// the exact solution of the quadratic program the solver was given
static stub::Answer exact(const stub::Call &c)
{
    int n = (int)c.q.size();
    std::vector<int> eq, in;
    for (int i = 0; i < c.l.size(); i++)
        (std::fabs(c.u[i] - c.l[i]) < 1e-12 ? eq : in).push_back(i);
    M E(eq.size(), n);
    V e(eq.size());
    for (size_t i = 0; i < eq.size(); i++)
        E.row(i) = c.A.row(eq[i]), e[i] = c.l[eq[i]];
    stub::Answer a;
    a.y = V::Zero(c.l.size());
    Eigen::FullPivLU<M> lu(E);
    lu.setThreshold(1e-9);
    V zp = lu.solve(e);
    if (!(E * zp - e).isZero(1e-8 * (1 + e.norm())))
    {
        a.status = OSQP_PRIMAL_INFEASIBLE;
        return a;
    }
    M N = lu.kernel();
    if (lu.dimensionOfKernel() == 0)
        N = M(n, 0);
    int k = (int)N.cols();
    Halves h;
    for (int i : in)
    {
        V r = c.A.row(i) * N;
        double r0 = c.A.row(i).dot(zp);
        addHalf(h, r, c.u[i] - r0, "", 1e-9);
        addHalf(h, -r, r0 - c.l[i], "", 1e-9);
    }
    if (h.empty)
    {
        a.status = OSQP_PRIMAL_INFEASIBLE;
        return a;
    }
    M A(h.h.size(), k);
    V b(h.h.size());
    for (size_t i = 0; i < h.h.size(); i++)
        A.row(i) = h.h[i].a.transpose(), b[i] = h.h[i].b;
    qp::Solution s = qp::solve(N.transpose() * c.P * N, N.transpose() * (c.P * zp + c.q), M(0, k), V(0), A, b);
    if (!s.feasible)
    {
        a.status = OSQP_PRIMAL_INFEASIBLE;
        return a;
    }
    a.x = zp + N * s.x;
    a.obj = 0.5 * a.x.dot(c.P * a.x) + c.q.dot(a.x);
    return a;
}

static void body(mc::Ctx &t)
{
    bool dy;
    Dims d = size(t, dy, true);
    if (d.nu * d.ch > (t.thorough ? 4 : 3))
        throw mc::Skip();
    Bench b(d, dy);
    int mo = t.choose(6, "model");
    Conf cf = Conf::demo(d, mo % 2);
    if (mo > 1) // not the badly scaled ones
        cf.flavour(std::vector<int>{0, 3, 4, 5}[mo - 2]);
    int bd = t.choose(6, "constraints");
    if (bd == 1 || bd == 5)
    {
        cf.ul.setConstant(-.4), cf.uh.setConstant(.3);
        cf.uh.col(d.ph - 1) = cf.uh.col(d.ch - 1);
    }
    if (bd == 2 || bd == 5)
        cf.xh.setConstant(2), cf.xh(0, d.ph - 1) = 0.6, cf.xl.setConstant(-2.5);
    if (bd == 3)
        cf.yl.setConstant(-.8), cf.yh.setConstant(1), cf.yh(d.ny - 1, d.ph - 1) = .2;
    if (bd == 4 || bd == 5)
    {
        cf.hasScalar = true;
        cf.sx = vec(d.nx, 21), cf.su = vec(d.nu, 22);
        cf.smx.setConstant(.8), cf.smn[d.ph / 2] = -.9;
    }
    cf.apply(*b.c);
    if (t.flag("scaled-weights"))
    {
        cf.wd *= 0.02, cf.wu *= 0.1, cf.wy *= 3;
        b.c->weights(cf.wy, cf.wu, cf.wd);
    }
    V x = meas(d, t.choose(3, "state")) * .6, u, cmd = V::Zero(d.nu);
    int ui = t.choose(3, "last-input"); // the third one is beyond the bounds of the next ones
    u = ui == 2 ? V(lastu(d, 1) * -6) : V(lastu(d, ui) * .3);
    int steps = 3;
    for (int s = 0; s < steps; s++)
    {
        if (s == 1)
        {
            int what = t.choose(5, "change");
            if (what == 1)
                apply(b.c.get(), cf, {EXO, MATRIX, 1});
            if (what == 2)
                apply(b.c.get(), cf, {REFS, MATRIX, 1});
            if (what == 3)
                apply(b.c.get(), cf, {MODEL, MATRIX, 1});
            if (what == 4)
            {
                Params p;
                p.warm = true;
                b.c->params(p);
            }
        }
        Result r = b.step(x, u, exact);
        t.check(b.called, "no-problem");
        // the condensed problem
        Quad q = cf.quad(x, u);
        Halves h = cf.halves(x);
        qp::Solution o;
        int m = cf.free();
        if (!h.empty)
        {
            M A(h.h.size(), m);
            V bb(h.h.size());
            for (size_t i = 0; i < h.h.size(); i++)
                A.row(i) = h.h[i].a.transpose(), bb[i] = h.h[i].b;
            o = qp::solve(q.H, q.g, M(0, m), V(0), A, bb);
        }
        if (o.feasible)
        {
            t.check(r.status == SUCCESS && r.feasible, "status", "status " + std::to_string(r.status) + " of a feasible problem");
            Traj w = cf.traj(x, o.x);
            Seq g = b.c->seq();
            t.nearM(r.cmd, V(w.U.row(0).transpose()), 1e-5, "command");
            t.nearM(g.U, w.U, 1e-5, "input-sequence");
            t.nearM(g.X, w.X, 1e-5, "state-sequence");
            t.nearM(g.Y, w.Y, 1e-5, "output-sequence");
            cmd = w.U.row(0).transpose();
        }
        else
        {
            t.check(r.status == INFEASIBLE && !r.feasible, "status", "status " + std::to_string(r.status) + " of an infeasible problem");
            t.nearM(r.cmd, cmd, 1e-6, "command-not-kept");
        }
        t.observe(o.feasible);
        t.observeM(r.cmd);
        x = cf.A * x + cf.B * r.cmd + cf.Bd * cf.dist.col(0);
        u = r.cmd;
    }
}

int main(int argc, char **argv)
{
    mc::Spec s;
    s.property = "C32";
    s.body = body;
    s.rule = "one execution: a closed loop of three steps with an exact solver (enumeration of active sets) behind the controller; status, command and sequences are compared with an independent enumeration in the condensed problem";
    s.bound = "every size of the check with at most 3 (4) free moves, 2 models, 6 sets of constraints, 2 weightings, 3 measured states, 3 last inputs, 5 changes between the steps";
    s.assumptions = {STANDIN, "the solver is exact"};
    return lin::main(argc, argv, s);
}
