// Two controllers of the same sizes driven by the same history of calls (C14: compile time and
// run time sizes; C33: directly and through the Python module).
#pragma once
#include "../nl/harness.hpp"
#include "../lin/harness.hpp"
using namespace nl;

struct Pairs
{
    std::vector<nl::Dims> nd;
    std::vector<lin::Dims> ld;
    std::function<std::unique_ptr<nl::Ctl>(const nl::Dims &)> nl[2];
    std::function<std::unique_ptr<lin::Ctl>(const lin::Dims &)> lin[2];
    std::vector<double> tol = {nl::NaN}; // the tolerances of the functions
    bool constraints = true;             // lin: setConstraints
};

// what the solver sees
static std::vector<double> problem(Bench &b, shim::Problem &p, int pt)
{
    std::vector<double> v;
    auto add = [&](const M &m)
    { v.push_back(m.rows()); v.push_back(m.cols()); for (int j = 0; j < m.cols(); j++) for (int i = 0; i < m.rows(); i++) v.push_back(m(i, j)); };
    add(p.lb);
    add(p.ub);
    add(p.x0);
    add(vec({p.frel, p.fabs, p.xrel, p.maxtime, (double)p.maxeval}));
    add(p.xabs);
    add(p.eqTol());
    add(p.ineqTol());
    V z = point(p.n, pt), g;
    M J;
    v.push_back(p.value(z, g));
    add(g);
    add(p.eqs(z, J));
    add(J);
    add(p.ineqs(z, J));
    add(J);
    return v;
}
static V p_x0(const shim::Problem &p) { return p.x0; }
static void same(mc::Ctx &t, const std::vector<double> &a, const std::vector<double> &b, const char *key)
{
    V x = Eigen::Map<const V>(a.data(), a.size()), y = Eigen::Map<const V>(b.data(), b.size());
    t.nearM(x, y, 1e-9, key);
    t.observeM(x);
}

static void pairNonlinear(mc::Ctx &t, const Pairs &pr)
{
    Dims d = t.pick(pr.nd, "size");
    t.note(d.str());
    Bench s(d, pr.nl[0](d)), y(d, pr.nl[1](d));
    Bench *b[2] = {&s, &y};
    double tol = t.pick(pr.tol, "tolerance");
    int fn = t.choose(3, "functions"); // all, without output, without user constraints
    bool first = t.flag("functions-first");
    int v = 0;
    auto functions = [&]()
    {
        for (auto *q : b)
        {
            Fun f{d, v, fn != 1};
            bool r = q->objective(f) && q->state(f, tol);
            if (fn != 1)
                r = q->output(f) && r;
            if (fn != 2)
                r = q->ineq(f, 2 * tol) && q->eq(f, 3 * tol) && r;
            t.check(r, "functions-refused");
        }
    };
    if (first)
        functions();
    int depth = t.thorough ? 4 : 3, s0 = 0;
    auto both = [&](std::function<bool(Ctl &)> f, const char *key)
    {
        bool r0 = f(*b[0]->c), r1 = f(*b[1]->c);
        t.check(r0 == r1, key, "the results differ");
    };
    auto step = [&](int outcome, int o)
    {
        if (!first)
            functions();
        first = true;
        std::vector<double> p[2];
        Result r[2];
        Seq q[2];
        for (int i = 0; i < 2; i++)
        {
            r[i] = b[i]->step(meas(d, s0 % 3), lastu(d, s0 % 3), [&](shim::Problem &pb)
                              {
                p[i] = problem(*b[i], pb, o % 2);
                shim::Answer a{NLOPT_SUCCESS, point(pb.n, 4 + o), 2.5};
                if (outcome == 1)
                    a.code = NLOPT_FAILURE;
                if (outcome == 2)
                    a.code = NLOPT_MAXEVAL_REACHED, a.x = p_x0(pb);
                return a; });
            q[i] = b[i]->c->seq();
        }
        same(t, p[0], p[1], "another-problem");
        t.check(r[0].code == r[1].code && r[0].feasible == r[1].feasible && r[0].status == r[1].status && r[0].msg == r[1].msg, "another-result",
                std::to_string(r[0].code) + "/" + std::to_string(r[1].code) + " " + r[0].msg + "/" + r[1].msg);
        t.near(r[0].cost, r[1].cost, 1e-6, "another-cost");
        t.nearM(r[0].cmd, r[1].cmd, 1e-6, "another-command");
        t.nearM(q[0].X, q[1].X, 1e-6, "another-state-sequence");
        t.nearM(q[0].Y, q[1].Y, 1e-6, "another-output-sequence");
        t.nearM(q[0].U, q[1].U, 1e-6, "another-input-sequence");
        Result l = b[1]->c->last();
        t.check(l.status == r[0].status && l.cmd.size() == r[0].cmd.size(), "another-last-result");
        Stats e = b[0]->c->stats(), f = b[1]->c->stats();
        t.check(e.n == f.n && e.byStatus == f.byStatus, "another-statistic");
        s0++;
    };
    for (int o = 0; o < depth; o++)
    {
        int op = t.choose(15, "operation");
        switch (op)
        {
        case 0:
            both([&](Ctl &c) { return c.stateBoundsAll(ramp(d.nx, -2 - o, .1), ramp(d.nx, 3 + o, .2)); }, "state-bounds");
            break;
        case 1:
            both([&](Ctl &c) { return c.inputBoundsAll(ramp(d.nu, -2 - o, .1), ramp(d.nu, 3 + o, .2)); }, "input-bounds");
            break;
        case 2:
            both([&](Ctl &c) { return c.stateBounds(ramp(d.nx, -2 - o, .1), ramp(d.nx, 3 + o, .2), d.ph - 1, d.ph); }, "state-bounds-slice");
            break;
        case 3:
            both([&](Ctl &c) { return c.inputBounds(ramp(d.nu, -2 - o, .1), ramp(d.nu, 3 + o, .2), d.ch - 1, d.ch + o % 2); }, "input-bounds-slice");
            break;
        case 4:
            both([&](Ctl &c) { M l(d.nx, d.ph); for (int k = 0; k < d.ph; k++) l.col(k) = ramp(d.nx, -4 - k, .1); return c.stateBounds(l, -l); }, "state-bounds-matrix");
            break;
        case 5:
            both([&](Ctl &c) { M l(d.nu, d.ch); for (int k = 0; k < d.ch; k++) l.col(k) = ramp(d.nu, -4 - k, .1); return c.inputBounds(l, -l); }, "input-bounds-matrix");
            break;
        case 6:
        case 7:
        {
            Params q;
            q.maxiter = 3 + o;
            q.warm = op == 7;
            q.hard = op == 6;
            q.frel = 1e-3 * o;
            both([&](Ctl &c) { c.params(q); return true; }, "parameters");
            break;
        }
        case 8:
            both([&](Ctl &c) { c.stateScale(xscale(d, 1 + o % 2)); return true; }, "scale");
            break;
        case 9:
            both([&](Ctl &c) { c.inputScale(uscale(d, 1 + o % 2)); return true; }, "scale");
            break;
        case 10:
            both([&](Ctl &c) { return c.sampling(0.1 * (1 + o)); }, "sampling");
            break;
        case 11:
            v = o + 1;
            if (first)
                functions();
            break;
        default:
            step(op - 12, o);
        }
    }
    if (!t.thorough)
    {
        step(t.choose(3, "outcome"), 3);
        return;
    }
    step(t.choose(3, "outcome"), 3);
    step(0, 4);
}

// the linear controller
static void pairLinear(mc::Ctx &t, const Pairs &pr)
{
    using namespace lin;
    lin::Dims d = t.pick(pr.ld, "size");
    t.note("linear " + d.str());
    lin::Bench s(d, pr.lin[0](d)), y(d, pr.lin[1](d));
    lin::Bench *b[2] = {&s, &y};
    lin::Conf cf[2] = {lin::Conf(d), lin::Conf(d)};
    if (t.flag("configured"))
        for (int i = 0; i < 2; i++)
            cf[i] = lin::Conf::demo(d), cf[i].apply(*b[i]->c);
    int k = 0;
    auto step = [&](int outcome)
    {
        lin::Result r[2];
        lin::Seq q[2];
        for (int i = 0; i < 2; i++)
        {
            r[i] = b[i]->step(lin::meas(d, k % 3), lin::lastu(d, k % 2), [&](const stub::Call &c)
                              {
                stub::Answer a;
                a.status = outcome == 1 ? OSQP_PRIMAL_INFEASIBLE : outcome == 2 ? OSQP_MAX_ITER_REACHED : OSQP_SOLVED;
                a.x = lin::vec((int)c.q.size(), 50 + k), a.y = lin::vec((int)c.l.size(), 60 + k), a.obj = 1.5;
                return a; });
            q[i] = b[i]->c->seq();
            t.check(b[i]->called, "no-problem");
        }
        sameProblem(t, b[0]->call, b[1]->call, "another-linear-problem");
        t.check(b[0]->call.warm == b[1]->call.warm, "another-warm-start");
        t.nearM(b[0]->call.wx, b[1]->call.wx, 1e-12, "another-primal-start");
        t.nearM(b[0]->call.wy, b[1]->call.wy, 1e-12, "another-dual-start");
        t.check(b[0]->call.set.max_iter == b[1]->call.set.max_iter && b[0]->call.set.alpha == b[1]->call.set.alpha && b[0]->call.set.time_limit == b[1]->call.set.time_limit, "another-setting");
        t.check(r[0].code == r[1].code && r[0].feasible == r[1].feasible && r[0].status == r[1].status && r[0].msg == r[1].msg, "another-result");
        t.near(r[0].cost, r[1].cost, 1e-12, "another-cost");
        t.nearM(r[0].cmd, r[1].cmd, 1e-12, "another-command");
        t.nearM(q[0].X, q[1].X, 1e-12, "another-state-sequence");
        t.nearM(q[0].Y, q[1].Y, 1e-12, "another-output-sequence");
        t.nearM(q[0].U, q[1].U, 1e-12, "another-input-sequence");
        auto e = b[0]->c->stats(), f = b[1]->c->stats();
        t.check(e.n == f.n && e.byStatus == f.byStatus, "another-statistic");
        t.check(b[0]->c->primal() == b[1]->c->primal() && b[0]->c->dual() == b[1]->c->dual(), "another-stored-start");
        t.observeM(b[0]->call.l);
        t.observeM(r[0].cmd);
        k++;
    };
    for (int o = 0; o < 2; o++)
    {
        int op = t.choose(pr.constraints ? 13 : 12, "operation");
        if (!pr.constraints && op >= 9)
            op++;
        if (op < 10)
        {
            Op x = form(t, d, (Item)op, o, t.thorough);
            x.side = o ? 1 : 0;
            bool r0 = lin::apply(b[0]->c.get(), cf[0], x), r1 = lin::apply(b[1]->c.get(), cf[1], x);
            t.check(r0 == r1, "another-return-value", x.str());
        }
        else if (op == 10)
        {
            lin::Params p;
            p.warm = !o, p.maxiter = 20 + o, p.alpha = 1.2;
            b[0]->c->params(p), b[1]->c->params(p);
        }
        else
            step(op == 11 ? 0 : 1);
    }
    step(t.choose(3, "outcome"));
    step(0);
}

