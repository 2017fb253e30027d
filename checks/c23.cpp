// C23: every outcome of the linear solver is reported faithfully, never as NaN.
#include "../lin/harness.hpp"
using namespace lin;

struct Outcome
{
    int status; // 0: the setup fails with the code
    int code;
    int want;       // status of the result
    bool solution;
    int feasible;   // -1: unspecified
};
static const std::vector<Outcome> OUT = {
    {OSQP_SOLVED, 0, SUCCESS, true, 1},
    {OSQP_SOLVED_INACCURATE, 0, SUCCESS, true, 1},
    {OSQP_MAX_ITER_REACHED, 0, MAX_ITERATION, true, 1},
    {OSQP_TIME_LIMIT_REACHED, 0, MAX_ITERATION, true, -1},
    {OSQP_PRIMAL_INFEASIBLE, 0, INFEASIBLE, false, 0},
    {OSQP_PRIMAL_INFEASIBLE_INACCURATE, 0, INFEASIBLE, false, 0},
    {OSQP_DUAL_INFEASIBLE, 0, INFEASIBLE, false, 0},
    {OSQP_DUAL_INFEASIBLE_INACCURATE, 0, INFEASIBLE, false, 0},
    {OSQP_SIGINT, 0, ERROR, false, 0},
    {OSQP_NON_CVX, 0, ERROR, false, 0},
    {0, OSQP_DATA_VALIDATION_ERROR, ERROR, false, 0},
    {0, OSQP_LINSYS_SOLVER_INIT_ERROR, ERROR, false, 0},
    {0, OSQP_NONCVX_ERROR, ERROR, false, 0},
    {0, -1, ERROR, false, 0}, // refused: bounds in the wrong order
};

static void body(mc::Ctx &t)
{
    bool dy;
    Dims d = size(t, dy, false);
    if (dy && !(d == STATIC[0]) && !(d == STATIC[1]) && !(d == STATIC[4]))
        throw mc::Skip();
    const M &D = decode(d, dy, t);
    Bench b(d, dy);
    Conf cf = Conf::demo(d);
    cf.apply(*b.c);
    int warm = t.choose(3, "warm-start");
    Params p;
    p.warm = warm > 0;
    b.c->params(p);
    V cmd = V::Zero(d.nu), px, py;
    Result l0 = b.c->last();
    t.check(l0.cmd.size() == d.nu && l0.cmd.isZero(0), "initial-command");
    int n = t.thorough ? 4 : 3;
    int total[5] = {};
    for (int i = 0; i < n; i++)
    {
        if (warm == 2 && i == 1)
        {
            p.warm = false;
            b.c->params(p);
        }
        const Outcome &o = t.pick(OUT, "outcome");
        V x, y;
        bool refused = o.status == 0 && o.code < 0;
        if (refused)
        {
            M lo = M::Constant(d.ny, d.ph, 2), hi = -lo;
            b.c->outputBounds(lo, hi);
        }
        if (o.status == 0 && o.code > 0)
            stub::state().setup = [&](const stub::Call &)
            { return o.code; };
        double obj = 1.25 + i;
        Result r;
        bool threw = false;
        try
        {
            r = b.step(meas(d, i % 3), lastu(d, i % 2), [&](const stub::Call &cl)
                       {
                if (cl.warm)
                    t.check(cl.wx.allFinite() && cl.wy.allFinite(), "warm-start-not-finite");
                stub::Answer a;
                a.status = o.status;
                a.x = x = vec((int)cl.q.size(), 50 + i, 2);
                a.y = y = vec((int)cl.l.size(), 60 + i);
                a.obj = obj;
                return a; });
        }
        catch (const mc::Violation &)
        {
            throw;
        }
        catch (const mc::Skip &)
        {
            throw;
        }
        catch (...)
        {
            threw = true;
        }
        stub::state().setup = nullptr;
        t.check(!threw, "exception-escapes");
        if (refused)
        {
            t.check(!b.called, "refusal-ignored");
            b.c->outputBounds(cf.yl, cf.yh);
        }
        Seq s = b.c->seq();
        std::string id = std::to_string(o.status) + "/" + std::to_string(o.code);
        t.check(r.status == o.want, "status", "outcome " + id + " reported as " + std::to_string(r.status));
        t.check(r.cmd.size() == d.nu && r.cmd.allFinite() && s.X.allFinite() && s.U.allFinite() && s.Y.allFinite(), "not-finite", id);
        t.check(s.X.rows() == d.ph + 1 && s.X.cols() == d.nx && s.Y.rows() == d.ph + 1 && s.Y.cols() == d.ny && s.U.rows() == d.ph + 1 && s.U.cols() == d.nu, "sequence-size", id);
        if (o.solution)
        {
            V q = D * x;
            M X = q.head((d.ph + 1) * d.nx).reshaped(d.ph + 1, d.nx), U = q.tail((d.ph + 1) * d.nu).reshaped(d.ph + 1, d.nu);
            t.nearM(s.X, X, 1e-9, "state-sequence");
            t.nearM(s.U, U, 1e-9, "input-sequence");
            M Y(d.ph + 1, d.ny);
            for (int k = 0; k <= d.ph; k++)
                Y.row(k) = (cf.C * X.row(k).transpose() + cf.Dd * cf.dist.col(cf.col(k))).transpose();
            t.nearM(s.Y, Y, 1e-9, "output-sequence");
            cmd = U.row(0).transpose();
            t.near(r.cost, obj, 1e-12, "cost");
            t.check(r.code == o.status, "solver-status", id + " reported as " + std::to_string(r.code));
            px = x, py = y;
        }
        else
        {
            t.check(std::isinf(r.cost) && r.cost > 0, "cost-without-solution", id);
            t.check(s.X.isZero(0) && s.U.isZero(0) && s.Y.isZero(0), "sequence-without-solution", id);
            if (o.status)
                t.check(r.code == o.status, "solver-status", id + " reported as " + std::to_string(r.code));
        }
        t.nearM(r.cmd, cmd, 1e-9, o.solution ? "command" : "command-not-kept");
        if (o.feasible >= 0)
            t.check(r.feasible == (o.feasible == 1), "is-feasible", id);
        Result l = b.c->last();
        t.check(l.code == r.code && l.feasible == r.feasible && l.status == r.status && l.cmd == r.cmd && (l.cost == r.cost) && l.msg == r.msg, "last-result", id);
        total[o.want]++;
        Stats st = b.c->stats();
        t.check(st.n == i + 1, "steps-counted");
        for (int k = 0; k < 5; k++)
            t.check(st.byStatus[k] == total[k], "status-counts");
        t.observe(mc::mix(r.status, r.code));
        t.observeM(r.cmd);
        t.observeM(s.X);
        t.check(stub::state().live_ws == 0, "workspace-kept");
    }
}

int main(int argc, char **argv)
{
    mc::Spec s;
    s.property = "C23";
    s.body = body;
    s.rule = "one execution: a sequence of steps with chosen outcomes of the solver (every status, setup failures and refusals); result, sequence and counters are compared with a reference model after every step";
    s.bound = "sequences of 3 (4) outcomes out of 14, warm start off, on, or switched off after the first step";
    s.assumptions = {STANDIN, "an unsolved problem is not a final status of the solver", "is_feasible is unspecified for the time limit"};
    return lin::main(argc, argv, s);
}
