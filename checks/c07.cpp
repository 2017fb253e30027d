// C07: every outcome of the solver is reported.
#include "../nl/harness.hpp"
#include <map>
using namespace nl;

// the message of a failure, from a controller which has seen nothing else
static const std::string &message(const Dims &d, bool dynamic, int code)
{
    static std::map<std::string, std::string> cache;
    std::string id = d.str() + (dynamic ? "y" : "s") + std::to_string(code);
    auto it = cache.find(id);
    if (it != cache.end())
        return it->second;
    Bench b(d, dynamic);
    b.functions(Fun{d, 0, true});
    if (code == 0)
        b.c->inputBoundsAll(V::Constant(d.nu, 3), V::Constant(d.nu, 1));
    Result r = b.step(meas(d, 0), lastu(d, 0), [&](shim::Problem &p)
                      { return shim::Answer{code ? code : -1, p.x0, 1}; });
    return cache.emplace(id, r.msg).first->second;
}

static void body(mc::Ctx &t)
{
    std::unique_ptr<Bench> b(bench(t));
    const Dims d = b->d;
    Params par;
    par.warm = t.flag("warm");
    int sc = t.choose(2, "scaling");
    Fun f{d, 0, t.flag("output")};
    b->functions(f);
    scaling(*b->c, sc);
    b->c->params(par);
    static const int codes[] = {1, 2, 3, 4, 5, 6, -1, -2, -3, -4, -5};
    V prev = V::Zero(d.nu);
    Seq empty{M::Zero(d.ph + 1, d.nx), M::Zero(d.ph + 1, d.ny), M::Zero(d.ph + 1, d.nu)};
    int steps = t.thorough ? 4 : 3;
    // before the first step
    t.nearM(b->c->seq().X, empty.X, 0, "initial-sequence");
    t.nearM(b->c->seq().U, empty.U, 0, "initial-sequence");
    t.nearM(b->c->seq().Y, empty.Y, 0, "initial-sequence");
    bool broken = false;
    for (int s = 0; s < steps; s++)
    {
        V x0 = meas(d, s), u0 = lastu(d, s);
        int o = t.choose(12, "outcome");
        double cost = s == 0 ? -12.5 : s == 1 ? 0 : s == 2 ? 1e9 : 3.25;
        bool impossible = o == 11, ok = o < 6;
        if (impossible != broken)
        {
            // bounds which admit nothing: the solver refuses the problem
            b->c->inputBoundsAll(V::Constant(d.nu, impossible ? 3 : -inf), V::Constant(d.nu, impossible ? 1 : inf));
            broken = impossible;
        }
        Traj seen;
        bool called = false;
        Result r = b->step(x0, u0, [&](shim::Problem &p)
                           {
            called = true;
            V z = point(p.n, 4 + s);
            seen = b->see(t, p, z);
            // a failing solver may leave anything behind
            if (!ok && s % 2)
                z.setConstant(NaN);
            return shim::Answer{codes[o], z, ok ? cost : (s % 2 ? NaN : cost)}; });
        Result l = b->c->last();
        Seq q = b->c->seq();
        if (ok)
        {
            t.check(called, "solver-not-called");
            t.check(r.code == codes[o], "solver-status", std::to_string(r.code));
            t.check(r.status == (codes[o] < 5 ? SUCCESS : MAX_ITERATION), "status", std::to_string(r.status) + " for code " + std::to_string(codes[o]));
            t.check(r.cost == cost, "cost", std::to_string(r.cost));
            t.nearM(r.cmd, seen.U.row(0).transpose(), 1e-9, "command");
            t.nearM(q.X, seen.X, 1e-9, "state-sequence");
            t.nearM(q.U, seen.U, 1e-9, "input-sequence");
            t.nearM(q.Y, f.outs(seen.X, seen.U), 1e-9, "output-sequence");
            prev = r.cmd;
        }
        else
        {
            t.check(called || impossible, "solver-not-called");
            t.check(r.status == ERROR, "status-of-failure", std::to_string(r.status));
            t.check(r.code == -1, "solver-status-of-failure", std::to_string(r.code));
            t.check(r.cost == inf, "cost-of-failure");
            t.check(!r.feasible, "feasible-failure");
            t.check(r.msg == message(d, b->c->dynamic, impossible ? 0 : codes[o]), "message-of-failure", r.msg);
            t.nearM(r.cmd, prev, 0, "command-of-failure");
            t.check(q.X.rows() == d.ph + 1 && q.U.rows() == d.ph + 1 && q.Y.rows() == d.ph + 1, "sequence-size");
            t.nearM(q.X, empty.X, 0, "sequence-of-failure");
            t.nearM(q.U, empty.U, 0, "sequence-of-failure");
            t.nearM(q.Y, empty.Y, 0, "sequence-of-failure");
        }
        t.check(l.code == r.code && l.cost == r.cost && l.status == r.status && l.feasible == r.feasible && l.msg == r.msg && l.cmd == r.cmd, "last-result");
        t.observe(r.status * 100 + r.code + 50);
        t.observeM(r.cmd);
        t.observeM(q.U);
    }
}

int main(int argc, char **argv)
{
    quiet();
    if (!shim::selftest())
        return 2;
    mc::Spec s;
    s.property = "C07";
    s.body = body;
    s.rule = "one execution: a sequence of steps, each with one of the outcomes of the solver (6 success codes, 5 failures, a refused problem)";
    s.bound = "3 (4) steps, 12 outcomes each";
    s.assumptions = {"the solver is replaced by the harness"};
    s.split = 5;
    return mc::run(argc, argv, s);
}
