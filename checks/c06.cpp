// C06: a horizon slice is accepted exactly when it lies inside its horizon.
#include "../lin/harness.hpp"
#include "../nl/harness.hpp"
#include <climits>

static std::pair<int, int> slice(mc::Ctx &t, int h)
{
    std::vector<int> v{INT_MIN, -3, -2, -1};
    for (int i = 0; i <= h + 3; i++)
        v.push_back(i);
    v.push_back(INT_MAX);
    int a = t.pick(v, "start"), b = t.pick(v, "end");
    return {a, b};
}
static bool inside(int a, int b, int h) { return (a == -1 && b == -1) || (a >= 0 && a < b && b <= h); }

static void linear(mc::Ctx &t)
{
    using namespace lin;
    bool dy;
    Dims d = size(t, dy, false);
    Bench b(d, dy);
    Conf cf = Conf::demo(d);
    for (int k = 0; k < d.ph; k++)
    {
        cf.xl.col(k).setConstant(-10 - k), cf.xh.col(k).setConstant(10 + k);
        cf.yl.col(k).setConstant(-20 - k), cf.yh.col(k).setConstant(20 + k);
        cf.inputStep(k, V::Constant(d.nu, -30 - std::min(k, d.ch - 1)), V::Constant(d.nu, 30 + k));
    }
    cf.uh = -cf.ul;
    cf.hasScalar = true;
    cf.sx = vec(d.nx, 21), cf.su = vec(d.nu, 22);
    for (int k = 0; k < d.ph; k++)
        cf.smn[k] = -40 - k, cf.smx[k] = 40 + k;
    cf.apply(*b.c);
    Item it = std::vector<Item>{EXO, WEIGHTS, REFS, SB, IB, OB, SCALAR, CONSTR}[t.choose(8, "setter")];
    Op o{it, it == CONSTR ? INDEX : SLICE, 1};
    if (it == SCALAR && t.flag("index"))
        o.form = INDEX;
    int h = horizon(d, o);
    if (o.form == INDEX)
    {
        std::vector<int> v{INT_MIN, -1};
        for (int i = 0; i <= d.ph + 3; i++)
            v.push_back(i);
        v.push_back(INT_MAX);
        o.a = t.pick(v, "index");
    }
    else
    {
        auto [a, e] = slice(t, h);
        o.a = a, o.b = e;
    }
    t.check(apply(b.c.get(), cf, o), o.str() + "-returned", std::to_string(o.a) + "," + std::to_string(o.b));
    V x0 = meas(d, 1), u0 = lastu(d, 1);
    b.step(x0, u0);
    Bench f(d, dy);
    cf.apply(*f.c);
    f.step(x0, u0);
    t.check(b.called && f.called, "no-problem");
    sameProblem(t, b.call, f.call, o.str().c_str());
    t.observeM(b.call.l);
    t.observeM(b.call.u);
    t.observeM(b.call.q);
}

static void nonlinear(mc::Ctx &t)
{
    using namespace nl;
    std::unique_ptr<Bench> b(bench(t));
    const Dims d = b->d;
    b->functions(Fun{d, 0});
    M xl(d.ph, d.nx), xu = xl, ul(d.ch, d.nu), uu = ul; // rows: steps
    for (int k = 0; k < d.ph; k++)
        xl.row(k).setConstant(-10 - k), xu.row(k).setConstant(10 + k);
    for (int k = 0; k < d.ch; k++)
        ul.row(k).setConstant(-20 - k), uu.row(k).setConstant(20 + k);
    bool set = t.flag("bounded");
    if (set)
    {
        b->c->stateBounds(M(xl.transpose()), M(xu.transpose()));
        b->c->inputBounds(M(ul.transpose()), M(uu.transpose()));
    }
    else
    {
        xl.setConstant(-inf), xu.setConstant(inf), ul.setConstant(-inf), uu.setConstant(inf);
    }
    bool st = t.flag("state");
    int h = st ? d.ph : d.ch, n = st ? d.nx : d.nu;
    auto [a, e] = slice(t, h);
    bool ok = inside(a, e, h), all = a == -1 && e == -1;
    V l = ramp(n, -3, -.4), u = ramp(n, 4, .7);
    bool r = st ? b->c->stateBounds(l, u, a, e) : b->c->inputBounds(l, u, a, e);
    t.check(r == ok, st ? "state-slice-result" : "input-slice-result", std::to_string(a) + "," + std::to_string(e));
    if (ok)
        for (int k = all ? 0 : a; k < (all ? h : e); k++)
        {
            (st ? xl : ul).row(k) = l.transpose();
            (st ? xu : uu).row(k) = u.transpose();
        }
    Result res = b->step(meas(d, 0), lastu(d, 0), [&](shim::Problem &p)
                         {
        Decode dec(t, *b, p);
        V lo, up;
        dec.interval(t, p.lb, p.ub, lo, up);
        int o = 0;
        for (int k = 0; k < d.ph; k++)
            for (int j = 0; j < d.nx; j++, o++)
                t.check(std::fabs(lo[o] - xl(k, j)) < 1e-9 || lo[o] == xl(k, j), "state-lower"), t.check(std::fabs(up[o] - xu(k, j)) < 1e-9 || up[o] == xu(k, j), "state-upper");
        for (int k = 0; k < d.ch; k++)
            for (int j = 0; j < d.nu; j++, o++)
                t.check(std::fabs(lo[o] - ul(k, j)) < 1e-9 || lo[o] == ul(k, j), "input-lower"), t.check(std::fabs(up[o] - uu(k, j)) < 1e-9 || up[o] == uu(k, j), "input-upper");
        t.observeM(lo);
        t.observeM(up);
        return shim::Answer{NLOPT_SUCCESS, p.x0, 1}; });
    t.check(res.status == SUCCESS, "no-step", res.msg);
}

int main(int argc, char **argv)
{
    lin::quiet();
    if (!shim::selftest())
        return 2;
    mc::Spec s;
    s.property = "C06";
    s.body = [](mc::Ctx &t)
    {
        if (t.flag("nonlinear"))
            nonlinear(t);
        else
            linear(t);
    };
    s.rule = "one execution: one setter call with a slice or an index on a configured controller; the returned value and the problem of the next step are compared with the specification";
    s.bound = "every start and end from -3 to horizon + 3 and the extreme integers, every setter with a slice or an index of both controllers";
    s.assumptions = {"the nonlinear solver is replaced by the harness", lin::STANDIN};
    s.split = 3;
    return mc::run(argc, argv, s);
}
