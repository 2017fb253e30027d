// C17: the quadratic cost is the documented objective on every trajectory of the model.
#include "../lin/harness.hpp"
using namespace lin;

static void body(mc::Ctx &t)
{
    bool dy;
    Dims d = size(t, dy);
    const M &D = decode(d, dy, t);
    Bench b(d, dy);
    int steps = 1 + t.choose(2, "steps");
    Conf cf;
    for (int s = 0; s < steps; s++)
    {
        int kind = t.choose(steps == 1 ? 11 : 3, "cost");
        int base = 7 * s;
        cf = Conf::demo(d, 1 + s + kind);
        if (kind == 8)
        {
            // weights and references given by slices, over what the matrices gave
            cf.apply(*b.c);
            int n = 1 + t.choose(2, "calls");
            for (int i = 0; i < n; i++)
            {
                Op o = form(t, d, std::vector<Item>{WEIGHTS, REFS, EXO}[t.choose(3, "setter")], 1 + i, n == 1);
                t.check(apply(b.c.get(), cf, o), o.str() + "-returned");
            }
        }
        if (kind == 1)
            cf.wy.setZero(), cf.wd.setZero();
        if (kind == 2)
            cf.wu.setZero(), cf.ry.setZero();
        if (kind == 9)
        {
            int f = t.choose(Conf::FLAVOURS, "flavour");
            cf.flavour(f);
            if (f == 1) // for the small output to be seen
                cf.C *= 30, cf.Dd *= 100, cf.wy *= 1e2, cf.wu *= 1e-2, cf.wd *= 1e-2;
            if (f == 2)
                cf.wu *= 1e6, cf.wd *= 1e6;
        }
        if (kind == 10)
        {
            // weights and references of other magnitudes, whole numbers
            int f = t.choose(4, "magnitude");
            double c = f == 0 ? 1e-5 : f == 1 ? 1e5 : 1;
            cf.wy *= c, cf.wu *= c, cf.wd *= c;
            if (f == 2)
                cf.wy.setOnes(), cf.wu.setOnes(), cf.wd.setOnes(), cf.ry.setConstant(-1), cf.ru.setOnes(), cf.rd.setZero();
            if (f == 3)
                cf.ry *= 100, cf.ru *= -100, cf.rd *= 100;
        }
        if (kind >= 3 && kind < 8)
        {
            // a single weight
            Conf z(d);
            cf.wy = z.wy, cf.wu = z.wu, cf.wd = z.wd;
            int k = t.choose(d.ph, "step");
            if (kind == 3 || kind == 6)
                cf.wy(t.choose(d.ny, "component"), k) = 2.5;
            if (kind == 4 || kind == 6)
                cf.wu(t.choose(d.nu, "component"), k) = 1.5;
            if (kind == 5 || kind == 6)
                cf.wd(t.choose(d.nu, "component"), k) = 0.5;
            if (kind == 7) // nothing but the state matters, no disturbance
                cf.wy.setConstant(3), cf.Dd.setZero(), cf.Bd.setZero(), cf.C = mat(d.ny, d.nx, 900 + base);
        }
        if (kind != 8 && t.flag("bounded"))
        {
            cf.uh.setConstant(40), cf.ul.setConstant(-50), cf.xh.setConstant(1e3), cf.yl.setConstant(-1e3);
        }
        V x0 = meas(d, t.choose(2, "state")), u0 = lastu(d, t.choose(2, "last-input"));
        if (kind != 8)
            cf.apply(*b.c);
        b.step(x0, u0);
        t.check(b.called, "no-problem");
        // the vectors of the trajectories, from an unbounded twin
        Bench tw(d, dy);
        cf.unbounded().apply(*tw.c);
        tw.step(x0, u0);
        Reduction R = reduce(t, cf, x0, tw.call, D, "dynamics");
        Quad q = quad(b.call, R);
        Quad doc = cf.quad(x0, u0);
        sameQuad(t, q, doc, "cost");
        // the same constant and factor for the trajectories from another measured state
        double fac = (q.H.norm() + q.g.norm()) / (doc.H.norm() + doc.g.norm());
        if (std::isfinite(fac) && fac > 0)
        {
            V x1 = x0 + vec(d.nx, 503);
            stub::Call p = b.call;
            tw.step(x1, u0);
            Reduction R1 = reduce(t, cf, x1, tw.call, D, "dynamics");
            b.step(x1, u0);
            t.nearM(b.call.P, p.P, 1e-9, "cost-of-the-state-P");
            t.nearM(b.call.q, p.q, 1e-9, "cost-of-the-state-q");
            auto val = [&](const V &z)
            { return 0.5 * z.dot(p.P * z) + p.q.dot(z); };
            V w = V::Zero(cf.free());
            t.near(val(R1.z0) - val(R.z0), fac * (cf.cost(x1, u0, w) - cf.cost(x0, u0, w)), 1e-7, "cost-of-the-initial-output");
        }
        t.observeM(q.H);
        t.observeM(q.g);
    }
}

int main(int argc, char **argv)
{
    mc::Spec s;
    s.property = "C17";
    s.body = body;
    s.rule = "one execution: one or two steps of a configured controller; the quadratic cost the solver receives, reduced to the free moves on the trajectories of the model, is compared with the documented objective";
    s.bound = "every size of the check, 11 kinds of weights (every single weight of every step), two measured states and last inputs";
    s.assumptions = {STANDIN, "nonnegative weights"};
    return lin::main(argc, argv, s);
}
