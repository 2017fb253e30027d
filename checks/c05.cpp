// C05: the bounds the solver receives are the last ones set.
#include "../nl/harness.hpp"
using namespace nl;

struct Model
{
    Dims d;
    M xl, xu, ul, uu; // rows: steps
    Model(const Dims &dd) : d(dd)
    {
        xl = M::Constant(d.ph, d.nx, -inf);
        xu = M::Constant(d.ph, d.nx, inf);
        ul = M::Constant(d.ch, d.nu, -inf);
        uu = M::Constant(d.ch, d.nu, inf);
    }
};

static V low(int n, int op)
{
    V v = ramp(n, -3 - op, -0.4);
    if (op % 3 == 2)
        v[0] = -inf;
    if (op % 5 == 3)
        v[n - 1] = 0;
    if (op % 5 == 4)
        v.array() += 6; // above zero
    if (op % 6 == 5)
        v[n - 1] = -3e12;
    return v;
}
static V high(int n, int op)
{
    V v = ramp(n, 4 + 0.5 * op, 0.7);
    if (op % 2 == 1)
        v[n - 1] = inf;
    if (op % 7 == 2)
        v = low(n, op).cwiseMax(-50).cwiseMin(-1e-3) * 0.5; // below zero
    if (op % 5 >= 3)
        v = ramp(n, 4 + 0.5 * op, 0.7);
    if (op % 6 == 4)
        v[n - 1] = 4e11;
    if (op % 4 == 3)
        v[0] = low(n, op)[0] == -inf ? 5 : low(n, op)[0]; // fixed
    return v;
}

static void verify(mc::Ctx &t, Bench &b, const Model &m, int s)
{
    const Dims d = b.d;
    Result r = b.step(meas(d, s), lastu(d, s), [&](shim::Problem &p)
                      {
        Decode dec(t, b, p);
        V l, u;
        dec.interval(t, p.lb, p.ub, l, u);
        M xl(d.ph, d.nx), xu = xl, ul(d.ch, d.nu), uu = ul;
        int o = 0;
        for (int k = 0; k < d.ph; k++)
            for (int j = 0; j < d.nx; j++, o++)
                xl(k, j) = l[o], xu(k, j) = u[o];
        for (int k = 0; k < d.ch; k++)
            for (int j = 0; j < d.nu; j++, o++)
                ul(k, j) = l[o], uu(k, j) = u[o];
        t.nearM(xl, m.xl, 1e-9, "state-lower-bounds");
        t.nearM(xu, m.xu, 1e-9, "state-upper-bounds");
        t.nearM(ul, m.ul, 1e-9, "input-lower-bounds");
        t.nearM(uu, m.uu, 1e-9, "input-upper-bounds");
        t.observeM(l);
        t.observeM(u);
        return shim::Answer{NLOPT_SUCCESS, p.x0, 1}; });
    t.check(r.status == SUCCESS, "no-step", r.msg);
}

static void body(mc::Ctx &t)
{
    std::unique_ptr<Bench> b(bench(t));
    const Dims d = b->d;
    int sc = t.choose(2, "scaling");
    Fun f{d, 0};
    bool late = !sc && t.flag("functions-last");
    if (!late)
        b->functions(f);
    scaling(*b->c, sc);
    Model m(d);
    Params par;
    int depth = t.thorough ? 4 : 3;
    if (d.ph + d.ch > 6)
        depth--;
    std::vector<std::pair<int, int>> xs, us;
    for (int a = -1; a <= d.ph; a++)
        for (int e = 0; e <= d.ph + 1; e++)
            if ((a >= 0 && a < e && e <= d.ph) || (a == 0 && e == 0) || (a == 1 && e == d.ph + 1) || (a == -1 && e == 1) || (a == d.ph && e == d.ph + 1))
                xs.push_back({a, e});
    for (int a = -1; a <= d.ch; a++)
        for (int e = 0; e <= d.ch + 1; e++)
            if ((a >= 0 && a < e && e <= d.ch) || (a == 0 && e == 0) || (a == 0 && e == d.ch + 1) || (a == -1 && e == 1) || (a == d.ch && e == d.ch + 1))
                us.push_back({a, e});
    int fixed = 6, rest = 8;
    for (int o = 0; o < depth; o++)
    {
        int op = t.choose(fixed + (int)xs.size() + (int)us.size() + rest, "operation");
        if (op < 2)
        {
            M l(d.nx, d.ph), u = l;
            for (int k = 0; k < d.ph; k++)
                l.col(k) = low(d.nx, 2 * o + op + k), u.col(k) = high(d.nx, 2 * o + op + k);
            if (op == 1)
                l.row(0).setConstant(-inf), u.row(0).setConstant(inf); // unbounded again
            t.check(b->c->stateBounds(l, u), "state-bounds-refused");
            m.xl = l.transpose();
            m.xu = u.transpose();
        }
        else if (op < 4)
        {
            M l(d.nu, d.ch), u = l;
            for (int k = 0; k < d.ch; k++)
                l.col(k) = low(d.nu, 2 * o + op + k), u.col(k) = high(d.nu, 2 * o + op + k);
            if (op == 3)
                l.row(0).setConstant(-inf), u.row(0).setConstant(inf);
            t.check(b->c->inputBounds(l, u), "input-bounds-refused");
            m.ul = l.transpose();
            m.uu = u.transpose();
        }
        else if (op == 4)
        {
            t.check(b->c->stateBoundsAll(low(d.nx, o), high(d.nx, o)), "state-bounds-refused");
            m.xl.rowwise() = low(d.nx, o).transpose();
            m.xu.rowwise() = high(d.nx, o).transpose();
        }
        else if (op == 5)
        {
            t.check(b->c->inputBoundsAll(low(d.nu, o), high(d.nu, o)), "input-bounds-refused");
            m.ul.rowwise() = low(d.nu, o).transpose();
            m.uu.rowwise() = high(d.nu, o).transpose();
        }
        else if (op < fixed + (int)xs.size())
        {
            auto [a, e] = xs[op - fixed];
            bool ok = a >= 0 && a < e && e <= d.ph;
            t.check(b->c->stateBounds(low(d.nx, o + 1), high(d.nx, o + 1), a, e) == ok, "state-slice-result", std::to_string(a) + "," + std::to_string(e));
            for (int k = a; ok && k < e; k++)
                m.xl.row(k) = low(d.nx, o + 1).transpose(), m.xu.row(k) = high(d.nx, o + 1).transpose();
        }
        else if (op < fixed + (int)xs.size() + (int)us.size())
        {
            auto [a, e] = us[op - fixed - xs.size()];
            bool ok = a >= 0 && a < e && e <= d.ch;
            t.check(b->c->inputBounds(low(d.nu, o + 2), high(d.nu, o + 2), a, e) == ok, "input-slice-result", std::to_string(a) + "," + std::to_string(e));
            for (int k = a; ok && k < e; k++)
                m.ul.row(k) = low(d.nu, o + 2).transpose(), m.uu.row(k) = high(d.nu, o + 2).transpose();
        }
        else
            switch (op - fixed - (int)xs.size() - (int)us.size())
            {
            case 0: // a step, after which the bounds are checked
                if (late)
                    b->functions(f);
                late = false;
                verify(t, *b, m, o);
                break;
            case 1:
                par.hard = !par.hard;
                par.maxiter += 7;
                b->c->params(par);
                break;
            case 2:
                b->c->stateScale(xscale(d, 1 + o % 2));
                break;
            case 3:
                b->c->inputScale(uscale(d, 1 + o % 2));
                break;
            case 4:
                f.v = o + 1;
                if (!late)
                    b->functions(f);
                break;
            case 5:
            {
                bool thrown = false;
                try
                {
                    if (o % 2)
                        b->c->outputBounds(V::Zero(d.ny), V::Ones(d.ny), 0, d.ph);
                    else
                        b->c->outputBounds(M::Zero(d.ny, d.ph), M::Ones(d.ny, d.ph));
                }
                catch (const std::exception &)
                {
                    thrown = true;
                }
                t.check(thrown, "output-bounds-accepted");
                break;
            }
            case 6:
                b->c->sampling(0.1 * (1 + o));
                break;
            case 7:
                b->c->defaultParams();
                break;
            }
    }
    if (late)
        b->functions(f);
    verify(t, *b, m, 1);
    if (t.thorough && t.flag("another-step"))
        verify(t, *b, m, 2);
}

int main(int argc, char **argv)
{
    quiet();
    if (!shim::selftest())
        return 2;
    mc::Spec s;
    s.property = "C05";
    s.body = body;
    s.rule = "one execution: a history of setter calls (bounds in matrix and slice form, every slice including refused ones, everything else which must not touch them, steps) followed by steps in which the bounds given to the solver are decoded and compared with a map from steps to the last accepted call";
    s.bound = "histories of 3 (4) calls";
    s.assumptions = {"the solver is replaced by the harness", "bounds with minimum <= maximum"};
    s.split = 5;
    return mc::run(argc, argv, s);
}
