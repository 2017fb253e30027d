// C04: the derivatives are those of the values.
#include "../nl/harness.hpp"
using namespace nl;

template <class F>
static V diff(F f, V z, int i)
{
    // central differences, extrapolated
    double h = 1e-3 * std::max(1.0, std::fabs(z[i])), c = z[i];
    auto at = [&](double e)
    { z[i] = c + e; return V(f(z)); };
    V d1 = (at(h) - at(-h)) / (2 * h), d2 = (at(h / 2) - at(-h / 2)) / h;
    return (4 * d2 - d1) / 3;
}
static void compare(mc::Ctx &t, const V &got, const V &ex, const char *key, int var)
{
    for (int r = 0; r < got.size(); r++)
        if (!(std::fabs(got[r] - ex[r]) <= 2e-4 * (1 + std::fabs(ex[r]))))
        {
            std::ostringstream o;
            o << "row " << r << " variable " << var << ": " << got[r] << " instead of " << ex[r];
            t.check(false, key, o.str());
        }
    t.check(true, key);
}

// functions which are of order one, and nearly linear in the entries which are large
static double tame(double x, double phase) { return std::fabs(x) > 1e3 ? 1e-7 * x : std::sin(x + phase); }

// one entry of the trajectory is larger than the others by orders of magnitude
static void magnitudes(mc::Ctx &t, Bench *b)
{
    const Dims d = b->d;
    const int nf = d.ph * d.nx + d.ch * d.nu + 1;
    auto sum = [=](int id, const M &X, const M *Y, const M &U)
    {
        double a = 0;
        for (int k = 0; k <= d.ph; k++)
        {
            for (int j = 0; j < d.nx; j++)
                a += coef(id, 1, k, j) * tame(X(k, j), coef(id, 2, k, j));
            for (int j = 0; j < d.nu; j++)
                a += coef(id, 3, k, j) * tame(U(k, j), coef(id, 4, k, j));
            for (int j = 0; Y && j < d.ny; j++)
                a += coef(id, 5, k, j) * tame((*Y)(k, j), coef(id, 6, k, j));
        }
        return a;
    };
    b->c->state([=](V &dx, const V &x, const V &u, unsigned k)
                {
        for (int i = 0; i < d.nx; i++)
        {
            dx[i] = 0.1 * (int)k;
            for (int j = 0; j < d.nx; j++)
                dx[i] += coef(1, i, j, k) * tame(x[j], coef(2, i, j, k));
            for (int j = 0; j < d.nu; j++)
                dx[i] += coef(3, i, j, k) * tame(u[j], coef(4, i, j, k));
        } });
    if (t.flag("output"))
        b->c->output([=](V &y, const V &x, const V &u, unsigned k)
                     {
            for (int i = 0; i < d.ny; i++)
                y[i] = 0.5 * tame(x[(i + 1) % d.nx], 0.3 * i) + 0.5 * tame(u[i % d.nu], 0.2 + (int)k); });
    b->c->objective([=](const M &X, const M &Y, const M &U, double s)
                    {
        if (b->record)
            b->objCalls->push_back({X, Y, U, s});
        return sum(10, X, &Y, U) + tame(s, 0.4); });
    if (d.ni)
        b->c->ineq([=](V &c, const M &X, const M &Y, const M &U, double s)
                   {
            for (int i = 0; i < d.ni; i++)
                c[i] = sum(20 + i, X, &Y, U) + tame(s, 0.1 * i); });
    if (d.ne)
        b->c->eq([=](V &c, const M &X, const M &U)
                 {
            for (int i = 0; i < d.ne; i++)
                c[i] = sum(40 + i, X, nullptr, U); });
    int kind = t.choose(3, "function");
    int big = t.choose(nf + d.nx, "large");
    double by = t.pick<double>({1e5, -1e7}, "value");
    V x0 = meas(d, 0), u0 = lastu(d, 0);
    if (big >= nf)
        x0[big - nf] = by;
    b->step(x0, u0, [&](shim::Problem &p)
            {
        V z = point(p.n, 0);
        if (big < nf)
            z = Decode(t, *b, p).moved(z, big, by);
        auto all = [&](auto f, const M &J, const char *key)
        {
            for (unsigned i = 0; i < p.n; i++)
                compare(t, J.col(i), diff(f, z, i), key, i);
            t.observeM(J);
        };
        V g;
        M J;
        if (kind == 0)
        {
            p.value(z, g);
            all([&](const V &y) { return vec({p.value(y)}); }, g.transpose(), "objective-gradient-magnitudes");
        }
        else if (kind == 1 && d.ni)
        {
            p.ineqs(z, J);
            all([&](const V &y) { return p.ineqs(y); }, J, "inequality-jacobian-magnitudes");
        }
        else if (kind == 2)
        {
            p.eqs(z, J);
            all([&](const V &y) { return p.eqs(y); }, J, "equality-jacobian-magnitudes");
        }
        return shim::Answer{NLOPT_SUCCESS, point(p.n, 2), 1}; });
}

static void body(mc::Ctx &t)
{
    std::unique_ptr<Bench> b(bench(t));
    if (t.flag("magnitudes"))
        return magnitudes(t, b.get());
    const Dims d = b->d;
    int sc = t.choose(4, "scaling");
    Fun f{d, 0, t.flag("output")};
    double Ts = t.pick<double>({0, 0.3}, "sampling");
    bool hard = t.flag("hard");
    b->functions(f);
    if (sc == 3)
        scaling(*b->c, 2);
    scaling(*b->c, sc == 3 ? 1 : sc);
    if (Ts > 0)
        b->c->sampling(Ts);
    Params par;
    par.hard = hard;
    b->c->params(par);
    for (int s = 0; s < 2; s++)
    {
        V x0 = meas(d, s), u0 = lastu(d, s);
        if (s && t.flag("redefine"))
        {
            f.v = 1;
            b->functions(f);
        }
        b->step(x0, u0, [&](shim::Problem &p)
                {
            int kind = t.choose(3, "function");
            bool full = s || t.thorough;
            int pt = full ? t.choose(t.thorough ? 8 : 5, "point") : 0;
            V z = point(p.n, pt > 2 ? 2 - pt : pt);
            if (pt == 4)
                z = Decode(t, *b, p).steady(x0, u0, 0.3);
            if (pt > 5)
                z = point(p.n, pt - 3);
            // evaluations before
            int before = full ? t.choose(4, "before") : 0;
            V g;
            M J;
            if (before == 1)
                p.value(point(p.n, 1), g);
            if (before == 3)
            {
                // the derivatives at a point which differs in the slack and one state only
                V y = Decode(t, *b, p).moved(z, -1, 0.8);
                p.value(y, g);
                p.ineqs(y, J);
                y = Decode(t, *b, p).moved(z, 0, 0.02);
                p.eqs(y, J);
            }
            if (before == 2)
            {
                p.eqs(point(p.n, 3), J);
                p.ineqs(point(p.n, 3), J);
                p.value(z);
            }
            if (kind == 0)
            {
                double v = p.value(z, g);
                t.check(g.size() == (int)p.n, "gradient-size");
                t.near(p.value(z), v, 1e-10, "objective-value");
                for (unsigned i = 0; i < p.n; i++)
                    compare(t, vec({g[i]}), diff([&](const V &y) { return vec({p.value(y)}); }, z, i), "objective-gradient", i);
                t.observeM(g);
            }
            else if (kind == 1)
            {
                V v = p.ineqs(z, J);
                t.nearM(p.ineqs(z), v, 1e-10, "inequality-value");
                for (unsigned i = 0; i < p.n && d.ni; i++)
                    compare(t, J.col(i), diff([&](const V &y) { return p.ineqs(y); }, z, i), "inequality-jacobian", i);
                t.observeM(J);
            }
            else
            {
                V v = p.eqs(z, J);
                t.nearM(p.eqs(z), v, 1e-10, "equality-value");
                for (unsigned i = 0; i < p.n; i++)
                    compare(t, J.col(i), diff([&](const V &y) { return p.eqs(y); }, z, i), "equality-jacobian", i);
                t.observeM(J);
            }
            return shim::Answer{NLOPT_SUCCESS, point(p.n, 2), 1}; });
    }
}

int main(int argc, char **argv)
{
    quiet();
    if (!shim::selftest())
        return 2;
    mc::Spec s;
    s.property = "C04";
    s.body = body;
    s.rule = "one execution: a controller and two steps; in each one of the functions of the problem is differentiated at a point after other evaluations, or at a point with one entry larger than the others by orders of magnitude, and compared entry by entry with extrapolated central differences of its values";
    s.bound = "5 (8) points, 4 histories of evaluations, every entry of every gradient";
    s.assumptions = {"smooth user functions with values of order one (arguments up to 1e7)", "tolerance 2e-4 relative"};
    s.split = 7;
    return mc::run(argc, argv, s);
}
