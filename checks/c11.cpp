// C11: order and redefinition.
#include "../nl/harness.hpp"
#include <map>
using namespace nl;

// one item of the configuration with a value (w: 0 the final one, others are replaced)
enum
{
    SAMPLING,
    OBJ,
    STATE,
    OUT,
    INEQ,
    EQ,
    XS,
    US,
    PAR,
    XB,
    UB,
    ITEMS
};
static constexpr unsigned GIVEN_INEQ = 1u << INEQ, GIVEN_EQ = 1u << EQ, GIVEN_STATE = 1u << STATE;

// everything the solver sees, independent of the order of the constraints
static V fingerprint(mc::Ctx &t, Bench &b, int s, unsigned given)
{
    const Dims d = b.d;
    V all;
    b.step(meas(d, s), lastu(d, s), [&](shim::Problem &p)
           {
        std::vector<double> v;
        auto add = [&](const M &m)
        { for (int j = 0; j < m.cols(); j++) for (int i = 0; i < m.rows(); i++) v.push_back(m(i, j)); };
        add(p.lb);
        add(p.ub);
        add(p.x0);
        add(vec({p.frel, p.fabs, p.xrel, p.maxtime, p.stopval, (double)p.maxeval, (double)p.maximize, (double)p.nEq(), (double)p.nIneq()}));
        add(p.xabs);
        for (int i = 0; i < 2; i++)
        {
            V z = point(p.n, i), g;
            v.push_back(p.value(z, g));
            add(g);
            for (int e = 0; e < 2; e++)
            {
                M J, R(e ? p.nEq() : p.nIneq(), p.n + 2);
                R.col(0) = e ? p.eqs(z, J) : p.ineqs(z, J);
                R.col(1) = e ? p.eqTol() : p.ineqTol();
                R.rightCols(p.n) = J;
                std::vector<int> ix(R.rows());
                for (int k = 0; k < R.rows(); k++)
                    ix[k] = k;
                std::sort(ix.begin(), ix.end(), [&](int x, int y) { return R(x, 0) < R(y, 0); });
                for (int k : ix)
                    add(R.row(k));
            }
        }
        // the tolerances given with the functions
        auto count = [](const V &x, double v)
        { return (int)((x.array() - v).abs() < 1e-6 * v).count(); };
        if (given & GIVEN_INEQ)
            t.check(count(p.ineqTol(), 2e-6) == d.ni, "tolerance-ineq");
        if (given & GIVEN_EQ)
            t.check(count(p.eqTol(), 3e-6) == d.ne, "tolerance-eq");
        if (given & GIVEN_STATE)
            t.check(count(p.eqTol(), 1e-6) == d.ph * d.nx, "tolerance-state");
        all = Eigen::Map<V>(v.data(), v.size());
        return shim::Answer{NLOPT_SUCCESS, point(p.n, 4 + s), 1}; });
    return all;
}

static const char *names[] = {"sampling", "objective", "state", "output", "ineq", "eq", "state-scale", "input-scale", "parameters", "state-bounds", "input-bounds"};
static void item(mc::Ctx &t, Bench &b, int i, int w)
{
    const Dims d = b.d;
    Fun f{d, w};
    switch (i)
    {
    case SAMPLING:
        t.check(b.c->sampling(0.2 + 0.3 * w), "sampling");
        break;
    case OBJ:
        t.check(b.objective(f), "objective");
        break;
    case STATE:
        t.check(b.state(f, w ? 1e-3 * w : 1e-6), "state");
        break;
    case OUT:
        t.check(b.output(f), "output");
        break;
    case INEQ:
        t.check(b.ineq(f, w ? 2e-3 * w : 2e-6), "ineq");
        break;
    case EQ:
        t.check(b.eq(f, w ? 3e-3 * w : 3e-6), "eq");
        break;
    case XS:
        b.c->stateScale(xscale(d, w ? 2 : 1) * (w ? w : 1));
        break;
    case US:
        b.c->inputScale(uscale(d, w ? 2 : 1) * (w ? w : 1));
        break;
    case PAR:
    {
        Params q;
        q.maxiter = 50 + w;
        q.frel = 1e-4 / (1 + w);
        q.warm = w % 2;
        q.hard = w % 2;
        q.time = 3 * w;
        b.c->params(q);
        break;
    }
    case XB:
        t.check(b.c->stateBoundsAll(ramp(d.nx, -5 - w, -0.2), ramp(d.nx, 6 + w, 0.1)), "state-bounds");
        break;
    case UB:
        t.check(b.c->inputBoundsAll(ramp(d.nu, -7 - w, -0.2), ramp(d.nu, 8 + w, 0.1)), "input-bounds");
        break;
    }
}

static const V &reference(mc::Ctx &t, const Dims &d, bool dynamic, unsigned mask)
{
    static std::map<std::string, V> cache;
    std::string k = d.str() + (dynamic ? "d" : "s") + std::to_string(mask);
    if (!cache.count(k))
    {
        Bench r(d, dynamic);
        for (int i = 0; i < ITEMS; i++)
            if (mask >> i & 1)
                item(t, r, i, 0);
        cache[k] = fingerprint(t, r, 1, mask);
    }
    return cache[k];
}

static void body(mc::Ctx &t)
{
    std::unique_ptr<Bench> b(bench(t));
    const Dims d = b->d;
    unsigned mask = (1u << ITEMS) - 1;
    std::vector<int> order;
    if (t.flag("history"))
    {
        // any history of values, with a step somewhere, then the final values of what was touched
        int depth = t.thorough ? 4 : 3;
        std::vector<int> last(ITEMS, -1);
        mask = 1u << OBJ | 1u << STATE; // needed to make a step
        if (!t.flag("discrete"))
            mask |= 1u << SAMPLING;
        if (d.ni)
            mask |= 1u << INEQ;
        if (d.ne)
            mask |= 1u << EQ;
        for (int i = 0; i < ITEMS; i++)
            if (mask >> i & 1)
                item(t, *b, i, 1);
        std::vector<int> ops;
        for (int i = 0; i < ITEMS; i++)
            if (i != SAMPLING || (mask >> SAMPLING & 1))
                ops.push_back(i);
        for (int i = 0; i < depth; i++)
        {
            int o = t.choose((int)ops.size() + 1, "replaced");
            if (o == (int)ops.size())
                fingerprint(t, *b, 0, 0);
            else
            {
                mask |= 1u << ops[o];
                item(t, *b, ops[o], i + 1);
            }
        }
        for (int i = 0; i < ITEMS; i++)
            if (mask >> i & 1)
                order.push_back(i);
        if (t.flag("reverse"))
            std::reverse(order.begin(), order.end());
    }
    else
    {
        // any two items moved anywhere in one of two orders
        for (int i = 0; i < ITEMS; i++)
            order.push_back(i);
        if (t.flag("reverse"))
            std::reverse(order.begin(), order.end());
        for (int m = 0; m < 2; m++)
        {
            int from = t.choose(ITEMS, "move"), to = t.choose(ITEMS, "to");
            int v = order[from];
            order.erase(order.begin() + from);
            order.insert(order.begin() + to, v);
        }
        if (t.thorough && t.flag("replaced-before"))
            for (int i = 0; i < ITEMS; i++)
                item(t, *b, i, 2);
    }
    std::string n;
    for (int i : order)
    {
        item(t, *b, i, 0);
        n += std::string(n.empty() ? "" : ",") + names[i];
    }
    t.note(n);
    V got = fingerprint(t, *b, 1, mask);
    const V &ex = reference(t, d, b->c->dynamic, mask);
    t.check(got.size() == ex.size(), "another-problem", "the number of variables or constraints differs");
    t.nearM(got, ex, 1e-9, "another-problem");
    t.observeM(got);
    t.observe(mask);
}

int main(int argc, char **argv)
{
    quiet();
    if (!shim::selftest())
        return 2;
    mc::Spec s;
    s.property = "C11";
    s.body = body;
    s.rule = "one execution: the items of the configuration given in an order (any two items moved anywhere), or after a history of values they replace with steps in between; the problem given to the solver is compared with the one of a fresh controller configured in the reference order";
    s.bound = "2 x 11^4 orders per size, histories of 3 (4) replaced values";
    s.assumptions = {"the solver is replaced by the harness"};
    s.split = 5;
    return mc::run(argc, argv, s);
}
