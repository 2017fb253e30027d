// C03: the state equality constraint is the defect of the dynamics.
#include "../nl/harness.hpp"
using namespace nl;

static void body(mc::Ctx &t)
{
    std::unique_ptr<Bench> b(bench(t));
    const Dims d = b->d;
    int sc = t.choose(3, "scaling");
    double Ts = t.pick<double>({0, 0.3, 1.7}, "sampling");
    bool late = t.flag("sampling-last");
    Fun f{d, 0, t.flag("output")};
    if (Ts > 0 && !late)
        b->c->sampling(Ts);
    scaling(*b->c, sc);
    b->functions(f);
    if (Ts > 0 && late)
        b->c->sampling(Ts);
    int steps = t.thorough ? 3 : 2, nd = d.ph * d.nx;
    M factor; // of the rows, constant
    for (int s = 0; s < steps; s++)
    {
        V x0 = meas(d, s), u0 = lastu(d, s);
        if (s)
            switch (t.choose(4, "between"))
            {
            case 1:
                f.v = s;
                b->state(f);
                break;
            case 2:
                Ts = Ts == 0.3 ? 0.9 : 0.3;
                b->c->sampling(Ts);
                factor.resize(0, 0);
                break;
            case 3:
                sc = (sc + 1) % 3;
                b->c->stateScale(xscale(d, sc));
                b->c->inputScale(uscale(d, sc));
                factor.resize(0, 0);
                break;
            }
        b->step(x0, u0, [&](shim::Problem &p)
                {
            const int K = 5;
            Decode dec(t, *b, p);
            bool jac = t.flag("with-derivatives");
            int first = t.choose(t.thorough ? 4 : 2, "points");
            t.check((int)p.nEq() == nd + d.ne, "number-of-equalities", std::to_string(p.nEq()));
            M val(nd + d.ne, K), ex(d.ne, K), def(nd, K);
            V last;
            for (int i = 0; i < K; i++)
            {
                V z = point(p.n, 5 + first * K + i);
                if (i == 3)
                    z = first ? point(p.n, -1 - first % 3) : dec.steady(x0, u0, 0);
                if (i == 4) // close to the one before
                    z = dec.moved(last, 0, 5e-6);
                last = z;
                Traj q = dec.full(dec(z), x0);
                M J;
                b->argsOk = true;
                val.col(i) = jac ? p.eqs(z, J) : p.eqs(z);
                t.check(b->argsOk, "argument-sizes");
                ex.col(i) = Fun{d, 0}.eq(q.X, q.U);
                M r = f.defects(q.X, q.U, Ts);
                def.col(i) = Eigen::Map<V>(r.data(), nd);
            }
            Rows rows = Rows::match(t, d, val, ex);
            t.check((int)rows.dyn.size() == nd, "number-of-dynamics-rows");
            std::vector<bool> used(nd, false);
            M fac(nd, nd + d.ne);
            fac.setZero();
            for (int r : rows.dyn)
            {
                int hit = -1;
                for (int k = 0; k < nd && hit < 0; k++)
                {
                    if (used[k])
                        continue;
                    double c = val.row(r).dot(def.row(k)) / def.row(k).squaredNorm();
                    if (std::fabs(c) > 1e-6 && ((val.row(r) - c * def.row(k)).array().abs() <= 1e-8 * (1 + val.row(r).array().abs())).all())
                    {
                        hit = k;
                        fac(k, r) = c;
                    }
                }
                if (hit < 0)
                {
                    std::ostringstream o;
                    o << "row " << r << " is not the defect of one state at one step: " << val.row(r);
                    t.check(false, "not-a-defect", o.str());
                }
                used[hit] = true;
            }
            if (factor.size())
                t.nearM(fac, factor, 1e-6, "factor-changes");
            factor = fac;
            // a simulated trajectory satisfies it, another one does not
            if (Ts == 0)
            {
                V fr = dec(point(p.n, 3));
                Traj q = dec.full(fr, x0);
                V x = x0;
                for (int k = 0; k < d.ph; k++)
                {
                    x = f.state(x, q.U.row(k).transpose(), k);
                    fr.segment(k * d.nx, d.nx) = x;
                }
                V v = p.eqs(dec.encode(fr));
                for (int r : rows.dyn)
                    t.check(std::fabs(v[r]) <= 1e-7 * (1 + fr.norm()), "trajectory-violates", "residual of a trajectory of the model " + std::to_string(v[r]));
            }
            t.observeM(val);
            return shim::Answer{NLOPT_SUCCESS, point(p.n, 0), 1}; });
    }
}

int main(int argc, char **argv)
{
    quiet();
    if (!shim::selftest())
        return 2;
    mc::Spec s;
    s.property = "C03";
    s.body = body;
    s.rule = "one execution: a controller (size, scaling, sampling time set before or after the functions) and steps with a change between them; the rows of the equality constraints are matched with the defects at generic points";
    s.bound = "2 (3) steps, 2 (4) sets of 5 points";
    s.assumptions = {"the solver is replaced by the harness", "user functions are deterministic"};
    s.split = 6;
    return mc::run(argc, argv, s);
}
