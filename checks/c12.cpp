// C12: the controller with its real solver solves the optimal control problem.
#include "../mc/qp.hpp"
#include "../nl/harness.hpp"
using namespace nl;

// a linear problem: discrete model (or continuous by the trapezoidal rule), quadratic cost,
// bounds, linear user constraints
struct Prob
{
    Dims d;
    M A, B, C;
    V c0, xr, ur;
    double Ts = 0, ws = 5, offset = 0;
    int kind = 0; // bit 0: input bounds, 1: state bounds, 2: user inequality, 3: user equality
    bool soft = false;
    V ulo, uhi, xlo, xhi;

    Prob(const Dims &dd, int model, bool cont) : d(dd)
    {
        A = M::Identity(d.nx, d.nx) * (cont ? -0.4 : 0.8);
        for (int i = 0; i + 1 < d.nx; i++)
            A(i, i + 1) = model ? 0.3 : -0.25;
        if (model && d.nx > 1)
            A(1, 0) = -0.3;
        B = M(d.nx, d.nu);
        for (int i = 0; i < d.nx; i++)
            for (int j = 0; j < d.nu; j++)
                B(i, j) = (i + j) % 2 ? 0.4 : 0.9 - 0.2 * j;
        C = M(d.ny, d.nx);
        for (int i = 0; i < d.ny; i++)
            for (int j = 0; j < d.nx; j++)
                C(i, j) = 1 + 0.5 * i - 0.3 * j;
        c0 = ramp(d.nx, 0.05, 0.02);
        xr = ramp(d.nx, 0.3, -0.2);
        ur = ramp(d.nu, 0.1, 0.1);
        ulo = V::Constant(d.nu, -0.35);
        uhi = V::Constant(d.nu, 0.25);
        xlo = V::Constant(d.nx, -0.9);
        xhi = V::Constant(d.nx, 0.55);
        if (cont)
            Ts = 0.4;
    }
    double cost(const M &X, const M &Y, const M &U, double s) const
    {
        double j = ws * s * s + offset;
        for (int k = 0; k <= d.ph; k++)
            j += (X.row(k).transpose() - xr).squaredNorm() + 0.2 * Y.row(k).squaredNorm() + 0.5 * (U.row(k).transpose() - ur).squaredNorm();
        return j;
    }
    // the user inequality: a combination at every even row, one per component
    V ineq(const M &X, const M &Y, const M &U, double s) const
    {
        V c(d.ni);
        for (int i = 0; i < d.ni; i++)
        {
            int k = 1 + i % d.ph;
            c[i] = X(k, 0) + 0.5 * U(k, 0) + 0.1 * Y(k, 0) - (0.15 + 0.1 * i) - s;
        }
        return c;
    }
    V eq(const M &X, const M &U) const
    {
        V c = V::Zero(d.ne);
        if (d.ne)
            c[0] = U(0, 0) + 0.2 * X(1, 0) - 0.05;
        if (d.ne > 1)
            c[1] = U(d.ph, d.nu - 1) - 0.03;
        return c;
    }
};

// the oracle: variables u (ch x nu) and the slack, all functions are affine or quadratic
struct Oracle
{
    const Prob &p;
    V x0;
    int n;
    Oracle(const Prob &q, const V &x) : p(q), x0(x), n(q.d.ch * q.d.nu + 1) {}
    Traj traj(const V &v) const
    {
        Traj t;
        const Dims &d = p.d;
        t.X = M(d.ph + 1, d.nx);
        t.U = M(d.ph + 1, d.nu);
        t.Y = M(d.ph + 1, d.ny);
        for (int k = 0; k <= d.ph; k++)
            t.U.row(k) = v.segment(std::min(k, d.ch - 1) * d.nu, d.nu).transpose();
        t.X.row(0) = x0.transpose();
        for (int k = 0; k < d.ph; k++)
        {
            V x = t.X.row(k).transpose(), u = t.U.row(k).transpose();
            if (p.Ts > 0)
            {
                // x1 = x + Ts/2 (f(x,u) + f(x1,u))
                M I = M::Identity(d.nx, d.nx);
                t.X.row(k + 1) = (I - p.Ts / 2 * p.A).fullPivLu().solve((I + p.Ts / 2 * p.A) * x + p.Ts * (p.B * u + p.c0)).transpose();
            }
            else
                t.X.row(k + 1) = (p.A * x + p.B * u + p.c0).transpose();
        }
        t.Y = t.X * p.C.transpose();
        t.s = v[n - 1];
        return t;
    }
    V ineqs(const V &v) const
    {
        Traj t = traj(v);
        std::vector<double> c;
        const Dims &d = p.d;
        for (int k = 0; k < d.ch && (p.kind & 1); k++)
            for (int j = 0; j < d.nu; j++)
                c.push_back(t.U(k, j) - p.uhi[j]), c.push_back(p.ulo[j] - t.U(k, j));
        for (int k = 1; k <= d.ph && (p.kind & 2); k++)
            for (int j = 0; j < d.nx; j++)
                c.push_back(t.X(k, j) - p.xhi[j]), c.push_back(p.xlo[j] - t.X(k, j));
        if (p.kind & 4)
        {
            V u = p.ineq(t.X, t.Y, t.U, t.s);
            for (int i = 0; i < u.size(); i++)
                c.push_back(u[i]);
        }
        return Eigen::Map<V>(c.data(), c.size());
    }
    V eqs(const V &v) const
    {
        Traj t = traj(v);
        std::vector<double> c;
        if (!p.soft)
            c.push_back(t.s);
        if (p.kind & 8)
        {
            V u = p.eq(t.X, t.U);
            for (int i = 0; i < u.size(); i++)
                c.push_back(u[i]);
        }
        return Eigen::Map<V>(c.data(), c.size());
    }
    qp::Solution solve() const
    {
        V z = V::Zero(n);
        auto cost = [&](const V &v)
        { Traj t = traj(v); return p.cost(t.X, t.Y, t.U, t.s); };
        M H(n, n);
        V g(n);
        double c = cost(z);
        V i0 = ineqs(z), e0 = eqs(z);
        M A(i0.size(), n), E(e0.size(), n);
        for (int i = 0; i < n; i++)
        {
            V u = z;
            u[i] = 1;
            double cp = cost(u), cm = cost(-u);
            g[i] = (cp - cm) / 2;
            H(i, i) = cp + cm - 2 * c;
            A.col(i) = ineqs(u) - i0;
            E.col(i) = eqs(u) - e0;
        }
        for (int i = 0; i < n; i++)
            for (int j = 0; j < i; j++)
            {
                V u = z;
                u[i] = u[j] = 1;
                H(i, j) = H(j, i) = cost(u) - c - (g[i] + H(i, i) / 2) - (g[j] + H(j, j) / 2);
            }
        qp::Solution s = qp::solve(H, g, E, -e0, A, -i0);
        s.cost += c;
        return s;
    }
};

static void body(mc::Ctx &t)
{
    // small problems
    static std::vector<std::pair<Dims, bool>> sizes = []
    {
        std::vector<std::pair<Dims, bool>> v;
        for (auto &s : statics())
            v.push_back({s, false});
        for (Dims s : {Dims{1, 1, 1, 1, 1, 1, 0}, Dims{2, 1, 1, 3, 2, 2, 1}, Dims{1, 1, 2, 4, 1, 0, 0}, Dims{2, 2, 1, 2, 1, 1, 0}, Dims{1, 1, 1, 4, 3, 1, 1}})
            v.push_back({s, true});
        return v;
    }();
    auto [d, dynamic] = t.pick(sizes, "size");
    t.note((dynamic ? "dynamic " : "static ") + d.str());
    Bench b(d, dynamic);
    int kind = t.choose(16, "constraints");
    Prob p(d, t.choose(2, "model"), t.flag("continuous"));
    p.kind = kind;
    if ((kind & 4 && !d.ni) || (kind & 8 && !d.ne))
        return;
    if (kind & 4)
        p.soft = t.flag("soft");
    int sc = t.choose(2, "scaling");
    bool warm = t.flag("warm");
    // negative costs and the other tolerances
    int tol = t.choose(2, "tolerances");
    p.offset = tol ? -30 : 0;
    b.c->objective([&](const M &X, const M &Y, const M &U, double s) { return p.cost(X, Y, U, s); });
    b.c->state([&](V &dx, const V &x, const V &u, unsigned) { dx = p.A * x + p.B * u + p.c0; });
    b.c->output([&](V &y, const V &x, const V &, unsigned) { y = p.C * x; });
    if (kind & 4)
        b.c->ineq([&](V &c, const M &X, const M &Y, const M &U, double s) { c = p.ineq(X, Y, U, s); }, 1e-7);
    if (kind & 8)
        b.c->eq([&](V &c, const M &X, const M &U) { c = p.eq(X, U); }, 1e-7);
    if (p.Ts > 0)
        b.c->sampling(p.Ts);
    if (kind & 1)
        b.c->inputBoundsAll(p.ulo, p.uhi);
    if (kind & 2)
        b.c->stateBoundsAll(p.xlo, p.xhi);
    scaling(*b.c, sc);
    Params q;
    q.maxiter = 400;
    q.hard = !p.soft;
    q.warm = warm;
    q.frel = 1e-11, q.xrel = 1e-9;
    if (tol)
        q.frel = q.xrel = -1, q.fabs = 1e-10, q.xabs = 1e-9;
    b.c->params(q);
    // closed loop
    int start = t.choose(3, "start");
    V x = start == 0 ? ramp(d.nx, 0.4, -0.5) : start == 1 ? ramp(d.nx, -0.6, 0.9) : V(V::Zero(d.nx));
    V u = start == 1 ? V(V::Constant(d.nu, 0.2)) : V(V::Zero(d.nu));
    int steps = t.thorough ? 4 : 2;
    for (int s = 0; s < steps; s++)
    {
        Oracle o(p, x);
        qp::Solution ex = o.solve();
        if (!ex.feasible)
            return; // not a problem with a solution
        Result r = b.c->optimize(x, u);
        Seq sq = b.c->seq();
        std::ostringstream m;
        m.precision(10);
        m << "step " << s << " status " << r.status << " code " << r.code << " cost " << r.cost << " optimum " << ex.cost << " " << r.msg;
        t.check(r.status == SUCCESS, "status", m.str());
        t.check(r.feasible, "feasible", m.str());
        t.check(std::fabs(r.cost - ex.cost) <= 1e-5 * (1 + std::fabs(ex.cost)), "optimal-cost", m.str());
        Traj w = o.traj(ex.x);
        t.nearM(sq.U, w.U, 2e-3, "optimal-inputs");
        t.nearM(sq.X, w.X, 2e-3, "optimal-states");
        // the sequence is a trajectory inside the bounds
        V v(o.n);
        for (int k = 0; k < d.ch; k++)
            v.segment(k * d.nu, d.nu) = sq.U.row(k).transpose();
        v[o.n - 1] = w.s;
        Traj z = o.traj(v);
        t.nearM(sq.X, z.X, 1e-6, "dynamics");
        if (kind & 1)
            for (int j = 0; j < d.nu; j++)
                t.check(sq.U.col(j).minCoeff() >= p.ulo[j] - 1e-8 && sq.U.col(j).maxCoeff() <= p.uhi[j] + 1e-8, "input-bounds");
        if (kind & 2)
            for (int j = 0; j < d.nx; j++)
                t.check(sq.X.col(j).tail(d.ph).minCoeff() >= p.xlo[j] - 1e-8 && sq.X.col(j).tail(d.ph).maxCoeff() <= p.xhi[j] + 1e-8, "state-bounds");
        u = r.cmd;
        x = sq.X.row(1).transpose();
        t.observeM((sq.U * 1e-3).eval());
        t.observe((uint64_t)std::llround(r.cost * 1e3));
    }
}

int main(int argc, char **argv)
{
    quiet();
    if (!shim::selftest())
        return 2;
    mc::Spec s;
    s.property = "C12";
    s.body = body;
    s.rule = "one execution: a linear quadratic problem (size, model, discrete or continuous, constraints, scaling, start) solved in closed loop by the controller with its real solver; the optimum is computed by enumeration of the active sets";
    s.bound = "2 (4) closed loop steps, 16 combinations of constraints, 3 starts";
    s.assumptions = {"steps without an admissible sequence end the execution", "cost within 1e-5, sequences within 2e-3 of the optimum"};
    s.split = 4;
    return mc::run(argc, argv, s);
}
