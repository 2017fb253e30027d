// Common parts of the checks of the nonlinear controller: user functions with a distinct
// coefficient for every argument, and the trajectory encoded by a decision vector, learned by
// looking at what the user functions receive.
#pragma once
#include "../mc/mc.hpp"
#include "nl.hpp"
#include "shim.hpp"
#include <algorithm>
#include <cmath>

namespace nl
{
    struct Traj
    {
        M X, Y, U;
        double s = 0;
    };

    // a reproducible coefficient in [-1, 1], away from 0
    inline double coef0(int a, int b, int c, int d)
    {
        uint64_t h = mc::mix(mc::mix(mc::mix(mc::mix(17, a), b), c), d);
        double v = (double)(h % 2001) / 1000.0 - 1.0;
        return std::fabs(v) < 0.05 ? v + 0.3 : v;
    }
    // the same, remembered
    inline double coef(int a, int b = 0, int c = 0, int d = 0)
    {
        struct Slot
        {
            uint64_t key;
            double v;
        };
        static thread_local std::vector<Slot> tab(1 << 15, Slot{~0ull, 0});
        uint64_t key = (uint64_t)(uint16_t)a | (uint64_t)(uint16_t)b << 16 | (uint64_t)(uint16_t)c << 32 | (uint64_t)(uint16_t)d << 48;
        Slot &s = tab[(key * 0x9E3779B97F4A7C15ull) >> 49];
        if (s.key != key)
            s = {key, coef0(a, b, c, d)};
        return s.v;
    }

    // user functions, a family indexed by the variant v (redefinitions use another variant)
    struct Fun
    {
        Dims d;
        int v = 0;
        bool hasOut = true;
        V state(const V &x, const V &u, unsigned k) const
        {
            V r(d.nx);
            for (int i = 0; i < d.nx; i++)
            {
                double a = 0.1 * coef(v, 1, i) * (1 + (int)k);
                for (int j = 0; j < d.nx; j++)
                    a += coef(v, 2, i, j) * 0.6 * x[j];
                for (int j = 0; j < d.nu; j++)
                    a += coef(v, 3, i, j) * (1 + 0.25 * (int)k) * u[j];
                a += 0.2 * coef(v, 4, i) * x[i] * x[(i + 1) % d.nx] + 0.15 * coef(v, 5, i) * x[i] * u[i % d.nu];
                r[i] = a;
            }
            return r;
        }
        V out(const V &x, const V &u, unsigned k) const
        {
            V r = V::Zero(d.ny);
            if (hasOut)
                for (int i = 0; i < d.ny; i++)
                {
                    double a = 0.3 * coef(v, 6, i) + 0.05 * (int)k;
                    for (int j = 0; j < d.nx; j++)
                        a += coef(v, 7, i, j) * x[j];
                    for (int j = 0; j < d.nu; j++)
                        a += coef(v, 8, i, j) * u[j];
                    a += 0.1 * x[0] * u[0];
                    r[i] = a;
                }
            return r;
        }
        M outs(const M &X, const M &U) const
        {
            M Y(d.ph + 1, d.ny);
            for (int k = 0; k <= d.ph; k++)
                Y.row(k) = out(X.row(k).transpose(), U.row(k).transpose(), k).transpose();
            return Y;
        }
        double poly(int id, const M &X, const M *Y, const M &U, const double *s) const
        {
            double a = 0.7 * coef(v, 9, id);
            for (int k = 0; k <= d.ph; k++)
            {
                for (int j = 0; j < d.nx; j++)
                    a += coef(v, 10 + id, k, j) * X(k, j) + 0.3 * (1 + coef(v, 20 + id, k, j)) * X(k, j) * X(k, j);
                for (int j = 0; j < d.nu; j++)
                    a += coef(v, 30 + id, k, j) * U(k, j) + 0.2 * (1.5 + coef(v, 40 + id, k, j)) * U(k, j) * U(k, j);
                // every pair of neighbours is coupled
                for (int j = 0; j < d.nu; j++)
                {
                    a += 0.15 * coef(v, 70 + id, k, j) * U(k, j) * X(k, (j + k) % d.nx);
                    if (j)
                        a += 0.12 * coef(v, 71 + id, k, j) * U(k, j) * U(k, j - 1);
                    if (k)
                        a += 0.11 * coef(v, 72 + id, k, j) * U(k, j) * U(k - 1, (j + 1) % d.nu);
                }
                for (int j = 0; j < d.nx; j++)
                    if (k)
                        a += 0.13 * coef(v, 73 + id, k, j) * X(k, j) * X(k - 1, (j + 1) % d.nx);
                if (s)
                    a += 0.1 * coef(v, 74 + id, k) * *s * (U(k, 0) + X(k, d.nx - 1));
                if (Y)
                    for (int j = 0; j < d.ny; j++)
                        a += coef(v, 50 + id, k, j) * (*Y)(k, j) + 0.1 * (*Y)(k, j) * X(k, 0);
            }
            if (s)
                a += coef(v, 60 + id) * *s + 0.5 * *s * *s;
            return a;
        }
        double obj(const M &X, const M &Y, const M &U, double s) const { return poly(0, X, &Y, U, &s); }
        V ineq(const M &X, const M &Y, const M &U, double s) const
        {
            V c(d.ni);
            for (int i = 0; i < d.ni; i++)
                c[i] = poly(100 * (1 + i), X, &Y, U, &s);
            return c;
        }
        V eq(const M &X, const M &U) const
        {
            V c(d.ne);
            for (int i = 0; i < d.ne; i++)
                c[i] = poly(100 * (1 + i) + 77, X, nullptr, U, nullptr);
            return c;
        }
        // defects of the dynamics, one row per step
        M defects(const M &X, const M &U, double Ts) const
        {
            M r(d.ph, d.nx);
            for (int k = 0; k < d.ph; k++)
            {
                V x = X.row(k).transpose(), u = U.row(k).transpose(), x1 = X.row(k + 1).transpose();
                if (Ts > 0)
                    r.row(k) = (x + Ts / 2 * (state(x, u, k) + state(x1, u, k)) - x1).transpose();
                else
                    r.row(k) = (x1 - state(x, u, k)).transpose();
            }
            return r;
        }
    };

    // the user functions given to a controller, recording what they receive
    struct Bench
    {
        Dims d;
        std::unique_ptr<Ctl> c;
        std::shared_ptr<std::vector<Traj>> objCalls = std::make_shared<std::vector<Traj>>();
        bool record = false;
        std::function<void(const char *)> invoked; // before every call of a user function
        bool argsOk = true;                        // the sizes of the arguments of the user functions
        int calls = 0;
        void args(const M &X, const M *Y, const M &U)
        {
            argsOk = argsOk && X.rows() == d.ph + 1 && X.cols() == d.nx && U.rows() == d.ph + 1 && U.cols() == d.nu && (!Y || (Y->rows() == d.ph + 1 && Y->cols() == d.ny));
        }
        void args(const V &x, const V &u, int k)
        {
            argsOk = argsOk && x.size() == d.nx && u.size() == d.nu && k >= 0 && k <= d.ph;
        }

        Bench(const Dims &dd, bool dynamic) : d(dd), c(make(dd, dynamic)) {}
        Bench(const Dims &dd, std::unique_ptr<Ctl> cc) : d(dd), c(std::move(cc)) {}

        void hook(const char *n)
        {
            calls++;
            if (invoked)
                invoked(n);
        }
        bool objective(Fun f)
        {
            return c->objective([this, f](const M &X, const M &Y, const M &U, double s)
                                {
                hook("objective");
                args(X, &Y, U);
                if (record)
                    objCalls->push_back({X, Y, U, s});
                return f.obj(X, Y, U, s); });
        }
        bool state(Fun f, double tol = NaN)
        {
            return c->state([this, f](V &dx, const V &x, const V &u, unsigned k)
                            { hook("state"); args(x, u, (int)k); dx = f.state(x, u, k); }, tol);
        }
        bool output(Fun f)
        {
            return c->output([this, f](V &y, const V &x, const V &u, unsigned k)
                             { hook("output"); args(x, u, (int)k); y = f.out(x, u, k); });
        }
        bool ineq(Fun f, double tol = NaN)
        {
            if (d.ni == 0)
                return true;
            return c->ineq([this, f](V &v, const M &X, const M &Y, const M &U, double s)
                           { hook("ineq"); args(X, &Y, U); v = f.ineq(X, Y, U, s); }, tol);
        }
        bool eq(Fun f, double tol = NaN)
        {
            if (d.ne == 0)
                return true;
            return c->eq([this, f](V &v, const M &X, const M &U)
                         { hook("eq"); args(X, nullptr, U); v = f.eq(X, U); }, tol);
        }
        bool functions(const Fun &f)
        {
            bool r = objective(f);
            r = state(f) && r;
            if (f.hasOut)
                r = output(f) && r;
            r = ineq(f) && r;
            return eq(f) && r;
        }

        // the trajectory the user sees for a decision vector
        Traj see(mc::Ctx &t, const shim::Problem &p, const V &z, double *val = nullptr)
        {
            objCalls->clear();
            record = true;
            double v = p.value(z);
            record = false;
            t.check(!objCalls->empty(), "objective-not-evaluated", "the objective was evaluated without calling the user function");
            if (val)
                *val = v;
            return objCalls->front();
        }

        // one step of the controller with the given solver
        Result step(const V &x0, const V &u0, std::function<shim::Answer(shim::Problem &)> solver)
        {
            shim::state().solver = solver;
            Result r = c->optimize(x0, u0);
            shim::state().solver = nullptr;
            return r;
        }
    };

    // the affine map from the decision vector to the free part of the trajectory
    struct Decode
    {
        Dims d;
        V t0;
        M D; // rows: X rows 1..ph, U rows 0..ch-1, slack
        static V flat(const Dims &d, const Traj &t)
        {
            V r(d.ph * d.nx + d.ch * d.nu + 1);
            int o = 0;
            for (int k = 1; k <= d.ph; k++)
                for (int j = 0; j < d.nx; j++)
                    r[o++] = t.X(k, j);
            for (int k = 0; k < d.ch; k++)
                for (int j = 0; j < d.nu; j++)
                    r[o++] = t.U(k, j);
            r[o] = t.s;
            return r;
        }
        Decode() = default;
        Decode(mc::Ctx &t, Bench &b, const shim::Problem &p) : d(b.d)
        {
            V z = V::Zero(p.n);
            t0 = flat(d, b.see(t, p, z));
            D.resize(t0.size(), p.n);
            for (unsigned i = 0; i < p.n; i++)
            {
                z[i] = 1;
                D.col(i) = flat(d, b.see(t, p, z)) - t0;
                z[i] = 0;
            }
            t.check(p.n == t0.size() && D.fullPivLu().isInvertible(), "decision-vector-not-a-trajectory",
                    "the decision vectors do not correspond one to one to the trajectories");
        }
        // a constant trajectory in physical units: every state the measured one, every input u
        V steady(const V &x0, const V &u, double s) const
        {
            V f(t0.size());
            for (int k = 0; k < d.ph; k++)
                f.segment(k * d.nx, d.nx) = x0;
            for (int k = 0; k < d.ch; k++)
                f.segment(d.ph * d.nx + k * d.nu, d.nu) = u;
            f[f.size() - 1] = s;
            return encode(f);
        }
        // the vector of the trajectory which differs from that of z in entry i of the free part
        // (the last one is the slack)
        V moved(const V &z, int i, double by) const
        {
            V f = t0 + D * z;
            f[i < 0 ? f.size() + i : i] += by;
            return encode(f);
        }
        V operator()(const V &z) const { return t0 + D * z; }
        V encode(const V &f) const { return D.fullPivLu().solve(f - t0); }
        // full trajectory (X with the measured state, held inputs) from the free part
        Traj full(const V &f, const V &x0) const
        {
            Traj t;
            t.X.resize(d.ph + 1, d.nx);
            t.U.resize(d.ph + 1, d.nu);
            t.X.row(0) = x0.transpose();
            int o = 0;
            for (int k = 1; k <= d.ph; k++)
                for (int j = 0; j < d.nx; j++)
                    t.X(k, j) = f[o++];
            for (int k = 0; k < d.ch; k++)
                for (int j = 0; j < d.nu; j++)
                    t.U(k, j) = f[o++];
            for (int k = d.ch; k <= d.ph; k++)
                t.U.row(k) = t.U.row(d.ch - 1);
            t.s = f[o];
            return t;
        }
        // bounds or starting points of the solver in physical units: every variable acts on one
        // entry of the trajectory
        void interval(mc::Ctx &t, const V &lb, const V &ub, V &plb, V &pub) const
        {
            plb = V::Constant(t0.size(), -inf);
            pub = V::Constant(t0.size(), inf);
            for (int i = 0; i < D.cols(); i++)
            {
                int row = -1, cnt = 0;
                for (int r = 0; r < D.rows(); r++)
                    if (std::fabs(D(r, i)) > 1e-13)
                    {
                        row = r;
                        cnt++;
                    }
                t.check(cnt == 1, "mixed-variables", "a decision variable acts on several entries of the trajectory");
                double g = D(row, i), a = lb[i] * g + t0[row], b = ub[i] * g + t0[row];
                plb[row] = std::min(a, b);
                pub[row] = std::max(a, b);
            }
        }
    };

    // the rows of the equalities which are the user's, and those of the dynamics
    struct Rows
    {
        std::vector<int> user, dyn; // user[i]: the row of user equality i
        // values: rows of the solver at several points; expected: user values at them
        static Rows match(mc::Ctx &t, const Dims &d, const M &values, const M &expected)
        {
            Rows r;
            std::vector<bool> used(values.rows(), false);
            for (int i = 0; i < d.ne; i++)
            {
                int f = -1;
                for (int k = 0; k < values.rows() && f < 0; k++)
                    if (!used[k] && ((values.row(k) - expected.row(i)).array().abs() <= 1e-9 * (1 + expected.row(i).array().abs())).all())
                        f = k;
                t.check(f >= 0, "user-equality-missing", "no row of the equalities is user equality " + std::to_string(i));
                used[f] = true;
                r.user.push_back(f);
            }
            for (int k = 0; k < values.rows(); k++)
                if (!used[k])
                    r.dyn.push_back(k);
            return r;
        }
    };

    inline V vec(std::initializer_list<double> l)
    {
        V v(l.size());
        int i = 0;
        for (double x : l)
            v[i++] = x;
        return v;
    }
    // distinct values per component
    inline V ramp(int n, double a, double b)
    {
        V v(n);
        for (int i = 0; i < n; i++)
            v[i] = a + b * i + 0.013 * b * ((i * 7) % 5);
        return v;
    }
    inline V meas(const Dims &d, int i) { return i == 3 ? V(V::Zero(d.nx)) : i == 0 ? ramp(d.nx, 0.7, 0.45) : i == 1 ? ramp(d.nx, -1.3, 0.6)
                                                                                         : ramp(d.nx, 2.1, -0.35); }
    inline V lastu(const Dims &d, int i) { return i == 3 ? V(V::Zero(d.nu)) : i == 0 ? ramp(d.nu, -0.4, 0.8) : i == 1 ? ramp(d.nu, 0.9, -0.5)
                                                                                          : ramp(d.nu, 0.2, 0.3); }
    // decision vectors
    constexpr int SPECIAL = 5;
    inline V point(int n, int i)
    {
        switch (i)
        {
        case 0:
            return ramp(n, 0.31, 0.17);
        case 1:
            return ramp(n, -0.9, 0.11);
        case 2:
            return V::Zero(n);
        case 3:
            return ramp(n, 1.7, -0.23);
        case -1: // everything equal: repeated rows
            return V::Constant(n, 0.5);
        case -2: // pairs
        {
            V v(n);
            for (int k = 0; k < n; k++)
                v[k] = (k / 4) % 2 ? -0.75 : 1.25;
            return v;
        }
        case -3: // small
            return 1e-7 * point(n, 5);
        case -4: // large
            return 1e4 * point(n, 6);
        case -5: // one sign
            return -point(n, 7).cwiseAbs();
        default:
        {
            V v(n);
            for (int k = 0; k < n; k++)
                v[k] = 1.4 * coef(i, 900, k);
            return v;
        }
        }
    }
    inline V xscale(const Dims &d, int i) { return i == 0 ? V(V::Ones(d.nx)) : i == 1 ? ramp(d.nx, 2.5, 1.3)
                                                                                      : ramp(d.nx, 0.4, 0.3); }
    inline V uscale(const Dims &d, int i) { return i == 0 ? V(V::Ones(d.nu)) : i == 1 ? ramp(d.nu, 0.3, 0.45)
                                                                                      : ramp(d.nu, 3.0, 0.7); }
    inline void scaling(Ctl &c, int i)
    {
        if (i)
        {
            c.stateScale(xscale(c.d, i));
            c.inputScale(uscale(c.d, i));
        }
    }

    // sizes at run time: every combination, small horizons
    inline std::vector<Dims> dynDims(bool thorough)
    {
        std::vector<Dims> r = {
            {1, 1, 1, 1, 1, 1, 0},
            {2, 1, 1, 2, 1, 1, 1},
            {2, 2, 1, 3, 2, 2, 1},
            {1, 3, 2, 3, 3, 0, 2},
            {3, 1, 1, 4, 2, 3, 0},
            {3, 2, 2, 4, 3, 1, 1},
            {2, 1, 0, 2, 1, 1, 0},
            {2, 3, 3, 3, 2, 3, 2},
        };
        if (thorough)
            for (int ph = 1; ph <= 6; ph++)
                for (int ch = 1; ch <= ph; ch++)
                    for (int m = 0; m < 6; m++)
                        r.push_back({1 + m % 4, 1 + (m + ph) % 3, 1 + (m + ch) % 3, ph, ch, (m + ph + ch) % 4, (m * 2 + ph) % 3});
        return r;
    }
    // the sizes of this check, the compile time ones first
    inline Bench *bench(mc::Ctx &t)
    {
        static std::vector<Dims> st = statics(), q = dynDims(false), th = dynDims(true);
        auto &dy = t.thorough ? th : q;
        int n = (int)st.size(), m = hasDynamic() ? (int)dy.size() : 0;
        int i = t.choose(n + m, "size");
        Dims d = i < n ? st[i] : dy[i - n];
        t.note(std::string(i < n ? "static " : "dynamic ") + d.str());
        return new Bench(d, i >= n);
    }
    const int SPLIT = 2;
}
