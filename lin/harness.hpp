// Common parts of the checks of the linear controller: the specification of a configuration, the
// trajectories of its model, and the reduction of the quadratic program given to the solver to
// the free command moves w = (u(0), ..., u(ch-1)), independent of the layout of the solver's
// variables and rows.
#pragma once
#include "../mc/mc.hpp"
#include "../mc/qp.hpp"
#include "lin.hpp"
#include "osqp_stub.hpp"
#include <algorithm>
#include <cmath>
#include <map>

namespace lin
{
    inline double coef(int a, int b = 0, int c = 0, int d = 0)
    {
        uint64_t h = mc::mix(mc::mix(mc::mix(mc::mix(71, a), b), c), d);
        double v = (double)(h % 2001) / 1000.0 - 1.0;
        return std::fabs(v) < 0.05 ? v + 0.3 : v;
    }
    inline M mat(int r, int c, int id, double s = 1, double off = 0)
    {
        M m(r, c);
        for (int j = 0; j < c; j++)
            for (int i = 0; i < r; i++)
                m(i, j) = off + s * coef(id, i, j);
        return m;
    }
    inline V vec(int n, int id, double s = 1, double off = 0) { return mat(n, 1, id, s, off).col(0); }

    struct Traj
    {
        M X, U, Y; // one row per step, ph + 1 rows
    };
    struct Quad
    {
        M H; // J = w'Hw/2 + g'w + const
        V g;
    };
    struct Half
    {
        V a;
        double b; // a'w <= b, max |a| = 1
    };
    struct Halves
    {
        std::vector<Half> h;
        bool empty = false; // a constant row is violated
        std::string why;
    };

    // the values in force, one column per step
    struct Conf
    {
        Dims d;
        M A, B, C, Bd, Dd, dist, wy, wu, wd, ry, ru, rd, xl, xh, yl, yh, ul, uh;
        V smn, smx, sx, su;
        bool hasScalar = false;
        Conf() = default;
        Conf(const Dims &dd) : d(dd)
        {
            A = M::Zero(d.nx, d.nx), B = M::Zero(d.nx, d.nu), C = M::Zero(d.ny, d.nx);
            Bd = M::Zero(d.nx, d.nd), Dd = M::Zero(d.ny, d.nd);
            dist = M::Zero(d.nd, d.ph);
            wy = ry = M::Zero(d.ny, d.ph);
            wu = wd = ru = rd = M::Zero(d.nu, d.ph);
            xl = M::Constant(d.nx, d.ph, -inf), xh = -xl;
            yl = M::Constant(d.ny, d.ph, -inf), yh = -yl;
            ul = M::Constant(d.nu, d.ph, -inf), uh = -ul;
            smn = V::Constant(d.ph, -inf), smx = -smn;
            sx = V::Zero(d.nx), su = V::Zero(d.nu);
        }
        // a model, disturbances, weights and references with a distinct value everywhere
        static Conf demo(const Dims &d, int v = 0)
        {
            Conf c(d);
            int b = 1000 * v;
            c.model(b);
            c.disturb(b);
            c.dist = mat(d.nd, d.ph, b + 6);
            c.wy = mat(d.ny, d.ph, b + 7, 0.4, 0.8);
            c.wu = mat(d.nu, d.ph, b + 8, 0.3, 0.5);
            c.wd = mat(d.nu, d.ph, b + 9, 0.2, 0.4);
            c.ry = mat(d.ny, d.ph, b + 10, 2);
            c.ru = mat(d.nu, d.ph, b + 11);
            c.rd = mat(d.nu, d.ph, b + 12, .5);
            return c;
        }
        void model(int b)
        {
            A = mat(d.nx, d.nx, b + 1, 0.7), B = mat(d.nx, d.nu, b + 2), C = mat(d.ny, d.nx, b + 3);
        }
        // models with something special about the values
        static constexpr int FLAVOURS = 6;
        void flavour(int f)
        {
            M I = M::Identity(d.nx, d.nx);
            if (f == 0) // integrators without an input
                A = I, B.setZero();
            if (f == 1) // slow
                A = I + 5e-5 * A, B *= 2e-5, C *= 1e-4, Bd *= 3e-5, Dd *= 1e-5;
            if (f == 2) // large gains
                B *= 2e3, C *= 1e3, Bd *= 5e2;
            if (f == 3) // nothing is seen, nothing lasts
                A.setZero(), C.setZero();
            if (f == 4) // equal entries
                A = -I, B.setOnes(), C.setOnes(), Bd.setOnes(), Dd.setConstant(-1), dist.setOnes();
            if (f == 5) // a chain
            {
                A.setZero(), B.setZero(), C.setZero();
                for (int i = 0; i + 1 < d.nx; i++)
                    A(i, i + 1) = 1;
                B(d.nx - 1, d.nu - 1) = 1, C(0, 0) = 1;
                Bd.setZero(), Dd.setZero();
            }
        }
        void disturb(int b)
        {
            Bd = mat(d.nx, d.nd, b + 4, .5), Dd = mat(d.ny, d.nd, b + 5, .5);
        }
        // input bounds are held after the control horizon
        void inputStep(int k, const V &l, const V &h)
        {
            ul.col(k) = l, uh.col(k) = h;
            if (k == d.ch - 1)
                for (int j = d.ch; j < d.ph; j++)
                    ul.col(j) = l, uh.col(j) = h;
        }
        void apply(Ctl &c) const
        {
            c.model(A, B, C);
            c.disturbances(Bd, Dd);
            c.exogenous(dist);
            c.weights(wy, wu, wd);
            c.references(ry, ru, rd);
            c.stateBounds(xl, xh);
            c.outputBounds(yl, yh);
            c.inputBounds(ul.leftCols(d.ch), uh.leftCols(d.ch));
            if (hasScalar)
                for (int k = 0; k < d.ph; k++)
                    c.scalar((unsigned)k, smn[k], smx[k], sx, su);
        }

        int col(int k) const { return k > 0 ? k - 1 : 0; } // the column which speaks of row k
        Traj traj(const V &x0, const V &w) const
        {
            Traj t;
            t.X.resize(d.ph + 1, d.nx);
            t.U.resize(d.ph + 1, d.nu);
            t.Y.resize(d.ph + 1, d.ny);
            for (int k = 0; k <= d.ph; k++)
                t.U.row(k) = w.segment(std::min(k, d.ch - 1) * d.nu, d.nu).transpose();
            V x = x0;
            for (int k = 0; k <= d.ph; k++)
            {
                t.X.row(k) = x.transpose();
                t.Y.row(k) = (C * x + Dd * dist.col(col(k))).transpose();
                if (k < d.ph)
                    x = A * x + B * t.U.row(k).transpose() + Bd * dist.col(k);
            }
            return t;
        }
        int free() const { return d.nu * d.ch; }
        double cost(const V &x0, const V &u0, const V &w) const
        {
            Traj t = traj(x0, w);
            double J = 0;
            for (int k = 0; k <= d.ph; k++)
            {
                V e = t.Y.row(k).transpose() - ry.col(col(k));
                J += e.dot(wy.col(col(k)).cwiseProduct(e));
            }
            V last = u0;
            for (int k = 0; k < d.ph; k++)
            {
                V u = t.U.row(k).transpose(), e = u - ru.col(k), f = u - last - rd.col(k);
                J += e.dot(wu.col(k).cwiseProduct(e)) + f.dot(wd.col(k).cwiseProduct(f));
                last = u;
            }
            return J;
        }
        Quad quad(const V &x0, const V &u0) const
        {
            // a quadratic polynomial: exact from its values
            int n = free();
            Quad q;
            q.H.resize(n, n);
            q.g.resize(n);
            auto J = [&](const V &w)
            { return cost(x0, u0, w); };
            double j0 = J(V::Zero(n));
            std::vector<double> p(n), m(n);
            for (int i = 0; i < n; i++)
            {
                p[i] = J(V::Unit(n, i)), m[i] = J(-V::Unit(n, i));
                q.g[i] = (p[i] - m[i]) / 2;
                q.H(i, i) = p[i] + m[i] - 2 * j0;
            }
            for (int i = 0; i < n; i++)
                for (int j = 0; j < i; j++)
                    q.H(i, j) = q.H(j, i) = J(V::Unit(n, i) + V::Unit(n, j)) - p[i] - p[j] + j0;
            return q;
        }
        // every bounded quantity as (value of a trajectory, lower, upper)
        struct Row
        {
            double v, l, h;
            const char *what;
        };
        std::vector<Row> rows(const Traj &t) const
        {
            std::vector<Row> r;
            for (int k = 0; k <= d.ph; k++)
            {
                int c = col(k);
                for (int i = 0; i < d.nx; i++)
                    r.push_back({t.X(k, i), xl(i, c), xh(i, c), "state"});
                for (int i = 0; i < d.ny; i++)
                    r.push_back({t.Y(k, i), yl(i, c), yh(i, c), "output"});
                if (k < d.ph)
                    for (int i = 0; i < d.nu; i++)
                        r.push_back({t.U(k, i), ul(i, k), uh(i, k), "input"});
                r.push_back({t.X.row(k).dot(sx) + t.U.row(k).dot(su), smn[c], smx[c], "scalar"});
            }
            return r;
        }
        Halves halves(const V &x0) const;
        bool bounded() const
        {
            return xl.maxCoeff() > -inf || xh.minCoeff() < inf || yl.maxCoeff() > -inf || yh.minCoeff() < inf || ul.maxCoeff() > -inf || uh.minCoeff() < inf || smn.maxCoeff() > -inf || smx.minCoeff() < inf;
        }
        Conf unbounded() const
        {
            Conf c = *this, e(d);
            c.xl = e.xl, c.xh = e.xh, c.yl = e.yl, c.yh = e.yh, c.ul = e.ul, c.uh = e.uh, c.smn = e.smn, c.smx = e.smx;
            return c;
        }
    };

    inline void addHalf(Halves &s, V a, double b, const std::string &what, double tol = 1e-7)
    {
        if (!(b < 1e25))
            return;
        double m = a.size() ? a.cwiseAbs().maxCoeff() : 0;
        if (m < tol)
        {
            if (b < -tol)
                s.empty = true, s.why = what;
            return;
        }
        a /= m, b /= m;
        for (auto &h : s.h)
            if ((h.a - a).cwiseAbs().maxCoeff() < tol)
            {
                h.b = std::min(h.b, b);
                return;
            }
        s.h.push_back({a, b});
    }
    inline Halves Conf::halves(const V &x0) const
    {
        Halves s;
        int n = free();
        std::vector<Row> r0 = rows(traj(x0, V::Zero(n)));
        std::vector<V> a(r0.size(), V(n));
        for (int i = 0; i < n; i++)
        {
            std::vector<Row> r = rows(traj(x0, V::Unit(n, i)));
            for (size_t k = 0; k < r.size(); k++)
                a[k][i] = r[k].v - r0[k].v;
        }
        for (size_t k = 0; k < r0.size(); k++)
        {
            addHalf(s, a[k], r0[k].h - r0[k].v, r0[k].what);
            addHalf(s, -a[k], r0[k].v - r0[k].l, r0[k].what);
        }
        return s;
    }
    // is a'w <= b implied by the half-spaces of s
    inline bool implied(const Halves &s, const Half &f)
    {
        int n = (int)f.a.size();
        M A(s.h.size(), n);
        V b(s.h.size());
        for (size_t i = 0; i < s.h.size(); i++)
            A.row(i) = s.h[i].a.transpose(), b[i] = s.h[i].b;
        qp::Solution q = qp::solve(1e-7 * M::Identity(n, n), -f.a, M(0, n), V(0), A, b, 1e-9);
        return !q.feasible || f.a.dot(q.x) <= f.b + 1e-4;
    }
    inline void sameHalves(mc::Ctx &t, const Halves &got, const Halves &want, const char *key)
    {
        t.check(got.empty == want.empty, std::string(key) + (want.empty ? "-violation-missed" : "-violated"), got.empty ? "a constant row is violated" : want.why);
        if (got.empty)
            return;
        auto has = [&](const Halves &s, const Half &f)
        {
            for (auto &h : s.h)
                if ((h.a - f.a).cwiseAbs().maxCoeff() < 1e-6 && std::fabs(h.b - f.b) < 1e-6 * (1 + std::fabs(f.b)))
                    return true;
            return implied(s, f);
        };
        auto say = [](const Half &f)
        { std::ostringstream o; o << f.a.transpose() << " w <= " << f.b; return o.str(); };
        for (auto &f : want.h)
            t.check(has(got, f), std::string(key) + "-missing", "not enforced: " + say(f));
        for (auto &f : got.h)
            t.check(has(want, f), std::string(key) + "-extra", "enforced without reason: " + say(f));
    }

    // one controller under the stand-in
    struct Bench
    {
        Dims d;
        std::unique_ptr<Ctl> c;
        stub::Call call;    // the problem of the last step
        bool called = false;
        Bench(const Dims &dd, bool dynamic) : d(dd), c(make(dd, dynamic)) {}
        Bench(const Dims &dd, std::unique_ptr<Ctl> cc) : d(dd), c(std::move(cc)) {}
        Result step(const V &x0, const V &u0, std::function<stub::Answer(const stub::Call &)> f = nullptr)
        {
            called = false;
            auto old = stub::state().solve;
            stub::state().solve = [&](const stub::Call &cl)
            {
                call = cl;
                called = true;
                stub::Answer a;
                a.x = V::Zero(cl.q.size());
                a.y = V::Zero(cl.l.size());
                return f ? f(cl) : a;
            };
            Result r = c->optimize(x0, u0);
            stub::state().solve = old;
            return r;
        }
    };

    inline V flat(const Traj &t)
    {
        V r(t.X.size() + t.U.size());
        r << t.X.reshaped(), t.U.reshaped();
        return r;
    }
    // what the reported sequence of states and inputs makes of the solver's vector (a linear map,
    // learned once per size)
    inline const M &decode(const Dims &d, bool dynamic, mc::Ctx &t)
    {
        static std::map<std::string, M> cache;
        std::string id = d.str() + (dynamic ? "y" : "s");
        auto it = cache.find(id);
        if (it != cache.end())
            return it->second;
        Bench b(d, dynamic);
        Conf cf = Conf::demo(d);
        cf.apply(*b.c);
        M D;
        auto take = [&]()
        { Seq s = b.c->seq(); V r(s.X.size() + s.U.size()); r << s.X.reshaped(), s.U.reshaped(); return r; };
        b.step(V::Zero(d.nx), V::Zero(d.nu));
        t.check(b.called, "no-problem", "the solver was not called");
        int n = (int)b.call.q.size();
        for (int i = 0; i < n; i++)
        {
            b.step(V::Zero(d.nx), V::Zero(d.nu), [&](const stub::Call &cl)
                   { stub::Answer a; a.x = V::Unit(n, i); a.y = V::Zero(cl.l.size()); return a; });
            V r = take();
            if (i == 0)
                D.resize(r.size(), n);
            D.col(i) = r;
        }
        return cache.emplace(id, D).first->second;
    }

    // the solver's vectors of the trajectories: z = z0 + Z w
    struct Reduction
    {
        V z0;
        M Z;
        int kernel = 0; // dimension of the solution set of the equality rows
    };
    // from a problem without user bounds; key prefix for violations
    inline Reduction reduce(mc::Ctx &t, const Conf &cf, const V &x0, const stub::Call &p, const M &D, const char *key)
    {
        std::vector<int> eq;
        for (int i = 0; i < p.l.size(); i++)
            if (p.l[i] == p.u[i])
                eq.push_back(i);
        int n = (int)p.q.size(), ne = (int)eq.size(), m = cf.free();
        t.check(D.cols() == n, std::string(key) + "-variables");
        M E(ne, n);
        V e(ne);
        for (int i = 0; i < ne; i++)
            E.row(i) = p.A.row(eq[i]), e[i] = p.l[eq[i]];
        M K(D.rows() + ne, n);
        K << D, E;
        Eigen::ColPivHouseholderQR<M> qr(K);
        qr.setThreshold(1e-9);
        auto solve = [&](const V &w)
        {
            V r(D.rows() + ne);
            r << flat(cf.traj(x0, w)), e;
            V z = qr.solve(r);
            V err = K * z - r;
            t.check(err.cwiseAbs().maxCoeff() < 1e-7 * (1 + r.cwiseAbs().maxCoeff()), std::string(key) + "-not-admitted", "a trajectory of the model violates the equality rows or cannot be reported, residual " + std::to_string(err.cwiseAbs().maxCoeff()));
            return z;
        };
        Reduction R;
        R.z0 = solve(V::Zero(m));
        R.Z.resize(n, m);
        for (int i = 0; i < m; i++)
            R.Z.col(i) = solve(V::Unit(m, i)) - R.z0;
        Eigen::FullPivLU<M> lu(E);
        lu.setThreshold(1e-9);
        R.kernel = n - (int)lu.rank();
        t.check(R.kernel == m, std::string(key) + "-freedom", "the equality rows leave " + std::to_string(R.kernel) + " degrees of freedom instead of " + std::to_string(m));
        return R;
    }
    inline Halves halves(const stub::Call &p, const Reduction &R)
    {
        Halves s;
        V r0 = p.A * R.z0;
        M Ar = p.A * R.Z;
        for (int i = 0; i < p.l.size(); i++)
        {
            std::string w = "row " + std::to_string(i);
            if (p.u[i] < 1e25)
                addHalf(s, Ar.row(i).transpose(), p.u[i] - r0[i], w);
            if (p.l[i] > -1e25)
                addHalf(s, -Ar.row(i).transpose(), r0[i] - p.l[i], w);
        }
        return s;
    }
    inline Quad quad(const stub::Call &p, const Reduction &R)
    {
        return {R.Z.transpose() * p.P * R.Z, R.Z.transpose() * (p.P * R.z0 + p.q)};
    }
    // equal up to a positive factor, which is returned
    inline void sameQuad(mc::Ctx &t, const Quad &a, const Quad &b, const char *key)
    {
        M x(a.H.rows(), a.H.cols() + 1), y = x;
        x << a.H, a.g;
        y << b.H, b.g;
        double nx = x.norm(), ny = y.norm();
        if (ny < 1e-12)
        {
            t.check(nx < 1e-9, std::string(key) + "-not-constant");
            return;
        }
        t.check(nx > 1e-12, std::string(key) + "-constant", "the cost does not depend on the moves");
        t.nearM(M(x / nx), M(y / ny), 1e-7, key);
    }
    inline M x0s(const Dims &d) { return mat(d.nx, 3, 501); }
    inline V meas(const Dims &d, int i) { return i == 0 ? V(V::Zero(d.nx)) : vec(d.nx, 500 + i, 1.5); }
    inline V lastu(const Dims &d, int i) { return i == 0 ? V(V::Zero(d.nu)) : vec(d.nu, 600 + i, 1.2); }
}
namespace lin
{
    // a size: the compile time ones of the check, or run time ones
    inline Dims size(mc::Ctx &t, bool &dynamic, bool every = true)
    {
        static const std::vector<Dims> st = statics();
        static std::vector<Dims> dy[2];
        if (dy[0].empty())
        {
            for (auto &s : STATIC)
                dy[0].push_back(s);
            for (auto s : {Dims{1, 1, 1, 1, 2, 1}, Dims{2, 1, 0, 1, 2, 2}, Dims{2, 2, 1, 1, 3, 3}, Dims{1, 3, 2, 1, 3, 2}, Dims{2, 1, 1, 3, 5, 3}, Dims{1, 1, 2, 2, 2, 2}, Dims{2, 2, 3, 2, 4, 3}})
                dy[0].push_back(s);
            dy[1] = dy[0];
            for (int nx = 1; nx <= 3; nx++)
                for (int nu = 1; nu <= 2; nu++)
                    for (int ny = 1; ny <= 2; ny++)
                        for (int ph = 1; ph <= 5; ph++)
                            for (int ch = 1; ch <= ph; ch++)
                            {
                                Dims s{nx, nu, 1 + (nx + ny) % 2, ny, ph, ch};
                                if (std::find(dy[1].begin(), dy[1].end(), s) == dy[1].end())
                                    dy[1].push_back(s);
                            }
        }
        const std::vector<Dims> &dl = dy[t.thorough && every ? 1 : 0];
        int n = (int)st.size(), i = t.choose(n + (hasDynamic() ? (int)dl.size() : 0), "size");
        dynamic = i >= n;
        Dims d = dynamic ? dl[i - n] : st[i];
        t.note(d.str() + (dynamic ? " run time" : ""));
        return d;
    }
    const char *const STANDIN = "OSQP is replaced by a stand-in with the same interface and argument validation (lin/osqp_stub.cpp)";
    inline int main(int argc, char **argv, const mc::Spec &s)
    {
        quiet();
        return mc::run(argc, argv, s);
    }
}
namespace lin
{
    // the setters, applied to a controller and to the specification
    enum Item
    {
        MODEL,
        DISTURB,
        EXO,
        WEIGHTS,
        REFS,
        SB,
        IB,
        OB,
        SCALAR,
        CONSTR
    };
    enum Form
    {
        MATRIX,
        ALLF,  // the whole horizon
        SLICE, // [a, b)
        INDEX  // step a
    };
    struct Op
    {
        Item item;
        Form form;
        int val = 0;      // which values
        int a = 0, b = 0; // slice or index
        int side = 0;     // bounds: both, lower only, upper only, equal, none
        std::string str() const
        {
            static const char *in[] = {"model", "disturbances", "exogenous", "weights", "references", "state-bounds", "input-bounds", "output-bounds", "scalar", "constraints"};
            static const char *fn[] = {"matrix", "all", "slice", "index"};
            return std::string(in[item]) + "-" + fn[form];
        }
    };
    inline int horizon(const Dims &d, const Op &o) { return o.item == IB ? d.ch : d.ph; }
    inline bool valid(const Dims &d, const Op &o)
    {
        if (o.form == SLICE)
            return (o.a == -1 && o.b == -1) || (o.a >= 0 && o.a < o.b && o.b <= horizon(d, o));
        if (o.form == INDEX)
            return o.a >= 0 && o.a < horizon(d, o);
        return true;
    }
    // both sides of a bound, one column per step
    constexpr int SIDES = 12;
    inline std::pair<M, M> bounds(int n, int cols, int id, int side)
    {
        M l = mat(n, cols, id, 1.5, -4), h = mat(n, cols, id + 1, 1.5, 4);
        if (side == 1)
            h.setConstant(inf);
        if (side == 2)
            l.setConstant(-inf);
        if (side == 3)
            h = l;
        if (side == 4)
            l.setConstant(-inf), h.setConstant(inf);
        if (side == 5) // above zero
            l.array() += 6, h.array() += 6;
        if (side == 6) // below zero
            l.array() -= 7, h.array() -= 7;
        if (side == 7) // at zero
            l.setZero();
        if (side == 8)
            l.setConstant(-1), h.setZero();
        if (side == 9) // narrow
            l.setConstant(2e-5), h.setConstant(3e-5);
        if (side == 10) // every other one
            for (int j = 0; j < cols; j++)
                for (int i = 0; i < n; i++)
                    ((i + j) % 2 ? l(i, j) : h(i, j)) = (i + j) % 2 ? -inf : inf;
        if (side == 11) // wide
            l.setConstant(-2e6), h.setConstant(3e6);
        return {l, h};
    }
    // applies the operation to both; false when the return value is wrong
    inline bool apply(Ctl *c, Conf &s, const Op &o)
    {
        const Dims &d = s.d;
        bool ok = valid(d, o), all = o.form == ALLF || (o.form == SLICE && o.a == -1 && o.b == -1), got = ok;
        int a = all ? -1 : o.a, b = all ? -1 : o.b, id = 2000 + 50 * o.val;
        if (o.form == MATRIX)
            a = b = -1;
        int from = 0, to = horizon(d, o);
        if (o.form == SLICE && !all)
            from = o.a, to = o.b;
        if (o.form == INDEX)
            from = o.a, to = o.a + 1;
        // one column for every step written
        auto put = [&](M &m, const M &src)
        {
            if (ok)
                for (int k = from; k < to; k++)
                    m.col(k) = src.col(o.form == MATRIX ? k : 0);
        };
        switch (o.item)
        {
        case MODEL:
            s.model(id);
            if (c)
                got = c->model(s.A, s.B, s.C);
            break;
        case DISTURB:
            s.disturb(id);
            if (c)
                got = c->disturbances(s.Bd, s.Dd);
            break;
        case EXO:
        {
            M v = mat(d.nd, d.ph, id + 6);
            put(s.dist, v);
            if (c)
                got = o.form == MATRIX ? c->exogenous(v) : c->exogenous(V(v.col(0)), a, b);
            break;
        }
        case WEIGHTS:
        {
            M y = mat(d.ny, d.ph, id + 7, .4, .8), u = mat(d.nu, d.ph, id + 8, .3, .5), w = mat(d.nu, d.ph, id + 9, .2, .4);
            put(s.wy, y), put(s.wu, u), put(s.wd, w);
            if (c)
                got = o.form == MATRIX ? c->weights(y, u, w) : c->weights(V(y.col(0)), V(u.col(0)), V(w.col(0)), a, b);
            break;
        }
        case REFS:
        {
            M y = mat(d.ny, d.ph, id + 10, 2), u = mat(d.nu, d.ph, id + 11), w = mat(d.nu, d.ph, id + 12, .5);
            put(s.ry, y), put(s.ru, u), put(s.rd, w);
            if (c)
                got = o.form == MATRIX ? c->references(y, u, w) : c->references(V(y.col(0)), V(u.col(0)), V(w.col(0)), a, b);
            break;
        }
        case SB:
        {
            auto [l, h] = bounds(d.nx, d.ph, id + 14, o.side);
            put(s.xl, l), put(s.xh, h);
            if (c)
                got = o.form == MATRIX ? c->stateBounds(l, h) : c->stateBounds(V(l.col(0)), V(h.col(0)), a, b);
            break;
        }
        case OB:
        {
            auto [l, h] = bounds(d.ny, d.ph, id + 16, o.side);
            put(s.yl, l), put(s.yh, h);
            if (c)
                got = o.form == MATRIX ? c->outputBounds(l, h) : c->outputBounds(V(l.col(0)), V(h.col(0)), a, b);
            break;
        }
        case IB:
        {
            auto [l, h] = bounds(d.nu, d.ch, id + 18, o.side);
            if (ok)
                for (int k = from; k < to; k++)
                    s.inputStep(k, l.col(o.form == MATRIX ? k : 0), h.col(o.form == MATRIX ? k : 0));
            if (c)
                got = o.form == MATRIX ? c->inputBounds(l, h) : c->inputBounds(V(l.col(0)), V(h.col(0)), a, b);
            break;
        }
        case SCALAR:
        {
            auto [l, h] = bounds(1, 1, id + 20, o.side);
            V x = vec(d.nx, id + 22), u = vec(d.nu, id + 23);
            if (o.val % 3 == 1)
                x.setZero();
            if (o.val % 3 == 2)
                u.setZero();
            if (ok)
            {
                s.hasScalar = true;
                s.sx = x, s.su = u;
                for (int k = from; k < to; k++)
                    s.smn[k] = l(0, 0), s.smx[k] = h(0, 0);
            }
            if (c)
                got = o.form == INDEX ? c->scalar((unsigned)o.a, l(0, 0), h(0, 0), x, u) : c->scalar(l(0, 0), h(0, 0), x, u, a, b);
            break;
        }
        case CONSTR:
        {
            auto [xl, xh] = bounds(d.nx, 1, id + 24, o.side);
            auto [ul, uh] = bounds(d.nu, 1, id + 26, o.side);
            auto [yl, yh] = bounds(d.ny, 1, id + 28, o.side);
            ok = o.a >= 0 && o.a < d.ph;
            if (ok)
            {
                s.xl.col(o.a) = xl, s.xh.col(o.a) = xh;
                s.yl.col(o.a) = yl, s.yh.col(o.a) = yh;
                if (o.a < d.ch)
                    s.inputStep(o.a, ul, uh);
            }
            if (c)
                got = c->constraints((unsigned)o.a, xl.col(0), ul.col(0), yl.col(0), xh.col(0), uh.col(0), yh.col(0));
            break;
        }
        }
        return !c || got == ok;
    }
    // a form of the setter; every: all the slices and indices up to one past the horizon
    inline Op form(mc::Ctx &t, const Dims &d, Item it, int val, bool every)
    {
        Op o{it, MATRIX, val};
        if (it == MODEL || it == DISTURB)
            return o;
        int h = horizon(d, o);
        if (it == CONSTR)
        {
            o.form = INDEX;
            o.a = every ? t.choose(h + 2, "index") : std::vector<int>{0, h - 1, h}[t.choose(3, "index")];
            return o;
        }
        int f = t.choose(it == SCALAR ? 3 : 3, "form");
        o.form = it == SCALAR ? std::vector<Form>{ALLF, SLICE, INDEX}[f] : std::vector<Form>{MATRIX, ALLF, SLICE}[f];
        if (o.form == SLICE)
        {
            if (every)
            {
                std::vector<std::pair<int, int>> s;
                for (int a = 0; a <= h; a++)
                    for (int b = a; b <= h + 1; b++)
                        s.push_back({a, b});
                auto p = t.pick(s, "slice");
                o.a = p.first, o.b = p.second;
            }
            else
            {
                std::vector<std::pair<int, int>> s{{0, 1}, {h - 1, h}, {h - 1, h + 1}};
                auto p = t.pick(s, "slice");
                o.a = p.first, o.b = p.second;
            }
        }
        if (o.form == INDEX)
            o.a = every ? t.choose(h + 2, "index") : std::vector<int>{0, h - 1, h}[t.choose(3, "index")];
        return o;
    }
    inline bool sameProblem(mc::Ctx &t, const stub::Call &a, const stub::Call &b, const char *key)
    {
        t.nearM(a.P, b.P, 1e-9, std::string(key) + "-P");
        t.nearM(a.q, b.q, 1e-9, std::string(key) + "-q");
        t.nearM(a.A, b.A, 1e-9, std::string(key) + "-A");
        t.nearM(a.l, b.l, 1e-9, std::string(key) + "-l");
        t.nearM(a.u, b.u, 1e-9, std::string(key) + "-u");
        return true;
    }
}
