#include "shim.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <limits>

namespace
{
    // the objects of NLopt 2.7.1 (checked at start by selftest)
    struct Con
    {
        unsigned m;
        nlopt_func f;
        nlopt_mfunc mf;
        nlopt_precond pre;
        void *f_data;
        double *tol;
    };
    struct Opt
    {
        nlopt_algorithm algorithm;
        unsigned n;
        nlopt_func f;
        void *f_data;
        nlopt_precond pre;
        int maximize;
        void *params;
        unsigned nparams;
        double *lb, *ub;
        unsigned m, m_alloc;
        Con *fc;
        unsigned p, p_alloc;
        Con *h;
        nlopt_munge munge_on_destroy, munge_on_copy;
        double stopval, ftol_rel, ftol_abs, xtol_rel, *xtol_abs, *x_weights;
        int maxeval, numevals;
        double maxtime;
        int force_stop;
    };
}

namespace shim
{
    State &state()
    {
        static State s;
        return s;
    }

    bool Problem::stopped() const { return ((Opt *)opt)->force_stop != 0; }
    double Problem::value(const V &x) const { return f(n, x.data(), nullptr, fdata); }
    double Problem::value(const V &x, V &g) const
    {
        g = V::Constant(n, std::numeric_limits<double>::quiet_NaN());
        return f(n, x.data(), g.data(), fdata);
    }
    V Problem::value(const Block &b, const V &x) const
    {
        V r = V::Constant(b.m, std::numeric_limits<double>::quiet_NaN());
        if (b.vector)
            b.mf(b.m, r.data(), n, x.data(), nullptr, b.data);
        else
            r[0] = b.f(n, x.data(), nullptr, b.data);
        return r;
    }
    V Problem::value(const Block &b, const V &x, M &jac) const
    {
        V r = V::Constant(b.m, std::numeric_limits<double>::quiet_NaN());
        Eigen::Matrix<double, -1, -1, Eigen::RowMajor> g(b.m, n);
        g.setConstant(std::numeric_limits<double>::quiet_NaN());
        if (b.vector)
            b.mf(b.m, r.data(), n, x.data(), g.data(), b.data);
        else
            r[0] = b.f(n, x.data(), g.data(), b.data);
        jac = g;
        return r;
    }
    static unsigned count(const std::vector<Block> &v)
    {
        unsigned c = 0;
        for (auto &b : v)
            c += b.m;
        return c;
    }
    static V all(const Problem &p, const std::vector<Block> &v, const V &x, M *jac)
    {
        V r(count(v));
        if (jac)
            jac->resize(count(v), p.n);
        unsigned o = 0;
        for (auto &b : v)
        {
            if (jac)
            {
                M j;
                r.segment(o, b.m) = p.value(b, x, j);
                jac->middleRows(o, b.m) = j;
            }
            else
                r.segment(o, b.m) = p.value(b, x);
            o += b.m;
        }
        return r;
    }
    static V tols(const std::vector<Block> &v)
    {
        V r(count(v));
        unsigned o = 0;
        for (auto &b : v)
        {
            r.segment(o, b.m) = b.tol;
            o += b.m;
        }
        return r;
    }
    unsigned Problem::nIneq() const { return count(ineq); }
    unsigned Problem::nEq() const { return count(eq); }
    V Problem::ineqs(const V &x) const { return all(*this, ineq, x, nullptr); }
    V Problem::eqs(const V &x) const { return all(*this, eq, x, nullptr); }
    V Problem::ineqs(const V &x, M &j) const { return all(*this, ineq, x, &j); }
    V Problem::eqs(const V &x, M &j) const { return all(*this, eq, x, &j); }
    V Problem::ineqTol() const { return tols(ineq); }
    V Problem::eqTol() const { return tols(eq); }
    bool Problem::invalid() const
    {
        if (!f)
            return true;
        for (unsigned i = 0; i < n; i++)
            if (ub[i] < lb[i] || x0[i] < lb[i] || x0[i] > ub[i])
                return true;
        return false;
    }

    static std::vector<Block> blocks(unsigned k, const Con *c)
    {
        std::vector<Block> r;
        for (unsigned i = 0; i < k; i++)
        {
            Block b;
            b.m = c[i].m;
            b.vector = c[i].mf != nullptr;
            b.f = c[i].f;
            b.mf = c[i].mf;
            b.data = c[i].f_data;
            b.tol = V::Zero(b.m);
            if (c[i].tol)
                b.tol = Eigen::Map<const V>(c[i].tol, b.m);
            r.push_back(b);
        }
        return r;
    }
    static Problem describe(Opt *o, const double *x)
    {
        Problem p;
        p.opt = o;
        p.n = o->n;
        p.lb = Eigen::Map<const V>(o->lb, o->n);
        p.ub = Eigen::Map<const V>(o->ub, o->n);
        p.x0 = Eigen::Map<const V>(x, o->n);
        p.frel = o->ftol_rel;
        p.fabs = o->ftol_abs;
        p.xrel = o->xtol_rel;
        p.maxtime = o->maxtime;
        p.stopval = o->stopval;
        p.xabs = V::Zero(o->n);
        if (o->xtol_abs)
            p.xabs = Eigen::Map<const V>(o->xtol_abs, o->n);
        p.xweights = V::Ones(o->n);
        if (o->x_weights)
            p.xweights = Eigen::Map<const V>(o->x_weights, o->n);
        p.maxeval = o->maxeval;
        p.algorithm = o->algorithm;
        p.ineq = blocks(o->m, o->fc);
        p.eq = blocks(o->p, o->h);
        p.f = o->f;
        p.fdata = o->f_data;
        p.maximize = o->maximize;
        return p;
    }

    static double tf(unsigned, const double *, double *, void *) { return 0; }
    static void tm(unsigned, double *, unsigned, const double *, double *, void *) {}
    bool selftest()
    {
        int maj, min, bug;
        nlopt_version(&maj, &min, &bug);
        nlopt_opt o = nlopt_create(NLOPT_LD_SLSQP, 3);
        int a = 0, b = 0, c = 0;
        double lb[3] = {-1, -2, -3}, ub[3] = {4, 5, 6}, t2[2] = {0.25, 0.5}, t1[1] = {0.125}, xa[3] = {.1, .2, .3}, xw[3] = {1, 2, 3};
        nlopt_set_min_objective(o, tf, &a);
        nlopt_set_lower_bounds(o, lb);
        nlopt_set_upper_bounds(o, ub);
        nlopt_add_inequality_mconstraint(o, 2, tm, &b, t2);
        nlopt_add_equality_mconstraint(o, 1, tm, &c, t1);
        nlopt_set_ftol_rel(o, 1e-3);
        nlopt_set_ftol_abs(o, 2e-3);
        nlopt_set_xtol_rel(o, 3e-3);
        nlopt_set_xtol_abs(o, xa);
        nlopt_set_x_weights(o, xw);
        nlopt_set_maxeval(o, 77);
        nlopt_set_maxtime(o, 5.5);
        nlopt_set_stopval(o, -1e9);
        double x[3] = {1, 2, 3};
        Problem p = describe((Opt *)o, x);
        nlopt_force_stop(o);
        bool ok = p.stopped() && p.n == 3 && p.lb[2] == -3 && p.ub[1] == 5 && p.f == tf && p.fdata == &a && p.ineq.size() == 1 && p.ineq[0].mf == tm && p.ineq[0].data == &b && p.ineq[0].m == 2 &&
                  p.ineq[0].tol[1] == 0.5 && p.eq.size() == 1 && p.eq[0].data == &c && p.eq[0].tol[0] == 0.125 && p.frel == 1e-3 && p.fabs == 2e-3 && p.xrel == 3e-3 && p.xabs[1] == .2 &&
                  p.xweights[2] == 3 && p.maxeval == 77 && p.maxtime == 5.5 && p.stopval == -1e9 && !p.maximize && p.algorithm == NLOPT_LD_SLSQP;
        nlopt_destroy(o);
        return ok;
    }
}

extern "C" nlopt_result nlopt_optimize(nlopt_opt opt, double *x, double *opt_f)
{
    using namespace shim;
    using Fn = nlopt_result (*)(nlopt_opt, double *, double *);
    static Fn real = (Fn)dlsym(RTLD_NEXT, "nlopt_optimize");
    State &s = state();
    s.calls++;
    if (!s.solver)
        return (nlopt_result)(s.last_code = real(opt, x, opt_f));
    Opt *o = (Opt *)opt;
    Problem p = describe(o, x);
    if (p.invalid())
    {
        s.invalid++;
        s.last_code = NLOPT_INVALID_ARGS;
        return NLOPT_INVALID_ARGS;
    }
    *opt_f = HUGE_VAL;
    o->force_stop = 0;
    o->numevals = 0;
    Answer a = s.solver(p);
    if (a.real)
        return (nlopt_result)(s.last_code = real(opt, x, opt_f));
    if (o->force_stop)
        a.code = NLOPT_FORCED_STOP;
    s.last_code = a.code;
    if (a.x.size())
        for (unsigned i = 0; i < p.n; i++)
            x[i] = a.x[i];
    *opt_f = a.f;
    return (nlopt_result)a.code;
}
