// -DCFG=i: STATIC[i]; -DCFG=-1: run time sizes
#include "nl.hpp"
#include <mpc/NLMPC.hpp>

namespace nl
{
#if CFG >= 0
    constexpr Dims D = STATIC[CFG];
    using C = mpc::NLMPC<D.nx, D.nu, D.ny, D.ph, D.ch, D.ni, D.ne>;
    constexpr int NX = D.nx, NU = D.nu, NY = D.ny, PH = D.ph, CH = D.ch, NI = D.ni, NE = D.ne, PH1 = D.ph + 1;
#else
    using C = mpc::NLMPC<>;
    constexpr int NX = -1, NU = -1, NY = -1, PH = -1, CH = -1, NI = -1, NE = -1, PH1 = -1;
#endif
    namespace
    {
        Result conv(const mpc::Result<NU> &r)
        {
            Result o;
            o.code = r.solver_status;
            o.feasible = r.is_feasible;
            o.msg = r.solver_status_msg;
            o.cost = r.cost;
            switch (r.status)
            {
            case mpc::ResultStatus::SUCCESS:
                o.status = SUCCESS;
                break;
            case mpc::ResultStatus::MAX_ITERATION:
                o.status = MAX_ITERATION;
                break;
            case mpc::ResultStatus::INFEASIBLE:
                o.status = INFEASIBLE;
                break;
            case mpc::ResultStatus::ERROR:
                o.status = ERROR;
                break;
            default:
                o.status = UNKNOWN;
            }
            o.cmd = r.cmd;
            return o;
        }

        struct A : Ctl
        {
            std::unique_ptr<C> c;
            A(const Dims &dd)
            {
                d = dd;
                dynamic = CFG < 0;
#if CFG >= 0
                c.reset(new C());
#else
                c.reset(new C(dd.nx, dd.nu, dd.ny, dd.ph, dd.ch, dd.ni, dd.ne));
#endif
            }
            bool sampling(double t) override { return c->setDiscretizationSamplingTime(t); }
            void params(const Params &p) override
            {
                mpc::NLParameters q;
                q.maximum_iteration = p.maxiter;
                q.time_limit = p.time;
                q.enable_warm_start = p.warm;
                q.relative_ftol = p.frel;
                q.relative_xtol = p.xrel;
                q.absolute_ftol = p.fabs;
                q.absolute_xtol = p.xabs;
                q.hard_constraints = p.hard;
                c->setOptimizerParameters(q);
            }
            void defaultParams() override { c->setOptimizerParameters(mpc::NLParameters()); }
            void inputScale(const V &s) override { c->setInputScale(s); }
            void stateScale(const V &s) override { c->setStateScale(s); }
            bool objective(Obj f) override
            {
                return c->setObjectiveFunction([f](const mpc::mat<PH1, NX> &X, const mpc::mat<PH1, NY> &Y, const mpc::mat<PH1, NU> &U, const double &s)
                                               { return f(X, Y, U, s); });
            }
            bool state(State f, double tol) override
            {
                auto g = [f](mpc::cvec<NX> &dx, const mpc::cvec<NX> &x, const mpc::cvec<NU> &u, const unsigned int &k)
                {
                    V o = dx;
                    f(o, x, u, k);
                    dx = o;
                };
                return tol == tol ? c->setStateSpaceFunction(g, tol) : c->setStateSpaceFunction(g);
            }
            bool output(Out f) override
            {
                return c->setOutputFunction([f](mpc::cvec<NY> &y, const mpc::cvec<NX> &x, const mpc::cvec<NU> &u, const unsigned int &k)
                                            {
                    V o = y;
                    f(o, x, u, k);
                    y = o; });
            }
            bool ineq(Ineq f, double tol) override
            {
                if constexpr (NI == 0)
                    return false; // nothing to set (the library does not compile for no constraint)
                else
                {
                auto g = [f](mpc::cvec<NI> &v, const mpc::mat<PH1, NX> &X, const mpc::mat<PH1, NY> &Y, const mpc::mat<PH1, NU> &U, const double &s)
                {
                    V o = v;
                    f(o, X, Y, U, s);
                    v = o;
                };
                return tol == tol ? c->setIneqConFunction(g, tol) : c->setIneqConFunction(g);
                }
            }
            bool eq(Eq f, double tol) override
            {
                if constexpr (NE == 0)
                    return false;
                else
                {
                auto g = [f](mpc::cvec<NE> &v, const mpc::mat<PH1, NX> &X, const mpc::mat<PH1, NU> &U)
                {
                    V o = v;
                    f(o, X, U);
                    v = o;
                };
                return tol == tol ? c->setEqConFunction(g, tol) : c->setEqConFunction(g);
                }
            }
            bool stateBounds(const M &a, const M &b) override { return c->setStateBounds(mpc::mat<NX, PH>(a), mpc::mat<NX, PH>(b)); }
            bool inputBounds(const M &a, const M &b) override { return c->setInputBounds(mpc::mat<NU, CH>(a), mpc::mat<NU, CH>(b)); }
            bool stateBounds(const V &a, const V &b, int s, int e) override { return c->setStateBounds(mpc::cvec<NX>(a), mpc::cvec<NX>(b), mpc::HorizonSlice(s, e)); }
            bool inputBounds(const V &a, const V &b, int s, int e) override { return c->setInputBounds(mpc::cvec<NU>(a), mpc::cvec<NU>(b), mpc::HorizonSlice(s, e)); }
            bool stateBoundsAll(const V &a, const V &b) override { return c->setStateBounds(mpc::cvec<NX>(a), mpc::cvec<NX>(b), mpc::HorizonSlice::all()); }
            bool inputBoundsAll(const V &a, const V &b) override { return c->setInputBounds(mpc::cvec<NU>(a), mpc::cvec<NU>(b), mpc::HorizonSlice::all()); }
            bool outputBounds(const M &a, const M &b) override { return c->setOutputBounds(mpc::mat<NY, PH>(a), mpc::mat<NY, PH>(b)); }
            bool outputBounds(const V &a, const V &b, int s, int e) override { return c->setOutputBounds(mpc::cvec<NY>(a), mpc::cvec<NY>(b), mpc::HorizonSlice(s, e)); }
            Result optimize(const V &x0, const V &u0) override { return conv(c->optimize(mpc::cvec<NX>(x0), mpc::cvec<NU>(u0))); }
            Result last() override { return conv(c->getLastResult()); }
            Seq seq() override
            {
                auto s = c->getOptimalSequence();
                return {s.state, s.output, s.input};
            }
            Stats stats() override
            {
                auto s = c->getExecutionStats();
                Stats o{s.minSolutionTime.count(), s.maxSolutionTime.count(), s.averageSolutionTime.count(), s.totalSolutionTime.count(), s.standardDeviation, s.numberOfSolutions, {}};
                for (auto k : {mpc::ResultStatus::SUCCESS, mpc::ResultStatus::MAX_ITERATION, mpc::ResultStatus::INFEASIBLE, mpc::ResultStatus::ERROR, mpc::ResultStatus::UNKNOWN})
                    o.byStatus.push_back(s.solutionsStates.count(k) ? s.solutionsStates.at(k) : 0);
                return o;
            }
            void resetStats() override { c->resetStats(); }
        };

        Ctl *build(const Dims &d) { return new A(d); }
#if CFG >= 0
        Registrar r(&D, build);
#else
        Registrar r(nullptr, build);
#endif
    }
}
