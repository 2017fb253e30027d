// -DCFG=i: STATIC[i]; -DCFG=-1: run time sizes
#include "lin.hpp"
#include <mpc/LMPC.hpp>

namespace lin
{
#if CFG >= 0
    constexpr Dims D = STATIC[CFG];
    using C = mpc::LMPC<D.nx, D.nu, D.nd, D.ny, D.ph, D.ch>;
    constexpr int NX = D.nx, NU = D.nu, ND = D.nd, NY = D.ny, PH = D.ph, CH = D.ch;
#else
    using C = mpc::LMPC<>;
    constexpr int NX = -1, NU = -1, ND = -1, NY = -1, PH = -1, CH = -1;
#endif
    namespace
    {
        using HS = mpc::HorizonSlice;
        Result conv(const mpc::Result<NU> &r)
        {
            Result o;
            o.code = r.solver_status;
            o.feasible = r.is_feasible;
            o.msg = r.solver_status_msg;
            o.cost = r.cost;
            switch (r.status)
            {
            case mpc::ResultStatus::SUCCESS:
                o.status = SUCCESS;
                break;
            case mpc::ResultStatus::MAX_ITERATION:
                o.status = MAX_ITERATION;
                break;
            case mpc::ResultStatus::INFEASIBLE:
                o.status = INFEASIBLE;
                break;
            case mpc::ResultStatus::ERROR:
                o.status = ERROR;
                break;
            default:
                o.status = UNKNOWN;
            }
            o.cmd = r.cmd;
            return o;
        }
        using cx = mpc::cvec<NX>;
        using cu = mpc::cvec<NU>;
        using cd = mpc::cvec<ND>;
        using cy = mpc::cvec<NY>;
        struct A : Ctl
        {
            std::unique_ptr<C> c;
            A(const Dims &dd)
            {
                d = dd;
                dynamic = CFG < 0;
#if CFG >= 0
                c.reset(new C());
#else
                c.reset(new C(dd.nx, dd.nu, dd.nd, dd.ny, dd.ph, dd.ch));
#endif
            }
            bool sampling(double t) override { return c->setDiscretizationSamplingTime(t); }
            void inputScale(const V &s) override { c->setInputScale(s); }
            void stateScale(const V &s) override { c->setStateScale(s); }
            void params(const Params &p) override
            {
                mpc::LParameters q;
                q.maximum_iteration = p.maxiter;
                q.time_limit = p.time;
                q.enable_warm_start = p.warm;
                q.alpha = p.alpha;
                q.rho = p.rho;
                q.eps_rel = p.eps_rel;
                q.eps_abs = p.eps_abs;
                q.eps_prim_inf = p.eps_pinf;
                q.eps_dual_inf = p.eps_dinf;
                q.verbose = p.verbose;
                q.adaptive_rho = p.adaptive;
                q.polish = p.polish;
                c->setOptimizerParameters(q);
            }
            void defaultParams() override { c->setOptimizerParameters(mpc::LParameters()); }
            bool model(const M &a, const M &b, const M &cc) override { return c->setStateSpaceModel(mpc::mat<NX, NX>(a), mpc::mat<NX, NU>(b), mpc::mat<NY, NX>(cc)); }
            bool disturbances(const M &b, const M &dd) override { return c->setDisturbances(mpc::mat<NX, ND>(b), mpc::mat<NY, ND>(dd)); }
            bool exogenous(const M &m) override { return c->setExogenousInputs(mpc::mat<ND, PH>(m)); }
            bool exogenous(const V &v, int a, int b) override { return c->setExogenousInputs(cd(v), HS(a, b)); }
            bool weights(const M &o, const M &u, const M &dd) override { return c->setObjectiveWeights(mpc::mat<NY, PH>(o), mpc::mat<NU, PH>(u), mpc::mat<NU, PH>(dd)); }
            bool weights(const V &o, const V &u, const V &dd, int a, int b) override { return c->setObjectiveWeights(cy(o), cu(u), cu(dd), HS(a, b)); }
            bool references(const M &o, const M &u, const M &dd) override { return c->setReferences(mpc::mat<NY, PH>(o), mpc::mat<NU, PH>(u), mpc::mat<NU, PH>(dd)); }
            bool references(const V &o, const V &u, const V &dd, int a, int b) override { return c->setReferences(cy(o), cu(u), cu(dd), HS(a, b)); }
            bool stateBounds(const M &l, const M &h) override { return c->setStateBounds(mpc::mat<NX, PH>(l), mpc::mat<NX, PH>(h)); }
            bool inputBounds(const M &l, const M &h) override { return c->setInputBounds(mpc::mat<NU, CH>(l), mpc::mat<NU, CH>(h)); }
            bool outputBounds(const M &l, const M &h) override { return c->setOutputBounds(mpc::mat<NY, PH>(l), mpc::mat<NY, PH>(h)); }
            bool stateBounds(const V &l, const V &h, int a, int b) override { return c->setStateBounds(cx(l), cx(h), HS(a, b)); }
            bool inputBounds(const V &l, const V &h, int a, int b) override { return c->setInputBounds(cu(l), cu(h), HS(a, b)); }
            bool outputBounds(const V &l, const V &h, int a, int b) override { return c->setOutputBounds(cy(l), cy(h), HS(a, b)); }
            bool constraints(unsigned i, const V &xl, const V &ul, const V &yl, const V &xh, const V &uh, const V &yh) override
            {
                return c->setConstraints(i, cx(xl), cu(ul), cy(yl), cx(xh), cu(uh), cy(yh));
            }
            bool scalar(double mn, double mx, const V &x, const V &u, int a, int b) override { return c->setScalarConstraint(mn, mx, cx(x), cu(u), HS(a, b)); }
            bool scalar(unsigned i, double mn, double mx, const V &x, const V &u) override { return c->setScalarConstraint(i, mn, mx, cx(x), cu(u)); }
            Result optimize(const V &x0, const V &u0) override { return conv(c->optimize(cx(x0), cu(u0))); }
            Result last() override { return conv(c->getLastResult()); }
            Seq seq() override
            {
                auto s = c->getOptimalSequence();
                return {s.state, s.output, s.input};
            }
            Stats stats() override
            {
                auto s = c->getExecutionStats();
                Stats o{s.minSolutionTime.count(), s.maxSolutionTime.count(), s.averageSolutionTime.count(), s.totalSolutionTime.count(), s.standardDeviation, s.numberOfSolutions, {}};
                for (auto k : {mpc::ResultStatus::SUCCESS, mpc::ResultStatus::MAX_ITERATION, mpc::ResultStatus::INFEASIBLE, mpc::ResultStatus::ERROR, mpc::ResultStatus::UNKNOWN})
                    o.byStatus.push_back(s.solutionsStates.count(k) ? s.solutionsStates.at(k) : 0);
                return o;
            }
            void resetStats() override { c->resetStats(); }
            std::vector<double> primal() override { return c->getSolverWarmStartPrimal(); }
            std::vector<double> dual() override { return c->getSolverWarmStartDual(); }
            void setWarm(const std::vector<double> &x, const std::vector<double> &y) override { c->setSolverWarmStart(x, y); }
        };
        Ctl *build(const Dims &d) { return new A(d); }
#if CFG >= 0
        Registrar r(&D, build);
#else
        Registrar r(nullptr, build);
#endif
    }
}
