#include "py.hpp"
#include "pybind11/pybind11.h"
#include <mpc/Logger.hpp>
#include <mpc/Types.hpp>
#include <iostream>
#include <sstream>

namespace script
{
    namespace py = pybind11;
    using py::Args;
    using py::Value;
    using M = Eigen::MatrixXd;
    using V = Eigen::VectorXd;

    namespace
    {
        Value num(double x) { return Value::Float(x); }
        Value num(int x) { return Value::Int(x); }
        Value arr(const V &x) { return Value::Array(x, 1); }
        Value arr2(const M &x) { return Value::Array(x, 2); }
        Value slice(int a, int b) { return py::construct("HorizonSlice", {num(a), num(b)}); }
        Value whole() { return py::callStatic("HorizonSlice", "all", {}); }
        V vec(const Value &v)
        {
            if (v.kind != Value::ARRAY || v.dim != 1)
                throw py::TypeError("not a vector");
            return v.a.cols() == 1 ? V(v.a.col(0)) : V(v.a.row(0).transpose());
        }
        M mat(const Value &v)
        {
            if (v.kind != Value::ARRAY)
                throw py::TypeError("not an array");
            return v.a;
        }
        int status(const Value &v)
        {
            const char *n[] = {"SUCCESS", "MAX_ITERATION", "INFEASIBLE", "ERROR", "UNKNOWN"};
            for (int i = 0; i < 5; i++)
                if (py::equal(v, py::attribute("ResultStatus", n[i])))
                    return i;
            return -1;
        }
        template <class R>
        R result(const Value &v)
        {
            R r;
            r.code = (int)py::getattr(v, "solver_status").i;
            r.feasible = py::getattr(v, "is_feasible").b;
            r.msg = py::getattr(v, "solver_status_msg").s;
            r.cost = py::getattr(v, "cost").f;
            r.status = status(py::getattr(v, "status"));
            r.cmd = vec(py::getattr(v, "cmd"));
            return r;
        }
        template <class S>
        S sequence(const Value &v)
        {
            return {mat(py::getattr(v, "state")), mat(py::getattr(v, "output")), mat(py::getattr(v, "input"))};
        }
        template <class S>
        S stats(const Value &v)
        {
            S s{py::getattr(v, "minSolutionTime").f, py::getattr(v, "maxSolutionTime").f, py::getattr(v, "averageSolutionTime").f,
                py::getattr(v, "totalSolutionTime").f, py::getattr(v, "standardDeviation").f, (int)py::getattr(v, "numberOfSolutions").i, std::vector<int>(5, 0)};
            for (auto &e : py::getattr(v, "solutionsStates").dict)
            {
                int i = status(e.first);
                if (i < 0)
                    throw py::TypeError("not a status");
                s.byStatus[i] = (int)e.second.i;
            }
            return s;
        }
        struct Base
        {
            Value self;
            Value call(const char *n, const Args &a) { return py::call(self, n, a); }
            bool yes(const char *n, const Args &a) { return call(n, a).b; }
            void boolean(Value &o, const char *n, bool v) { py::setattr(o, n, Value::Bool(v)); }
            void real(Value &o, const char *n, double v) { py::setattr(o, n, num(v)); }
            void integer(Value &o, const char *n, int v) { py::setattr(o, n, num(v)); }
        };

        double tolOf(double t) { return t == t ? t : (double)1e-10f; }

        struct N : nl::Ctl, Base
        {
            N(const nl::Dims &dd)
            {
                d = dd;
                dynamic = true;
                self = py::construct("NLMPC", {num(d.nx), num(d.nu), num(d.ny), num(d.ph), num(d.ch), num(d.ni), num(d.ne)});
                call("setLoggerLevel", {py::attribute("LoggerLevel", "NONE")});
            }
            bool sampling(double t) override { return yes("setDiscretizationSamplingTime", {num(t)}); }
            void params(const nl::Params &p) override
            {
                Value o = py::construct("NLParameters", {});
                integer(o, "maximum_iteration", p.maxiter);
                real(o, "time_limit", p.time);
                boolean(o, "enable_warm_start", p.warm);
                real(o, "relative_ftol", p.frel);
                real(o, "relative_xtol", p.xrel);
                real(o, "absolute_ftol", p.fabs);
                real(o, "absolute_xtol", p.xabs);
                boolean(o, "hard_constraints", p.hard);
                call("setOptimizerParameters", {o});
            }
            void defaultParams() override { call("setOptimizerParameters", {py::construct("NLParameters", {})}); }
            void inputScale(const V &s) override { call("setInputScale", {arr(s)}); }
            void stateScale(const V &s) override { call("setStateScale", {arr(s)}); }
            bool objective(nl::Obj f) override
            {
                return yes("setObjectiveFunction", {Value::Callable([f](const Args &a)
                                                                    { return num(f(mat(a.at(0)), mat(a.at(1)), mat(a.at(2)), a.at(3).f)); })});
            }
            static Value stepwise(nl::State f, int n)
            {
                return Value::Callable([f, n](const Args &a)
                                       {
                    V r = V::Zero(n);
                    f(r, vec(a.at(0)), vec(a.at(1)), (unsigned)a.at(2).i);
                    return arr(r); });
            }
            bool state(nl::State f, double tol) override { return yes("setStateSpaceFunction", {stepwise(f, d.nx), num(tolOf(tol))}); }
            bool output(nl::Out f) override { return yes("setOutputFunction", {stepwise(f, d.ny)}); }
            bool ineq(nl::Ineq f, double tol) override
            {
                return yes("setIneqConFunction", {Value::Callable([f, n = d.ni](const Args &a)
                                                                  {
                    V r = V::Zero(n);
                    f(r, mat(a.at(0)), mat(a.at(1)), mat(a.at(2)), a.at(3).f);
                    return arr(r); }),
                                                  num(tolOf(tol))});
            }
            bool eq(nl::Eq f, double tol) override
            {
                return yes("setEqConFunction", {Value::Callable([f, n = d.ne](const Args &a)
                                                                {
                    V r = V::Zero(n);
                    f(r, mat(a.at(0)), mat(a.at(1)));
                    return arr(r); }),
                                                num(tolOf(tol))});
            }
            bool stateBounds(const M &a, const M &b) override { return yes("setStateBounds", {arr2(a), arr2(b)}); }
            bool inputBounds(const M &a, const M &b) override { return yes("setInputBounds", {arr2(a), arr2(b)}); }
            bool stateBounds(const V &a, const V &b, int s, int e) override { return yes("setStateBounds", {arr(a), arr(b), slice(s, e)}); }
            bool inputBounds(const V &a, const V &b, int s, int e) override { return yes("setInputBounds", {arr(a), arr(b), slice(s, e)}); }
            bool stateBoundsAll(const V &a, const V &b) override { return yes("setStateBounds", {arr(a), arr(b), whole()}); }
            bool inputBoundsAll(const V &a, const V &b) override { return yes("setInputBounds", {arr(a), arr(b), whole()}); }
            bool outputBounds(const M &a, const M &b) override { return yes("setOutputBounds", {arr2(a), arr2(b)}); }
            bool outputBounds(const V &a, const V &b, int s, int e) override { return yes("setOutputBounds", {arr(a), arr(b), slice(s, e)}); }
            nl::Result optimize(const V &x, const V &u) override { return result<nl::Result>(call("optimize", {arr(x), arr(u)})); }
            nl::Result last() override { return result<nl::Result>(call("getLastResult", {})); }
            nl::Seq seq() override { return sequence<nl::Seq>(call("getOptimalSequence", {})); }
            nl::Stats stats() override { return script::stats<nl::Stats>(call("getExecutionStats", {})); }
            void resetStats() override { call("resetStats", {}); }
        };

        struct L : lin::Ctl, Base
        {
            L(const lin::Dims &dd)
            {
                d = dd;
                dynamic = true;
                self = py::construct("LMPC", {num(d.nx), num(d.nu), num(d.nd), num(d.ny), num(d.ph), num(d.ch)});
                call("setLoggerLevel", {py::attribute("LoggerLevel", "NONE")});
            }
            [[noreturn]] static void unavailable() { throw std::runtime_error("not in the module"); }
            bool sampling(double) override { unavailable(); }
            void inputScale(const V &) override { unavailable(); }
            void stateScale(const V &) override { unavailable(); }
            bool constraints(unsigned, const V &, const V &, const V &, const V &, const V &, const V &) override { unavailable(); }
            void params(const lin::Params &p) override
            {
                Value o = py::construct("LParameters", {});
                integer(o, "maximum_iteration", p.maxiter);
                real(o, "time_limit", p.time);
                boolean(o, "enable_warm_start", p.warm);
                real(o, "alpha", p.alpha);
                real(o, "rho", p.rho);
                real(o, "eps_rel", p.eps_rel);
                real(o, "eps_abs", p.eps_abs);
                real(o, "eps_prim_inf", p.eps_pinf);
                real(o, "eps_dual_inf", p.eps_dinf);
                boolean(o, "verbose", p.verbose);
                boolean(o, "adaptive_rho", p.adaptive);
                boolean(o, "polish", p.polish);
                call("setOptimizerParameters", {o});
            }
            void defaultParams() override { call("setOptimizerParameters", {py::construct("LParameters", {})}); }
            bool model(const M &a, const M &b, const M &c) override { return yes("setStateSpaceModel", {arr2(a), arr2(b), arr2(c)}); }
            bool disturbances(const M &a, const M &b) override { return yes("setDisturbances", {arr2(a), arr2(b)}); }
            bool exogenous(const M &m) override { return yes("setExogenousInputs", {arr2(m)}); }
            bool exogenous(const V &v, int a, int b) override { return yes("setExogenousInputs", {arr(v), part(a, b)}); }
            static Value part(int a, int b) { return a < 0 && b < 0 ? whole() : slice(a, b); }
            bool weights(const M &a, const M &b, const M &c) override { return yes("setObjectiveWeights", {arr2(a), arr2(b), arr2(c)}); }
            bool weights(const V &o, const V &u, const V &dd, int a, int b) override { return yes("setObjectiveWeights", {arr(o), arr(u), arr(dd), part(a, b)}); }
            bool references(const M &a, const M &b, const M &c) override { return yes("setReferences", {arr2(a), arr2(b), arr2(c)}); }
            bool references(const V &o, const V &u, const V &dd, int a, int b) override { return yes("setReferences", {arr(o), arr(u), arr(dd), part(a, b)}); }
            bool stateBounds(const M &a, const M &b) override { return yes("setStateBounds", {arr2(a), arr2(b)}); }
            bool inputBounds(const M &a, const M &b) override { return yes("setInputBounds", {arr2(a), arr2(b)}); }
            bool outputBounds(const M &a, const M &b) override { return yes("setOutputBounds", {arr2(a), arr2(b)}); }
            bool stateBounds(const V &l, const V &h, int a, int b) override { return yes("setStateBounds", {arr(l), arr(h), part(a, b)}); }
            bool inputBounds(const V &l, const V &h, int a, int b) override { return yes("setInputBounds", {arr(l), arr(h), part(a, b)}); }
            bool outputBounds(const V &l, const V &h, int a, int b) override { return yes("setOutputBounds", {arr(l), arr(h), part(a, b)}); }
            bool scalar(double mn, double mx, const V &x, const V &u, int a, int b) override { return yes("setScalarConstraint", {num(mn), num(mx), arr(x), arr(u), part(a, b)}); }
            bool scalar(unsigned i, double mn, double mx, const V &x, const V &u) override { return yes("setScalarConstraint", {num((int)i), num(mn), num(mx), arr(x), arr(u)}); }
            lin::Result optimize(const V &x, const V &u) override { return result<lin::Result>(call("optimize", {arr(x), arr(u)})); }
            lin::Result last() override { return result<lin::Result>(call("getLastResult", {})); }
            lin::Seq seq() override { return sequence<lin::Seq>(call("getOptimalSequence", {})); }
            lin::Stats stats() override { return script::stats<lin::Stats>(call("getExecutionStats", {})); }
            void resetStats() override { call("resetStats", {}); }
            static std::vector<double> list(const Value &v)
            {
                std::vector<double> r;
                for (auto &e : v.list)
                    r.push_back(e.f);
                return r;
            }
            std::vector<double> primal() override { return list(call("getSolverWarmStartPrimal", {})); }
            std::vector<double> dual() override { return list(call("getSolverWarmStartDual", {})); }
            void setWarm(const std::vector<double> &x, const std::vector<double> &y) override { call("setSolverWarmStart", {Value::List(x), Value::List(y)}); }
        };
    }
    void init() { py_stub::init(); }
    std::unique_ptr<nl::Ctl> makeNl(const nl::Dims &d) { return std::make_unique<N>(d); }
    std::unique_ptr<lin::Ctl> makeLin(const lin::Dims &d) { return std::make_unique<L>(d); }
    template <class E>
    static std::string named(const char *cls, const std::vector<std::pair<const char *, E>> &n)
    {
        for (auto &e : n)
        {
            Value v = py::attribute(cls, e.first);
            if (!(*(E *)v.obj.get() == e.second))
                return std::string(cls) + "." + e.first;
            auto it = py::Module::get().attributes.find(e.first);
            if (it == py::Module::get().attributes.end() || !py::equal(it->second, v))
                return e.first;
        }
        return "";
    }
    std::string constants()
    {
        using R = mpc::ResultStatus;
        using G = mpc::Logger::log_level;
        std::string r = named<R>("ResultStatus", {{"UNKNOWN", R::UNKNOWN}, {"SUCCESS", R::SUCCESS}, {"MAX_ITERATION", R::MAX_ITERATION}, {"INFEASIBLE", R::INFEASIBLE}, {"ERROR", R::ERROR}});
        if (r.empty())
            r = named<G>("LoggerLevel", {{"DEEP", G::DEEP}, {"NORMAL", G::NORMAL}, {"ALERT", G::ALERT}, {"NONE", G::NONE}});
        return r;
    }
    std::string log(bool linear, int level, const std::string &prefix, int direct)
    {
        using G = mpc::Logger::log_level;
        auto &g = mpc::Logger::instance();
        std::ostringstream os;
        g.setStream(&os);
        g.setLevel(G::NORMAL);
        g.setPrefix("");
        const char *n[] = {"DEEP", "NORMAL", "ALERT", "NONE"};
        G l[] = {G::DEEP, G::NORMAL, G::ALERT, G::NONE};
        if (direct)
            g.setLevel(l[level]).setPrefix(prefix);
        else
        {
            Value c = linear ? py::construct("LMPC", {num(1), num(1), num(1), num(1), num(1), num(1)}) : py::construct("NLMPC", {num(1), num(1), num(1), num(1), num(1), num(1), num(1)});
            py::call(c, "setLoggerLevel", {py::attribute("LoggerLevel", n[level])});
            py::call(c, "setLoggerPrefix", {Value::Str(prefix)});
        }
        os.str("");
        using Y = mpc::Logger::log_type;
        for (Y t : {Y::DETAIL, Y::INFO, Y::ERROR})
            g.log(t) << "message " << 1.5 << std::endl;
        g.setStream(&std::cout);
        g.setLevel(G::NONE);
        g.setPrefix("");
        return os.str();
    }
}
