// The linear controller behind a size independent interface (as nl/nl.hpp).
#pragma once
#include <Eigen/Dense>
#include <functional>
#include <limits>
#include <memory>
#include <string>
#include <vector>

namespace lin
{
    using M = Eigen::MatrixXd;
    using V = Eigen::VectorXd;
    const double inf = std::numeric_limits<double>::infinity();
    const double NaN = std::numeric_limits<double>::quiet_NaN();

    struct Dims
    {
        int nx, nu, nd, ny, ph, ch;
        bool operator==(const Dims &o) const = default;
        std::string str() const
        {
            std::string s;
            for (int v : {nx, nu, nd, ny, ph, ch})
                s += (s.empty() ? "" : ",") + std::to_string(v);
            return s;
        }
    };
    constexpr Dims STATIC[] = {
        {2, 1, 1, 1, 3, 2},
        {1, 2, 1, 2, 4, 1},
        {2, 2, 2, 1, 2, 2},
        {3, 1, 2, 2, 3, 3},
        {1, 1, 1, 1, 1, 1},
        {1, 1, 0, 1, 2, 1},
    };

    struct Params
    {
        int maxiter = 100;
        double time = 0;
        bool warm = false;
        double alpha = 1.6, rho = 1e-6, eps_rel = 1e-4, eps_abs = 1e-4, eps_pinf = 1e-3, eps_dinf = 1e-3;
        bool verbose = false, adaptive = true, polish = true;
        bool operator==(const Params &) const = default;
    };
    enum Status
    {
        SUCCESS,
        MAX_ITERATION,
        INFEASIBLE,
        ERROR,
        UNKNOWN
    };
    struct Result
    {
        int code = 0;
        bool feasible = false;
        std::string msg;
        double cost = 0;
        int status = UNKNOWN;
        V cmd;
    };
    struct Seq
    {
        M X, Y, U;
    };
    struct Stats
    {
        double min, max, avg, tot, std;
        int n;
        std::vector<int> byStatus;
    };

    // matrices have one column per step
    struct Ctl
    {
        Dims d;
        bool dynamic;
        virtual ~Ctl() = default;
        virtual bool sampling(double) = 0;
        virtual void inputScale(const V &) = 0;
        virtual void stateScale(const V &) = 0;
        virtual void params(const Params &) = 0;
        virtual void defaultParams() = 0;
        virtual bool model(const M &A, const M &B, const M &C) = 0;
        virtual bool disturbances(const M &Bd, const M &Dd) = 0;
        virtual bool exogenous(const M &) = 0;
        virtual bool exogenous(const V &, int a, int b) = 0;
        virtual bool weights(const M &O, const M &U, const M &D) = 0;
        virtual bool weights(const V &O, const V &U, const V &D, int a, int b) = 0;
        virtual bool references(const M &O, const M &U, const M &D) = 0;
        virtual bool references(const V &O, const V &U, const V &D, int a, int b) = 0;
        virtual bool stateBounds(const M &, const M &) = 0;
        virtual bool inputBounds(const M &, const M &) = 0;
        virtual bool outputBounds(const M &, const M &) = 0;
        virtual bool stateBounds(const V &, const V &, int a, int b) = 0;
        virtual bool inputBounds(const V &, const V &, int a, int b) = 0;
        virtual bool outputBounds(const V &, const V &, int a, int b) = 0;
        virtual bool constraints(unsigned i, const V &xl, const V &ul, const V &yl, const V &xh, const V &uh, const V &yh) = 0;
        virtual bool scalar(double mn, double mx, const V &X, const V &U, int a, int b) = 0;
        virtual bool scalar(unsigned i, double mn, double mx, const V &X, const V &U) = 0;
        virtual Result optimize(const V &x0, const V &u0) = 0;
        virtual Result last() = 0;
        virtual Seq seq() = 0;
        virtual Stats stats() = 0;
        virtual void resetStats() = 0;
        virtual std::vector<double> primal() = 0;
        virtual std::vector<double> dual() = 0;
        virtual void setWarm(const std::vector<double> &x, const std::vector<double> &y) = 0;
    };
    std::unique_ptr<Ctl> make(const Dims &d, bool dynamic);
    std::vector<Dims> statics();
    bool hasDynamic();
    void quiet();
    struct Registrar
    {
        Registrar(const Dims *d, Ctl *(*f)(const Dims &));
    };
}
