// The nonlinear controller behind a size independent interface, one adapter per compile time
// size (adapter.cpp, compiled once per size) and one for the run time sizes.
#pragma once
#include <Eigen/Dense>
#include <functional>
#include <limits>
#include <memory>
#include <string>
#include <vector>

namespace nl
{
    using M = Eigen::MatrixXd;
    using V = Eigen::VectorXd;
    const double inf = std::numeric_limits<double>::infinity();
    const double NaN = std::numeric_limits<double>::quiet_NaN();

    struct Dims
    {
        int nx, nu, ny, ph, ch, ni, ne;
        bool operator==(const Dims &o) const = default;
        std::string str() const
        {
            std::string s;
            for (int v : {nx, nu, ny, ph, ch, ni, ne})
                s += (s.empty() ? "" : ",") + std::to_string(v);
            return s;
        }
    };

    // the compile time sizes
    constexpr Dims STATIC[] = {
        {1, 1, 1, 1, 1, 1, 0},
        {2, 1, 1, 3, 1, 2, 1},
        {2, 2, 2, 3, 2, 3, 1},
        {1, 2, 3, 4, 2, 1, 2},
        {3, 2, 1, 2, 2, 0, 1},
        {2, 1, 2, 4, 4, 2, 0},
        {3, 1, 2, 5, 3, 4, 1},
    };

    struct Params
    {
        int maxiter = 100;
        double time = 0;
        bool warm = false;
        double frel = -1, xrel = -1, fabs = -1, xabs = -1;
        bool hard = true;
        bool operator==(const Params &) const = default;
    };
    enum Status
    {
        SUCCESS,
        MAX_ITERATION,
        INFEASIBLE,
        ERROR,
        UNKNOWN
    };
    struct Result
    {
        int code = 0;
        bool feasible = false;
        std::string msg;
        double cost = 0;
        int status = UNKNOWN;
        V cmd;
    };
    struct Seq
    {
        M X, Y, U;
    };
    struct Stats
    {
        double min, max, avg, tot, std;
        int n;
        std::vector<int> byStatus; // SUCCESS..UNKNOWN
    };

    using Obj = std::function<double(const M &X, const M &Y, const M &U, double s)>;
    using Ineq = std::function<void(V &c, const M &X, const M &Y, const M &U, double s)>;
    using Eq = std::function<void(V &c, const M &X, const M &U)>;
    using State = std::function<void(V &dx, const V &x, const V &u, unsigned k)>;
    using Out = std::function<void(V &y, const V &x, const V &u, unsigned k)>;

    struct Ctl
    {
        Dims d;
        bool dynamic;
        virtual ~Ctl() = default;
        virtual bool sampling(double) = 0;
        virtual void params(const Params &) = 0;
        virtual void defaultParams() = 0;
        virtual void inputScale(const V &) = 0;
        virtual void stateScale(const V &) = 0;
        virtual bool objective(Obj) = 0;
        virtual bool state(State, double tol = NaN) = 0; // nan: the default tolerance
        virtual bool output(Out) = 0;
        virtual bool ineq(Ineq, double tol = NaN) = 0;
        virtual bool eq(Eq, double tol = NaN) = 0;
        virtual bool stateBounds(const M &, const M &) = 0;
        virtual bool inputBounds(const M &, const M &) = 0;
        virtual bool stateBounds(const V &, const V &, int a, int b) = 0;
        virtual bool inputBounds(const V &, const V &, int a, int b) = 0;
        virtual bool stateBoundsAll(const V &, const V &) = 0; // HorizonSlice::all()
        virtual bool inputBoundsAll(const V &, const V &) = 0;
        virtual bool outputBounds(const M &, const M &) = 0;
        virtual bool outputBounds(const V &, const V &, int a, int b) = 0;
        virtual Result optimize(const V &x0, const V &u0) = 0;
        virtual Result last() = 0;
        virtual Seq seq() = 0;
        virtual Stats stats() = 0;
        virtual void resetStats() = 0;
    };

    std::unique_ptr<Ctl> make(const Dims &d, bool dynamic);
    // the compile time sizes linked into this check, and whether the run time ones are
    std::vector<Dims> statics();
    bool hasDynamic();
    void quiet(); // logger off

    struct Registrar
    {
        Registrar(const Dims *d, Ctl *(*f)(const Dims &));
    };
}
