// Stands in front of nlopt_optimize: the harness sees every problem the controller gives to
// the solver and decides the answer, or lets the real solver run.
#pragma once
#include <Eigen/Dense>
#include <functional>
#include <nlopt.h>
#include <vector>

namespace shim
{
    using M = Eigen::MatrixXd;
    using V = Eigen::VectorXd;

    struct Block
    {
        unsigned m = 0;
        V tol;
        bool vector = true;
        nlopt_func f = nullptr;
        nlopt_mfunc mf = nullptr;
        void *data = nullptr;
    };
    // valid only during the call of the solver
    struct Problem
    {
        void *opt = nullptr; // identity of the controller's solver
        unsigned n = 0;
        V lb, ub, x0;
        double frel, fabs, xrel, maxtime, stopval;
        V xabs, xweights;
        int maxeval, algorithm;
        std::vector<Block> ineq, eq;
        nlopt_func f = nullptr;
        void *fdata = nullptr;
        bool maximize = false;
        bool hasObjective() const { return f != nullptr; }
        bool stopped() const; // a function asked the solver to stop
        double value(const V &x) const;
        double value(const V &x, V &grad) const;
        V value(const Block &b, const V &x) const;
        V value(const Block &b, const V &x, M &jac) const; // jac: rows = constraints
        // all the constraints of a kind, in the order of the blocks
        V ineqs(const V &x) const;
        V eqs(const V &x) const;
        V ineqs(const V &x, M &jac) const;
        V eqs(const V &x, M &jac) const;
        V ineqTol() const;
        V eqTol() const;
        unsigned nIneq() const;
        unsigned nEq() const;
        // what the real solver refuses
        bool invalid() const;
    };
    struct Answer
    {
        int code = NLOPT_SUCCESS;
        V x; // empty: the starting point
        double f = 0;
        bool real = false; // run the real solver
    };
    struct State
    {
        std::function<Answer(Problem &)> solver; // none: the real solver
        int calls = 0, invalid = 0;
        int last_code = 0;
    };
    State &state();
    bool selftest(); // the layout of the solver's object is the expected one
}
