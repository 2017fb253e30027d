// The harness side of the OSQP stand-in: what every solve was given, and what it answers.
#pragma once
#include <Eigen/Dense>
#include <functional>
#include <osqp/osqp.h>
#include <string>
#include <vector>

namespace stub
{
    using Eigen::MatrixXd;
    using Eigen::VectorXd;

    struct Call
    {
        MatrixXd P, A;  // P symmetric (from the upper triangle)
        VectorXd q, l, u;
        OSQPSettings set;
        bool warm = false;   // the solver starts from a given point
        VectorXd wx, wy;
        int id = 0;
        std::vector<long long> Pp, Pi, Ap, Ai; // compressed columns as given
    };
    struct Answer
    {
        int status = OSQP_SOLVED;
        VectorXd x, y;   // empty: zeros
        double obj = 0;
        int ret = 0;     // value returned by osqp_solve
    };
    struct State
    {
        std::function<Answer(const Call &)> solve;
        std::function<int(const Call &)> setup;   // non zero: osqp_setup fails with this code after the allocation
        int setups = 0, solves = 0, refused = 0;
        int live_ws = 0;            // workspaces not cleaned up
        long live_blocks = 0;       // c_malloc / csc blocks not freed
        std::string refusal;
        bool keep_matrices = true;
        void reset()
        {
            *this = State();
        }
    };
    State &state();
}
