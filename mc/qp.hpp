// Exact solution of small strictly convex quadratic programs by enumeration of active sets:
//   minimise 1/2 x'Hx + g'x  subject to  E x = e,  A x <= b
#pragma once
#include <Eigen/Dense>
#include <vector>

namespace qp
{
    using M = Eigen::MatrixXd;
    using V = Eigen::VectorXd;
    struct Solution
    {
        bool feasible = false;
        V x;
        double cost = 0;
        int tried = 0;
    };

    inline bool attempt(const M &H, const V &g, const M &E, const V &e, const M &A, const V &b, const std::vector<int> &act, double tol, Solution &s)
    {
        int n = (int)H.rows(), m = (int)E.rows(), k = (int)act.size();
        M K = M::Zero(n + m + k, n + m + k);
        V r(n + m + k);
        K.topLeftCorner(n, n) = H;
        r.head(n) = -g;
        for (int i = 0; i < m; i++)
        {
            K.row(n + i).head(n) = E.row(i);
            K.col(n + i).head(n) = E.row(i).transpose();
            r[n + i] = e[i];
        }
        for (int i = 0; i < k; i++)
        {
            K.row(n + m + i).head(n) = A.row(act[i]);
            K.col(n + m + i).head(n) = A.row(act[i]).transpose();
            r[n + m + i] = b[act[i]];
        }
        s.tried++;
        Eigen::FullPivLU<M> lu(K);
        V z = lu.solve(r);
        if (!(K * z - r).isZero(1e-7 * (1 + r.norm())))
            return false;
        V x = z.head(n);
        for (int i = 0; i < (int)A.rows(); i++)
            if (A.row(i).dot(x) > b[i] + tol)
                return false;
        for (int i = 0; i < k; i++)
            if (z[n + m + i] < -tol)
                return false;
        s.feasible = true;
        s.x = x;
        s.cost = 0.5 * x.dot(H * x) + g.dot(x);
        return true;
    }
    inline bool rec(const M &H, const V &g, const M &E, const V &e, const M &A, const V &b, std::vector<int> &act, int from, int left, double tol, Solution &s)
    {
        if (left == 0)
            return attempt(H, g, E, e, A, b, act, tol, s);
        for (int i = from; i < (int)A.rows(); i++)
        {
            act.push_back(i);
            if (rec(H, g, E, e, A, b, act, i + 1, left - 1, tol, s))
                return true;
            act.pop_back();
        }
        return false;
    }
    // H positive definite on the kernel of E
    inline Solution solve(const M &H, const V &g, const M &E, const V &e, const M &A, const V &b, double tol = 1e-9)
    {
        Solution s;
        int dof = (int)H.rows() - (int)E.rows();
        // constraints without a bound never act
        std::vector<int> keep;
        for (int i = 0; i < (int)A.rows(); i++)
            if (std::isfinite(b[i]))
                keep.push_back(i);
        M A2(keep.size(), H.rows());
        V b2(keep.size());
        for (size_t i = 0; i < keep.size(); i++)
            A2.row(i) = A.row(keep[i]), b2[i] = b[keep[i]];
        for (int k = 0; k <= dof && k <= (int)A2.rows(); k++)
        {
            std::vector<int> act;
            if (rec(H, g, E, e, A2, b2, act, 0, k, tol, s))
                return s;
        }
        return s;
    }
}
