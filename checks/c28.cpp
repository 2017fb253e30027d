// C28: discretisation.
#include "../mc/mc.hpp"
#include <Eigen/Dense>
#include <mpc/Utils.hpp>

using LD = Eigen::Matrix<long double, -1, -1>;
// exp by scaling and a Taylor series, in extended precision
static LD expm(LD m)
{
    int s = 0;
    long double n = m.cwiseAbs().rowwise().sum().maxCoeff();
    while (n > 0.125L)
        n /= 2, s++;
    m /= std::pow(2.0L, s);
    LD r = LD::Identity(m.rows(), m.cols()), p = r;
    for (int k = 1; k < 22; k++)
    {
        p = p * m / (long double)k;
        r += p;
    }
    for (int i = 0; i < s; i++)
        r = r * r;
    return r;
}
template <class D>
static LD ld(const D &m) { return m.template cast<long double>(); }

static double tol(const LD &m) { return 1e-10 * (1 + (double)m.cwiseAbs().maxCoeff()); }
static void same(mc::Ctx &t, const LD &got, const LD &want, double tl, const char *key)
{
    std::ostringstream o;
    o.precision(15);
    bool ok = got.rows() == want.rows() && got.cols() == want.cols() && got.allFinite() && (got - want).cwiseAbs().maxCoeff() <= tl;
    if (!ok)
        o << got << "\ninstead of\n"
          << want;
    t.check(ok, key, o.str());
    t.observeM(got.cast<double>());
}

template <size_t NX, size_t NU, size_t NE>
static void run(mc::Ctx &t)
{
    using namespace mpc;
    mat<NX, NX> A;
    mat<NX, NU> B;
    mat<NX, NE> Be;
    mat<NE, NX> C;
    mat<NE, NU> D;
    static const std::vector<double> a1 = {-20, -2, -1, -0.5, 0, 1e-9, 0.3, 1, 2, 5}, a2 = {-3, -0.5, 0, 1, 2}, a3 = {-1, 0, 1}, a3t = {-1.5, 0, 1, 0.3};
    const std::vector<double> &al = NX == 1 ? a1 : NX == 2 ? a2 : t.thorough ? a3t : a3;
    for (size_t j = 0; j < NX; j++)
        for (size_t i = 0; i < NX; i++)
            A(i, j) = t.pick(al, "a");
    // B: unit columns, zero, or distinct entries everywhere
    int b = t.choose(NX == 3 ? 3 : 4, "b");
    for (size_t j = 0; j < NU; j++)
        for (size_t i = 0; i < NX; i++)
            B(i, j) = b == 0 ? 0.3 + 0.7 * i - 1.1 * j : b == 1 ? (i == j % NX) : b == 2 ? -2.0 * (i + 1) + 0.25 * j : 0;
    for (size_t j = 0; j < NE; j++)
        for (size_t i = 0; i < NX; i++)
            Be(i, j) = b == 1 ? (i == (j + 1) % NX) * 2 : 1.7 - 0.4 * i + 0.9 * j;
    for (size_t j = 0; j < NX; j++)
        for (size_t i = 0; i < NE; i++)
            C(i, j) = 1.25 + 3 * i - 2.0 * j;
    for (size_t j = 0; j < NU; j++)
        for (size_t i = 0; i < NE; i++)
            D(i, j) = b == 3 ? 0 : -4.5 + i + 0.5 * j;
    static const std::vector<double> T = {0.1, 1, 0.001, 2.5, 0};
    double Ts = T[t.choose(NX == 3 && !t.thorough ? 3 : 5, "period")];

    auto ref = [&](double h)
    {
        LD m = LD::Zero(NX + NU + NE, NX + NU + NE);
        m.block(0, 0, NX, NX) = ld(A) * (long double)h;
        m.block(0, NX, NX, NU) = ld(B) * (long double)h;
        m.block(0, NX + NU, NX, NE) = ld(Be) * (long double)h;
        return LD(expm(m).topRows(NX));
    };
    const mat<NX, NX> A0 = A;
    const mat<NX, NU> B0 = B;
    const mat<NX, NE> Be0 = Be;
    const mat<NE, NX> C0 = C;
    const mat<NE, NU> D0 = D;
    LD w = ref(Ts);
    double tl = tol(w);
    mat<NX, NX> Ad = mat<NX, NX>::Constant(77);
    mat<NX, NU> Bd = mat<NX, NU>::Constant(77);
    mat<NX, NE> Bed = mat<NX, NE>::Constant(77);
    mat<NE, NX> Cd = mat<NE, NX>::Constant(77);
    mat<NE, NU> Dd = mat<NE, NU>::Constant(77);
    discretization<NX, NU>(A, B, Ts, Ad, Bd);
    same(t, ld(Ad), w.leftCols(NX), tl, "Ad");
    same(t, ld(Bd), w.middleCols(NX, NU), tl, "Bd");
    // one long period is two short ones with the input held
    mat<NX, NX> A2;
    mat<NX, NU> B2;
    discretization<NX, NU>(A, B, 2 * Ts, A2, B2);
    double tl2 = 4 * tol(LD(ld(Ad) * ld(Ad))) + tol(ld(A2)) + tol(ld(B2));
    same(t, ld(A2), ld(Ad) * ld(Ad), tl2, "two-periods-Ad");
    same(t, ld(B2), ld(Ad) * ld(Bd) + ld(Bd), tl2, "two-periods-Bd");

    Ad.setConstant(77), Bd.setConstant(77);
    discretization<NX, NU, NE>(A, B, Be, Ts, Ad, Bd, Bed);
    same(t, ld(Ad), w.leftCols(NX), tl, "disturbance-Ad");
    same(t, ld(Bd), w.middleCols(NX, NU), tl, "disturbance-Bd");
    same(t, ld(Bed), w.rightCols(NE), tl, "disturbance-Bed");

    Ad.setConstant(77), Bd.setConstant(77);
    discretization<NX, NU, NE>(A, B, C, D, Ts, Ad, Bd, Cd, Dd);
    same(t, ld(Ad), w.leftCols(NX), tl, "output-Ad");
    same(t, ld(Bd), w.middleCols(NX, NU), tl, "output-Bd");
    same(t, ld(Cd), ld(C0), 0, "output-Cd");
    same(t, ld(Dd), ld(D0), 0, "output-Dd");
    t.check(A == A0 && B == B0 && Be == Be0 && C == C0 && D == D0, "argument-changed");
}

static void body(mc::Ctx &t)
{
    switch (t.choose(12, "sizes"))
    {
    case 0:
        return run<1, 1, 1>(t);
    case 1:
        return run<1, 2, 1>(t);
    case 2:
        return run<1, 1, 2>(t);
    case 3:
        return run<2, 1, 1>(t);
    case 4:
        return run<2, 2, 1>(t);
    case 5:
        return run<2, 1, 2>(t);
    case 6:
        return run<2, 3, 2>(t);
    case 7:
        return run<3, 1, 1>(t);
    case 8:
        return run<3, 2, 1>(t);
    case 9:
        return run<3, 1, 2>(t);
    case 10:
        return run<3, 2, 4>(t);
    default:
        return run<1, 3, 3>(t);
    }
}

int main(int argc, char **argv)
{
    mc::Spec s;
    s.property = "C28";
    s.body = body;
    s.rule = "one execution: a continuous model and a period through every overload, compared with an independent matrix exponential in extended precision and with twice the period";
    s.bound = "12 sizes (up to 3 states, 3 inputs, 4 disturbances or outputs); every A with entries from an alphabet of 10 (order 1), 5 (order 2), 3-4 (order 3) values; 3-4 input matrices; 3-5 periods including zero and 2.5";
    s.assumptions = {"values compared up to 1e-10 relative to the largest entry"};
    s.split = 4;
    return mc::run(argc, argv, s);
}
