// C29: the Runge-Kutta integrator.
#include "../mc/mc.hpp"
#include <Eigen/Dense>
#include <mpc/Integrator.hpp>

template <int N>
using Vec = mpc::cvec<N>;
template <int N>
using Field = std::function<Vec<N>(double, const Vec<N> &)>;

// the classical scheme, componentwise and in extended precision
template <int N>
static Vec<N> classical(const Field<N> &f, double t0, const Vec<N> &x0, double h, int steps)
{
    std::vector<long double> x(N);
    for (int i = 0; i < N; i++)
        x[i] = x0[i];
    for (int s = 0; s < steps; s++)
    {
        double t = t0 + s * h;
        static const double c[] = {0, 0.5, 0.5, 1}, w[] = {1, 2, 2, 1};
        std::vector<long double> k(N, 0), sum(N, 0);
        for (int g = 0; g < 4; g++)
        {
            Vec<N> y;
            for (int i = 0; i < N; i++)
                y[i] = (double)(x[i] + c[g] * h * k[i]);
            Vec<N> d = f(t + c[g] * h, y);
            for (int i = 0; i < N; i++)
                k[i] = d[i], sum[i] += w[g] * k[i];
        }
        for (int i = 0; i < N; i++)
            x[i] += h * sum[i] / 6;
    }
    Vec<N> r;
    for (int i = 0; i < N; i++)
        r[i] = (double)x[i];
    return r;
}

template <int N>
static void run(mc::Ctx &t)
{
    static const std::vector<double> T = {0, 0.3, -1.2}, H = {0.1, 0.5, -0.25, 0}, co = {-1, 0, 2}, al = {-1.5, 0, 0.4};
    double t0 = t.pick(T, "time"), h = t.pick(H, "period");
    int steps = t.choose(5, "substeps");
    Vec<N> x0;
    for (int i = 0; i < N; i++)
        x0[i] = 0.7 - 1.3 * i;
    const Vec<N> in = x0;
    int calls = 0;
    switch (t.choose(3, "field"))
    {
    case 0:
    {
        // the derivative is a polynomial of degree three in the time
        double p[N][4];
        for (int i = 0; i < N; i++)
            for (int j = 0; j < 4; j++)
                p[i][j] = i == 0 ? t.pick(co, "coefficient") : p[0][(j + i) % 4] + 0.3 * i;
        mpc::RK4<N> rk([&](double s, const Vec<N> &)
                       { calls++; Vec<N> r; for (int i = 0; i < N; i++) r[i] = ((p[i][3] * s + p[i][2]) * s + p[i][1]) * s + p[i][0]; return r; });
        Vec<N> got = rk.run(t0, x0, h, steps), want = x0;
        auto F = [&](int i, long double s)
        { return p[i][3] * s * s * s * s / 4 + p[i][2] * s * s * s / 3 + p[i][1] * s * s / 2 + p[i][0] * s; };
        for (int i = 0; i < N; i++)
            want[i] += (double)(F(i, t0 + (long double)h * steps) - F(i, t0));
        t.nearM(got, want, 1e-11, "polynomial");
        t.observeM(got);
        break;
    }
    case 1:
    {
        // a linear system: the stability polynomial
        Eigen::Matrix<double, N, N> A;
        for (int j = 0; j < N; j++)
            for (int i = 0; i < N; i++)
                A(i, j) = N < 3 || (i + j) % 2 == 0 ? t.pick(al, "a") : 0.3 * (i - j) + 0.1;
        mpc::RK4<N> rk([&](double, const Vec<N> &x)
                       { calls++; return Vec<N>(A * x); });
        Eigen::Matrix<long double, N, N> Z = A.template cast<long double>() * (long double)h, R, P;
        R.setIdentity(), P.setIdentity();
        for (int k = 1; k <= 4; k++)
        {
            P = P * Z / (long double)k;
            R += P;
        }
        Eigen::Matrix<long double, N, 1> x = x0.template cast<long double>();
        for (int s = 0; s < steps; s++)
            x = R * x;
        Vec<N> got = rk.run(t0, x0, h, steps);
        t.nearM(got, Vec<N>(x.template cast<double>()), 1e-11, "linear");
        t.observeM(got);
        break;
    }
    default:
    {
        // fields of the time and of the state
        double a = t.pick(co, "a"), b = t.pick(co, "b"), c = t.pick(al, "c");
        Field<N> f = [&](double s, const Vec<N> &x)
        {
            calls++;
            Vec<N> r;
            for (int i = 0; i < N; i++)
                r[i] = a * std::sin(2 * s + i) + b * s * x[i] * 0.2 + c * x[(i + 1) % N] * x[(i + 1) % N] * 0.1 + 0.2 * i * s * s - 0.3 * x[i];
            return r;
        };
        mpc::RK4<N> rk(f);
        Vec<N> got = rk.run(t0, x0, h, steps), want = classical<N>(f, t0, x0, h, steps);
        t.nearM(got, want, 1e-11, "scheme");
        // in two calls, and again with the same object
        for (int k = 0; k <= steps; k++)
        {
            Vec<N> m = rk.run(t0, x0, h, k);
            t.nearM(rk.run(t0 + k * h, m, h, steps - k), want, 1e-11, "two-calls");
        }
        t.nearM(rk.run(t0, x0, h), classical<N>(f, t0, x0, h, 1), 1e-11, "default-is-one-step");
        // a copy of the integrator, and the result in the place of the initial state
        mpc::RK4<N> copy = rk;
        Vec<N> x = x0;
        x = copy.run(t0, x, h, steps);
        t.nearM(x, want, 1e-11, "in-place");
        t.observeM(got);
    }
    }
    t.check(x0 == in, "initial-state-changed");
}

static void body(mc::Ctx &t)
{
    switch (t.choose(4, "order"))
    {
    case 0:
        return run<1>(t);
    case 1:
        return run<2>(t);
    case 2:
        return run<3>(t);
    default:
        return run<4>(t);
    }
}

int main(int argc, char **argv)
{
    mc::Spec s;
    s.property = "C29";
    s.body = body;
    s.rule = "one execution: a field, a starting time and state, a period and a number of substeps; the result is compared with the polynomial solution, with the stability polynomial, or with an independent implementation, in one call and in every split in two calls";
    s.bound = "orders 1 to 4, 3 starting times, 4 periods (negative and zero included), 0 to 4 substeps, every polynomial and linear field with coefficients from an alphabet of 3, 27 nonlinear fields of the time";
    s.assumptions = {"values compared up to 1e-11"};
    return mc::run(argc, argv, s);
}
