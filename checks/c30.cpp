// C30: dimension arithmetic.
#include "../mc/mc.hpp"
#include <Eigen/Dense>
#include <array>
#include <mpc/IDimensionable.hpp>
#include <utility>

using mpc::MPCSize;
using mpc::Size;

static int expected(int op, int a, int b)
{
    if (a == -1 || b == -1)
        return -1;
    return op == 0 ? a + b : op == 1 ? a - b : a * b;
}
template <class A, class B>
constexpr Size eval(int op, const A &a, const B &b)
{
    return op == 0 ? Size(a + b) : op == 1 ? Size(a - b) : Size(a * b);
}
// the same at compile time, as the sizes of the matrices use it
constexpr int CT = 10;
template <int K>
constexpr int ctOne()
{
    constexpr int op = K % 3, form = K / 3 % 3, a = K / 9 % CT - 1, b = K / 9 / CT - 1;
    constexpr Size r = form == 0 ? eval(op, Size(a), Size(b)) : form == 1 ? eval(op, Size(a), b) : eval(op, a, Size(b));
    return r;
}
template <int... K>
constexpr std::array<int, sizeof...(K)> ctAll(std::integer_sequence<int, K...>) { return {ctOne<K>()...}; }
static const auto TABLE = ctAll(std::make_integer_sequence<int, 9 * CT * CT>());

template <MPCSize S>
struct Comp : mpc::IDimensionable<S>
{
    int inits = 0;
    std::array<size_t, 8> at{};
    void onInit() override
    {
        inits++;
        at = all();
    }
    std::array<size_t, 8> all() { return {this->nx(), this->nu(), this->ndu(), this->ny(), this->ph(), this->ch(), this->ineq(), this->eq()}; }
    void given() { this->setDimension(); }
    void set(const std::array<int, 8> &v, int n)
    {
        switch (n)
        {
        case 2:
            return this->setDimension(v[0], v[1]);
        case 5:
            return this->setDimension(v[0], v[1], v[2], v[3], v[4]);
        default:
            return this->setDimension(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
        }
    }
};
constexpr MPCSize S1(1, 2, 3, 4, 5, 6, 7, 8), S2(8, 7, 6, 5, 4, 3, 2, 1), S3(3, 0, 0, 2, 9, 1, 0, 0);
constexpr MPCSize DY(-1, -1, -1, -1, -1, -1, -1, -1), MIX(2, -1, 3, -1, 5, -1, 1, -1);

template <MPCSize S>
static void component(mc::Ctx &t, bool isStatic)
{
    std::array<int, 8> own = {S.nx, S.nu, S.ndu, S.ny, S.ph, S.ch, S.ineq, S.eq};
    Comp<S> c;
    int inits = 0;
    auto same = [&](const std::array<int, 8> &w, const char *key)
    {
        auto g = c.all();
        for (int i = 0; i < 8; i++)
        {
            t.check((int)g[i] == w[i], key, "field " + std::to_string(i) + " is " + std::to_string(g[i]) + " instead of " + std::to_string(w[i]));
            t.check((int)c.at[i] == w[i], "known-at-the-initialisation");
        }
        t.check(c.inits == ++inits, "initialisations");
    };
    for (int k = 0; k < 3; k++)
    {
        if (isStatic && t.flag("own"))
        {
            c.given();
            same(own, "own-dimensions");
            continue;
        }
        // distinct values everywhere, the smallest and larger ones
        std::array<int, 8> v;
        int base = t.choose(4, "values");
        for (int i = 0; i < 8; i++)
            v[i] = base == 0 ? 1 + i : base == 1 ? 8 - i : base == 2 ? (i == 4 || i == 5 ? 1 : 0) : 100 * (i + 1) + i * i;
        int n = isStatic ? t.pick(std::vector<int>{8, 5, 2}, "given") : 8;
        c.set(v, n);
        for (int i = n; i < 8; i++)
            v[i] = own[i];
        same(v, "dimensions");
        t.observe(v[0] + 100 * k);
    }
}

static void body(mc::Ctx &t)
{
    int part = t.choose(4, "part");
    if (part == 0)
    {
        int m = t.thorough ? 121 : 41; // -1 .. m-2 and a large one
        auto val = [&](const char *l)
        { int i = t.choose(m + 1, l); return i == m ? 1000 : i - 1; };
        int a = val("a"), b = val("b"), op = t.choose(3, "operator"), f = t.choose(3, "form");
        Size A(a), B(b);
        Size r = f == 0 ? eval(op, A, B) : f == 1 ? eval(op, A, b) : eval(op, a, B);
        int w = expected(op, a, b);
        t.check((int)r == w && r.value == w, op == 0 ? "sum" : op == 1 ? "difference" : "product",
                std::to_string(a) + (f == 2 ? " (int)" : "") + " op " + std::to_string(b) + (f == 1 ? " (int)" : "") + " is " + std::to_string((int)r) + " instead of " + std::to_string(w));
        t.check((int)A == a && (int)B == b && (int)Size(A) == a, "conversion");
        t.observe((uint64_t)(w + 10));
        // expressions of three operands, as the library writes them
        int c = t.choose(5, "c") - 1;
        Size C(c);
        t.check((int)((A + B) * C) == expected(2, expected(0, a, b), c), "sum-times");
        t.check((int)((A * B) + (C * 1)) == expected(0, expected(2, a, b), c), "product-plus");
        t.check((int)((A * B) + C + 1) == expected(0, expected(0, expected(2, a, b), c), 1), "product-plus-one");
    }
    else if (part == 1)
    {
        int k = t.choose(9 * CT * CT, "constant");
        int op = k % 3, a = k / 9 % CT - 1, b = k / 9 / CT - 1;
        t.check(TABLE[k] == expected(op, a, b), "compile-time", std::to_string(a) + " op " + std::to_string(op) + " " + std::to_string(b) + " is " + std::to_string(TABLE[k]));
        t.observe((uint64_t)(TABLE[k] + 10));
    }
    else if (part == 2)
    {
        // the fields of the size of a problem, dynamic or not in every place
        std::array<int, 8> v;
        int perm = t.choose(3, "values");
        for (int i = 0; i < 8; i++)
            v[i] = perm == 0 ? i + 1 : perm == 1 ? 80 - 9 * i : i % 2;
        int mask = t.choose(256, "dynamic");
        for (int i = 0; i < 8; i++)
            if (mask >> i & 1)
                v[i] = -1;
        MPCSize s(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
        MPCSize c = s;
        for (auto *p : {&s, &c})
        {
            std::array<int, 8> g = {p->nx, p->nu, p->ndu, p->ny, p->ph, p->ch, p->ineq, p->eq};
            for (int i = 0; i < 8; i++)
                t.check(g[i] == v[i], "problem-size", "field " + std::to_string(i));
        }
        t.observe(mask);
    }
    else
    {
        switch (t.choose(5, "component"))
        {
        case 0:
            return component<S1>(t, true);
        case 1:
            return component<S2>(t, true);
        case 2:
            return component<S3>(t, true);
        case 3:
            return component<DY>(t, false);
        default:
            return component<MIX>(t, false);
        }
    }
}

int main(int argc, char **argv)
{
    mc::Spec s;
    s.property = "C30";
    s.body = body;
    s.rule = "one execution: an operator on two operands (and expressions of three), a constant evaluated at compile time, the size of a problem, or three initialisations of a component";
    s.bound = "every pair of values in -1 (dynamic), 0..39 (0..119) and 1000, every operator, both orders with integers; compile time: every pair in -1..8; 256 patterns of dynamic fields; 5 sizes of components, static, dynamic and mixed";
    s.assumptions = {"operands are dimensions: nonnegative or the dynamic marker"};
    return mc::run(argc, argv, s);
}
