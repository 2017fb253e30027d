// C20: the command is held after the control horizon and free before.
#include "../lin/harness.hpp"
using namespace lin;

static void body(mc::Ctx &t)
{
    bool dy;
    static std::vector<Dims> pairs;
    static const std::vector<Dims> st = statics();
    if (pairs.empty())
        for (int nu = 1; nu <= 2; nu++)
            for (int ph = 1; ph <= (t.thorough ? 8 : 6); ph++)
                for (int ch = 1; ch <= ph; ch++)
                    pairs.push_back({2, nu, 1, 1, ph, ch});
    int n = (int)st.size(), i = t.choose(n + (int)pairs.size(), "size");
    dy = i >= n;
    Dims d = dy ? pairs[i - n] : st[i];
    t.note(d.str());
    const M &D = decode(d, dy, t);
    Bench b(d, dy);
    Conf cf = Conf::demo(d, t.choose(2, "model"));
    int bounded = t.choose(3, "bounds");
    if (bounded == 1)
        cf.ul.setConstant(-5), cf.uh.setConstant(5);
    if (bounded == 2)
        cf.xl.setConstant(-50), cf.yh.setConstant(50);
    cf.apply(*b.c);
    V x0 = meas(d, 1), u0 = lastu(d, t.choose(2, "last-input"));
    if (t.flag("second-step"))
        b.step(x0, u0);
    // a sequence which moves component c at step k only is admitted if and only if k < ch
    int k = t.choose(d.ph, "step"), c = t.choose(d.nu, "component");
    double move = t.flag("down") ? -0.75 : 0.75;
    M U = M::Zero(d.ph + 1, d.nu);
    for (int j = 0; j <= d.ph; j++)
    {
        U.row(j) = u0.transpose();
        if (j >= k)
            U(j, c) += move;
    }
    M X(d.ph + 1, d.nx);
    X.row(0) = x0.transpose();
    for (int j = 0; j < d.ph; j++)
        X.row(j + 1) = (cf.A * X.row(j).transpose() + cf.B * U.row(j).transpose() + cf.Bd * cf.dist.col(j)).transpose();
    V want(X.size() + U.size());
    want << X.reshaped(), U.reshaped();
    Result r = b.step(x0, u0, [&](const stub::Call &cl)
                      {
        // is there a vector which satisfies the equality rows and is reported as this sequence
        std::vector<int> eq;
        for (int i = 0; i < cl.l.size(); i++)
            if (cl.l[i] == cl.u[i])
                eq.push_back(i);
        M K(D.rows() + eq.size(), D.cols());
        V e(D.rows() + eq.size());
        K.topRows(D.rows()) = D;
        e.head(D.rows()) = want;
        for (size_t i = 0; i < eq.size(); i++)
            K.row(D.rows() + i) = cl.A.row(eq[i]), e[D.rows() + i] = cl.l[eq[i]];
        V z = K.colPivHouseholderQr().solve(e);
        double err = (K * z - e).cwiseAbs().maxCoeff();
        if (k < d.ch)
        {
            t.check(err < 1e-7, "increment-refused", "step " + std::to_string(k));
            // and no other row stands in its way (the bounds of the user are far)
            if (bounded != 2)
            {
                V v = cl.A * z;
                for (int i = 0; i < v.size(); i++)
                    t.check(v[i] >= cl.l[i] - 1e-6 && v[i] <= cl.u[i] + 1e-6, "increment-out-of-bounds", "step " + std::to_string(k));
            }
        }
        else
            t.check(err > 1e-3, "increment-admitted", "step " + std::to_string(k));
        Conf f = cf.unbounded();
        if (!bounded)
            reduce(t, f, x0, cl, D, "held");
        stub::Answer a;
        a.x = z;
        if (k >= d.ch) // whatever the solver answers, the report repeats the last row
            a.x = vec((int)z.size(), 42);
        a.y = V::Zero(cl.l.size());
        t.observeM(a.x);
        return a; });
    Seq s = b.c->seq();
    if (k < d.ch)
        t.nearM(s.U, U, 1e-7, "input-sequence");
    t.check(s.U.rows() == d.ph + 1 && s.U.cols() == d.nu, "sequence-size");
    t.check(s.U.row(d.ph) == s.U.row(d.ph - 1), "last-row-not-repeated");
    t.check(r.cmd == s.U.row(0).transpose(), "command-not-the-first-row");
    t.observeM(s.U);
}

int main(int argc, char **argv)
{
    mc::Spec s;
    s.property = "C20";
    s.body = body;
    s.rule = "one execution: a step; a trajectory with a single command increment at a chosen step and component is tried against the equality rows, and the report of the answer is checked";
    s.bound = "every pair ch <= ph up to 6 (8), one or two inputs, every single increment, with and without bounds";
    s.assumptions = {STANDIN};
    return lin::main(argc, argv, s);
}
