// C26: the execution statistics, under a clock moved by the harness.
#include "../lin/harness.hpp"
#include "../nl/harness.hpp"
#include <chrono>
#include <mpc/Profiler.hpp>

static long long ticks = 1000000000000ll; // ns
std::chrono::_V2::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept { return time_point(duration(ticks)); }
std::chrono::_V2::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { return time_point(duration(ticks)); }

struct Subject
{
    virtual ~Subject() = default;
    virtual int outcomes() = 0;
    virtual int step(int outcome, long long ns) = 0; // the status reported
    virtual nl::Stats stats() = 0;
    virtual void reset() = 0;
};
struct Direct : Subject
{
    mpc::Profiler p;
    int outcomes() override { return 5; }
    int step(int o, long long ns) override
    {
        static const mpc::ResultStatus k[] = {mpc::ResultStatus::SUCCESS, mpc::ResultStatus::MAX_ITERATION, mpc::ResultStatus::INFEASIBLE, mpc::ResultStatus::ERROR, mpc::ResultStatus::UNKNOWN};
        mpc::Result<1> r;
        r.status = k[o];
        p.solutionStart();
        ticks += ns;
        p.solutionEnd<1>(r);
        return o;
    }
    nl::Stats stats() override
    {
        auto s = p.getStats();
        nl::Stats o{s.minSolutionTime.count(), s.maxSolutionTime.count(), s.averageSolutionTime.count(), s.totalSolutionTime.count(), s.standardDeviation, s.numberOfSolutions, {}};
        int sum = 0;
        for (auto k : {mpc::ResultStatus::SUCCESS, mpc::ResultStatus::MAX_ITERATION, mpc::ResultStatus::INFEASIBLE, mpc::ResultStatus::ERROR, mpc::ResultStatus::UNKNOWN})
            o.byStatus.push_back(s.solutionsStates.count(k) ? s.solutionsStates.at(k) : 0), sum += o.byStatus.back();
        return o;
    }
    void reset() override { p.reset(); }
};
struct NonLinear : Subject
{
    nl::Bench b;
    bool boom = false;
    NonLinear(const nl::Dims &d, bool dy) : b(d, dy)
    {
        b.functions(nl::Fun{d, 0});
        b.invoked = [this](const char *)
        { if (boom) throw std::runtime_error("user"); };
    }
    int outcomes() override { return 5; }
    int step(int o, long long ns) override
    {
        static const int code[] = {NLOPT_SUCCESS, NLOPT_MAXEVAL_REACHED, NLOPT_FAILURE, 0, NLOPT_MAXTIME_REACHED};
        const int n = b.d.nu;
        if (o == 3)
            b.c->inputBoundsAll(nl::V::Constant(n, 3), nl::V::Constant(n, 1)); // refused before the solver runs
        boom = false;
        nl::Result r = b.step(nl::meas(b.d, 0), nl::lastu(b.d, 0), [&](shim::Problem &p)
                              {
            ticks += ns;
            nl::V z = nl::point(p.n, 4);
            if (o == 2) // a failing function: the solver stops
            {
                boom = true;
                p.value(z);
                boom = false;
                return shim::Answer{NLOPT_FORCED_STOP, z, 0};
            }
            return shim::Answer{code[o], z, 1.0}; });
        if (o == 3)
            b.c->inputBoundsAll(nl::V::Constant(n, -nl::inf), nl::V::Constant(n, nl::inf));
        return r.status;
    }
    nl::Stats stats() override { return b.c->stats(); }
    void reset() override { b.c->resetStats(); }
};
struct Linear : Subject
{
    lin::Bench b;
    Linear(const lin::Dims &d, bool dy) : b(d, dy) { lin::Conf::demo(d).apply(*b.c); }
    int outcomes() override { return 5; }
    int step(int o, long long ns) override
    {
        static const int st[] = {OSQP_SOLVED, OSQP_MAX_ITER_REACHED, OSQP_PRIMAL_INFEASIBLE, 0, OSQP_NON_CVX};
        if (o == 3)
            stub::state().setup = [&](const stub::Call &)
            { ticks += ns; return (int)OSQP_LINSYS_SOLVER_INIT_ERROR; };
        lin::Result r = b.step(lin::meas(b.d, 1), lin::lastu(b.d, 1), [&](const stub::Call &c)
                               { ticks += ns; stub::Answer a; a.status = st[o]; a.x = lin::vec((int)c.q.size(), 5); a.y = lin::vec((int)c.l.size(), 6); return a; });
        stub::state().setup = nullptr;
        return r.status;
    }
    nl::Stats stats() override
    {
        lin::Stats s = b.c->stats();
        return {s.min, s.max, s.avg, s.tot, s.std, s.n, s.byStatus};
    }
    void reset() override { b.c->resetStats(); }
};

static std::unique_ptr<Subject> make(int k)
{
    static const std::vector<nl::Dims> ns = nl::statics();
    static const std::vector<lin::Dims> ls = lin::statics();
    using P = std::unique_ptr<Subject>;
    switch (k)
    {
    case 0:
        return P(new Direct);
    case 1:
        return P(new NonLinear(ns[0], false));
    case 2:
        return P(new NonLinear({2, 1, 1, 2, 1, 1, 0}, true));
    case 3:
        return P(new Linear(ls[0], false));
    default:
        return P(new Linear({1, 1, 1, 1, 2, 1}, true));
    }
}
struct Model
{
    std::vector<double> d;
    int by[5] = {};
};
static void compare(mc::Ctx &t, const nl::Stats &s, const Model &m)
{
    int n = (int)m.d.size(), sum = 0;
    t.check(s.n == n, "number-of-solutions", std::to_string(s.n) + " for " + std::to_string(n));
    for (int i = 0; i < 5; i++)
    {
        t.check(s.byStatus[i] == m.by[i], "status-count", "status " + std::to_string(i) + ": " + std::to_string(s.byStatus[i]) + " for " + std::to_string(m.by[i]));
        sum += s.byStatus[i];
    }
    t.check(sum == n, "counts-do-not-add-up");
    long double tot = 0, mn = INFINITY, mx = -INFINITY, q = 0;
    for (double x : m.d)
        tot += x, mn = std::min<long double>(mn, x), mx = std::max<long double>(mx, x);
    long double avg = n ? tot / n : 0;
    for (double x : m.d)
        q += (x - avg) * (x - avg);
    double sd = n ? (double)std::sqrt(q / n) : 0, scale = n ? (double)mx : 0;
    auto is = [&](double got, double want, double tol, const char *key)
    {
        std::ostringstream o;
        o.precision(12);
        o << got << " instead of " << want << " after " << n << " steps";
        t.check(std::fabs(got - want) <= tol, key, o.str());
    };
    is(s.tot, (double)tot, 1e-9 * (double)tot, "total");
    is(s.avg, (double)avg, 1e-9 * scale, "average");
    is(s.std, sd, 2e-7 * scale, "standard-deviation");
    if (n)
    {
        is(s.min, (double)mn, 1e-12 * scale, "minimum");
        is(s.max, (double)mx, 1e-12 * scale, "maximum");
    }
    t.observe(s.n);
    t.observeD(s.tot);
    t.observeD(s.std);
}

static void body(mc::Ctx &t)
{
    ticks = 1000000000000ll;
    int k = t.choose(5, "subject");
    auto a = make(k);
    Model m;
    compare(t, a->stats(), m);
    // durations from nanoseconds to minutes
    static const std::vector<long long> all = {2000000, 5000000, 0, 1, 60000000000ll};
    auto step = [&](int o, long long ns)
    {
        ticks += 7000000; // time spent between the steps
        int st = a->step(o, ns);
        ticks += 3000000;
        if (k == 1 || k == 2)
            if (o == 3)
                ns = 0; // refused, no time passes
        m.d.push_back(ns * 1e-9);
        t.check(st >= 0 && st < 5, "status");
        m.by[st]++;
    };
    if (t.flag("long"))
    {
        // a pattern repeated many times, then a reset, then another one
        int len = 1 + t.choose(3, "length"), rep = t.choose(2, "repetitions") ? 60 : 17;
        std::vector<std::pair<int, int>> p;
        for (int i = 0; i < len; i++)
        {
            int o = t.choose(2, "outcome") ? 1 + t.choose(4, "which") : 0;
            p.push_back({o, t.choose(3, "duration")});
        }
        for (int i = 0; i < rep; i++)
            for (auto [o, d] : p)
                step(o, all[d]);
        compare(t, a->stats(), m);
        a->reset();
        m = Model();
        compare(t, a->stats(), m);
        for (auto [o, d] : p)
        {
            step(o, all[(d + 1) % all.size()]);
            compare(t, a->stats(), m);
        }
        return;
    }
    bool every = t.flag("read-after-each");
    int n = k == 0 ? 4 : 3;
    if (t.thorough)
        n++;
    int nd = k == 0 || t.thorough ? 5 : 4;
    for (int i = 0; i < n; i++)
    {
        int op = t.choose(a->outcomes() + 2, "operation");
        if (op == a->outcomes())
        {
            a->reset();
            m = Model();
        }
        else if (op > a->outcomes())
        {
            // another controller starts from nothing, whatever the first has done
            auto b = make(k);
            compare(t, b->stats(), Model());
            b->step(0, all[0]);
            if (t.flag("keep-new"))
            {
                a = std::move(b);
                m = Model();
                m.d = {all[0] * 1e-9};
                m.by[0] = 1;
            }
        }
        else
            step(op, all[t.choose(nd, "duration")]);
        if (every)
            compare(t, a->stats(), m);
    }
    compare(t, a->stats(), m);
}

int main(int argc, char **argv)
{
    lin::quiet();
    if (!shim::selftest())
        return 2;
    mc::Spec s;
    s.property = "C26";
    s.body = body;
    s.rule = "one execution: a sequence of steps (with a duration and an outcome), resets, other controllers and reads on the profiler or on a controller; the statistics are compared with those of the list of durations";
    s.bound = "the profiler alone and linear and nonlinear controllers, static and run time sized; every sequence of 4 (profiler) or 3 (controllers) operations over 5 outcomes and 4-5 durations between 0 and a minute, one more in the thorough tier; patterns of up to 3 steps repeated 17 and 60 times";
    s.assumptions = {"std::chrono clocks are moved by the harness only", "minimum and maximum are not specified before the first step", lin::STANDIN};
    return mc::run(argc, argv, s);
}
