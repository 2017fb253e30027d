// C13: controllers are independent of each other. Two agents, each the owner of a controller,
// run on two threads of which one at a time has the token; the token may move between the calls
// and inside them, whenever the solver or a user function is entered.
#include "../lin/harness.hpp"
#include "../nl/harness.hpp"
#include <condition_variable>
#include <mutex>
#include <thread>

struct Agent
{
    std::vector<double> log;
    std::function<void()> point = [] {};
    virtual ~Agent() = default;
    virtual void op(int i) = 0;
    template <class D>
    void add(const Eigen::MatrixBase<D> &m)
    {
        log.push_back((double)m.rows());
        log.push_back((double)m.cols());
        for (long j = 0; j < (long)m.cols(); j++)
            for (long i = 0; i < (long)m.rows(); i++)
                log.push_back(m(i, j));
    }
    void add(double v) { log.push_back(v); }
    static constexpr int OPS = 5;
};
static Agent *running = nullptr;
struct Stop
{
};

struct NonLinear : Agent
{
    nl::Dims d;
    bool dyn, real;
    int v;
    std::unique_ptr<nl::Bench> b;
    int step = 0;
    std::map<std::string, int> seen;
    NonLinear(const nl::Dims &dd, bool y, int vv, bool r) : d(dd), dyn(y), real(r), v(vv) {}
    shim::Answer solve(shim::Problem &p)
    {
        point();
        seen.clear();
        add(p.lb), add(p.ub), add(p.x0), add(p.xabs), add(p.eqTol()), add(p.ineqTol());
        add(p.frel), add(p.xrel), add(p.maxtime), add(p.maxeval);
        nl::V z = nl::point(p.n, 4 + step), g;
        nl::M J;
        add(p.value(z, g));
        point();
        add(g);
        add(p.eqs(z, J)), add(J);
        add(p.ineqs(z, J)), add(J);
        add(p.value(z));
        shim::Answer a{step == 1 && v == 1 ? NLOPT_ROUNDOFF_LIMITED : NLOPT_SUCCESS, nl::point(p.n, 5 + v + step), 1.5 + v};
        a.real = real;
        return a;
    }
    void go()
    {
        seen.clear();
        nl::Result r = b->c->optimize(nl::meas(d, (v + step) % 3), nl::lastu(d, step % 3));
        nl::Seq s = b->c->seq();
        nl::Result l = b->c->last();
        add(r.code), add(r.feasible), add(r.cost), add(r.status), add(r.cmd), add(s.X), add(s.Y), add(s.U), add(l.cmd), add(l.status);
        nl::Stats st = b->c->stats();
        add(st.n);
        for (int k : st.byStatus)
            add(k);
        step++;
    }
    void op(int i) override
    {
        switch (i)
        {
        case 0:
        {
            b.reset(new nl::Bench(d, dyn));
            b->invoked = [this](const char *n)
            { if (seen[n]++ < 2) point(); };
            add(b->functions(nl::Fun{d, v}));
            nl::Params p;
            p.maxiter = real ? 6 : 40 + v;
            p.hard = v == 0;
            b->c->params(p);
            add(b->c->inputBoundsAll(nl::ramp(d.nu, -2 - v, -.1), nl::ramp(d.nu, 2 + v, .2)));
            break;
        }
        case 1:
            nl::scaling(*b->c, 1 + v % 2);
            add(b->c->stateBounds(nl::ramp(d.nx, -3 - v, -.1), nl::ramp(d.nx, 3 + v, .2), d.ph - 1, d.ph));
            if (v % 2)
                b->c->sampling(0.1);
            break;
        case 2:
            go();
            break;
        case 3:
        {
            nl::Params p;
            p.maxiter = real ? 4 : 50;
            p.warm = true;
            b->c->params(p);
            b->objective(nl::Fun{d, v + 1});
            go();
            break;
        }
        default:
            b.reset();
        }
    }
};

struct Linear : Agent
{
    lin::Dims d;
    bool dyn;
    int v;
    std::unique_ptr<lin::Bench> b;
    lin::Conf cf;
    int step = 0;
    Linear(const lin::Dims &dd, bool y, int vv) : d(dd), dyn(y), v(vv), cf(lin::Conf::demo(dd, vv)) {}
    stub::Answer solve(const stub::Call &c)
    {
        point();
        add(c.P), add(c.A), add(c.q), add(c.l), add(c.u), add(c.warm), add(c.wx), add(c.wy), add(c.set.max_iter), add(c.set.alpha);
        stub::Answer a;
        a.status = step == 1 && v == 1 ? OSQP_PRIMAL_INFEASIBLE : OSQP_SOLVED;
        a.x = lin::vec((int)c.q.size(), 50 + v + step), a.y = lin::vec((int)c.l.size(), 60 + v + step), a.obj = 2.5 + v;
        return a;
    }
    void go()
    {
        lin::Result r = b->c->optimize(lin::meas(d, (v + step) % 3), lin::lastu(d, step % 2));
        point();
        lin::Seq s = b->c->seq();
        lin::Result l = b->c->last();
        add(r.code), add(r.feasible), add(r.cost), add(r.status), add(r.cmd), add(s.X), add(s.Y), add(s.U), add(l.cmd), add(l.status);
        lin::Stats st = b->c->stats();
        add(st.n);
        for (int k : st.byStatus)
            add(k);
        step++;
    }
    void op(int i) override
    {
        switch (i)
        {
        case 0:
            b.reset(new lin::Bench(d, dyn));
            cf.apply(*b->c);
            break;
        case 1:
            for (auto o : {lin::Op{lin::OB, lin::SLICE, v, 0, 1}, lin::Op{lin::SCALAR, lin::ALLF, v}, lin::Op{lin::EXO, lin::SLICE, v, d.ph - 1, d.ph}})
                add(lin::apply(b->c.get(), cf, o));
            break;
        case 2:
            go();
            break;
        case 3:
        {
            lin::Params p;
            p.warm = v == 0;
            p.maxiter = 30 + v;
            b->c->params(p);
            add(lin::apply(b->c.get(), cf, {lin::REFS, lin::MATRIX, 3 + v}));
            go();
            break;
        }
        default:
            b.reset();
        }
    }
};

static std::unique_ptr<Agent> make(int pair, int who)
{
    static const std::vector<nl::Dims> ns = nl::statics();
    static const std::vector<lin::Dims> ls = lin::statics();
    using P = std::unique_ptr<Agent>;
    nl::Dims n1{2, 1, 1, 2, 1, 1, 1}, n2{2, 2, 1, 3, 2, 2, 1};
    switch (pair)
    {
    case 0: // the same class, another configuration
        return P(new NonLinear(ns[0], false, who, false));
    case 1: // run time sizes, different
        return P(new NonLinear(who ? n2 : n1, true, who, false));
    case 2: // the same size in the two modes
        return P(new NonLinear(ns[1 % ns.size()], who, who, false));
    case 3: // the same configuration: nothing but the history differs
        return P(new NonLinear(n1, true, 0, false));
    case 4: // with the real solver
        return P(new NonLinear(n1, true, who, true));
    case 5:
        return P(new Linear(ls[0], false, who));
    case 6:
        return P(new Linear(who ? lin::STATIC[0] : lin::STATIC[1], true, who));
    case 7:
        return P(new Linear(ls[1 % ls.size()], who, who));
    case 8:
        return who ? P(new Linear(ls[0], false, 0)) : P(new NonLinear(ns[0], false, 0, false));
    default:
        return who ? P(new NonLinear(n2, true, 1, true)) : P(new Linear(lin::STATIC[0], true, 1));
    }
}
static void hooks()
{
    shim::state().solver = [](shim::Problem &p)
    { return static_cast<NonLinear *>(running)->solve(p); };
    stub::state().solve = [](const stub::Call &c)
    { return static_cast<Linear *>(running)->solve(c); };
    stub::state().setup = [](const stub::Call &)
    { running->point(); return 0; };
}
static const std::vector<double> &alone(int pair, int who)
{
    static std::map<std::pair<int, int>, std::vector<double>> cache;
    auto it = cache.find({pair, who});
    if (it == cache.end())
    {
        auto a = make(pair, who);
        running = a.get();
        for (int i = 0; i < Agent::OPS; i++)
            a->op(i);
        it = cache.emplace(std::make_pair(pair, who), a->log).first;
    }
    return it->second;
}

static void body(mc::Ctx &t)
{
    hooks();
    int pair = t.choose(10, "pair");
    const std::vector<double> *ref[2] = {&alone(pair, 0), &alone(pair, 1)};
    std::unique_ptr<Agent> a[2] = {make(pair, 0), make(pair, 1)};
    if (t.flag("inside-the-calls"))
    {
        std::mutex m;
        std::condition_variable cv;
        int turn = t.choose(2, "first"), left = t.thorough ? 3 : 2;
        bool done[2] = {false, false}, aborted = false, skip = false;
        auto point = [&](int me)
        {
            if (aborted || done[1 - me] || left == 0)
                return;
            if (!t.choose(2, "switch"))
                return;
            left--;
            std::unique_lock<std::mutex> l(m);
            turn = 1 - me;
            t.observe(2000 + me + 2 * a[me]->log.size());
            cv.notify_all();
            cv.wait(l, [&]
                    { return turn == me; });
            running = a[me].get();
        };
        auto thread = [&](int me)
        {
            {
                std::unique_lock<std::mutex> l(m);
                cv.wait(l, [&]
                        { return turn == me; });
            }
            running = a[me].get();
            try
            {
                for (int i = 0; i < Agent::OPS && !aborted; i++)
                {
                    if (i)
                        point(me);
                    a[me]->op(i);
                }
            }
            catch (const mc::Skip &)
            {
                skip = aborted = true;
            }
            catch (const mc::Violation &)
            {
                aborted = true;
            }
            catch (const std::exception &e)
            {
                aborted = true;
                t.failed = true;
                t.first = {"exception", e.what()};
            }
            std::unique_lock<std::mutex> l(m);
            done[me] = true;
            turn = 1 - me;
            cv.notify_all();
        };
        for (int i = 0; i < 2; i++)
            a[i]->point = [&, i]
            { point(i); };
        std::thread th[2] = {std::thread(thread, 0), std::thread(thread, 1)};
        th[0].join();
        th[1].join();
        if (skip)
            throw mc::Skip();
        if (t.failed)
            throw t.first;
    }
    else
    {
        int n[2] = {0, 0};
        while (n[0] < Agent::OPS || n[1] < Agent::OPS)
        {
            int who = n[0] == Agent::OPS ? 1 : n[1] == Agent::OPS ? 0
                                                                    : t.choose(2, "next");
            running = a[who].get();
            a[who]->op(n[who]++);
            t.observe(10 * n[0] + n[1]);
        }
    }
    for (int i = 0; i < 2; i++)
    {
        nl::V x = Eigen::Map<const nl::V>(a[i]->log.data(), a[i]->log.size()), y = Eigen::Map<const nl::V>(ref[i]->data(), ref[i]->size());
        t.nearM(x, y, 1e-12, i ? "second-controller-disturbed" : "first-controller-disturbed");
        t.observeM(x);
    }
}

int main(int argc, char **argv)
{
    lin::quiet();
    if (!shim::selftest())
        return 2;
    mc::Spec s;
    s.property = "C13";
    s.body = body;
    s.rule = "one execution: an interleaving of two scripts of five calls (construction, configuration, steps, destruction), each on its own controller; everything each one reports and gives to its solver is compared with what it does alone";
    s.bound = "10 pairs of controllers; every interleaving of the calls; and interleavings inside the calls, on two threads, at every entry of the solver and the first two entries of every user function, with at most 2 (3) preemptions";
    s.assumptions = {"sequentially consistent memory: one thread at a time", "the nonlinear solver is replaced by the harness in most of the pairs", lin::STANDIN};
    s.split = 5;
    return mc::run(argc, argv, s);
}
