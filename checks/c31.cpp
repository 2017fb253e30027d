// C31: memory. Built with the address sanitizer (and bound checks); every history runs with
// three contents of the fresh memory, what can be observed must not depend on them, and the
// last run must leave no allocation behind.
#include "../lin/harness.hpp"
#include "../nl/harness.hpp"
#include <alloca.h>
#include <atomic>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));

static unsigned char fillByte = 0;
static bool filling = false;
static std::atomic<long> live{0};
__attribute__((no_sanitize("address"))) static void onMalloc(const volatile void *p, size_t n)
{
    if (filling && p && n && n < 65536)
    {
        volatile unsigned char *c = (volatile unsigned char *)p;
        for (size_t i = 0; i < n; i++)
            c[i] = fillByte;
    }
    if (p)
        live++;
}
static void onFree(const volatile void *p)
{
    if (p)
        live--;
}
__attribute__((no_sanitize("address"), noinline)) static void paint()
{
    volatile unsigned char *c = (volatile unsigned char *)alloca(49152);
    for (int i = 0; i < 49152; i++)
        c[i] = fillByte;
}

struct Log
{
    std::vector<double> v;
    template <class D>
    void add(const Eigen::MatrixBase<D> &m)
    {
        v.push_back((double)m.rows()), v.push_back((double)m.cols());
        for (long j = 0; j < (long)m.cols(); j++)
            for (long i = 0; i < (long)m.rows(); i++)
                v.push_back(m(i, j));
    }
    void add(double x) { v.push_back(x); }
    void add(const std::string &s)
    {
        v.push_back((double)s.size());
        for (char c : s)
            v.push_back(c);
    }
    void add(const std::vector<double> &x)
    {
        v.push_back((double)x.size());
        v.insert(v.end(), x.begin(), x.end());
    }
    template <class R>
    void result(const R &r)
    {
        add(r.code), add(r.feasible), add(r.msg), add(r.cost), add(r.status), add(r.cmd);
    }
    template <class S>
    void stats(const S &s)
    {
        // the durations are not under control here
        add(s.n);
        for (int k : s.byStatus)
            add(k);
    }
};
struct Op
{
    int id = 0, x = 0, y = 0;
    bool operator==(const Op &) const = default;
};
struct Subject
{
    virtual ~Subject() = default;
    virtual void apply(const Op &o, Log &l) = 0;
    virtual void end(Log &l) = 0;
};

struct NonLinear : Subject
{
    nl::Dims d;
    bool dy;
    std::unique_ptr<nl::Bench> b;
    bool ready = false;
    int n = 0, v = 0;
    const char *boom = nullptr;
    int skip = 0;
    NonLinear(const nl::Dims &dd, bool y) : d(dd), dy(y) { fresh(); }
    void fresh()
    {
        b.reset();
        b.reset(new nl::Bench(d, dy));
        b->invoked = [this](const char *f)
        { if (boom && !strcmp(boom, f) && skip-- <= 0) throw std::runtime_error("user"); };
        ready = false;
    }
    static int arity(int id)
    {
        static const int a[] = {2, 5, 2, 5, 2, 4, 4, 3, 9, 2, 1, 1};
        return a[id];
    }
    static constexpr int IDS = 12;
    void step(int how, Log &l)
    {
        if (!ready)
        {
            l.add(b->functions(nl::Fun{d, 0}));
            ready = true;
        }
        static const int codes[] = {NLOPT_SUCCESS, NLOPT_MAXEVAL_REACHED, NLOPT_ROUNDOFF_LIMITED, NLOPT_FAILURE, NLOPT_SUCCESS};
        static const char *who[] = {"objective", "state", "ineq"};
        int k = n++;
        boom = nullptr;
        if (how >= 5 && how < 8)
            boom = who[how - 5], skip = how == 6 ? k % 3 : 0;
        nl::Result r = b->step(nl::meas(d, k % 3), nl::lastu(d, k % 3), [&](shim::Problem &p)
                               {
            l.add(p.lb), l.add(p.ub), l.add(p.x0), l.add(p.xabs), l.add(p.ineqTol()), l.add(p.eqTol());
            l.add(p.frel), l.add(p.xrel), l.add(p.fabs), l.add(p.maxtime), l.add(p.maxeval);
            shim::Answer a;
            a.x = nl::point(p.n, 4 + k % 3);
            if (how >= 8)
            {
                a.real = true;
                return a;
            }
            nl::V g;
            nl::M J;
            l.add(p.value(a.x, g)), l.add(g);
            l.add(p.eqs(a.x, J)), l.add(J);
            l.add(p.ineqs(a.x, J)), l.add(J);
            l.add(p.value(a.x));
            if (p.stopped())
                a.code = NLOPT_FORCED_STOP;
            else
                a.code = codes[how >= 5 ? 0 : how];
            a.f = 2.5;
            if (how == 4)
                a.x.setConstant(nl::NaN);
            return a; });
        boom = nullptr;
        l.result(r);
    }
    void query(Log &l)
    {
        l.result(b->c->last());
        nl::Seq s = b->c->seq();
        l.add(s.X), l.add(s.Y), l.add(s.U);
        l.stats(b->c->stats());
    }
    void apply(const Op &o, Log &l) override
    {
        auto &c = *b->c;
        int h = o.id == 4 ? d.ch : d.ph;
        auto bound = [&](auto mat, auto vec, int rows, int cols)
        {
            nl::M lo = nl::M::Constant(rows, cols, -4 - v), hi = nl::M::Constant(rows, cols, 4 + v);
            nl::V a = lo.col(0), z = hi.col(0);
            switch (o.x)
            {
            case 0:
                l.add(mat(lo, hi));
                break;
            case 1:
                l.add(vec(a, z, -1, -1));
                break;
            case 2:
                l.add(vec(a, z, cols - 1, cols));
                break;
            default:
                l.add(vec(a, z, cols, cols + 1)); // refused
            }
        };
        switch (o.id)
        {
        case 0: // all the functions
            l.add(b->functions(nl::Fun{d, v = 1 + o.x}));
            ready = true;
            break;
        case 1: // one function again
        {
            nl::Fun f{d, ++v};
            bool r = o.x == 0 ? b->objective(f) : o.x == 1 ? b->state(f) : o.x == 2 ? b->output(f) : o.x == 3 ? b->ineq(f, 1e-3) : b->eq(f, 1e-3);
            l.add(r);
            if (!ready)
            {
                b->functions(f);
                ready = true;
            }
            break;
        }
        case 2:
            l.add(c.sampling(o.x ? 0.2 : 0));
            break;
        case 3:
        {
            nl::Params p;
            p.maxiter = 6;
            p.warm = o.x == 1;
            p.hard = o.x != 2;
            p.time = o.x == 3 ? 1 : 0;
            if (o.x == 4)
                c.defaultParams();
            else
                c.params(p);
            break;
        }
        case 4:
            if (o.x)
                c.stateScale(nl::xscale(d, 1));
            else
                c.inputScale(nl::uscale(d, 1));
            break;
        case 5:
            bound([&](auto &a, auto &z)
                  { return c.stateBounds(a, z); }, [&](auto &a, auto &z, int s, int e)
                  { return c.stateBounds(a, z, s, e); }, d.nx, d.ph);
            break;
        case 6:
            bound([&](auto &a, auto &z)
                  { return c.inputBounds(a, z); }, [&](auto &a, auto &z, int s, int e)
                  { return c.inputBounds(a, z, s, e); }, d.nu, d.ch);
            break;
        case 7: // not supported by this controller
            try
            {
                bound([&](auto &a, auto &z)
                      { return c.outputBounds(a, z); }, [&](auto &a, auto &z, int s, int e)
                      { return c.outputBounds(a, z, s, e); }, d.ny, d.ph);
            }
            catch (const std::runtime_error &)
            {
                l.add(-1);
            }
            break;
        case 8:
            step(o.x, l);
            break;
        case 9:
            if (o.x)
                c.resetStats();
            query(l);
            break;
        case 10: // a longer life: destroyed and built again
            fresh();
            break;
        default: // a second controller lives for a while
        {
            NonLinear other(d, dy);
            other.step(0, l);
            step(0, l);
            other.query(l);
        }
        }
        (void)h;
    }
    void end(Log &l) override
    {
        if (ready)
            step(0, l);
        query(l);
        b.reset();
    }
};

struct Linear : Subject
{
    lin::Dims d;
    bool dy;
    std::unique_ptr<lin::Bench> b;
    lin::Conf cf;
    int n = 0;
    Linear(const lin::Dims &dd, bool y) : d(dd), dy(y) { fresh(); }
    void fresh()
    {
        b.reset();
        b.reset(new lin::Bench(d, dy));
        cf = lin::Conf(d);
    }
    static int arity(int id)
    {
        static const int a[] = {1, 4, 3, 3, 3, 3, 3, 3, 3, 2, 2, 2, 3, 8, 2, 2, 1, 1};
        return a[id];
    }
    static constexpr int IDS = 18;
    void step(int how, Log &l)
    {
        static const int st[] = {OSQP_SOLVED, OSQP_PRIMAL_INFEASIBLE, OSQP_MAX_ITER_REACHED, OSQP_NON_CVX, OSQP_DUAL_INFEASIBLE, OSQP_TIME_LIMIT_REACHED};
        int k = n++;
        if (how >= 6)
            stub::state().setup = [=](const stub::Call &)
            { return how == 6 ? (int)OSQP_LINSYS_SOLVER_INIT_ERROR : (int)OSQP_DATA_VALIDATION_ERROR; };
        lin::Result r = b->step(lin::meas(d, k % 3), lin::lastu(d, k % 2), [&](const stub::Call &c)
                                {
            l.add(c.P), l.add(c.A), l.add(c.q), l.add(c.l), l.add(c.u), l.add(c.warm), l.add(c.wx), l.add(c.wy);
            l.add((double)c.set.max_iter), l.add(c.set.alpha), l.add(c.set.eps_abs), l.add((double)c.set.warm_start), l.add((double)c.set.polish);
            stub::Answer a;
            a.status = st[how < 6 ? how : 0];
            a.x = lin::vec((int)c.q.size(), 30 + k), a.y = lin::vec((int)c.l.size(), 40 + k), a.obj = 3.5;
            return a; });
        stub::state().setup = nullptr;
        l.result(r);
    }
    void query(Log &l)
    {
        l.result(b->c->last());
        lin::Seq s = b->c->seq();
        l.add(s.X), l.add(s.Y), l.add(s.U);
        l.add(b->c->primal()), l.add(b->c->dual());
        l.stats(b->c->stats());
    }
    void apply(const Op &o, Log &l) override
    {
        auto &c = *b->c;
        auto set = [&](lin::Item it)
        {
            int h = it == lin::IB ? d.ch : d.ph;
            lin::Op q{it, it == lin::SCALAR ? lin::SLICE : lin::MATRIX, 1 + o.x};
            if (it == lin::SCALAR)
                q.a = 0, q.b = h;
            if (o.x == 1)
                q.form = lin::SLICE, q.a = h - 1, q.b = h;
            if (o.x == 2)
                q.form = lin::SLICE, q.a = h, q.b = h + 1; // refused
            l.add(lin::apply(&c, cf, q));
        };
        switch (o.id)
        {
        case 0:
            cf = lin::Conf::demo(d, n % 3);
            cf.apply(c);
            break;
        case 1:
        {
            lin::Params p;
            p.warm = o.x == 1;
            p.time = o.x == 2 ? 0.5 : 0;
            p.maxiter = 7;
            if (o.x == 3)
                c.defaultParams();
            else
                c.params(p);
            break;
        }
        case 2:
            set(lin::EXO);
            break;
        case 3:
            set(lin::WEIGHTS);
            break;
        case 4:
            set(lin::REFS);
            break;
        case 5:
            set(lin::SB);
            break;
        case 6:
            set(lin::IB);
            break;
        case 7:
            set(lin::OB);
            break;
        case 8:
            set(lin::SCALAR);
            break;
        case 9:
            l.add(lin::apply(&c, cf, {lin::SCALAR, lin::INDEX, 1, o.x ? d.ph : d.ph - 1}));
            break;
        case 10:
            l.add(lin::apply(&c, cf, {lin::CONSTR, lin::INDEX, 1, o.x ? d.ph : d.ph - 1}));
            break;
        case 11:
            l.add(lin::apply(&c, cf, {o.x ? lin::DISTURB : lin::MODEL, lin::MATRIX, 1 + n % 2}));
            break;
        case 12:
            try // not supported by this controller
            {
                if (o.x == 0)
                    l.add(c.sampling(0.2));
                if (o.x == 1)
                    c.inputScale(lin::V::Constant(d.nu, 2));
                if (o.x == 2)
                    c.stateScale(lin::V::Constant(d.nx, 2));
            }
            catch (const std::runtime_error &)
            {
                l.add(-1);
            }
            break;
        case 13:
            step(o.x, l);
            break;
        case 14:
            if (o.x)
                c.resetStats();
            query(l);
            break;
        case 15: // the solver's vectors given back, or cleared
        {
            auto x = c.primal(), y = c.dual();
            if (o.x)
                x.clear(), y.clear();
            c.setWarm(x, y);
            break;
        }
        case 16:
            fresh();
            break;
        default:
        {
            Linear other(d, dy);
            other.step(0, l);
            step(0, l);
            other.query(l);
        }
        }
    }
    void end(Log &l) override
    {
        step(0, l);
        query(l);
        b.reset();
    }
};

struct Kind
{
    bool lin, dy;
    nl::Dims n;
    lin::Dims l;
    std::unique_ptr<Subject> make() const
    {
        if (lin)
            return std::unique_ptr<Subject>(new Linear(l, dy));
        return std::unique_ptr<Subject>(new NonLinear(n, dy));
    }
};
static std::vector<Kind> kinds()
{
    std::vector<Kind> r;
    for (auto &d : nl::statics())
        r.push_back({false, false, d, {}});
    for (nl::Dims d : {nl::Dims{2, 1, 1, 2, 1, 1, 1}, nl::Dims{1, 2, 2, 3, 3, 0, 2}, nl::Dims{2, 1, 3, 4, 2, 2, 0}})
        r.push_back({false, true, d, {}});
    for (auto &d : lin::statics())
        r.push_back({true, false, {}, d});
    for (lin::Dims d : {lin::Dims{1, 1, 1, 1, 1, 1}, lin::Dims{2, 1, 2, 2, 3, 2}})
        r.push_back({true, true, {}, d});
    return r;
}

static Log history(const Kind &k, const std::vector<Op> &ops, unsigned char byte)
{
    fillByte = byte;
    filling = true;
    Log l;
    {
        paint();
        auto s = k.make();
        for (auto &o : ops)
        {
            paint();
            s->apply(o, l);
        }
        paint();
        s->end(l);
    }
    filling = false;
    return l;
}

static void body(mc::Ctx &t)
{
    static const std::vector<Kind> ks = kinds();
    const Kind &k = ks[t.choose((int)ks.size(), "controller")];
    t.note((k.lin ? "linear " + k.l.str() : "nonlinear " + k.n.str()) + (k.dy ? " run time" : ""));
    int n = t.thorough ? 3 : 2;
    std::vector<Op> ops;
    int ids = k.lin ? Linear::IDS : NonLinear::IDS;
    // the histories start from a controller just built or from one in use
    int start = t.choose(3, "start");
    if (start)
    {
        ops.push_back({0, 0});
        ops.push_back(k.lin ? Op{13, start == 1 ? 0 : 1} : Op{8, start == 1 ? 0 : 5});
    }
    int first = (int)ops.size();
    for (int i = 0; i < n; i++)
    {
        Op o;
        o.id = t.choose(ids + 1, "operation") - 1;
        if (o.id < 0)
            break; // nothing more
        o.x = t.choose(k.lin ? Linear::arity(o.id) : NonLinear::arity(o.id), "argument");
        ops.push_back(o);
    }
    (void)first;
    int ws = stub::state().live_ws;
    long blocks = stub::state().live_blocks;
    Log a = history(k, ops, 0);
    Log b = history(k, ops, 0x3f);
    long before = live;
    {
        Log c = history(k, ops, 0xff);
        auto same = [&](const Log &p, const Log &q)
        {
            bool ok = p.v.size() == q.v.size();
            size_t i = 0;
            for (; ok && i < p.v.size(); i++)
                ok = p.v[i] == q.v[i] || (std::isnan(p.v[i]) && std::isnan(q.v[i]));
            t.check(ok, "uninitialised-memory", "observation " + std::to_string(i) + " depends on the contents of fresh memory" + (i && i <= p.v.size() && i <= q.v.size() ? ": " + std::to_string(p.v[i - 1]) + " or " + std::to_string(q.v[i - 1]) : ""));
        };
        same(a, b);
        same(a, c);
        uint64_t h = a.v.size();
        for (double x : a.v)
            h = mc::mix(h, mc::Ctx::q(x));
        t.observe(h);
    }
    long after = live;
    t.check(after == before, "leak", std::to_string(after - before) + " allocations left behind");
    t.check(stub::state().live_ws == ws && stub::state().live_blocks == blocks, "solver-data-leak",
            std::to_string(stub::state().live_ws - ws) + " workspaces and " + std::to_string(stub::state().live_blocks - blocks) + " blocks of the solver left behind");
}

int main(int argc, char **argv)
{
    lin::quiet();
    if (!shim::selftest())
        return 2;
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    mc::Spec s;
    s.property = "C31";
    s.body = body;
    s.rule = "one execution: a history of a controller (from new, after a successful or a failed step) up to a last step, a read and its destruction, run three times with the fresh heap and stack filled with 0x00, 0x3f and 0xff, under the address sanitizer";
    s.bound = "linear and nonlinear controllers, static and run time sized; every sequence of up to 2 (3) operations over all the setters in all their forms, 8 or 9 outcomes of a step (with exceptions and refused problems), queries, warm start vectors, destruction, and a second controller; from 3 starting points";
    s.assumptions = {"controllers are not copied", "vectors and matrices of the right size", "fresh blocks of more than 64 kB are not filled", lin::STANDIN};
    s.exec_timeout = 120;
    return mc::run(argc, argv, s);
}
