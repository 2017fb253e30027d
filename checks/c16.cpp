// C16: exceptions of the user functions.
#include "../nl/harness.hpp"
#include <map>
#include <new>
using namespace nl;

static void raise(int type, const char *n)
{
    switch (type)
    {
    case 0:
        throw std::runtime_error(std::string("user ") + n);
    case 1:
        throw std::bad_alloc();
    case 2:
        throw std::invalid_argument("user");
    case 3:
        throw std::out_of_range("user");
    default:
        throw std::domain_error("user");
    }
}

struct Setup
{
    Dims d;
    bool dynamic, warm, cont, hard;
    int sc;
};
static void configure(Bench &b, const Setup &s)
{
    Fun f{s.d, 0};
    b.functions(f);
    scaling(*b.c, s.sc);
    if (s.cont)
        b.c->sampling(0.2);
    Params p;
    p.maxiter = 2;
    p.warm = s.warm;
    p.hard = s.hard;
    p.frel = 1e-6;
    b.c->params(p);
    b.c->inputBoundsAll(V::Constant(s.d.nu, -3), V::Constant(s.d.nu, 3));
}
// the invocations of a step
static int invocations(const Setup &s, int at)
{
    static std::map<std::string, int> cache;
    std::string k = s.d.str() + std::to_string(s.dynamic) + std::to_string(s.warm) + std::to_string(s.cont) + std::to_string(s.hard) + std::to_string(s.sc) + std::to_string(at);
    if (!cache.count(k))
    {
        Bench b(s.d, s.dynamic);
        configure(b, s);
        for (int i = 0; i <= at; i++)
        {
            b.calls = 0;
            b.c->optimize(meas(s.d, i % 3), lastu(s.d, i % 3));
        }
        cache[k] = b.calls;
    }
    return cache[k];
}

static void body(mc::Ctx &t)
{
    static const std::vector<Dims> st = statics(), dy = dynDims(t.thorough);
    Setup s;
    int n = (int)st.size(), m = t.thorough ? (int)dy.size() : 4;
    int i = t.choose(n + m, "size");
    s.dynamic = i >= n;
    s.d = i < n ? st[i] : dy[i - n];
    const Dims d = s.d;
    t.note((s.dynamic ? "dynamic " : "static ") + d.str());
    s.warm = t.flag("warm");
    s.cont = t.flag("continuous");
    s.sc = (t.thorough || s.cont) ? t.choose(2, "scaling") : 0;
    s.hard = !s.cont;
    int at = t.choose(2, "failing-step"); // the step in which the function throws
    int N = invocations(s, at);
    // where: every invocation of the step
    int k = t.choose(N, "invocation");
    int type = t.thorough ? t.choose(5, "exception") : k % 5;
    int again = t.thorough ? t.choose(2, "again") : 0; // and in the next one too
    Bench b(d, s.dynamic), twin(d, s.dynamic);
    configure(b, s);
    configure(twin, s);
    V prev = V::Zero(d.nu);
    for (int step = 0; step < at; step++)
    {
        Result r = b.c->optimize(meas(d, step), lastu(d, step)), w = twin.c->optimize(meas(d, step), lastu(d, step));
        t.check(r.status == w.status, "twin");
        prev = r.cmd;
    }
    for (int rep = 0; rep <= again; rep++)
    {
        int cnt = 0;
        bool raised = false;
        std::string where;
        b.invoked = [&](const char *nm)
        {
            if (cnt++ == k)
            {
                raised = true;
                where = nm;
                raise(type, nm);
            }
        };
        Result r;
        bool escaped = false;
        try
        {
            r = b.c->optimize(meas(d, (at + rep) % 3), lastu(d, (at + rep) % 3));
        }
        catch (...)
        {
            escaped = true;
        }
        b.invoked = nullptr;
        t.check(!escaped, "exception-escapes", "the exception of " + where + " left optimize");
        if (rep == 0)
            t.check(raised, "not-invoked", "the user functions were invoked fewer times than in the same step before");
        if (raised)
        {
            t.check(r.status == ERROR && r.code == -1 && !r.feasible && r.cost == inf, "failed-step", "the function " + where + " threw, status " + std::to_string(r.status));
            t.nearM(r.cmd, prev, 0, "command-of-failure");
            Seq q = b.c->seq();
            t.check(q.X.isZero(0) && q.U.isZero(0) && q.Y.isZero(0), "sequence-of-failure");
            t.check(b.c->last().status == ERROR, "last-result");
            // the twin fails in another way
            twin.step(meas(d, (at + rep) % 3), lastu(d, (at + rep) % 3), [&](shim::Problem &) { return shim::Answer{NLOPT_FAILURE, V(), 0}; });
        }
        else
        {
            Result w = twin.c->optimize(meas(d, (at + rep) % 3), lastu(d, (at + rep) % 3));
            prev = w.cmd;
        }
        t.observe(mc::mix(k, where.size()));
    }
    // the steps after it
    for (int step = at + 1; step < at + 2 + t.thorough; step++)
    {
        Result r = b.c->optimize(meas(d, step % 3), lastu(d, step % 3)), w = twin.c->optimize(meas(d, step % 3), lastu(d, step % 3));
        t.check(r.status == w.status && r.code == w.code && r.feasible == w.feasible, "next-step", "status " + std::to_string(r.status) + " instead of " + std::to_string(w.status) + " " + r.msg);
        t.near(r.cost, w.cost, 1e-9, "next-cost");
        t.nearM(r.cmd, w.cmd, 1e-9, "next-command");
        t.nearM(b.c->seq().X, twin.c->seq().X, 1e-9, "next-sequence");
        t.nearM(b.c->seq().Y, twin.c->seq().Y, 1e-9, "next-sequence");
        t.nearM(b.c->seq().U, twin.c->seq().U, 1e-9, "next-sequence");
        t.observeM(r.cmd);
    }
    Stats e = b.c->stats(), w = twin.c->stats();
    t.check(e.n == w.n && e.byStatus == w.byStatus, "statistics");
}

int main(int argc, char **argv)
{
    quiet();
    if (!shim::selftest())
        return 2;
    mc::Spec s;
    s.property = "C16";
    s.body = body;
    s.rule = "one execution: a step of the controller with its real solver (2 iterations) in which one invocation of a user function throws, for every invocation of the step; the following steps are compared with a controller of which the solver failed instead";
    s.bound = "every invocation of the first or second step, 5 types of exception in turn (each of them)";
    s.assumptions = {"exceptions derived from std::exception"};
    s.split = 5;
    return mc::run(argc, argv, s);
}
