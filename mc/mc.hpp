// Stateless exhaustive explorer: a check is a function of a Ctx which asks for every
// nondeterministic decision with choose(); the explorer runs it once per path of the choice
// tree (depth first, simplest choice first), on several processes which share the tree.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace mc
{
    struct Violation
    {
        std::string key, msg;
    };
    struct Skip
    {
    };

    inline uint64_t mix(uint64_t h, uint64_t v)
    {
        h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h ^= h >> 31;
        h *= 0xbf58476d1ce4e5b9ull;
        return h ^ (h >> 29);
    }

    struct Shared;

    class Ctx
    {
    public:
        // one of n alternatives, all of them are explored
        int choose(int n, const char *label);
        bool flag(const char *label) { return choose(2, label) == 1; }
        template <class T>
        const T &pick(const std::vector<T> &v, const char *label) { return v[choose((int)v.size(), label)]; }

        // the property; key identifies the call site or history for the known findings
        void check(bool ok, const std::string &key, const std::string &msg = "")
        {
            ++checks;
            if (!ok)
                fail(key, msg);
        }
        void near(double a, double b, double tol, const std::string &key)
        {
            ++checks;
            if (a == b || std::fabs(a - b) <= tol * (1 + std::fabs(b)) || (std::isnan(a) && std::isnan(b)))
                return;
            std::ostringstream o;
            o.precision(17);
            o << "got " << a << " expected " << b;
            fail(key, o.str());
        }
        template <class A, class B>
        void nearM(const A &a, const B &b, double tol, const std::string &key)
        {
            ++checks;
            bool ok = a.rows() == b.rows() && a.cols() == b.cols();
            for (long j = 0; ok && j < (long)a.cols(); j++)
                for (long i = 0; ok && i < (long)a.rows(); i++)
                    ok = a(i, j) == b(i, j) || std::fabs(a(i, j) - b(i, j)) <= tol * (1 + std::fabs(b(i, j))) || (std::isnan(a(i, j)) && std::isnan(b(i, j)));
            if (!ok)
            {
                std::ostringstream o;
                o.precision(12);
                o << "got (" << a.rows() << "x" << a.cols() << ")\n"
                  << a << "\nexpected (" << b.rows() << "x" << b.cols() << ")\n"
                  << b;
                fail(key, o.str());
            }
        }

        [[noreturn]] void fail(const std::string &key, const std::string &msg)
        {
            if (!failed)
                first = {key, msg};
            failed = true; // kept, the code under test may swallow the exception
            throw Violation{key, msg};
        }

        // a transition of the checked system took place and led to a state with this content
        void observe(uint64_t v)
        {
            hist = mix(hist, v);
            ++transitions;
            record(hist);
        }
        template <class D>
        void observeM(const D &m)
        {
            uint64_t h = mix(m.rows(), m.cols());
            for (long j = 0; j < (long)m.cols(); j++)
                for (long i = 0; i < (long)m.rows(); i++)
                    h = mix(h, q(m(i, j)));
            observe(h);
        }
        void observeD(double d) { observe(q(d)); }
        static uint64_t q(double d)
        {
            if (std::isnan(d))
                return 0x7ff8;
            if (std::isinf(d))
                return d > 0 ? 0x7ff1 : 0x7ff2;
            if (std::fabs(d) > 1e12)
                return (uint64_t)(int64_t)(std::log(std::fabs(d)) * 1e6) ^ (d < 0 ? 1ull << 63 : 0);
            return (uint64_t)(int64_t)std::llround(d * 1e6);
        }
        void note(const std::string &s) { notes += notes.empty() ? s : "; " + s; }

        bool thorough = false;
        bool replaying = false;

        std::vector<int> prefix, trail, arity;
        std::vector<const char *> labels;
        std::string notes;
        bool failed = false, skipped = false;
        Violation first;
        uint64_t hist = 0, transitions = 0, checks = 0;
        void record(uint64_t h);
        struct Worker *w = nullptr;
        // the next path with the same first n choices (exhaustive exploration)
        std::string describe() const;
    };

    struct Spec
    {
        const char *property;
        std::function<void(Ctx &)> body;
        const char *rule;                    // what one execution is
        std::vector<const char *> assumptions;
        int split = 3;                       // depth of the choice tree where work is shared
        int exec_timeout = 60;               // seconds allowed to one execution
        const char *bound = "";              // the bounds of the exploration
    };

    int run(int argc, char **argv, const Spec &spec);
}
