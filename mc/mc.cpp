#include "mc.hpp"
#include <atomic>
#include <chrono>
#include <csignal>
#include <ctime>
#include <fstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc
{
    static const int NW_MAX = 16, TRAIL = 4096, MSG = 16384;
    static const uint64_t TABLE = 1ull << 23, CLAIMS = 1ull << 22;

    struct Slot
    {
        std::atomic<int> len;
        int trail[TRAIL];
        std::atomic<uint64_t> execs, transitions, checks, maxdepth, known;
        std::atomic<int> done;
        char sample[3][1024];
        int samples;
    };
    struct Shared
    {
        std::atomic<uint64_t> table[TABLE];
        std::atomic<uint64_t> states, dropped;
        std::atomic<unsigned char> claims[CLAIMS];
        std::atomic<int> stop, capped, found;
        // the violation
        int vlen;
        int vtrail[TRAIL];
        char vkey[512], vmsg[MSG];
        char vdesc[MSG];
        Slot slot[NW_MAX];
    };

    struct Known
    {
        std::string key, what;
        bool seen = false;
    };

    struct Worker
    {
        Shared *sh;
        int id, n, split;
        uint64_t index = 0;
        std::vector<int> last;
        bool have = false, mine = true, atsplit = false;

        bool claim()
        {
            uint64_t i = index++;
            if (i >= CLAIMS)
                return (int)(i % n) == id;
            unsigned char e = 0;
            return sh->claims[i].compare_exchange_strong(e, 1);
        }
    };

    static void nondet(const char *what)
    {
        fprintf(stderr, "mc: replay diverged: %s\n", what);
        _exit(97);
    }

    int Ctx::choose(int n, const char *label)
    {
        if (skipped)
            throw Skip{};
        if (n <= 0)
            nondet("no alternative");
        int c = 0;
        size_t pos = trail.size();
        if (pos < prefix.size())
            c = prefix[pos];
        if (c >= n)
            nondet(label);
        trail.push_back(c);
        arity.push_back(n);
        labels.push_back(label);
        if (trail.size() >= TRAIL)
            nondet("trail too long");
        if (w)
        {
            Slot &s = w->sh->slot[w->id];
            s.trail[pos] = c;
            s.len.store((int)pos + 1, std::memory_order_release);
            if ((int)trail.size() == w->split)
            {
                w->atsplit = true;
                if (!w->have || w->last != trail)
                {
                    w->last = trail;
                    w->have = true;
                    w->mine = w->claim();
                }
                if (!w->mine)
                {
                    skipped = true;
                    throw Skip{};
                }
            }
        }
        return c;
    }

    void Ctx::record(uint64_t h)
    {
        if (!w)
            return;
        if (!h)
            h = 1;
        Shared *sh = w->sh;
        uint64_t i = h & (TABLE - 1);
        for (int k = 0; k < 64; k++)
        {
            uint64_t v = sh->table[i].load(std::memory_order_relaxed);
            if (v == h)
                return;
            if (v == 0)
            {
                uint64_t e = 0;
                if (sh->table[i].compare_exchange_strong(e, h))
                {
                    sh->states++;
                    return;
                }
                if (e == h)
                    return;
            }
            i = (i + 1) & (TABLE - 1);
        }
        sh->dropped++;
    }

    std::string Ctx::describe() const
    {
        std::string s;
        for (size_t i = 0; i < trail.size(); i++)
        {
            if (i)
                s += " ";
            s += labels[i];
            s += "=" + std::to_string(trail[i]) + "/" + std::to_string(arity[i]);
        }
        if (!notes.empty())
            s += " [" + notes + "]";
        return s;
    }

    static std::string jstr(const std::string &s)
    {
        std::string o = "\"";
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\')
            {
                o += '\\';
                o += c;
            }
            else if (c == '\n')
                o += "\\n";
            else if (c < 32 || c > 126)
                o += ' ';
            else
                o += c;
        }
        return o + "\"";
    }

    // outcome of one execution: 0 fine, 1 violation (msg), 2 skipped
    static int once(Ctx &c, const Spec &spec, std::string &key, std::string &msg)
    {
        auto kept = [&]()
        {
            key = c.first.key;
            msg = c.first.msg;
            return 1;
        };
        try
        {
            spec.body(c);
            return c.skipped ? 2 : c.failed ? kept() : 0;
        }
        catch (Skip &)
        {
            return 2;
        }
        catch (Violation &v)
        {
            return kept();
        }
        catch (std::exception &e)
        {
            if (c.skipped)
                return 2;
            if (c.failed)
                return kept();
            key = "unexpected-exception";
            msg = std::string("an exception escaped: ") + e.what();
            return 1;
        }
        catch (...)
        {
            if (c.skipped)
                return 2;
            if (c.failed)
                return kept();
            key = "unexpected-exception";
            msg = "an unknown exception escaped";
            return 1;
        }
    }

    static double now()
    {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + 1e-9 * t.tv_nsec;
    }

    static void worker(Shared *sh, int id, int n, const Spec &spec, double deadline, const std::vector<Known> &known, bool thorough)
    {
        Worker w;
        w.sh = sh;
        w.id = id;
        w.n = n;
        w.split = spec.split;
        Slot &s = sh->slot[id];
        std::vector<int> prefix;
        for (;;)
        {
            if (sh->stop)
                break;
            if (now() > deadline)
            {
                sh->capped = 1;
                break;
            }
            Ctx c;
            c.thorough = thorough;
            c.w = &w;
            c.prefix = prefix;
            w.atsplit = false;
            s.len = 0;
            alarm(spec.exec_timeout);
            std::string key, msg;
            int r = once(c, spec, key, msg);
            alarm(0);
            if (c.trail.size() < prefix.size())
                nondet("the execution ended inside its prefix");
            bool counted = r != 2;
            if (counted && !w.atsplit)
                counted = w.claim(); // a short execution belongs to one worker
            if (counted)
            {
                s.execs++;
                s.transitions += c.transitions;
                s.checks += c.checks;
                if (c.trail.size() > s.maxdepth)
                    s.maxdepth = c.trail.size();
                uint64_t e = s.execs;
                if (s.samples < 3 && (e == 1 || e == 50 || e == 500))
                    snprintf(s.sample[s.samples++], sizeof s.sample[0], "%s", c.describe().c_str());
            }
            if (r == 1)
            {
                bool isknown = false;
                for (auto &k : known)
                    if (k.key == key)
                        isknown = true;
                if (isknown)
                    s.known++;
                else
                {
                    int e = 0;
                    if (sh->found.compare_exchange_strong(e, 1))
                    {
                        sh->vlen = (int)c.trail.size();
                        memcpy(sh->vtrail, c.trail.data(), sizeof(int) * c.trail.size());
                        snprintf(sh->vkey, sizeof sh->vkey, "%s", key.c_str());
                        snprintf(sh->vmsg, sizeof sh->vmsg, "%s", msg.c_str());
                        snprintf(sh->vdesc, sizeof sh->vdesc, "%s", c.describe().c_str());
                        sh->found = 2;
                    }
                    sh->stop = 1;
                    break;
                }
            }
            // next path
            int i = (int)c.trail.size() - 1;
            while (i >= 0 && c.trail[i] + 1 >= c.arity[i])
                i--;
            if (i < 0)
                break;
            prefix.assign(c.trail.begin(), c.trail.begin() + i + 1);
            prefix[i]++;
        }
        s.done = 1;
        fflush(stdout);
        _exit(0);
    }

    // replay one path in a child; 0 fine, 1 violation, 2 crash/exit, 3 timeout, 4 diverged
    static int replay(const Spec &spec, const std::vector<int> &trail, bool thorough, int timeout, std::string &key, std::string &msg, std::string &desc)
    {
        int fd[2];
        if (pipe(fd))
            return 4;
        fflush(stdout);
        fflush(stderr);
        pid_t p = fork();
        if (p == 0)
        {
            close(fd[0]);
            alarm(timeout);
            Ctx c;
            c.thorough = thorough;
            c.replaying = true;
            c.prefix = trail;
            std::string k, m;
            int r = once(c, spec, k, m);
            std::string all = std::to_string(r) + "\n" + k + "\n" + c.describe() + "\n" + m;
            size_t o = 0;
            while (o < all.size())
            {
                ssize_t x = write(fd[1], all.data() + o, all.size() - o);
                if (x <= 0)
                    break;
                o += x;
            }
            _exit(0);
        }
        close(fd[1]);
        std::string all;
        char buf[4096];
        ssize_t x;
        while ((x = read(fd[0], buf, sizeof buf)) > 0)
            all.append(buf, x);
        close(fd[0]);
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFSIGNALED(st))
        {
            key = WTERMSIG(st) == SIGALRM ? "hang" : "crash";
            msg = std::string("the process was killed by signal ") + strsignal(WTERMSIG(st));
            return WTERMSIG(st) == SIGALRM ? 3 : 2;
        }
        if (WEXITSTATUS(st) == 97)
            return 4;
        if (all.empty())
        {
            key = "crash";
            msg = "the process exited with code " + std::to_string(WEXITSTATUS(st));
            return 2;
        }
        std::istringstream in(all);
        std::string r;
        std::getline(in, r);
        std::getline(in, key);
        std::getline(in, desc);
        std::string rest((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        msg = rest;
        return r == "1" ? 1 : 0;
    }

    int run(int argc, char **argv, const Spec &spec)
    {
        setvbuf(stdout, nullptr, _IOLBF, 0);
        const char *tier = getenv("VERIF_TIER");
        bool thorough = tier && !strcmp(tier, "thorough");
        const char *seed = getenv("VERIF_SEED");
        const char *evid = getenv("MC_EVIDENCE"), *rep = getenv("MC_REPLAY_OUT"), *kf = getenv("MC_KNOWN");
        std::vector<int> given;
        bool doreplay = false;
        for (int i = 1; i < argc; i++)
        {
            if (!strcmp(argv[i], "--replay") && i + 1 < argc)
            {
                doreplay = true;
                std::ifstream in(argv[++i]);
                std::string line;
                while (std::getline(in, line))
                {
                    if (line.rfind("tier ", 0) == 0)
                        thorough = line == "tier thorough";
                    if (line.rfind("choices", 0) == 0)
                    {
                        std::istringstream l(line.substr(7));
                        int v;
                        while (l >> v)
                            given.push_back(v);
                    }
                }
            }
        }
        if (doreplay)
        {
            std::string key, msg, desc;
            int r = replay(spec, given, thorough, spec.exec_timeout * 3, key, msg, desc);
            printf("replay: outcome %d\n%s\n%s\n%s\n", r, key.c_str(), desc.c_str(), msg.c_str());
            return r == 0 ? 0 : r == 4 ? 2 : 1;
        }

        std::vector<Known> known;
        if (kf)
        {
            std::ifstream in(kf);
            std::string line;
            while (std::getline(in, line))
            {
                // known: property=C05 key=<key> -- <what fails>
                std::string pfx = std::string("known: property=") + spec.property + " key=";
                if (line.rfind(pfx, 0) == 0)
                {
                    std::string rest = line.substr(pfx.size());
                    size_t d = rest.find(" -- ");
                    known.push_back({rest.substr(0, d), d == std::string::npos ? "" : rest.substr(d + 4)});
                }
            }
        }

        double t0 = now();
        double cap = getenv("MC_CAP") ? atof(getenv("MC_CAP")) : thorough ? 3000 : 600;
        int n = getenv("MC_JOBS") ? atoi(getenv("MC_JOBS")) : (int)sysconf(_SC_NPROCESSORS_ONLN);
        n = std::max(1, std::min(n, NW_MAX));
        Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (sh == MAP_FAILED)
            return 2;

        // determinism of the harness: the first path must give the same observations twice
        fflush(stdout);
        std::vector<pid_t> pid(n);
        for (int i = 0; i < n; i++)
        {
            pid[i] = fork();
            if (pid[i] == 0)
                worker(sh, i, n, spec, t0 + cap, known, thorough);
        }
        std::vector<int> bad;
        bool crash = false, internal = false;
        for (int k = 0; k < n; k++)
        {
            int st;
            pid_t p = wait(&st);
            int i = 0;
            while (i < n && pid[i] != p)
                i++;
            if (i == n)
            {
                k--;
                continue;
            }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 97)
                internal = true;
            else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->slot[i].done))
            {
                // it died: the choices it had made are the counterexample
                if (!crash)
                {
                    crash = true;
                    bad.assign(sh->slot[i].trail, sh->slot[i].trail + sh->slot[i].len.load());
                }
                sh->stop = 1;
            }
        }
        double wall = now() - t0;
        if (internal)
        {
            fprintf(stderr, "mc: internal error, an execution did not follow its prefix\n");
            return 2;
        }
        uint64_t execs = 0, trans = 0, checks = 0, depth = 0, nknown = 0;
        std::vector<std::string> samples;
        for (int i = 0; i < n; i++)
        {
            Slot &s = sh->slot[i];
            execs += s.execs;
            trans += s.transitions;
            checks += s.checks;
            nknown += s.known;
            depth = std::max<uint64_t>(depth, s.maxdepth);
            for (int k = 0; k < s.samples && samples.size() < 6; k++)
                samples.push_back(s.sample[k]);
        }

        int rc = 0;
        std::string key, msg, desc;
        std::vector<int> trail;
        bool sequential = false;
        if (sh->found == 2)
        {
            trail.assign(sh->vtrail, sh->vtrail + sh->vlen);
            rc = 1;
        }
        else if (crash)
        {
            trail = bad;
            rc = 1;
        }
        if (rc)
        {
            // replay before reporting, twice
            std::string k2, m2, d2;
            int r1 = replay(spec, trail, thorough, spec.exec_timeout * 3, key, msg, desc);
            int r2 = replay(spec, trail, thorough, spec.exec_timeout * 3, k2, m2, d2);
            if (r1 == 0 || r1 == 4 || r1 != r2 || key != k2)
            {
                // it depends on the executions before it in the same process: the whole
                // exploration, in order, in one process, is the counterexample
                Shared *s1 = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                pid_t p = fork();
                if (p == 0)
                    worker(s1, 0, 1, spec, now() + cap, known, thorough);
                int st = 0;
                waitpid(p, &st, 0);
                if (s1->found == 2 || !(WIFEXITED(st) && s1->slot[0].done))
                {
                    sequential = true;
                    if (s1->found == 2)
                    {
                        key = s1->vkey;
                        msg = s1->vmsg;
                        desc = s1->vdesc;
                    }
                    else
                    {
                        key = "crash";
                        msg = "the process died in the middle of the exploration";
                    }
                    trail.assign(s1->slot[0].trail, s1->slot[0].trail + s1->slot[0].len.load());
                    msg += "\n(only after the executions before it in one process)";
                }
                munmap(s1, sizeof(Shared));
            }
            if (!sequential && (r1 == 0 || r1 == 4 || r1 != r2 || key != k2))
            {
                fprintf(stderr, "mc: the violation did not replay (%d/%d): %s\n%s\n", r1, r2, sh->found == 2 ? sh->vkey : "crash", sh->found == 2 ? sh->vmsg : "");
                return 2;
            }
            if (desc.empty())
            {
                for (int c : trail)
                    desc += std::to_string(c) + " ";
            }
            bool isknown = false;
            for (auto &k : known)
                if (k.key == key)
                    isknown = true;
            if (isknown)
                rc = 0;
        }
        if (evid)
        {
            std::ofstream o(evid);
            o << "{\n \"property\": " << jstr(spec.property) << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << (seed ? atoi(seed) : 1)
              << ",\n \"level\": \"model_checking\",\n \"coverage\": {\n  \"states\": " << sh->states.load() << ",\n  \"transitions\": " << trans
              << ",\n  \"traces_validated_against_impl\": " << execs << ",\n  \"assertions_evaluated\": " << checks << ",\n  \"max_choices_in_a_trace\": " << depth
              << ",\n  \"exhaustive\": " << (sh->capped || rc ? "false" : "true") << ",\n  \"states_not_recorded\": " << sh->dropped.load()
              << ",\n  \"known_finding_traces\": " << nknown << ",\n  \"rule\": " << jstr(spec.rule) << ",\n  \"bound\": " << jstr(spec.bound) << ",\n  \"samples\": [";
            for (size_t i = 0; i < samples.size(); i++)
                o << (i ? ", " : "") << "\n   " << jstr(samples[i]);
            o << "\n  ]\n },\n \"assumptions\": [";
            for (size_t i = 0; i < spec.assumptions.size(); i++)
                o << (i ? ", " : "") << jstr(spec.assumptions[i]);
            o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << (rc ? 1 : 0) << "\n}\n";
        }
        printf("%s: %llu executions, %llu states, %llu transitions, %llu assertions, depth %llu, %.1f s%s\n", spec.property, (unsigned long long)execs, (unsigned long long)sh->states.load(),
               (unsigned long long)trans, (unsigned long long)checks, (unsigned long long)depth, wall, sh->capped ? " (capped)" : "");
        if (nknown)
            for (auto &k : known)
                printf("KNOWN-FINDING: property=%s %s\n", spec.property, k.what.c_str());
        if (rc)
        {
            std::string path = rep ? rep : "replay.txt";
            std::ofstream o(path);
            o << "property " << spec.property << "\ntier " << (thorough ? "thorough" : "quick") << "\nkey " << key << "\n" << (sequential ? "sequential (run the whole check with MC_JOBS=1)\n" : "") << "choices";
            for (int c : trail)
                o << " " << c;
            o << "\n\n"
              << desc << "\n"
              << msg << "\n";
            o.close();
            printf("violated: %s\n%s\n%s\n", key.c_str(), desc.c_str(), msg.c_str());
            printf("VIOLATION property=%s replay=%s\n", spec.property, path.c_str());
        }
        return rc;
    }
}
