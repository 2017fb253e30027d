// C27: the logger.
#include "../lin/harness.hpp"
#include <iomanip>
#include <mpc/LMPC.hpp>
#include <mpc/Logger.hpp>

using L = mpc::Logger;
static const L::log_level LEVELS[] = {L::log_level::DEEP, L::log_level::NORMAL, L::log_level::ALERT, L::log_level::NONE};
static const L::log_type TYPES[] = {L::log_type::DETAIL, L::log_type::INFO, L::log_type::ERROR};
static const char *PREFIX[] = {"", "p", "controller 1"};

struct Model
{
    int level = 1, stream = 0; // DEEP..NONE
    std::string prefix;
    std::string out[2];
    void msg(int type, const std::string &body)
    {
        if (level <= type)
            out[stream] += "[MPC++" + (prefix.empty() ? std::string() : " " + prefix) + "] " + body;
    }
};
struct Counted
{
    mutable int *n;
};
static std::ostream &operator<<(std::ostream &o, const Counted &c)
{
    ++*c.n;
    return o << "counted";
}
struct Ctl : mpc::LMPC<1, 1, 1, 1, 1, 1>
{
};

static void body(mc::Ctx &t)
{
    L &l = L::instance();
    std::ostringstream os[2];
    Model m;
    static Ctl *c = nullptr;
    static mpc::cvec<1> one;
    if (!c)
    {
        l.setLevel(L::log_level::NONE);
        c = new Ctl();
        one << 1;
    }
    l.setStream(&os[0]);
    l.reset();
    bool viaCtl = t.flag("through-the-controller");
    int n = t.thorough ? 5 : 4, msgs = 0, counted = 0, wanted = 0;
    // a user may keep the reference given by the logger
    L &kept = l;
    for (int i = 0; i < n; i++)
    {
        switch (t.choose(5, "operation"))
        {
        case 0:
        {
            int y = t.choose(3, "type"), shape = t.choose(5, "shape");
            std::string id = std::to_string(msgs++);
            switch (shape)
            {
            case 0:
                l.log(TYPES[y]) << "m" << id;
                m.msg(y, "m" + id);
                break;
            case 1:
                kept.log(TYPES[y]) << "value " << 1.5 << " " << 7 << std::string("s") << 'c' << std::endl;
                m.msg(y, "value 1.5 7sc\n");
                break;
            case 2:
            {
                // parts given later still belong to the message
                L &g = l.log(TYPES[y]);
                g << id;
                g << "+" << std::flush << std::endl;
                m.msg(y, id + "+\n");
                break;
            }
            case 3:
                l.log(TYPES[y]) << Counted{&counted};
                if (m.level <= y)
                    wanted++;
                m.msg(y, "counted");
                break;
            default: // an empty message
                l.log(TYPES[y]);
                m.msg(y, "");
            }
            break;
        }
        case 1:
        {
            int k = t.choose(4, "level");
            if (viaCtl)
                t.check(c->setLoggerLevel(LEVELS[k]), "setLoggerLevel");
            else
                l.setLevel(LEVELS[k]);
            m.level = k;
            break;
        }
        case 2:
        {
            int k = t.choose(3, "prefix");
            if (viaCtl)
                t.check(c->setLoggerPrefix(PREFIX[k]), "setLoggerPrefix");
            else
                l.setPrefix(PREFIX[k]);
            m.prefix = PREFIX[k];
            break;
        }
        case 3:
        {
            int k = t.choose(2, "stream");
            l.setStream(&os[k]);
            m.stream = k;
            break;
        }
        default:
            l.reset();
            m.level = 1;
            m.prefix = "";
        }
        for (int k = 0; k < 2; k++)
        {
            t.check(os[k].str() == m.out[k], "text", "stream " + std::to_string(k) + " has\n" + os[k].str() + "\ninstead of\n" + m.out[k]);
            t.observe(std::hash<std::string>()(os[k].str()));
        }
        t.check(counted == wanted, "evaluated", "a message was printed " + std::to_string(counted) + " times instead of " + std::to_string(wanted));
    }
    // the messages of the library obey the level and the prefix in force as well
    std::string b[2] = {os[0].str(), os[1].str()};
    t.check(!c->setStateBounds(one, one, mpc::HorizonSlice(2, 1)), "accepted");
    std::string add = os[m.stream].str().substr(b[m.stream].size()), head = "[MPC++" + (m.prefix.empty() ? std::string() : " " + m.prefix) + "] ";
    t.check(os[1 - m.stream].str() == b[1 - m.stream], "library-message-on-the-wrong-stream");
    t.check(add.empty() == (m.level > 2), "library-message-level", add);
    t.check(add.empty() || add.rfind(head, 0) == 0, "library-message-prefix", add);
    l.setStream(&std::cout);
    l.setLevel(L::log_level::NONE);
}

int main(int argc, char **argv)
{
    mc::Spec s;
    s.property = "C27";
    s.body = body;
    s.rule = "one execution: a sequence of logger operations; the text on both streams is compared with the specified one after every operation, then a message of the library";
    s.bound = "every sequence of 4 (5) operations over 4 levels, 3 prefixes, 2 streams, reset, and messages of 3 types in 5 shapes; level and prefix set directly or through a controller";
    s.assumptions = {"one thread (the logger is not synchronised)"};
    return mc::run(argc, argv, s);
}
