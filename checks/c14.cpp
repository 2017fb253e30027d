// C14: compile time and run time sizes give the same controller.
#include "pair.hpp"

int main(int argc, char **argv)
{
    quiet();
    if (!shim::selftest())
        return 2;
    mc::Spec s;
    Pairs pr;
    pr.nd = statics(), pr.ld = lin::statics();
    for (int i = 0; i < 2; i++)
    {
        pr.nl[i] = [i](const nl::Dims &d) { return nl::make(d, i); };
        pr.lin[i] = [i](const lin::Dims &d) { return lin::make(d, i); };
    }
    s.property = "C14";
    s.body = [&](mc::Ctx &t)
    {
        if (t.flag("linear"))
            pairLinear(t, pr);
        else
            pairNonlinear(t, pr);
    };
    s.rule = "one execution: the same history of calls and steps (with a given solution, a failure or an iteration limit) given to a controller with compile time sizes and to one with the same run time sizes; problems, results, sequences and counters are compared after every step";
    s.bound = "histories of 3 (4) calls out of 15, every compile time size of the check; linear: histories of 2 calls out of 13 kinds and two steps";
    s.assumptions = {"the solver is replaced by the harness", lin::STANDIN};
    s.split = 4;
    return mc::run(argc, argv, s);
}
