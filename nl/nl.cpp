#include "nl.hpp"
#include <mpc/Logger.hpp>
#include <stdexcept>

namespace nl
{
    namespace
    {
        struct Entry
        {
            Dims d;
            Ctl *(*f)(const Dims &);
        };
        std::vector<Entry> &table()
        {
            static std::vector<Entry> t;
            return t;
        }
        Ctl *(*dyn)(const Dims &) = nullptr;
    }
    Registrar::Registrar(const Dims *d, Ctl *(*f)(const Dims &))
    {
        if (d)
            table().push_back({*d, f});
        else
            dyn = f;
    }
    std::unique_ptr<Ctl> make(const Dims &d, bool dynamic)
    {
        if (dynamic)
        {
            if (!dyn)
                throw std::logic_error("no run time sizes in this check");
            return std::unique_ptr<Ctl>(dyn(d));
        }
        for (auto &e : table())
            if (e.d == d)
                return std::unique_ptr<Ctl>(e.f(d));
        throw std::logic_error("size not compiled in this check");
    }
    std::vector<Dims> statics()
    {
        // in the order of the table, whatever the link order
        std::vector<Dims> r;
        for (auto &s : STATIC)
            for (auto &e : table())
                if (e.d == s)
                    r.push_back(s);
        return r;
    }
    bool hasDynamic() { return dyn != nullptr; }
    void quiet() { mpc::Logger::instance().setLevel(mpc::Logger::log_level::NONE); }
}
