// The controllers driven through the Python module (compiled against the stand-in of pybind11).
#pragma once
#include "../nl/nl.hpp"
#include "../lin/lin.hpp"

namespace script
{
    void init();
    std::unique_ptr<nl::Ctl> makeNl(const nl::Dims &d);
    std::unique_ptr<lin::Ctl> makeLin(const lin::Dims &d);
    // the names of the module and what they stand for; an empty string if all is well
    std::string constants();
    // what is logged after the level and the prefix have been set through the module or directly
    std::string log(bool linear, int level, const std::string &prefix, int direct);
}
