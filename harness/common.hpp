// Helpers shared by the harnesses.
#pragma once
#include "vf.h"
#include <cstdint>
#include <stdexcept>
#include <string>
#include <vector>
#define REACH(l) vf_reach(l)
// true if the expression throws E; any other exception is a violation
template<class E, class F> inline bool throws(F&& f, const char* msg)
{
    try { f(); }
    catch (const E&) { return true; }
    catch (...) { vf_fail(msg); }
    return false;
}
template<class F> inline bool throws_any(F&& f)
{
    try { f(); }
    catch (...) { return true; }
    return false;
}
