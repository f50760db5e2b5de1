// Shared helpers for harnesses of the command-line client.
#pragma once
#include "mc.h"
#include "Util.h"
#include "Options.h"
#include <sstream>
#include <algorithm>
#include <cmath>
namespace cl {
struct Rejected : std::exception { const char* what() const noexcept override { return "the client reported an error"; } };   // the client reported an error and would have ended with a failure status
static const float MV = -999;
inline bool valid(double v) { return !std::isnan(v) && !std::isinf(v) && v != MV; }
template<class F> bool rejected(F f) { try { f(); } catch(const Rejected&) { return true; } return false; }
inline void quiet() { Util::setShowError(false); Util::setShowWarning(false); Util::setShowStatus(false); Util::setShowInfo(false); }
// collects what the client writes to the standard streams
struct Capture {
    std::ostringstream s; std::streambuf *o, *e;
    Capture() { o = std::cout.rdbuf(s.rdbuf()); e = std::cerr.rdbuf(s.rdbuf()); }
    ~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
    std::string str() { return s.str(); }
};
}
extern "C" void mc_abort() { throw cl::Rejected(); }
