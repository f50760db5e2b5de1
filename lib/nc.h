// Scratch files for harnesses of the command-line client. Link with -Wl,--wrap=nc_open,--wrap=nc_create,--wrap=nc_close so that
// files left open by a rejected invocation can be closed before the next execution.
#pragma once
#include "cl.h"
#include <netcdf.h>
#include <unistd.h>
#include <sys/stat.h>
#include <fstream>
#include <set>
namespace cl {
inline std::string scratch() {
    const char* s = getenv("MC_SCRATCH"); std::string d = s ? s : "/tmp/mc-scratch-dev";
    d += "/" + std::to_string((int)getpid()); mkdir((s ? s : "/tmp/mc-scratch-dev"), 0700); mkdir(d.c_str(), 0700); return d;
}
inline std::set<int>& open_files() { static std::set<int> s; return s; }
struct CloseLeft { ~CloseLeft(); };   // closes what an execution left open
inline void put(const std::string& f, const std::string& text) { std::ofstream o(f.c_str()); o << text; }
inline std::string slurp(const std::string& f) { std::ifstream i(f.c_str()); std::stringstream s; s << i.rdbuf(); return s.str(); }
inline bool exists(const std::string& f) { struct stat s; return stat(f.c_str(), &s) == 0; }
}
extern "C" {
int __real_nc_open(const char*, int, int*); int __real_nc_create(const char*, int, int*); int __real_nc_close(int);
inline int wrapped_open(int st, int* id) { if(st == NC_NOERR) cl::open_files().insert(*id); return st; }
int __wrap_nc_open(const char* f, int m, int* id) { return wrapped_open(__real_nc_open(f, m, id), id); }
int __wrap_nc_create(const char* f, int m, int* id) { return wrapped_open(__real_nc_create(f, m, id), id); }
int __wrap_nc_close(int id) { cl::open_files().erase(id); return __real_nc_close(id); }
}
inline cl::CloseLeft::~CloseLeft() { std::set<int> left; left.swap(open_files()); for(int id : left) __real_nc_close(id); }
#define NCC(x) do { int nc_st = (x); if(nc_st != NC_NOERR) throw std::runtime_error(std::string("harness netcdf: ") + nc_strerror(nc_st) + " in " #x); } while(0)
