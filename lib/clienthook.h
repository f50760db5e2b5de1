// Included in front of every source file of the command-line client: an error reported with abort() becomes an
// exception, so that a rejected input can be told from a crash and the exploration can go on.
#pragma once
#include <cstdlib>
#include <stdlib.h>
extern "C" [[noreturn]] void mc_abort();
namespace std { using ::mc_abort; }
#define abort mc_abort
