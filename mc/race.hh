// Controlled scheduler for OpenMP regions, with race detection.
//
// race.cc replaces the entry points of the OpenMP run time: the threads of a team are coroutines of one system
// thread, and at every scheduling point the explorer chooses which one goes on.  The library is compiled with
// -fsanitize=thread, the hooks of which are implemented here: two accesses by different threads of a region to the same
// byte, one of them a write, with no common lock and no barrier between, are a race.
#ifndef VP_RACE_HH
#define VP_RACE_HH
namespace race {
extern int team;             ///< size of the teams of the next regions
extern long regions;         ///< parallel regions run
extern long switches;        ///< context switches made
bool in_region();
int self();                  ///< index of the current thread, 0 outside of regions
void yield();                ///< scheduling point
const char *error();         ///< first race or misuse, null if none
void report(const char *msg);
void reset();
/// While alive, accesses are not recorded and there is no scheduling point
struct Quiet { bool old; Quiet(); ~Quiet(); };
}
namespace vp { unsigned choose_schedule(unsigned n); }
#endif
