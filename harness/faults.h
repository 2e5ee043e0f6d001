#ifndef VERIF_FAULTS_H
#define VERIF_FAULTS_H
/*
 * Faults injected in the system calls that change the file system
 *
 * The calls are interposed: they are counted, and can be made to fail, to be
 * partial, or to be the last thing that the process ever does.
 */
#include <cstdint>
#include <string>

namespace vf::faults {

enum Mode
{
    OFF,
    COUNT,     // only count
    CRASH,     // terminate the process at call number `at`
    FAIL_ONCE, // call number `at` fails with EIO
    DISK_FULL, // from call number `at`, files cannot grow and cannot be created
    SHORT,     // writes write only a part of what they could
    SCHED, // give control to the scheduler at each call
    DELAY,     // wait a random while before calls, to vary the scheduling
};

void arm(Mode mode, long at, uint64_t seed);
void disarm();
/// Calls counted
long count();
/// True if a fault was injected
bool hit();
/// Description of the last call that was made to fail
const char* what();

extern const int CRASH_STATUS;

/*
 * Cooperative scheduling of processes: at each call that reads or changes
 * files under root, the process tells the scheduler, and waits to be resumed.
 *
 * Messages are a type, 4 bytes of size, and text. Types:
 *  Y about to do a call
 *  B waiting for a lock
 *  Z sleeping
 *  others: sent by sched_event
 */
void sched_start(int in, int out, const char* root, bool verbose);
void sched_event(char type, const std::string& payload);

} // namespace vf::faults
#endif
