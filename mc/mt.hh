// Controlled threads: exhaustive exploration of the schedules of real threads that run the real code.
//
// The code under test is compiled with -fsanitize=thread, but linked with the runtime of mt.cc instead of the one of
// ThreadSanitizer.  Only one thread runs at a time; the scheduler asks Ctx::choose() which one continues at each
// operation of synchronisation (mutexes, atomics, guards of static variables, start and end).  Memory accesses
// feed a happens-before race detector which only knows about the synchronisation of the program (the hand-overs of the
// scheduler order nothing), so that not scheduling in front of each access loses no behaviour of a program without race.
// Blocks that are released during a run are kept until its end: using them is reported.
#ifndef VERIF_MT_HH
#define VERIF_MT_HH
#include "mc.hh"

namespace mt
{
    struct Stats { int points, preemptions, accesses, syncs; };
    // Runs the bodies, each in a thread. With a bound on the number of preemptions, or all schedules (-1).
    // Throws mc::Failure for races, uses of released memory, and exceptions that leave a body; deadlocks abort().
    Stats run(mc::Ctx& c, std::vector<std::function<void()>> const& bodies, int preemptions = -1);
    // Which thread is running: 1, 2, ..., or 0 outside of run()
    int self();
    // For the oracles that the bodies share: nothing that happens while one exists is seen by the detector
    struct Quiet { Quiet(); ~Quiet(); };
    // Scheduling point of the harness
    void yield();
}
#endif
