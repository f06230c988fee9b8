// Controlled execution of the code under test: one thread runs at a time, the
// scheduler decides at every synchronization operation (or memory access)
// which; atomic loads may return any value the C++ memory model allows; every
// memory access and synchronization operation is logged.  See dsched.cc.
#ifndef VP_DSCHED_H_
#define VP_DSCHED_H_
#include <functional>
#include <string>
#include "trace.h"
namespace ds {
// What one run does.  Setup and Finish run in the main thread (id 0), Body(i)
// in thread i (1..threads).
struct Scenario {
  virtual ~Scenario() {}
  virtual int Threads() = 0;
  virtual void Setup() = 0;
  virtual void Body(int t) = 0;
  virtual void Finish() = 0;
  virtual bool Weak() { return false; }      // loads may return old values
};
// makes the scenario of program p (p = 0, 1, ...; null: no more programs)
typedef std::function<Scenario*(int p, vp::Rng& r)> Maker;
// driver main: <seed> <programs> <schedules per program> <seconds> [only program] [only schedule]
int Main(int argc, char** argv, Maker make);

int Self();                       // id of the calling thread
void Point();                     // the scheduler may switch here
void WaitOthers();                // block until no other thread can run
// a system call made by the code under test reads or writes memory
void Touch(const void* a, long n, bool write, void* pc);
// joins the knowledge of a publisher, without any scheduling effect (an
// external synchronization between threads)
void Publish(int channel);
void Observe(int channel);
bool WeakRun();                   // are old values possible in this run?
vp::Rng& Choice();                // choices belonging to the schedule
// harness code called from the code under test: not logged, not scheduled
struct Quiet { Quiet(); ~Quiet(); };
// number of live (allocated, not freed) blocks of the code under test's heap
long LiveBlocks();
// a block freed or not
bool Freed(const void* p);
// wait for a real condition (another process): the calling thread stays chosen
}
#endif
