// A deterministic scheduler under the POSIX thread primitives.  Linked into a harness it
// replaces pthread_create/join, mutexes, condition variables and semaphores (also those
// reached from libboost_thread and libstdc++): exactly one thread runs at a time, and every
// synchronisation call (and every detsched::Yield) is a scheduling point.
#ifndef VERIF_SCHED_H_
#define VERIF_SCHED_H_
#include <vector>
#include <functional>
namespace detsched {
struct Choice { int n, cur, picked; };        // runnable threads, index of the running one (-1), index chosen
struct Policy {
  int mode = 0;            // 0 prefix, 1 random, 2 priorities
  std::vector<int> prefix; // mode 0
  unsigned long long seed = 1;
  double p = .3;           // mode 1: chance to switch
  int depth = 3, len = 300;// mode 2
  double eintr = 0;        // chance that a semaphore wait is interrupted
  double partial = 0;      // chance that a read/write is short or interrupted
  long limit = 400000;
};
void Start(const Policy&);
void Yield();
int Self();
unsigned Rnd(unsigned n);
extern std::vector<Choice> choices;
extern std::function<void(const char*)> on_stop;   // "deadlock" or "limit"; must not return
}
#endif
