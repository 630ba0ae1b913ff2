// Virtual time and control of the library's background thread, done from the
// outside by interposing the C library primitives it waits on.  No change in
// the library is needed: the driver executable's definitions of
// pthread_cond_clockwait / pthread_cond_timedwait / clock_gettime take precedence.
#pragma once
#include <cstdint>
namespace vclk {
void Enable(bool on);      // off: primitives behave as usual
void Tick();               // let every timed waiter time out once; returns when all wait again
int Waiting();             // number of threads now in a timed wait
void Advance(int64_t ns);  // move the clock forward
void Hook(int (*h)(void* cond, void* mutex, int64_t* lack));  // replaces the timed wait (schedule driver)
bool WaitIdle(int ms);     // true when >=1 thread is waiting (worker parked)
}
