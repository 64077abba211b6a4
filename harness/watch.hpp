// A limit on what one script may take: processor time, so that a busy machine
// does not look like a loop without an end, and plenty of real time.
#pragma once

#include <sys/time.h>
#include <unistd.h>

inline void
watch(unsigned seconds)
{
  itimerval t{};
  t.it_value.tv_sec = static_cast<time_t>(seconds);
  setitimer(ITIMER_PROF, &t, nullptr);
  alarm(seconds * 6);
}
