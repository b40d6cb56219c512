// The time of day, chosen by the script.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include "json.hpp"

namespace vclk
{
inline long long sec = 1700000000, usec = 5;
inline void reset() { sec = 1700000000; usec = 5; }
inline void set(std::vector<std::uint8_t> const& s, long long us) { sec = 0; for (auto b : s) sec = sec * 256 + b; usec = us; }
inline void pass(long long us) { usec += us; sec += usec / 1000000; usec %= 1000000; }
inline std::string now()
{
    std::vector<std::uint8_t> s;
    for (int i = 4; i >= 0; --i) s.push_back(std::uint8_t(sec >> (8 * i)));
    return vj::O().raw("s", vj::bytes(s)).num("us", usec).done();
}
}

extern "C"
{
int gettimeofday(struct timeval* tv, void*) noexcept { tv->tv_sec = vclk::sec; tv->tv_usec = vclk::usec; return 0; }
time_t time(time_t* t) noexcept { if (t) *t = vclk::sec; return vclk::sec; }
int clock_gettime(clockid_t c, struct timespec* ts) noexcept
{
    if (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE && c != CLOCK_TAI) return syscall(SYS_clock_gettime, c, ts);
    ts->tv_sec = vclk::sec; ts->tv_nsec = vclk::usec * 1000; return 0;
}
}
