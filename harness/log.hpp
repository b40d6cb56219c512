// What the code logs goes nowhere, but for one script in four it is put together all the same.
#pragma once
#include <cstdio>
#include <iostream>
#include "Logger.hpp"

namespace vlog
{
inline void start()
{
    std::ios::sync_with_stdio(false);          // std::cout keeps the real output
    if (FILE* f = std::fopen("/dev/null", "w")) stdout = f;
}
inline void script(long long id)
{
    for (int t = 0; t < static_cast<int>(app::LogTask::NUM); ++t)
        app::Logger::getInst().setTaskLogLevel(static_cast<app::LogTask>(t), id % 4 == 0 ? app::LogLevel::LD : app::LogLevel::NA);
}
}
