// Conformance driver of the log: what is written to the standard output by every step. Every script runs in a process of its own,
// as the log is one for the process.
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include "json.hpp"
#include "clock.hpp"
#include "Logger.hpp"

using vj::Val;

namespace
{
void put(int t, int l, int how, unsigned num, char const* text, int place);

struct Run
{
    FILE* log = std::tmpfile();
    long read = 0;

    Run()
    {
        vclk::reset();
        setenv("TZ", "UTC0", 1);
        tzset();
        dup2(fileno(log), 1);
        dup2(fileno(log), 2);
    }

    std::vector<std::uint8_t> written()
    {
        std::cout.flush();
        std::fflush(stdout);
        std::vector<std::uint8_t> b(1 << 20);
        auto n = pread(fileno(log), b.data(), b.size(), read);
        b.resize(n < 0 ? 0 : n);
        read += b.size();
        return b;
    }

    std::string step(Val const& op)
    {
        std::string const o = op.s("op");
        bool threads = false;
        if (o == "lvl") app::Logger::getInst().setTaskLogLevel(static_cast<app::LogTask>(op.i("t")), static_cast<app::LogLevel>(op.i("l")));
        else if (o == "clk") { vclk::sec = op.i("d") * 86400 + op.i("s"); vclk::usec = op.i("us"); }
        else if (o == "tz")
        {
            long long const m = op.i("m");
            char s[32];
            std::snprintf(s, sizeof(s), "<XXX>%c%02lld:%02lld", m < 0 ? '+' : '-', std::llabs(m) / 60, std::llabs(m) % 60);
            setenv("TZ", s, 1);
            tzset();
        }
        else if (o == "log")
        {
            auto b = op.bytes("d");
            std::string const s(b.begin(), b.end());
            put(op.i("t"), op.i("l"), op.i("how"), op.i("n"), s.c_str(), op.i("p"));
        }
        else if (o == "thr")
        {
            threads = true;
            auto b = op.bytes("d");
            std::string const s(b.begin(), b.end());
            std::atomic<int> ready{0};
            std::vector<std::thread> th;
            int const n = op.i("n");
            std::setvbuf(stdout, nullptr, _IONBF, 0);
            for (int k = 0; k < n; ++k)
                th.emplace_back([&, k]
                {
                    ++ready;
                    while (ready < n) std::this_thread::yield();
                    for (int j = 0; j < op.i("per"); ++j) put(op.i("t"), op.i("l"), 1, k * 1000 + j, s.c_str(), k % 3);
                });
            for (auto& x : th) x.join();
        }
        else throw std::runtime_error("unknown op " + o);
        std::vector<std::string> lv;
        for (int t = 0; t < static_cast<int>(app::LogTask::NUM); ++t)
            lv.push_back(vj::n(static_cast<int>(app::Logger::getInst().getTaskLogLevel(static_cast<app::LogTask>(t)))));
        auto const w = written();
        std::vector<std::string> lines;
        if (threads)
        {
            std::vector<std::uint8_t> x;
            for (auto c : w) { x.push_back(c); if (c == '\n') { lines.push_back(vj::bytes(x)); x.clear(); } }
            if (not x.empty()) lines.push_back(vj::bytes(x));
        }
        return vj::O().raw("out", threads ? "[]" : vj::bytes(w)).raw("lines", vj::arr(lines)).raw("lv", vj::arr(lv)).done();
    }
};
}

int main()
{
    std::string line;
    FILE* proto = fdopen(dup(1), "w");
    while (std::getline(std::cin, line))
    {
        if (line.empty()) continue;
        std::fflush(proto);
        pid_t const p = fork();
        if (p)
        {
            int st = 0;
            waitpid(p, &st, 0);
            if (st == 0) continue;
            return WIFEXITED(st) ? WEXITSTATUS(st) : 98;
        }
        vj::Val v = vj::parse(line);
        long long const id = v.i("id");
        int const err = dup(2);
        std::fprintf(proto, "{\"s\":%lld,\"n\":0,\"i\":{\"op\":\"reset\"},\"o\":{}}\n", id);
        std::fflush(proto);
        alarm(30);
        {
            Run run;
            dup2(err, 2);
            long long step = 0;
            for (auto const& op : v["ops"].arr)
            {
                std::string const o = run.step(op);
                std::fprintf(proto, "{\"s\":%lld,\"n\":%lld,\"o\":%s}\n", id, ++step, o.c_str());
                std::fflush(proto);
            }
        }
        std::fprintf(proto, "{\"s\":%lld,\"end\":1}\n", id);
        std::fflush(proto);
        _exit(0);
    }
    return 0;
}

// the places messages come from: see Places in spec/TraceLog.tla
#define PUT(T, L) if (t == static_cast<int>(app::LogTask::T) && l == static_cast<int>(app::LogLevel::L)) { if (how == 0) { LM(T, L, "%s", text) } else { LM(T, L, "No-%u, %s", num, text) } }
#define TASK(T) PUT(T, LD) PUT(T, LI) PUT(T, LW) PUT(T, LE)
#define ALL TASK(GEN) TASK(CTRL) TASK(MODBUS) TASK(UATL) TASK(UASC) TASK(UASRV) TASK(UA)
namespace
{
void put0(int t, int l, int how, unsigned num, char const* text)
{
#line 7 "/src/some/where/Place.cpp"
    ALL
}
void put1(int t, int l, int how, unsigned num, char const* text)
{
#line 12345 "plain.hpp"
    ALL
}
void put2(int t, int l, int how, unsigned num, char const* text)
{
#line 100 "../a.b/%s%n.cc"
    ALL
}
void put(int t, int l, int how, unsigned num, char const* text, int place)
{
    (place == 0 ? put0 : place == 1 ? put1 : put2)(t, l, how, num, text);
}
}
