// Environment of a component under test: a reactor with virtual time, links whose
// peer is the test script, and a sender that records every message. Nothing here
// knows how the component is implemented: it sees only the interfaces the
// component is given (reactor, links, timers, acceptors, messages).
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>
#include <time.h>

#include "AcceptorInterface.hpp"
#include "AcceptorHandler.hpp"
#include "AcceptorPtr.hpp"
#include "LinkInterface.hpp"
#include "LinkHandler.hpp"
#include "LinkPtr.hpp"
#include "Logger.hpp"
#include "MsgInterface.hpp"
#include "MsgHandler.hpp"
#include "MsgHandlerVector.hpp"
#include "ReactorInterface.hpp"
#include "SenderInterface.hpp"
#include "TimerHandler.hpp"
#include "TimerInterface.hpp"
#include "TimerPtr.hpp"
#include "MaxMsgSize.hpp"

#include "json.hpp"
#include "log.hpp"

namespace vf
{
using namespace app::reactor;

inline long long keyOf(LinkAddr const& a) { return static_cast<long long>(ipv4addr(a)) * 65536 + ipv4port(a); }

inline LinkAddr mkAddr(unsigned ip, unsigned port)
{
    LinkAddr a;
    std::memset(&a, 0, sizeof(a));
    a.type = LinkAddr::Type::ipv4;
    a.data[0] = static_cast<char>(ip >> 24);
    a.data[1] = static_cast<char>(ip >> 16);
    a.data[2] = static_cast<char>(ip >> 8);
    a.data[3] = static_cast<char>(ip);
    a.data[4] = static_cast<char>(port >> 8);
    a.data[5] = static_cast<char>(port);
    return a;
}

class World;

class FakeLink : public LinkInterface
{
public:
    enum class St { idle, connecting, up };
    explicit FakeLink(World& w_) : w(w_) {}
    // FileDescriptorInterface
    void setFileDescriptor(int) override {}
    int fileDescriptor() const override { return st == St::idle ? -1 : 1000; }
    void onFileDescriptorEvent(int) override {}
    // LinkInterface
    void connect(LinkAddr const& a) override;
    void close() override;
    void release() override { close(); handler = {}; }
    int send(void const* d, std::size_t len) override;
    LinkResult receive(std::uint8_t* d, std::size_t len) override;
    void setHandler(LinkHandler h) override { handler = h; }

    World& w;
    St st = St::idle;
    LinkHandler handler;
    long long peer = -1;         // key of the remote address, or index of the accepted connection
    bool accepted = false;
    bool eof = false;
    bool sendFails = false;
    std::deque<std::uint8_t> pending;
    std::vector<std::uint8_t> tx; // sent in this step
};

class FakeTimer : public TimerInterface
{
public:
    FakeTimer(World& w_, TimerHandler h) : w(w_), handler(h) {}
    void start(long us) override;
    void stop() override { armed = false; }
    void release() override { armed = false; handler = {}; }
    World& w;
    TimerHandler handler;
    bool armed = false;
    long long deadline = 0;
    unsigned long long order = 0;
};

class FakeAcceptor : public AcceptorInterface
{
public:
    FakeAcceptor(World& w_, AcceptorHandler h) : w(w_), handler(h) {}
    void listen(LinkAddr const& a) override;
    void accept(LinkInterface& l) override;
    void close() override { listening = false; }
    void release() override { listening = false; handler = {}; }
    World& w;
    AcceptorHandler handler;
    bool listening = false;
    long long addr = -1;
    int backlog = 0;
};

struct Stored
{
    std::unique_ptr<unsigned char[]> mem;
    MsgInterface const* msg;
};

class World : public ReactorInterface, public SenderInterface
{
public:
    World() {}
    ~World() override {}

    // --- ReactorInterface
    void registerHandler(MsgId id, MsgHandler h) override { handlers[id] = h; }
    void registerHandlers(MsgHandlerVector const& v) override { for (auto const& e : v) handlers[std::get<0>(e)] = std::get<1>(e); }
    TimerPtr createTimer(TimerHandler h) override
    {
        if (failTimer) { failTimer = false; throw std::runtime_error("no timer"); }
        timers.push_back(std::make_unique<FakeTimer>(*this, h));
        auto* t = timers.back().get();
        ++nTimers;
        return TimerPtr(t, [this](TimerInterface* i){ i->release(); --nTimers; });
    }
    LinkPtr createLink(LinkHandler h) override
    {
        if (failLink) { failLink = false; throw std::runtime_error("no link"); }
        links.push_back(std::make_unique<FakeLink>(*this));
        auto* l = links.back().get();
        l->setHandler(h);
        ++nLinks;
        return LinkPtr(l, [this](LinkInterface* i){ i->release(); --nLinks; });
    }
    AcceptorPtr createAcceptor(AcceptorHandler h) override
    {
        if (failAcceptor) { failAcceptor = false; throw std::runtime_error("no acceptor"); }
        acceptors.push_back(std::make_unique<FakeAcceptor>(*this, h));
        auto* a = acceptors.back().get();
        ++nAcceptors;
        return AcceptorPtr(a, [this](AcceptorInterface* i){ i->release(); --nAcceptors; });
    }
    void start() override {}
    void stop() override {}

    // --- SenderInterface (and ReactorInterface::send): record a byte copy, as the real
    // message storage does; a message that does not fit the storage is lost.
    void send(MsgInterface const& m) override
    {
        std::size_t const len = m.size();
        if (len > maxMsgSize)
        {
            ++lostMsgs;
            return;
        }
        Stored s;
        s.mem.reset(new unsigned char[len]);
        std::memcpy(s.mem.get(), &m, len);
        s.msg = reinterpret_cast<MsgInterface const*>(s.mem.get());
        sent.push_back(std::move(s));
    }

    // --- driving
    // A handler may throw; the reactor reports it and goes on with the next event.
    bool guarded(std::function<void()> const& f)
    {
        try { f(); return true; }
        catch (std::exception const&) { ++exceptions; return false; }
    }
    bool deliver(MsgInterface const& m)
    {
        auto it = handlers.find(m.getMsgId());
        if (it == handlers.end() || not it->second) return false;
        std::size_t const len = m.size();
        std::unique_ptr<unsigned char[]> mem(new unsigned char[len]);
        std::memcpy(mem.get(), &m, len);
        auto h = it->second;
        guarded([&]{ h(*reinterpret_cast<MsgInterface const*>(mem.get())); });
        return true;
    }
    void linkEvent(FakeLink& l, LinkEvent ev)
    {
        auto h = l.handler;
        if (h) guarded([&]{ h(ev); });
    }
    // Advance virtual time; due timers fire one after another in deadline order.
    void advance(long long us)
    {
        long long const end = now + us;
        for (;;)
        {
            FakeTimer* best = nullptr;
            for (auto& t : timers)
            {
                if (t->armed && t->deadline <= end
                    && (not best || t->deadline < best->deadline || (t->deadline == best->deadline && t->order < best->order)))
                {
                    best = t.get();
                }
            }
            if (not best) break;
            now = best->deadline;
            best->armed = false;
            ++fired;
            auto h = best->handler;
            if (h) guarded([&]{ h(); });
        }
        now = end;
    }
    FakeLink* linkTo(long long key)
    {
        FakeLink* r = nullptr;
        for (auto& l : links) if (not l->accepted && l->peer == key && l->st != FakeLink::St::idle) r = l.get();
        return r;
    }
    FakeLink* conn(long long k)
    {
        for (auto& l : links) if (l->accepted && l->peer == k && l->st != FakeLink::St::idle) return l.get();
        return nullptr;
    }
    FakeAcceptor* acceptorAt(long long key)
    {
        for (auto& a : acceptors) if (a->listening && a->addr == key) return a.get();
        return nullptr;
    }
    // drop objects nobody can refer to any more (between scripts only)
    std::map<MsgId, MsgHandler> handlers;
    std::vector<std::unique_ptr<FakeTimer>> timers;
    std::vector<std::unique_ptr<FakeLink>> links;
    std::vector<std::unique_ptr<FakeAcceptor>> acceptors;
    std::vector<Stored> sent;
    long long now = 0;
    unsigned long long orderNo = 0;
    long long nTimers = 0, nLinks = 0, nAcceptors = 0;
    unsigned long long fired = 0;
    int exceptions = 0, lostMsgs = 0;
    bool failTimer = false, failLink = false, failAcceptor = false, failAccept = false;
    std::set<long long> failConnect;
    long long nextConn = 0;
    long long lastAccepted = -1;
    // observed in this step
    std::map<long long, int> attempts;
    std::map<long long, std::vector<std::uint8_t>> txTo;    // by remote address
    std::map<long long, std::vector<std::uint8_t>> txConn;  // by accepted connection
    void clearStep()
    {
        attempts.clear(); txTo.clear(); txConn.clear(); sent.clear(); lastAccepted = -1; exceptions = 0; lostMsgs = 0;
    }
};

inline void FakeLink::connect(LinkAddr const& a)
{
    if (st != St::idle) throw std::runtime_error("already connected");
    long long const key = keyOf(a);
    w.attempts[key]++;
    if (w.failConnect.erase(key)) throw std::runtime_error("connect");
    peer = key;
    accepted = false;
    eof = sendFails = false;
    pending.clear();
    st = St::connecting;
}
inline void FakeLink::close()
{
    st = St::idle;
    pending.clear();
    eof = false;
    sendFails = false;
}
inline int FakeLink::send(void const* d, std::size_t len)
{
    if (st == St::idle) return -1;
    if (sendFails) { sendFails = false; return -1; }
    auto const* b = static_cast<std::uint8_t const*>(d);
    auto& o = accepted ? w.txConn[peer] : w.txTo[peer];
    o.insert(o.end(), b, b + len);
    return 1;
}
inline LinkResult FakeLink::receive(std::uint8_t* d, std::size_t len)
{
    if (st == St::idle) return {LinkResult::error, 0};
    if (pending.empty())
    {
        if (eof && len) return {LinkResult::closed, 0};
        if (eof) return {LinkResult::ok, 0};
        return {LinkResult::na, 0};
    }
    std::size_t k = 0;
    while (k < len && not pending.empty()) { d[k++] = pending.front(); pending.pop_front(); }
    return {LinkResult::ok, static_cast<int>(k)};
}
inline void FakeTimer::start(long us)
{
    armed = true;
    deadline = w.now + us;
    order = ++w.orderNo;
}
inline void FakeAcceptor::listen(LinkAddr const& a)
{
    listening = true;
    addr = keyOf(a);
}
inline void FakeAcceptor::accept(LinkInterface& l)
{
    if (not listening) throw std::runtime_error("not listening");
    if (backlog == 0 || w.failAccept) { w.failAccept = false; throw std::runtime_error("accept"); }
    auto& f = static_cast<FakeLink&>(l);
    if (f.st != FakeLink::St::idle) throw std::runtime_error("already connected");
    --backlog;
    f.accepted = true;
    f.eof = f.sendFails = false;
    f.pending.clear();
    f.peer = w.nextConn++;
    f.st = FakeLink::St::up;
    w.lastAccepted = f.peer;
}

// a message with a variable tail, in memory of exactly its size
template <typename M>
struct Box
{
    explicit Box(std::size_t tail) : mem(new unsigned char[sizeof(M) + tail + 16]) { std::memset(mem.get(), 0, sizeof(M) + tail + 16); m = new (mem.get()) M; }
    M* operator->() { return m; }
    M& operator*() { return *m; }
    std::unique_ptr<unsigned char[]> mem;
    M* m;
};

// Script loop: every input line is {"id":.., "ops":[..]}; for every script a "reset" line and one
// line per operation are written: {"s":id,"n":step,"i":op,"o":observations}
template <typename RUN>
int mainLoop(RUN make)
{
    vlog::start();
    std::string line;
    while (std::getline(std::cin, line))
    {
        if (line.empty()) continue;
        vj::Val v = vj::parse(line);
        long long const id = v.i("id");
        vlog::script(id);
        std::cout << "{\"s\":" << id << ",\"n\":0,\"i\":{\"op\":\"reset\"},\"o\":{}}\n" << std::flush;
        alarm(30); // a script that does not come to an end counts as a crash
        auto run = make();
        long long step = 0;
        for (auto const& op : v["ops"].arr)
        {
            ++step;
            std::string const o = run->step(op);
            std::cout << "{\"s\":" << id << ",\"n\":" << step << ",\"o\":" << o << "}\n" << std::flush;
        }
        std::cout << "{\"s\":" << id << ",\"end\":1}\n" << std::flush;
    }
    return 0;
}

} // namespace vf

// waiting in the code under test takes no time (virtual time only)
#ifdef VF_NO_SLEEP
extern "C" int nanosleep(const struct timespec*, struct timespec*) { return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return 0; }
#endif
