// Driver of the real reactor: messages, timers, links and acceptors. The reactor's own loop runs in
// this thread; the epoll_wait it calls is the one below, which lets the reactor finish what is ready and
// then carries out the next operation of the script. Time is virtual: timerfd and clock are stand-ins.
// Sockets are real loopback sockets; system calls can be made to fail.
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <ctime>
#include <deque>
#include <dlfcn.h>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <string>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <thread>
#include <unistd.h>
#include <vector>

#include "json.hpp"
#include "log.hpp"
#include "ComponentInterface.hpp"
#include "Logger.hpp"
#include "MsgInterface.hpp"
#include "MsgHandlerVector.hpp"
#include "Reactor.hpp"
#include "ReactorManager.hpp"
#include "SenderInterface.hpp"

using namespace app::reactor;

namespace
{
// ------------------------------------------------------------------ stand-ins for the kernel
bool active = false;                 // the script runs in this thread
thread_local bool mainThread = false;
bool noJoin = false;
long long nowNs = 0, baseNs = 0;
std::map<std::string, int> faults;
std::vector<std::string> hits;       // those of this step that happened
ssize_t peerSend(int fd, void const* d, std::size_t n, int f) { return syscall(SYS_sendto, fd, d, n, f, nullptr, 0); }
unsigned long timerOrder = 0;

struct VTimer { bool armed = false; long long dl = 0, interval = 0; unsigned long order = 0; };
std::map<int, VTimer> vtimers;

bool faulty(char const* c)
{
    if (not active || not mainThread) return false;
    auto it = faults.find(c);
    if (it == faults.end() || it->second == 0) return false;
    --it->second;
    hits.push_back(std::string("\"") + c + "\"");
    return true;
}
template <typename F> F real(char const* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

void drainFd(int fd) { std::uint64_t u; pollfd p{fd, POLLIN, 0}; if (poll(&p, 1, 0) == 1) (void)!read(fd, &u, sizeof u); }
void fireFd(int fd) { std::uint64_t u = 1; (void)!write(fd, &u, sizeof u); }

struct Run;
Run* run = nullptr;
int hook(int epfd, epoll_event* ev, int max);
}

extern "C"
{
int epoll_wait(int epfd, struct epoll_event* ev, int max, int timeout)
{
    if (active && mainThread) return hook(epfd, ev, max);
    return syscall(SYS_epoll_pwait, epfd, ev, max, timeout, nullptr, 8);
}
int epoll_pwait(int epfd, struct epoll_event* ev, int max, int timeout, const sigset_t*) { return epoll_wait(epfd, ev, max, timeout); }
int epoll_ctl(int epfd, int op, int fd, struct epoll_event* ev)
{
    if (op == EPOLL_CTL_ADD && faulty("epoll")) { errno = ENOSPC; return -1; }
    if (op == EPOLL_CTL_MOD && faulty("mod")) { errno = ENOMEM; return -1; }
    return syscall(SYS_epoll_ctl, epfd, op, fd, ev);
}
int timerfd_create(int, int flags)
{
    if (faulty("timerfd")) { errno = EMFILE; return -1; }
    int const fd = eventfd(0, (flags & TFD_NONBLOCK) ? EFD_NONBLOCK : 0);
    if (fd >= 0) vtimers[fd] = {};
    return fd;
}
int timerfd_settime(int fd, int flags, const struct itimerspec* nv, struct itimerspec*)
{
    auto it = vtimers.find(fd);
    if (it == vtimers.end()) { errno = fd < 0 ? EBADF : EINVAL; return -1; }
    auto bad = [](timespec const& t) { return t.tv_sec < 0 || t.tv_nsec < 0 || t.tv_nsec >= 1000000000L; };
    if (bad(nv->it_value) || bad(nv->it_interval)) { errno = EINVAL; return -1; }
    drainFd(fd);
    auto& t = it->second;
    t = {};
    if (nv->it_value.tv_sec == 0 && nv->it_value.tv_nsec == 0) return 0;
    t.armed = true;
    t.dl = nv->it_value.tv_sec * 1000000000LL + nv->it_value.tv_nsec + ((flags & TFD_TIMER_ABSTIME) ? 0 : nowNs);
    t.interval = nv->it_interval.tv_sec * 1000000000LL + nv->it_interval.tv_nsec;
    t.order = ++timerOrder;
    if (t.dl <= nowNs) { t.armed = false; fireFd(fd); }
    return 0;
}
int timerfd_gettime(int fd, struct itimerspec* v)
{
    auto it = vtimers.find(fd);
    if (it == vtimers.end()) { errno = EBADF; return -1; }
    *v = {};
    if (it->second.armed)
    {
        v->it_value.tv_sec = (it->second.dl - nowNs) / 1000000000LL;
        v->it_value.tv_nsec = (it->second.dl - nowNs) % 1000000000LL;
    }
    return 0;
}
int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (not active || not mainThread || (c != CLOCK_MONOTONIC && c != CLOCK_MONOTONIC_RAW && c != CLOCK_MONOTONIC_COARSE && c != CLOCK_BOOTTIME))
        return syscall(SYS_clock_gettime, c, ts);
    ts->tv_sec = nowNs / 1000000000LL;
    ts->tv_nsec = nowNs % 1000000000LL;
    return 0;
}
int close(int fd)
{
    if (mainThread) vtimers.erase(fd);
    return syscall(SYS_close, fd);
}
int socket(int d, int t, int p)
{
    if (faulty("socket")) { errno = EMFILE; return -1; }
    return syscall(SYS_socket, d, t, p);
}
int connect(int fd, const struct sockaddr* a, socklen_t l)
{
    if (faulty("connect")) { errno = ENETUNREACH; return -1; }
    return syscall(SYS_connect, fd, a, l);
}
int listen(int fd, int n)
{
    if (faulty("listen")) { errno = EADDRINUSE; return -1; }
    return syscall(SYS_listen, fd, n);
}
int bind(int fd, const struct sockaddr* a, socklen_t l)
{
    if (faulty("bind")) { errno = EADDRINUSE; return -1; }
    return syscall(SYS_bind, fd, a, l);
}
int setsockopt(int fd, int level, int name, const void* v, socklen_t l)
{
    if (level == SOL_SOCKET && name == SO_REUSEADDR && faulty("sockopt")) { errno = ENOBUFS; return -1; }
    return syscall(SYS_setsockopt, fd, level, name, v, l);
}
ssize_t send(int fd, const void* d, size_t n, int f)
{
    if (faulty("send")) { errno = EAGAIN; return -1; }
    if (n > 1 && faulty("part")) n /= 2;
    return syscall(SYS_sendto, fd, d, n, f, nullptr, 0);
}
int accept(int fd, struct sockaddr* a, socklen_t* l)
{
    if (faulty("accept")) { errno = EMFILE; return -1; }
    return syscall(SYS_accept, fd, a, l);
}
int accept4(int fd, struct sockaddr* a, socklen_t* l, int f)
{
    if (faulty("accept")) { errno = EMFILE; return -1; }
    return syscall(SYS_accept4, fd, a, l, f);
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long const arg = va_arg(ap, long); va_end(ap);
    if (cmd == F_SETFL && faulty("fcntl")) { errno = EPERM; return -1; }
    return syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long const arg = va_arg(ap, long); va_end(ap);
    if (cmd == F_SETFL && faulty("fcntl")) { errno = EPERM; return -1; }
    return syscall(SYS_fcntl, fd, cmd, arg);
}
int pthread_join(pthread_t t, void** r)
{
    if (noJoin && mainThread) return 0;
    static auto f = real<int (*)(pthread_t, void**)>("pthread_join");
    return f(t, r);
}
}

namespace
{
// ------------------------------------------------------------------ messages of the script
constexpr std::size_t head = 40;
struct TestMsg : MsgInterface
{
    MsgId mid = 0;
    ComponentId cid = 0;
    std::uint32_t len = 0, v = 0, act = 0, n = 0;
    unsigned char pat[8192 - head];
    MsgId getMsgId() const override { return mid; }
    ComponentId getCompId() const override { return cid; }
    std::size_t size() const override { return len; }
    void fill() { for (std::size_t i = 0; head + i < len; ++i) pat[i] = static_cast<unsigned char>(v * 7 + i * 13 + mid); }
    bool intact() const
    {
        for (std::size_t i = 0; head + i < len; ++i) if (pat[i] != static_cast<unsigned char>(v * 7 + i * 13 + mid)) return false;
        return true;
    }
};
static_assert(offsetof(TestMsg, pat) == head, "head");
constexpr unsigned midBase = 1000;

unsigned nextPort = 0;
bool gaveUp = false;          // messages were lost: do not wait that long again
std::uint32_t myAddr()
{
    unsigned const p = getpid();
    return 127u << 24 | (128 + (p >> 14) % 100) << 16 | ((p >> 7) & 127) << 9 | (128 | (p & 127));
}
unsigned freshPort() { return 0x6081 + (nextPort++ % 24000); }
LinkAddr linkAddr(std::uint32_t a, unsigned port)
{
    LinkAddr r{};
    r.type = LinkAddr::Type::ipv4;
    for (int i = 0; i < 4; ++i) r.data[i] = static_cast<char>(a >> (24 - 8 * i));
    r.data[4] = static_cast<char>(port >> 8);
    r.data[5] = static_cast<char>(port);
    return r;
}
sockaddr_in sockAddr(std::uint32_t a, unsigned port)
{
    sockaddr_in s{};
    s.sin_family = AF_INET;
    s.sin_port = htons(port);
    s.sin_addr.s_addr = htonl(a);
    return s;
}

// ------------------------------------------------------------------ a component manager with recording reactors
struct StubReactor : ReactorInterface
{
    std::vector<std::vector<long long>>& log;
    int id;
    int& started;
    int& stopped;
    StubReactor(std::vector<std::vector<long long>>& l, int i, int& a, int& b) : log(l), id(i), started(a), stopped(b) {}
    void registerHandler(MsgId, MsgHandler) override {}
    void registerHandlers(MsgHandlerVector const&) override {}
    TimerPtr createTimer(TimerHandler) override { return nullptr; }
    LinkPtr createLink(LinkHandler) override { return nullptr; }
    AcceptorPtr createAcceptor(AcceptorHandler) override { return nullptr; }
    void send(MsgInterface const& m) override
    {
        log.push_back({id, static_cast<long long>(m.getCompId()), static_cast<TestMsg const&>(m).v});
    }
    void start() override { ++started; }
    void stop() override { ++stopped; }
};
struct StubComponent : ComponentInterface
{
    ComponentId c; SenderInterface& s; ReactorInterface& r;
    StubComponent(ComponentId c_, SenderInterface& s_, ReactorInterface& r_) : c(c_), s(s_), r(r_) {}
    ComponentId getCompId() const override { return c; }
    SenderInterface& getSender() override { return s; }
    ReactorInterface& getReactor() override { return r; }
};

struct Run
{
    long long id = 0;
    std::vector<vj::Val> ops;
    std::size_t next = 0;
    bool busy = false;           // an operation is being carried out
    int rounds = 0, settleMs = 0;

    std::unique_ptr<Reactor> reactor;
    int baseFds = 0, ownFds = 0;

    // ---- observations
    std::vector<std::string> res, rx, fired, ev, acc, prx, peof, pst, man;
    long long cnt = 0;
    int skip = 0;
    long long advTo = -1;
    bool late = false;

    // ---- messages
    std::map<int, int> tags;
    std::unique_ptr<TestMsg> out = std::make_unique<TestMsg>();
    void post(int m, int len, int v, int act, int n)
    {
        TestMsg& t = *out;
        t.mid = midBase + m; t.len = len; t.v = v; t.act = act; t.n = n;
        t.fill();
        reactor->send(t);
        std::memset(t.pat, 0xEE, sizeof t.pat);   // the message is the reactor's now
        t.v = 0xEEEE;
    }
    void onMsg(int m, int tag, MsgInterface const& mi)
    {
        auto const& t = static_cast<TestMsg const&>(mi);
        bool const ok = t.intact() && t.mid == midBase + static_cast<unsigned>(m);
        int const v = t.v, act = t.act, n = t.n;
        rx.push_back(vj::arr({vj::n(m), vj::n(tag), vj::n(v), vj::n(t.len), vj::n(ok)}));
        if (act == 1) throw std::runtime_error("handler");
        if (act == 2) for (int k = 0; k < n; ++k) post(m, 64, v + 100 + k, 0, 0);
        if (act == 3) tags.erase(n), reactor->registerHandler(midBase + n, {});
    }
    void reg(int m, int tag, bool vec)
    {
        tags[m] = tag;
        auto h = [this, m, tag](MsgInterface const& mi) { onMsg(m, tag, mi); };
        if (vec) reactor->registerHandlers({{midBase + static_cast<unsigned>(m), h}});
        else reactor->registerHandler(midBase + m, h);
    }

    // ---- timers
    struct T { TimerPtr p; std::vector<vj::Val> acts; };
    std::map<int, T> timers;
    std::vector<TimerPtr> fillT;
    void timerAct(vj::Val const& a)
    {
        std::string const k = a.s("k");
        if (k == "throw") throw std::runtime_error("timer handler");
        if (k == "snd") { post(a.i("m"), 64, a.i("v"), 0, 0); return; }
        auto it = timers.find(a.i("t"));
        if (k == "tc") { if (it == timers.end()) newTimer(a.i("t")); return; }
        if (it == timers.end()) return;
        if (k == "ts") it->second.p->start(a.i("us"));
        else if (k == "tx") it->second.p->stop();
        else if (k == "td") timers.erase(it);
        else throw std::runtime_error("unknown action");
    }
    void onTimer(int t)
    {
        long long const ns = nowNs - baseNs;
        fired.push_back(vj::arr({vj::n(t), ns % 1000 ? "-1" : vj::n(ns / 1000)}));
        auto it = timers.find(t);
        if (it == timers.end()) return;
        auto const acts = it->second.acts;
        for (auto const& a : acts) timerAct(a);
    }
    bool newTimer(int t)
    {
        try { timers[t].p = reactor->createTimer([this, t] { onTimer(t); }); return true; }
        catch (std::exception const&) { timers.erase(t); return false; }
    }

    // ---- links
    struct L { LinkPtr p; int rd = 1; std::string onEnd, onData; int c = -1; };
    std::map<int, L> links;
    std::vector<LinkPtr> fillL;
    struct P { int fd = -1; bool eof = false; };
    std::map<int, P> peers;                      // connections seen from outside
    std::map<int, std::pair<int, unsigned>> listeners;  // listening peers: fd, port
    void onLink(int l, LinkEvent e)
    {
        auto it = links.find(l);
        if (it == links.end()) { ev.push_back(vj::arr({vj::n(l), vj::q("stray")})); return; }
        if (e == LinkEvent::connected) ev.push_back(vj::arr({vj::n(l), vj::q("conn")}));
        else if (e == LinkEvent::error)
        {
            ev.push_back(vj::arr({vj::n(l), vj::q("error")}));
            if (it->second.onEnd == "del") links.erase(it);
        }
        else if (it->second.rd)
        {
            std::uint8_t buf[4096];
            auto const r = it->second.p->receive(buf, sizeof buf);
            got(l, r, buf);
            if (r.status == LinkResult::ok && it->second.onData == "echo")
            {
                if (it->second.p->send(buf, r.len) < 0) ev.push_back(vj::arr({vj::n(l), vj::q("sendfail")}));
            }
            if (r.status == LinkResult::ok && it->second.onData == "throw") throw std::runtime_error("link handler");
            if (r.status != LinkResult::ok && r.status != LinkResult::na && it->second.onEnd == "del") links.erase(it);
        }
        else ev.push_back(vj::arr({vj::n(l), vj::q("data")}));
    }
    void got(int l, LinkResult const& r, std::uint8_t const* b)
    {
        char const* n = r.status == LinkResult::ok ? "ok" : r.status == LinkResult::na ? "na" : r.status == LinkResult::closed ? "closed" : "err";
        ev.push_back(vj::arr({vj::n(l), vj::q(n), r.status == LinkResult::ok ? vj::bytes(b, r.len) : "[]"}));
    }
    bool newLink(int l, vj::Val const& op)
    {
        try { links[l].p = reactor->createLink([this, l](LinkEvent e) { onLink(l, e); }); }
        catch (std::exception const&) { links.erase(l); return false; }
        auto& x = links[l];
        x.rd = op.i("rd", 1);
        x.onEnd = op.has("end") ? op.s("end") : "";
        x.onData = op.has("dat") ? op.s("dat") : "";
        return true;
    }

    // ---- acceptors
    struct A { AcceptorPtr p; unsigned port = 0; };
    std::map<int, A> acceptors;
    std::vector<AcceptorPtr> fillA;
    vj::Val want;                                // the link the next connection gets
    void onAccept(int a)
    {
        auto it = acceptors.find(a);
        if (it == acceptors.end()) { acc.push_back(vj::arr({vj::n(a), "-1", "-1"})); return; }
        int const l = want.i("l");
        if (not newLink(l, want)) { acc.push_back(vj::arr({vj::n(a), vj::n(l), "2"})); return; }
        try
        {
            it->second.p->accept(*links[l].p);
            acc.push_back(vj::arr({vj::n(a), vj::n(l), "0"}));
        }
        catch (std::exception const&)
        {
            acc.push_back(vj::arr({vj::n(a), vj::n(l), "1"}));
            links.erase(l);
        }
    }

    // ---- routing
    std::vector<std::vector<long long>> mlog;
    int mstarted = 0, mstopped = 0;
    std::unique_ptr<ReactorManager> manager;
    std::map<int, StubReactor*> stubs;

    // ---- concurrent senders
    std::vector<std::thread> senders;
    std::mutex cm;
    std::condition_variable ccv;
    int credits = 0, expected = 0, received = 0;
    void burst(int nt, int per, int len)
    {
        credits = 48; expected = nt * per; received = 0;
        reactor->registerHandler(midBase + 99, [this](MsgInterface const& mi)
        {
            auto const& t = static_cast<TestMsg const&>(mi);
            rx.push_back(vj::arr({vj::n(t.act), vj::n(t.n), vj::n(t.intact())}));
            std::lock_guard<std::mutex> g(cm);
            ++received; ++credits;
            ccv.notify_one();
        });
        for (int i = 0; i < nt; ++i)
            senders.emplace_back([this, i, per, len]
            {
                auto t = std::make_unique<TestMsg>();
                for (int k = 0; k < per; ++k)
                {
                    {
                        std::unique_lock<std::mutex> g(cm);
                        if (not ccv.wait_for(g, std::chrono::seconds(3), [this] { return credits > 0; })) return;
                        --credits;
                    }
                    t->mid = midBase + 99; t->act = i; t->n = k; t->v = i * 31 + k; t->len = head + (k * 37 + i * 11) % len;
                    t->fill();
                    reactor->send(*t);
                }
            });
    }

    // ------------------------------------------------------------------ operations
    static int countFds()
    {
        int n = 0;
        if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); }
        return n;
    }
    void own(int d) { ownFds += d; }
    int sock()
    {
        int const fd = syscall(SYS_socket, AF_INET, SOCK_STREAM, 0);
        if (fd < 0) throw std::runtime_error("harness socket");
        own(1);
        return fd;
    }
    static void prompt(int fd)   // neither side waits for more data or for an acknowledgement
    {
        int const one = 1;
        setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
    }
    void dropPeer(int c)
    {
        auto it = peers.find(c);
        if (it == peers.end()) return;
        if (it->second.fd >= 0) { syscall(SYS_close, it->second.fd); own(-1); }
        peers.erase(it);
    }
    bool takePeer(int p, int c)     // accept at listener p
    {
        pollfd pf{listeners[p].first, POLLIN, 0};
        if (poll(&pf, 1, 1000) != 1) return false;
        int const fd = syscall(SYS_accept4, listeners[p].first, nullptr, nullptr, SOCK_NONBLOCK);
        if (fd < 0) return false;
        own(1);
        prompt(fd);
        peers[c] = {fd, false};
        return true;
    }
    void ok(bool v) { res.push_back(v ? "0" : "1"); }

    void exec(vj::Val const& op)
    {
        std::string const o = op.s("op");
        auto tm = [&]() -> T* { auto it = timers.find(op.i("t")); if (it == timers.end()) { skip = 1; return nullptr; } return &it->second; };
        auto ln = [&]() -> L* { auto it = links.find(op.i("l")); if (it == links.end()) { skip = 1; return nullptr; } return &it->second; };
        auto ac = [&]() -> A* { auto it = acceptors.find(op.i("a")); if (it == acceptors.end()) { skip = 1; return nullptr; } return &it->second; };
        auto pe = [&]() -> P* { auto it = peers.find(op.i("c")); if (it == peers.end() || it->second.fd < 0) { skip = 1; return nullptr; } return &it->second; };
        auto net = [&] { settleMs = 4; };
        if (o == "seq") for (auto const& s : op["ops"].arr) exec(s);
        else if (o == "clk") { }
        else if (o == "flt") faults[op.s("call")] = op.i("n");
        // ---- messages
        else if (o == "reg") reg(op.i("m"), op.i("tag"), op.i("vec", 0));
        else if (o == "snd") for (auto const& m : op["q"].arr) post(m.i("m"), m.i("len"), m.i("v"), m.i("act"), m.i("n"));
        else if (o == "burst") { burst(op.i("t"), op.i("per"), op.i("len")); settleMs = 1; }
        else if (o == "thr") threaded(op.i("t"), op.i("per"));
        // ---- timers
        else if (o == "tc") { if (timers.count(op.i("t"))) skip = 1; else ok(newTimer(op.i("t"))); }
        else if (o == "ts") { if (auto* t = tm()) { try { t->p->start(op.i("us")); ok(true); } catch (std::exception const&) { ok(false); } } }
        else if (o == "tx") { if (auto* t = tm()) { try { t->p->stop(); ok(true); } catch (std::exception const&) { ok(false); } } }
        else if (o == "td") { if (tm()) timers.erase(op.i("t")); }
        else if (o == "ta") { if (auto* t = tm()) t->acts = op["acts"].arr; }
        else if (o == "adv") { advTo = nowNs + op.i("us") * 1000; late = op.i("late", 0); if (late) nowNs = advTo; }
        else if (o == "tfill") { cnt = 0; for (int i = 0; i < op.i("n"); ++i) try { fillT.push_back(reactor->createTimer([] {})); ++cnt; } catch (std::exception const&) {} }
        else if (o == "tempty") fillT.clear();
        // ---- links
        else if (o == "lnew") { if (links.count(op.i("l"))) skip = 1; else ok(newLink(op.i("l"), op)); }
        else if (o == "lconn")
        {
            net();
            if (auto* l = ln())
            {
                bool const to = listeners.count(op.i("p")) != 0;
                unsigned const port = to ? listeners[op.i("p")].second : freshPort();
                try { l->p->connect(linkAddr(myAddr(), port)); ok(true); }
                catch (std::exception const&)
                {
                    ok(false);
                    if (to)      // an attempt given up may have reached the listener
                    {
                        usleep(2000);
                        pollfd pf{listeners[op.i("p")].first, POLLIN, 0};
                        while (poll(&pf, 1, 0) == 1) { int const x = syscall(SYS_accept4, pf.fd, nullptr, nullptr, SOCK_NONBLOCK); if (x < 0) break; syscall(SYS_close, x); }
                    }
                    return;
                }
                if (to && not peers.count(op.i("c")))
                {
                    if (not takePeer(op.i("p"), op.i("c"))) { pst.push_back(vj::arr({vj::n(op.i("c")), vj::q("none")})); return; }
                    l->c = op.i("c");
                    auto const b = op.bytes("d");
                    if (b.size()) { (void)!peerSend(peers[op.i("c")].fd, b.data(), b.size(), MSG_NOSIGNAL); usleep(1000); }
                }
            }
        }
        else if (o == "lsend") { net(); if (auto* l = ln()) { auto const b = op.bytes("d"); ok(l->p->send(b.data(), b.size()) >= 0); } }
        else if (o == "lrecv")
        {
            if (auto* l = ln())
            {
                std::vector<std::uint8_t> b(op.i("n"));
                auto const r = l->p->receive(b.data(), b.size());
                got(op.i("l"), r, b.data());
            }
        }
        else if (o == "lclose") { net(); if (auto* l = ln()) l->p->close(); }
        else if (o == "ldel") { net(); if (ln()) links.erase(op.i("l")); }
        else if (o == "lfill") { cnt = 0; for (int i = 0; i < op.i("n"); ++i) try { fillL.push_back(reactor->createLink([](LinkEvent) {})); ++cnt; } catch (std::exception const&) {} }
        else if (o == "lempty") fillL.clear();
        // ---- acceptors
        else if (o == "anew")
        {
            int const a = op.i("a");
            if (acceptors.count(a)) { skip = 1; return; }
            try { acceptors[a].p = reactor->createAcceptor([this, a] { onAccept(a); }); ok(true); }
            catch (std::exception const&) { acceptors.erase(a); ok(false); }
        }
        else if (o == "alisten")
        {
            if (auto* a = ac())
            {
                unsigned const port = op.i("same", -1) >= 0 && acceptors.count(op.i("same")) && acceptors[op.i("same")].port ? acceptors[op.i("same")].port : freshPort();
                try { a->p->listen(linkAddr(myAddr(), port)); a->port = port; ok(true); }
                catch (std::exception const&) { ok(false); }
            }
        }
        else if (o == "aclose") { net(); if (auto* a = ac()) { try { a->p->close(); a->port = 0; ok(true); } catch (std::exception const&) { ok(false); } } }
        else if (o == "adel") { net(); if (ac()) acceptors.erase(op.i("a")); }
        else if (o == "afill") { cnt = 0; for (int i = 0; i < op.i("n"); ++i) try { fillA.push_back(reactor->createAcceptor([] {})); ++cnt; } catch (std::exception const&) {} }
        else if (o == "aempty") fillA.clear();
        // ---- the other side
        else if (o == "plis")
        {
            if (listeners.count(op.i("p"))) { skip = 1; return; }
            int const fd = sock();
            unsigned const port = freshPort();
            auto const s = sockAddr(myAddr(), port);
            if (syscall(SYS_bind, fd, reinterpret_cast<sockaddr const*>(&s), sizeof s) || syscall(SYS_listen, fd, 16)) throw std::runtime_error("harness listen");
            listeners[op.i("p")] = {fd, port};
        }
        else if (o == "pconn")
        {
            net();
            auto* a = ac();
            if (not a) return;
            if (peers.count(op.i("c")) || links.count(op.i("l"))) { skip = 1; return; }
            want = op;
            int const fd = sock();
            auto const s = sockAddr(myAddr(), a->port ? a->port : freshPort());
            if (syscall(SYS_connect, fd, &s, sizeof s) != 0)
            {
                syscall(SYS_close, fd); own(-1);
                ok(false);
                return;
            }
            syscall(SYS_fcntl, fd, F_SETFL, O_NONBLOCK);
            prompt(fd);
            peers[op.i("c")] = {fd, false};
            auto const b = op.bytes("d");
            if (b.size()) (void)!peerSend(fd, b.data(), b.size(), MSG_NOSIGNAL);
            ok(true);
        }
        else if (o == "pw") { net(); if (auto* p = pe()) { auto const b = op.bytes("d"); (void)!peerSend(p->fd, b.data(), b.size(), MSG_NOSIGNAL); } }
        else if (o == "pclose") { net(); if (pe()) dropPeer(op.i("c")); }
        else if (o == "prst") { net(); if (auto* p = pe()) { linger lg{1, 0}; setsockopt(p->fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); dropPeer(op.i("c")); } }
        // ---- routing
        else if (o == "madd")
        {
            if (not manager) manager = std::make_unique<ReactorManager>();
            int const r = op.i("r");
            if (not stubs.count(r))
            {
                auto s = std::make_unique<StubReactor>(mlog, r, mstarted, mstopped);
                stubs[r] = s.get();
                manager->addReactor(std::move(s));
            }
            manager->addComponent(std::make_unique<StubComponent>(op.i("c"), *manager, *stubs[r]));
        }
        else if (o == "msend")
        {
            if (not manager) manager = std::make_unique<ReactorManager>();
            TestMsg& t = *out;
            t.cid = op.i("c"); t.mid = midBase + op.i("m"); t.v = op.i("v"); t.len = 64;
            manager->send(t);
        }
        else if (o == "mstart") { if (manager) manager->start(); else skip = 1; }
        else throw std::runtime_error("unknown op " + o);
    }

    // a reactor with a thread of its own
    void threaded(int nt, int per)
    {
        std::mutex m;
        std::condition_variable cv;
        std::vector<std::string> got;
        int cr = 48, n = 0;
        active = false;              // real time
        {
            noJoin = false;
            Reactor r({7, 1, 0});
            r.registerHandler(midBase + 98, [&](MsgInterface const& mi)
            {
                auto const& t = static_cast<TestMsg const&>(mi);
                std::lock_guard<std::mutex> g(m);
                got.push_back(vj::arr({vj::n(t.act), vj::n(t.n), vj::n(t.intact())}));
                ++n; ++cr;
                cv.notify_all();
            });
            r.start();
            std::vector<std::thread> ts;
            for (int i = 0; i < nt; ++i)
                ts.emplace_back([&, i]
                {
                    auto t = std::make_unique<TestMsg>();
                    for (int k = 0; k < per; ++k)
                    {
                        {
                            std::unique_lock<std::mutex> g(m);
                            if (not cv.wait_for(g, std::chrono::seconds(3), [&] { return cr > 0; })) return;
                            --cr;
                        }
                        t->mid = midBase + 98; t->act = i; t->n = k; t->v = i * 31 + k; t->len = 100 + k % 50;
                        t->fill();
                        r.send(*t);
                    }
                });
            for (auto& t : ts) t.join();
            {
                std::unique_lock<std::mutex> g(m);
                cv.wait_for(g, std::chrono::seconds(3), [&] { return n == nt * per; });
            }
            r.stop();
            // the loop looks at the flag when it wakes up
            TestMsg last;
            last.mid = midBase + 97; last.len = 64; last.v = 0;
            r.send(last);
        }
        noJoin = true;
        active = true;
        for (auto& s : got) rx.push_back(s);
    }

    // ------------------------------------------------------------------ observations
    void lookAround()
    {
        for (auto& e : peers)
        {
            P& p = e.second;
            if (p.fd < 0 || p.eof) continue;
            std::vector<std::uint8_t> b(70000);
            std::vector<std::uint8_t> all;
            for (;;)
            {
                auto const n = recv(p.fd, b.data(), b.size(), MSG_DONTWAIT);
                if (n > 0) { all.insert(all.end(), b.begin(), b.begin() + n); continue; }
                if (n == 0 || (errno != EAGAIN && errno != EINTR))
                {
                    p.eof = true;
                    peof.push_back(vj::n(e.first));
                }
                break;
            }
            prompt(p.fd);
            if (all.size()) prx.push_back(vj::O().num("c", e.first).raw("d", vj::bytes(all)).done());
        }
    }
    void emit()
    {
        lookAround();
        for (auto const& m : mlog) man.push_back(vj::arr({vj::n(m[0]), vj::n(m[1]), vj::n(m[2])}));
        mlog.clear();
        int const fds = countFds() - baseFds - ownFds;
        std::cout << "{\"s\":" << id << ",\"n\":" << next << ",\"o\":"
            << vj::O().num("skip", skip).raw("r", vj::arr(res)).num("cnt", cnt).raw("rx", vj::arr(rx)).raw("fired", vj::arr(fired)).raw("ev", vj::arr(ev))
                .raw("acc", vj::arr(acc)).raw("prx", vj::arr(prx)).raw("peof", vj::arr(peof)).raw("pst", vj::arr(pst)).raw("man", vj::arr(man))
                .num("started", mstarted).num("fds", fds).raw("hit", vj::arr(hits)).done()
            << "}\n" << std::flush;
        hits.clear(); res.clear(); rx.clear(); fired.clear(); ev.clear(); acc.clear(); prx.clear(); peof.clear(); pst.clear(); man.clear();
        cnt = 0; skip = 0; settleMs = 0; mstarted = 0;
        busy = false;
    }

    bool fireNext()          // virtual time goes on to the next timer due; false when advTo is reached
    {
        if (advTo < 0) return false;
        bool any = false;
        for (;;)
        {
            int fd = -1;
            for (auto& e : vtimers)
                if (e.second.armed && e.second.dl <= advTo &&
                    (fd < 0 || e.second.dl < vtimers[fd].dl || (e.second.dl == vtimers[fd].dl && e.second.order < vtimers[fd].order))) fd = e.first;
            if (fd < 0) break;
            auto& t = vtimers[fd];
            if (not late) nowNs = std::max(nowNs, t.dl);
            if (t.interval) { t.dl += t.interval; t.order = ++timerOrder; } else t.armed = false;
            fireFd(fd);
            any = true;
            if (not late || t.interval) break;
        }
        if (not any) { nowNs = advTo; advTo = -1; late = false; }
        return any;
    }

    int wait(int epfd, epoll_event* ev_, int max)
    {
        for (;;)
        {
            if (++rounds > 3000) { std::cerr << "SUMMARY: the loop does not come to rest\n"; _exit(77); }
            bool const sending = not senders.empty();
            int const n = syscall(SYS_epoll_pwait, epfd, ev_, max, sending ? 1 : settleMs, nullptr, 8);
            if (sending) rounds = 0;
            if (n > 0) { idleRounds = 0; return n; }
            if (sending)
            {
                bool all;
                { std::lock_guard<std::mutex> g(cm); all = received >= expected; }
                if (not all && ++idleRounds < (gaveUp ? 40 : 1500)) { continue; }
                idleRounds = 0;
                if (not all) { gaveUp = true; std::lock_guard<std::mutex> g(cm); credits += 100000; ccv.notify_all(); }
                for (auto& t : senders) { noJoin = false; t.join(); noJoin = true; }
                senders.clear();
                continue;
            }
            if (busy && fireNext()) continue;
            if (busy) emit();
            if (next >= ops.size()) { reactor->stop(); return 0; }
            rounds = 0;
            busy = true;
            auto const& op = ops[next++];
            exec(op);
        }
    }
    int idleRounds = 0;

    void go()
    {
        long long ns = 0;
        if (ops.size() && ops[0].s("op") == "clk") ns = ops[0].i("ns");
        nowNs = baseNs = 5000LL * 1000000000LL + ns;
        vtimers.clear(); faults.clear(); hits.clear();
        reactor = std::make_unique<Reactor>(Reactor::Init{1, 1, 0});
        baseFds = countFds();
        active = true; noJoin = true;
        reactor->run();
        faults.clear();
        timers.clear(); fillT.clear(); links.clear(); fillL.clear(); acceptors.clear(); fillA.clear();
        reactor.reset();
        active = false; noJoin = false;
        for (auto& p : peers) if (p.second.fd >= 0) syscall(SYS_close, p.second.fd);
        for (auto& l : listeners) syscall(SYS_close, l.second.first);
    }
};

int hook(int epfd, epoll_event* ev, int max) { return run->wait(epfd, ev, max); }
}

int main()
{
    mainThread = true;
    vlog::start();
    std::string line;
    while (std::getline(std::cin, line))
    {
        if (line.empty()) continue;
        vj::Val v = vj::parse(line);
        vlog::script(v.i("id"));
        std::cout << "{\"s\":" << v.i("id") << ",\"n\":0,\"i\":{\"op\":\"reset\"},\"o\":{}}\n" << std::flush;
        alarm(15);
        Run r;
        r.id = v.i("id");
        r.ops = v["ops"].arr;
        run = &r;
        r.go();
        std::cout << "{\"s\":" << r.id << ",\"end\":1}\n" << std::flush;
    }
    return 0;
}
