// Driver of the deployed application: the real deployment with its reactor threads. Which thread goes on, and when the network
// between the Modbus client and server of the application does, is decided here, one step at a time; time is virtual. The
// addresses 127.0.0.1 of the application are moved to a loopback address of this process.
#include <algorithm>
#include <cerrno>
#include <condition_variable>
#include <cstdarg>
#include <cstdio>
#include <ctime>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <set>
#include <string>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <unistd.h>
#include <vector>

#include "json.hpp"
#include "log.hpp"
#include "CompDefs.hpp"
#include "Deployer.hpp"
#include "Logger.hpp"
#include "MsgControllerStartReq.hpp"
#include "MsgControllerStopReq.hpp"
#include "ReactorManager.hpp"

using Bytes = std::vector<std::uint8_t>;
using vj::Val;

namespace
{
template <typename F> F real(char const* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

// ------------------------------------------------------------------ threads and time
thread_local bool mainThread = false;
std::recursive_mutex gm;                       // what the stand-ins share
std::mutex sm;                                 // scheduling
std::condition_variable scv;
long long nowNs = 0;
unsigned long timerOrder = 0;
struct VTimer { bool armed = false; long long dl = 0, interval = 0; unsigned long order = 0; };
std::map<int, VTimer> vtimers;

struct Th
{
    enum St { running, waiting, sleeping, gone } st = running;
    pthread_t id{};
    int epfd = -1;
    long long until = 0;
    bool go = false;
    cpu_set_t cpus;
};
std::vector<std::unique_ptr<Th>> threads;      // in the order of their creation
int cpusLeft = -1;
struct Self { Th* th = nullptr; ~Self() { if (th) { std::lock_guard<std::mutex> g(sm); th->st = Th::gone; scv.notify_all(); } } };
thread_local Self self;

Th* me()
{
    if (mainThread) return nullptr;
    if (not self.th)
    {
        std::lock_guard<std::mutex> g(sm);
        for (auto& t : threads) if (t->st != Th::gone && pthread_equal(t->id, pthread_self())) self.th = t.get();
    }
    return self.th;
}
void pause(Th& t, Th::St st)
{
    std::unique_lock<std::mutex> g(sm);
    t.st = st;
    scv.notify_all();
    scv.wait(g, [&] { return t.go; });
    t.go = false;
    t.st = Th::running;
}
void grant(Th& t)
{
    std::unique_lock<std::mutex> g(sm);
    if (t.st != Th::waiting && t.st != Th::sleeping) return;
    t.go = true;
    t.st = Th::running;
    scv.notify_all();
    scv.wait(g, [&] { return t.st != Th::running; });
}
void allStarted()
{
    std::unique_lock<std::mutex> g(sm);
    scv.wait(g, [] { for (auto& t : threads) if (t->st == Th::running) return false; return true; });
}

void drainFd(int fd) { std::uint64_t u; pollfd p{fd, POLLIN, 0}; if (poll(&p, 1, 0) == 1) (void)!read(fd, &u, sizeof u); }
void fireFd(int fd) { std::uint64_t u = 1; (void)!write(fd, &u, sizeof u); }

// ------------------------------------------------------------------ addresses
constexpr std::uint32_t localhost = 127u << 24 | 1;
std::uint32_t myAddr()
{
    unsigned const p = getpid();
    return 127u << 24 | (128 + (p >> 14) % 100) << 16 | ((p >> 7) & 127) << 9 | (128 | (p & 127));
}
sockaddr_in sockAddr(std::uint32_t a, unsigned port)
{
    sockaddr_in s{};
    s.sin_family = AF_INET;
    s.sin_port = htons(port);
    s.sin_addr.s_addr = htonl(a);
    return s;
}
std::map<int, std::pair<std::uint32_t, unsigned>> bound;     // fd -> address the application asked for
std::vector<std::string> wireEv;                             // what happened between the application's Modbus client and server
int tapLis = -1;
unsigned tapPort = 0;
bool appListens(std::uint32_t a, unsigned port)
{
    for (auto const& b : bound)
    {
        int v = 0; socklen_t l = sizeof v;
        if (getsockopt(b.first, SOL_SOCKET, SO_ACCEPTCONN, &v, &l) == 0 && v && b.second.second == port && (b.second.first == a || b.second.first == 0)) return true;
    }
    return false;
}
}

extern "C"
{
int epoll_wait(int epfd, struct epoll_event* ev, int max, int timeout)
{
    Th* t = me();
    if (t)
    {
        t->epfd = epfd;
        pause(*t, Th::waiting);
        return syscall(SYS_epoll_pwait, epfd, ev, max, 0, nullptr, 8);
    }
    return syscall(SYS_epoll_pwait, epfd, ev, max, timeout, nullptr, 8);
}
int epoll_pwait(int epfd, struct epoll_event* ev, int max, int timeout, const sigset_t*) { return epoll_wait(epfd, ev, max, timeout); }
static int vsleep(long long ns)
{
    if (Th* t = me(); t && ns > 0)
    {
        t->until = nowNs + ns;
        pause(*t, Th::sleeping);
    }
    return 0;
}
int nanosleep(const struct timespec* r, struct timespec*) { return vsleep(r->tv_sec * 1000000000LL + r->tv_nsec); }
int clock_nanosleep(clockid_t, int flags, const struct timespec* r, struct timespec*)
{
    long long const ns = r->tv_sec * 1000000000LL + r->tv_nsec;
    return vsleep(flags & TIMER_ABSTIME ? ns - nowNs : ns);
}
int usleep(useconds_t u) { return vsleep(u * 1000LL); }
int timerfd_create(int, int flags)
{
    std::lock_guard<std::recursive_mutex> g(gm);
    int const fd = eventfd(0, (flags & TFD_NONBLOCK) ? EFD_NONBLOCK : 0);
    if (fd >= 0) vtimers[fd] = {};
    return fd;
}
int timerfd_settime(int fd, int flags, const struct itimerspec* nv, struct itimerspec*)
{
    std::lock_guard<std::recursive_mutex> g(gm);
    auto it = vtimers.find(fd);
    if (it == vtimers.end()) { errno = fd < 0 ? EBADF : EINVAL; return -1; }
    auto bad = [](timespec const& t) { return t.tv_sec < 0 || t.tv_nsec < 0 || t.tv_nsec >= 1000000000L; };
    if (bad(nv->it_value) || bad(nv->it_interval)) { errno = EINVAL; return -1; }
    drainFd(fd);
    auto& t = it->second;
    t = {};
    if (nv->it_value.tv_sec == 0 && nv->it_value.tv_nsec == 0) return 0;
    t.armed = true;
    t.dl = nv->it_value.tv_sec * 1000000000LL + nv->it_value.tv_nsec + ((flags & TFD_TIMER_ABSTIME) ? 0 : nowNs);
    t.interval = nv->it_interval.tv_sec * 1000000000LL + nv->it_interval.tv_nsec;
    t.order = ++timerOrder;
    if (t.dl <= nowNs) { t.armed = false; fireFd(fd); }
    return 0;
}
int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (mainThread || (c != CLOCK_MONOTONIC && c != CLOCK_MONOTONIC_RAW && c != CLOCK_MONOTONIC_COARSE && c != CLOCK_BOOTTIME))
        return syscall(SYS_clock_gettime, c, ts);
    ts->tv_sec = nowNs / 1000000000LL;
    ts->tv_nsec = nowNs % 1000000000LL;
    return 0;
}
int close(int fd)
{
    std::lock_guard<std::recursive_mutex> g(gm);
    vtimers.erase(fd);
    bound.erase(fd);
    return syscall(SYS_close, fd);
}
int bind(int fd, const struct sockaddr* a, socklen_t l)
{
    auto const* in = reinterpret_cast<sockaddr_in const*>(a);
    if (a->sa_family != AF_INET) { errno = EAFNOSUPPORT; return -1; }
    auto const s = sockAddr(myAddr(), ntohs(in->sin_port));
    int const r = syscall(SYS_bind, fd, &s, sizeof s);
    if (r == 0)
    {
        std::lock_guard<std::recursive_mutex> g(gm);
        bound[fd] = {ntohl(in->sin_addr.s_addr), ntohs(in->sin_port)};
    }
    return r;
}
int connect(int fd, const struct sockaddr* a, socklen_t l)
{
    if (mainThread) return syscall(SYS_connect, fd, a, l);
    std::lock_guard<std::recursive_mutex> g(gm);
    auto const* in = reinterpret_cast<sockaddr_in const*>(a);
    if (a->sa_family != AF_INET) { errno = EAFNOSUPPORT; return -1; }
    unsigned const port = ntohs(in->sin_port);
    bool const there = appListens(ntohl(in->sin_addr.s_addr), port);
    wireEv.push_back(vj::O().str("e", there ? "conn" : "ref").raw("b", "[]").done());
    auto const s = there ? sockAddr(myAddr(), tapPort) : sockAddr(myAddr(), 1);
    return syscall(SYS_connect, fd, &s, sizeof s);
}
int pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t* c)
{
    if (cpusLeft >= 0 && cpusLeft-- == 0) return EINVAL;      // this machine has no such cpu
    std::lock_guard<std::mutex> g(sm);
    for (auto& x : threads) if (pthread_equal(x->id, t)) x->cpus = *c;
    return 0;
}
int pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t* c)
{
    CPU_ZERO(c);
    std::lock_guard<std::mutex> g(sm);
    for (auto& x : threads) if (pthread_equal(x->id, t)) *c = x->cpus;
    return 0;
}
struct Start { void* (*f)(void*); void* a; Th* th; };
static void* begin(void* p)
{
    auto s = *static_cast<Start*>(p);
    delete static_cast<Start*>(p);
    {
        std::lock_guard<std::mutex> g(sm);
        s.th->id = pthread_self();
    }
    self.th = s.th;
    return s.f(s.a);
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg)
{
    static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    Th* th;
    {
        std::lock_guard<std::mutex> g(sm);
        threads.push_back(std::make_unique<Th>());
        th = threads.back().get();
    }
    int const rc = r(t, a, begin, new Start{f, arg, th});
    std::lock_guard<std::mutex> g(sm);
    if (rc != 0) th->st = Th::gone; else th->id = *t;
    return rc;
}
int pthread_join(pthread_t t, void** r)
{
    static auto f = real<int (*)(pthread_t, void**)>("pthread_join");
    if (mainThread)
    {
        for (int n = 0;; ++n)
        {
            allStarted();
            bool open = false;
            for (auto& x : threads) if (x->st != Th::gone && pthread_equal(x->id, t)) open = true;
            if (not open) break;
            if (n > 2000) { std::cerr << "SUMMARY: a thread does not end\n"; _exit(78); }
            for (auto& x : threads) grant(*x);
        }
    }
    return f(t, r);
}
}

namespace
{
std::uint32_t le4(Bytes const& b, std::size_t p) { return std::uint32_t(b[p]) | std::uint32_t(b[p + 1]) << 8 | std::uint32_t(b[p + 2]) << 16 | std::uint32_t(b[p + 3]) << 24; }
// a reader of what the OPC UA server sent, only to let the script answer with the ids the server chose
struct Reader
{
    Bytes const& b;
    std::size_t p;
    bool ok = true;
    bool need(std::size_t n) { if (p + n > b.size()) ok = false; return ok; }
    std::uint32_t u32() { if (not need(4)) return 0; auto v = le4(b, p); p += 4; return v; }
    std::uint8_t u8() { if (not need(1)) return 0; return b[p++]; }
    void skip(std::size_t n) { if (need(n)) p += n; }
    void str() { auto n = u32(); if (n != 0xffffffffu) skip(n); }
    std::uint32_t node() { auto k = u8(); if (k == 0) return u8(); if (k == 1) { u8(); std::uint32_t l = u8(); return l | std::uint32_t(u8()) << 8; } if (k == 2) { skip(2); return u32(); } ok = false; return 0; }
    void rspHdr() { skip(8 + 4 + 4); if (u8() != 0) ok = false; auto n = u32(); if (n != 0xffffffffu && n != 0) ok = false; node(); if (u8() != 0) ok = false; }
};
struct Ids { std::uint32_t ch = 0, tok = 0; bool known = false; std::vector<std::uint32_t> sids; };

// a message no component knows
struct Probe : app::reactor::MsgInterface
{
    app::reactor::ComponentId comp;
    explicit Probe(app::reactor::ComponentId c) : comp(c) {}
    app::reactor::MsgId getMsgId() const override { return 60001; }
    app::reactor::ComponentId getCompId() const override { return comp; }
    std::size_t size() const override { return sizeof(*this); }
};

struct Run
{
    std::map<int, std::size_t> who;                // 1: Modbus, 2: OPC UA, 3: controller -> thread; empty if they share threads otherwise
    int threadOf(app::reactor::ComponentId c)
    {
        Probe const p(c);
        manager->send(p);
        int r = -1;
        for (std::size_t i = 0; i < threads.size(); ++i)
        {
            pollfd f{threads[i]->epfd, POLLIN, 0};
            if (threads[i]->st == Th::waiting && poll(&f, 1, 0) == 1) { r = i; grant(*threads[i]); }
        }
        return r;
    }
    void roles()
    {
        who.clear();
        int const m = threadOf(app::CompIds::compModbus), t = threadOf(app::CompIds::compUaTransport), s = threadOf(app::CompIds::compUaSecChannel),
                  v = threadOf(app::CompIds::compUaService), c = threadOf(app::CompIds::compController);
        if (m < 0 || t < 0 || c < 0 || t != s || t != v || m == t || m == c || t == c) return;
        who = {{1, m}, {2, t}, {3, c}};
    }
    std::unique_ptr<app::reactor::ReactorManager> manager;
    unsigned long long rnd = 1;
    int baseFds = 0;
    struct P { int fd = -1; bool eof = false; };
    std::map<int, P> peers;
    std::map<long long, Ids> told;
    struct Tap { int a = -1, b = -1; };
    std::vector<Tap> taps;
    std::vector<std::string> wire;
    std::vector<std::string> tx, eof;

    static int countFds()
    {
        int n = 0;
        if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); }
        return n;
    }
    int ownFds()
    {
        int own = 0;
        for (auto& p : peers) own += p.second.fd >= 0;
        for (auto& t : taps) own += (t.a >= 0) + (t.b >= 0);
        return own;
    }
    static void prompt(int fd)
    {
        int const one = 1;
        setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
    }
    unsigned pick(unsigned n) { rnd = rnd * 6364136223846793005ULL + 1442695040888963407ULL; return (rnd >> 33) % n; }

    // ---- the network between the Modbus client and server of the application
    Bytes dirBuf;
    std::string dir;
    void flow(char const* d, Bytes const& b)
    {
        if (dir != d) flush();
        dir = d;
        dirBuf.insert(dirBuf.end(), b.begin(), b.end());
    }
    void flush()
    {
        if (dir.size()) wire.push_back(vj::O().str("e", dir).raw("b", vj::bytes(dirBuf)).done());
        dir.clear(); dirBuf.clear();
        std::lock_guard<std::recursive_mutex> g(gm);
        for (auto& e : wireEv) wire.push_back(e);
        wireEv.clear();
    }
    void order() { bool any; { std::lock_guard<std::recursive_mutex> g(gm); any = not wireEv.empty(); } if (any) flush(); }
    static int dialTo(unsigned port)
    {
        int const fd = syscall(SYS_socket, AF_INET, SOCK_STREAM, 0);
        auto const s = sockAddr(myAddr(), port);
        if (syscall(SYS_connect, fd, &s, sizeof s) != 0) { syscall(SYS_close, fd); return -1; }
        syscall(SYS_fcntl, fd, F_SETFL, O_NONBLOCK);
        prompt(fd);
        return fd;
    }
    void drop(Tap& t)
    {
        if (t.a >= 0) syscall(SYS_close, t.a);
        if (t.b >= 0) syscall(SYS_close, t.b);
        t.a = t.b = -1;
    }
    bool pump(Tap& t, int from, int to, char const* d)
    {
        Bytes b(8192);
        auto const n = recv(from, b.data(), b.size(), MSG_DONTWAIT);
        if (n > 0)
        {
            b.resize(n);
            flow(d, b);
            (void)!::send(to, b.data(), b.size(), MSG_NOSIGNAL);
            prompt(from);
            return true;
        }
        if (n < 0 && (errno == EAGAIN || errno == EINTR)) return false;
        flush();
        wire.push_back(vj::O().str("e", "end").raw("b", "[]").done());
        drop(t);
        return true;
    }
    void net()
    {
        order();
        pollfd p{tapLis, POLLIN, 0};
        if (poll(&p, 1, 0) == 1)
        {
            int const a = syscall(SYS_accept4, tapLis, nullptr, nullptr, SOCK_NONBLOCK);
            if (a >= 0)
            {
                prompt(a);
                int const b = dialTo(mbPort);
                if (b < 0) syscall(SYS_close, a);
                else taps.push_back({a, b});
            }
        }
        for (auto& t : taps)
        {
            if (t.a >= 0) pump(t, t.a, t.b, "q");
            if (t.b >= 0) pump(t, t.b, t.a, "a");
        }
        taps.erase(std::remove_if(taps.begin(), taps.end(), [](Tap const& t) { return t.a < 0; }), taps.end());
    }
    static constexpr unsigned uaPort = 4369, mbPort = 12145;

    // ---- scheduling
    void fds(std::vector<pollfd>& f, std::vector<int>& who)
    {
        f.clear(); who.clear();
        std::lock_guard<std::mutex> g(sm);
        for (std::size_t i = 0; i < threads.size(); ++i)
            if (threads[i]->st == Th::waiting) { f.push_back({threads[i]->epfd, POLLIN, 0}); who.push_back(i); }
        f.push_back({tapLis, POLLIN, 0}); who.push_back(-1);
        for (auto& t : taps) { f.push_back({t.a, POLLIN, 0}); who.push_back(-1); f.push_back({t.b, POLLIN, 0}); who.push_back(-1); }
    }
    bool stepOne(int waitMs)
    {
        std::vector<pollfd> f;
        std::vector<int> who;
        fds(f, who);
        std::vector<int> ready;
        for (std::size_t i = 0; i < threads.size(); ++i)
            if (threads[i]->st == Th::sleeping && threads[i]->until <= nowNs) ready.push_back(i);
        if (poll(f.data(), f.size(), ready.empty() ? waitMs : 0) > 0)
            for (std::size_t i = 0; i < f.size(); ++i)
                if (f[i].revents && std::find(ready.begin(), ready.end(), who[i]) == ready.end()) ready.push_back(who[i]);
        if (ready.empty()) return false;
        int const c = ready[pick(ready.size())];
        if (c < 0) net(); else grant(*threads[c]);
        return true;
    }
    bool inFlight()          // something sent has not yet arrived
    {
        int v = 0;
        auto busy = [&](int fd) { return ioctl(fd, TIOCOUTQ, &v) == 0 && v > 0; };
        for (auto& p : peers) if (p.second.fd >= 0 && not p.second.eof && busy(p.second.fd)) return true;
        for (auto& t : taps) if (busy(t.a) || busy(t.b)) return true;
        return false;
    }
    void settle(int ms)
    {
        for (int n = 0;; ++n)
        {
            if (n > 20000) { std::cerr << "SUMMARY: the application does not come to rest\n"; _exit(77); }
            if (stepOne(ms)) continue;
            int k = 0;
            bool more = false;
            while (inFlight() && k++ < 200) if (stepOne(1)) { more = true; break; }
            if (not more) return;
        }
    }
    void advance(long long ns)
    {
        long long const to = nowNs + ns;
        settle(1);
        for (;;)
        {
            long long dl = to + 1;
            {
                std::lock_guard<std::recursive_mutex> g(gm);
                for (auto& e : vtimers) if (e.second.armed) dl = std::min(dl, e.second.dl);
            }
            for (auto& t : threads) if (t->st == Th::sleeping) dl = std::min(dl, t->until);
            if (dl > to) break;
            nowNs = std::max(nowNs, dl);
            {
                std::lock_guard<std::recursive_mutex> g(gm);
                std::vector<std::pair<unsigned long, int>> due;
                for (auto& e : vtimers) if (e.second.armed && e.second.dl <= nowNs) due.push_back({e.second.order, e.first});
                std::sort(due.begin(), due.end());
                for (auto& d : due)
                {
                    auto& t = vtimers[d.second];
                    if (t.interval) { t.dl += t.interval; t.order = ++timerOrder; } else t.armed = false;
                    fireFd(d.second);
                }
            }
            settle(1);
        }
        nowNs = to;
        settle(4);
    }

    // ---- clients of the application
    static bool opnIds(Bytes const& b, std::size_t p, std::uint32_t& ch, std::uint32_t& tok)
    {
        Reader r{b, p};
        r.str(); r.str(); r.str(); r.skip(8); r.node(); r.rspHdr(); r.skip(4);
        ch = r.u32(); tok = r.u32();
        return r.ok;
    }
    void learn(int k, Bytes const& b)
    {
        std::size_t p = 0;
        while (p + 12 <= b.size())
        {
            std::size_t const n = le4(b, p + 4);
            if (n < 12 || p + n > b.size()) break;
            Bytes f(b.begin() + p, b.begin() + p + n);
            auto& ids = told[k];
            if (f[0] == 'O') { std::uint32_t ch, tok; if (opnIds(f, 12, ch, tok)) { ids.ch = ch; ids.tok = tok; ids.known = true; } }
            if (f[0] == 'M')
            {
                Reader r{f, 24};
                if (r.node() == 464) { r.rspHdr(); r.node(); auto a = r.node(); if (r.ok) ids.sids.push_back(a); }
            }
            p += n;
        }
    }
    void subst(Bytes& d, Val const& op)
    {
        if (not op.has("sub")) return;
        for (auto const& x : op["sub"].arr)
        {
            auto const& a = x.arr;
            std::size_t off = a[0].num, len = a[1].num;
            std::string const kind = a[2].str;
            long long const k = a[3].num;
            std::uint32_t val = 0;
            bool have = false;
            if (kind == "ch" && told[k].known) { val = told[k].ch; have = true; }
            if (kind == "tok" && told[k].known) { val = told[k].tok; have = true; }
            if (kind == "sid" && not told[k].sids.empty() && told[k].sids.back() < 256) { val = told[k].sids.back(); have = true; }
            if (kind == "sid0" && not told[k].sids.empty() && told[k].sids.front() < 256) { val = told[k].sids.front(); have = true; }
            if (not have || off + len > d.size()) continue;
            if (a.size() > 4) val ^= static_cast<std::uint32_t>(a[4].num);
            for (std::size_t i = 0; i < len; ++i) d[off + i] = std::uint8_t(val >> (8 * i));
        }
    }
    void look()
    {
        for (auto& e : peers)
        {
            P& p = e.second;
            if (p.fd < 0 || p.eof) continue;
            Bytes b(70000), all;
            for (;;)
            {
                auto const n = recv(p.fd, b.data(), b.size(), MSG_DONTWAIT);
                if (n > 0) { all.insert(all.end(), b.begin(), b.begin() + n); continue; }
                if (n == 0 || (errno != EAGAIN && errno != EINTR)) { p.eof = true; eof.push_back(vj::n(e.first)); }
                break;
            }
            prompt(p.fd);
            if (all.size())
            {
                learn(e.first, all);
                tx.push_back(vj::O().num("k", e.first).raw("d", vj::bytes(all)).done());
            }
        }
    }
    void hangUp(int k, bool reset)
    {
        auto it = peers.find(k);
        if (it == peers.end() || it->second.fd < 0) return;
        if (reset) { linger lg{1, 0}; setsockopt(it->second.fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); }
        syscall(SYS_close, it->second.fd);
        peers.erase(it);
    }

    int up(int cpus)
    {
        threads.clear();
        vtimers.clear(); bound.clear(); wireEv.clear();
        baseFds = countFds() - ownFds();
        manager = std::make_unique<app::reactor::ReactorManager>();
        app::Deployer deployer;
        deployer.apply(*manager, app::DeploymentType::cpu3);
        cpusLeft = cpus;
        try
        {
            manager->start();
        }
        catch (std::exception const&)
        {
            bool const told = cpusLeft < 0 && cpus >= 0;
            cpusLeft = -1;
            manager.reset();
            return told ? 1 : 2;
        }
        cpusLeft = -1;
        allStarted();
        settle(1);
        roles();
        return 0;
    }
    void down()
    {
        if (not manager) return;
        manager->stop();
        manager.reset();
    }

    std::string step(Val const& op)
    {
        std::string const o = op.s("op");
        rnd = op.i("seed", 1) * 2654435761ULL + 12345;
        for (int i = 0; i < 3; ++i) pick(2);
        Bytes rx;
        int r = 0, skip = 0;
        bool rest = true;
        std::vector<std::string> ran;                 // the threads that took a turn, where that was prescribed
        if (o == "boot") { down(); r = up(op.i("nocpu", -1)); }
        else if (not manager) skip = 1;
        else if (o == "start" || o == "stop")
        {
            if (o == "start") { app::MsgControllerStartReq m; manager->send(m); }
            else { app::MsgControllerStopReq m; manager->send(m); }
            if (op.has("g") && not who.empty())
            {
                rest = false;
                for (auto const& x : op["g"].arr)
                {
                    auto const w = who.find(x.num);
                    if (w == who.end()) { net(); ran.push_back(vj::n(9)); continue; }
                    std::size_t const i = w->second;
                    pollfd p{threads[i]->epfd, POLLIN, 0};
                    if (threads[i]->st == Th::waiting && poll(&p, 1, 0) == 1) { grant(*threads[i]); ran.push_back(vj::n(x.num)); }
                }
            }
        }
        else if (o == "adv") advance(op.i("n") * 100000000LL);
        else if (o == "cut") { if (taps.empty()) skip = 1; else { flush(); for (auto& t : taps) drop(t); taps.clear(); } }
        else if (o == "dial")
        {
            int const fd = dialTo(op.s("to") == "ua" ? uaPort : mbPort);
            if (fd < 0) r = 1; else peers[op.i("k")] = {fd, false};
        }
        else if (o == "d" || o == "eof" || o == "rst")
        {
            auto it = peers.find(op.i("k"));
            if (it == peers.end() || it->second.fd < 0 || it->second.eof) skip = 1;
            else if (o == "d")
            {
                rx = op.bytes("d");
                subst(rx, op);
                (void)!::send(it->second.fd, rx.data(), rx.size(), MSG_NOSIGNAL);
            }
            else hangUp(op.i("k"), o == "rst");
        }
        else if (o == "halt")
        {
            down();
            for (auto& t : taps) drop(t);
            taps.clear();
            rest = false;
        }
        else throw std::runtime_error("unknown op " + o);
        if (rest) settle(4);
        if (o == "halt") ::poll(nullptr, 0, 3);
        look();
        order(); flush();
        std::vector<std::string> lis;
        {
            std::lock_guard<std::recursive_mutex> g(gm);
            std::set<std::pair<std::uint32_t, unsigned>> s;
            for (auto const& b : bound) if (appListens(b.second.first, b.second.second)) s.insert(b.second);
            for (auto const& b : s) lis.push_back(vj::arr({vj::n(b.first >> 24), vj::n(b.first >> 16 & 255), vj::n(b.first >> 8 & 255), vj::n(b.first & 255), vj::n(b.second >> 8), vj::n(b.second & 255)}));
        }
        int const own = ownFds();
        Bytes rv;
        if (o == "boot")
        {
            ::srand(0);
            for (int i = 0; i < 2048; ++i) rv.push_back(std::uint8_t(::rand() % 65535));
        }
        auto res = vj::O().raw("rv", vj::bytes(rv)).num("skip", skip).num("r", r).raw("rx", vj::bytes(rx)).raw("tx", vj::arr(tx)).raw("eof", vj::arr(eof)).raw("lis", vj::arr(lis)).raw("wire", vj::arr(wire))
            .raw("ran", vj::arr(ran)).num("free", rest).num("fds", manager ? 0 : countFds() - baseFds - own).done();
        tx.clear(); eof.clear(); wire.clear();
        return res;
    }
    ~Run()
    {
        down();
        for (auto& p : peers) if (p.second.fd >= 0) syscall(SYS_close, p.second.fd);
        for (auto& t : taps) drop(t);
    }
};
}

int main()
{
    mainThread = true;
    vlog::start();
    tapLis = syscall(SYS_socket, AF_INET, SOCK_STREAM, 0);
    auto s = sockAddr(myAddr(), 0);
    socklen_t l = sizeof s;
    if (syscall(SYS_bind, tapLis, &s, sizeof s) || listen(tapLis, 16) || getsockname(tapLis, reinterpret_cast<sockaddr*>(&s), &l)) { std::cerr << "SUMMARY: harness listen\n"; return 1; }
    tapPort = ntohs(s.sin_port);
    std::string line;
    while (std::getline(std::cin, line))
    {
        if (line.empty()) continue;
        Val v = vj::parse(line);
        long long const id = v.i("id");
        vlog::script(id);
        std::cout << "{\"s\":" << id << ",\"n\":0,\"i\":{\"op\":\"reset\"},\"o\":{}}\n" << std::flush;
        alarm(60);
        nowNs = 5000LL * 1000000000LL;
        {
            Run r;
            long long n = 0;
            for (auto const& op : v["ops"].arr)
            {
                std::string const o = r.step(op);
                std::cout << "{\"s\":" << id << ",\"n\":" << ++n << ",\"o\":" << o << "}\n" << std::flush;
            }
        }
        std::cout << "{\"s\":" << id << ",\"end\":1}\n" << std::flush;
    }
    return 0;
}
