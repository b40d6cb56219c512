// Conformance driver of the OPC UA protocol library: client and server connection objects and the server's secure channel
// object on one environment, with an owner that records what it is told and reacts as the script says.
#include "fake.hpp"
#include "clock.hpp"
#include "ClientConnection.hpp"
#include "ServerConnection.hpp"
#include "OpcUaServerSecureChannel.hpp"
#include "OpcUaClientSecureChannel.hpp"

using namespace app;
using vj::Val;
using Bytes = std::vector<std::uint8_t>;

namespace
{
unsigned ipOf(long long a) { return 0x7F000000u + static_cast<unsigned>(a) * 0x8101u; }
unsigned portOf(long long a) { return 0x1111u + static_cast<unsigned>(a) * 0x90u; }
long long keyIdx(long long a) { return static_cast<long long>(ipOf(a)) * 65536 + portOf(a); }
std::uint32_t le4(Bytes const& b, std::size_t p) { return std::uint32_t(b[p]) | std::uint32_t(b[p + 1]) << 8 | std::uint32_t(b[p + 2]) << 16 | std::uint32_t(b[p + 3]) << 24; }

struct Reader
{
    Bytes const& b;
    std::size_t p;
    bool ok = true;
    bool need(std::size_t n) { if (p + n > b.size()) ok = false; return ok; }
    std::uint32_t u32() { if (not need(4)) return 0; auto v = le4(b, p); p += 4; return v; }
    std::uint8_t u8() { if (not need(1)) return 0; return b[p++]; }
    void skip(std::size_t n) { if (need(n)) p += n; }
    void str() { auto n = u32(); if (n != 0xffffffffu) skip(n); }
    void node() { auto k = u8(); if (k == 0) u8(); else if (k == 1) skip(3); else ok = false; }
    void rspHdr() { skip(8 + 4 + 4); if (u8() != 0) ok = false; auto n = u32(); if (n != 0xffffffffu && n != 0) ok = false; node(); if (u8() != 0) ok = false; }
};

void fill(ua::OpcUaSduBuffer& b, Bytes const& d) { for (auto x : d) b.write(x); }

struct Obj : ua::OpcUaConnectionHandler
{
    std::unique_ptr<ua::ClientConnection> cc;
    std::unique_ptr<ua::ServerConnection> sc;
    std::unique_ptr<ua::OpcUaServerSecureChannel> ch;
    std::unique_ptr<ua::OpcUaClientSecureChannel> kc;
    vf::FakeLink* link = nullptr;
    std::vector<std::string> ev;
    std::string on, act;
    Bytes actData;
    std::uint32_t chan = 0, tok = 0, oldTok = 0;
    std::uint32_t rid = 0, handle = 0;
    bool known = false;

    ua::OpcUaConnection* conn() { return cc ? static_cast<ua::OpcUaConnection*>(cc.get()) : static_cast<ua::OpcUaConnection*>(sc.get()); }
    Bytes rx()
    {
        ua::OpcUaSduBuffer& r = ch ? ch->getRxBuffer() : kc ? kc->getRxBuffer() : conn()->getRxBuffer();
        return r.begin() <= r.end() ? Bytes(r.begin(), r.end()) : Bytes{};
    }
    void tell(std::string const& e, Bytes const& d)
    {
        std::string s = "[\"" + e + "\",";
        ev.push_back(s + vj::bytes(d) + "]");
        if (on != e) return;
        on.clear();
        if (act == "close") close();
        else send(actData);
    }
    void close() { if (cc) cc->close(); else if (sc) sc->close(); else if (kc) kc->close(); else ch->close(); }
    void send(Bytes const& d)
    {
        ua::OpcUaSduBuffer b;
        fill(b, d);
        if (ch) ch->send(b); else if (kc) kc->send(b); else conn()->send(b);
    }
    void onConnectionConnectedEvent() override { tell("connected", {}); }
    void onConnectionDataReceivedEvent() override { tell("data", rx()); }
    void onConnectionErrorEvent() override { tell("error", {}); }
    void onConnectionClosedEvent() override { tell("closed", {}); }
    void onChannel(ua::OpcUaSecureChannelEvent const& e)
    {
        switch (e.type)
        {
        case ua::OpcUaSecureChannelEvent::established: break;   // left open whether it is told
        case ua::OpcUaSecureChannelEvent::request: tell("request", rx()); break;
        case ua::OpcUaSecureChannelEvent::closed: tell("closed", {}); break;
        case ua::OpcUaSecureChannelEvent::error: tell("error", {}); break;
        }
    }
};

struct Run
{
    vf::World w;
    std::vector<std::unique_ptr<Obj>> ob;
    Run() { vclk::reset(); }

    void learn(Obj& x, Bytes const& f)
    {
        if (f.size() < 12 || f[0] != 'O') return;
        Reader r{f, 12};
        if (x.kc)
        {
            r.str(); r.str(); r.str(); r.skip(4);
            auto const rid = r.u32();
            r.node(); r.node(); r.skip(8);
            auto const h = r.u32();
            if (r.ok) { x.rid = rid; x.handle = h; x.known = true; }
            return;
        }
        r.str(); r.str(); r.str(); r.skip(8); r.node(); r.rspHdr(); r.skip(4);
        auto const c = r.u32();
        auto const t = r.u32();
        if (r.ok) { x.oldTok = x.known ? x.tok : t ^ 1; x.chan = c; x.tok = t; x.known = true; }
    }
    std::string step(Val const& op)
    {
        w.clearStep();
        Bytes rx;
        long long exc = 0;
        std::string const o = op.s("op");
        if (o == "new")
        {
            ob.push_back(std::make_unique<Obj>());
            Obj& x = *ob.back();
            std::string const k = op.s("kind");
            if (k == "client") x.cc = std::make_unique<ua::ClientConnection>(w, x);
            else if (k == "server") x.sc = std::make_unique<ua::ServerConnection>(w, x);
            else if (k == "cchan")
            {
                x.kc = std::make_unique<ua::OpcUaClientSecureChannel>(EntityId(ob.size()), w);
                x.kc->setHandler([&x](ua::OpcUaSecureChannelEvent const& e){ x.onChannel(e); });
            }
            else
            {
                x.ch = std::make_unique<ua::OpcUaServerSecureChannel>(EntityId(ob.size()), w);
                x.ch->setHandler([&x](ua::OpcUaSecureChannelEvent const& e){ x.onChannel(e); });
            }
        }
        else if (o == "clk") vclk::set(op.bytes("s"), op.i("us"));
        else if (o == "tick") { w.advance(op.i("n") * 100000); vclk::pass(op.i("n") * 100000); }
        else
        {
            Obj& x = *ob.at(op.i("k"));
            auto inUse = [&]{ return x.link && x.link->st != vf::FakeLink::St::idle; };
            auto up = [&]{ return x.link && x.link->st == vf::FakeLink::St::up; };
            std::string const f = op.has("f") ? op.s("f") : "";
            if (o == "con" && not x.ch)
            {
                auto const before = w.links.size();
                long long const key = keyIdx(op.i("a"));
                if (f == "link") w.failLink = true;
                if (f == "timer") w.failTimer = true;
                if (f == "conn") w.failConnect.insert(key);
                auto a = vf::mkAddr(ipOf(op.i("a")), portOf(op.i("a")));
                w.guarded([&]{ if (x.cc) x.cc->connect(a); else if (x.kc) x.kc->open(a); else x.sc->connect(a); });
                w.failLink = w.failTimer = false;
                w.failConnect.clear();
                if (w.links.size() > before && w.links.back()->st != vf::FakeLink::St::idle) x.link = w.links.back().get();
            }
            else if (o == "acc" && not x.cc && not x.kc)
            {
                auto l = w.createLink({});
                auto* fl = w.links.back().get();
                fl->accepted = true;
                fl->peer = w.nextConn++;
                fl->st = vf::FakeLink::St::up;
                if (f == "timer") w.failTimer = true;
                w.guarded([&]{ if (x.sc) x.sc->accept(l); else x.ch->open(l); });
                w.failTimer = false;
                if (not l) x.link = fl;
            }
            else if (o == "cls") w.guarded([&]{ x.close(); });
            else if (o == "re") { x.on = op.s("on"); x.act = op.s("do"); x.actData = op.bytes("d"); }
            else if (o == "snd") w.guarded([&]{ x.send(op.bytes("d")); });
            else if (o == "lc") { if (inUse() && not up()) { x.link->st = vf::FakeLink::St::up; w.linkEvent(*x.link, reactor::LinkEvent::connected); } }
            else if (o == "le") { if (inUse()) { auto* l = x.link; l->close(); w.linkEvent(*l, reactor::LinkEvent::error); } }
            else if (o == "eof") { if (up()) { x.link->eof = true; w.linkEvent(*x.link, reactor::LinkEvent::data); } }
            else if (o == "sf") { if (inUse()) x.link->sendFails = true; }
            else if (o == "d")
            {
                if (up())
                {
                    rx = op.bytes("d");
                    if (op.has("sub"))
                        for (auto const& s : op["sub"].arr)
                        {
                            auto const& a = s.arr;
                            std::size_t const off = a[0].num;
                            if (not x.known || off + 4 > rx.size()) continue;
                            std::uint32_t v = a[1].str == "rid" ? x.rid : a[1].str == "h" ? x.handle : a[1].str == "ch" ? x.chan : a[1].str == "old" ? x.oldTok : x.tok;
                            if (a.size() > 2) v ^= static_cast<std::uint32_t>(a[2].num);
                            for (int i = 0; i < 4; ++i) rx[off + i] = std::uint8_t(v >> (8 * i));
                        }
                    for (auto b : rx) x.link->pending.push_back(b);
                    w.linkEvent(*x.link, reactor::LinkEvent::data);
                }
            }
            else if (o != "con" && o != "acc") throw std::runtime_error("unknown op " + o);
        }
        std::vector<std::string> out, att;
        for (auto& p : ob)
        {
            Obj& x = *p;
            Bytes tx;
            if (x.link)
            {
                auto& m = x.link->accepted ? w.txConn : w.txTo;
                auto it = m.find(x.link->peer);
                if (it != m.end()) tx = it->second;
            }
            learn(x, tx);
            int const lk = not x.link || x.link->st == vf::FakeLink::St::idle ? 0 : x.link->st == vf::FakeLink::St::up ? 2 : 1;
            out.push_back(vj::O().raw("ev", vj::arr(x.ev)).raw("tx", vj::bytes(tx)).num("lk", lk).done());
            x.ev.clear();
        }
        for (auto const& e : w.attempts)
            for (int i = 0; i < e.second; ++i)
                for (int a = 0; a < 8; ++a) if (e.first == keyIdx(a)) att.push_back(vj::n(a));
        return vj::O().raw("ob", vj::arr(out)).raw("att", vj::arr(att)).raw("rx", vj::bytes(rx)).raw("tod", vclk::now())
            .raw("res", vj::O().num("l", w.nLinks).num("t", w.nTimers).done()).done();
    }
};
}

int main() { return vf::mainLoop([]{ return std::make_unique<Run>(); }); }
