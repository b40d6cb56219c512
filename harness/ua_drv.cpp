// Conformance driver of the OPC UA server: the transport, secure channel and service components on one environment. The
// messages between them wait in one queue per receiver and are delivered when the script says so.
#include "fake.hpp"
#include "clock.hpp"
#include "UaTransportComponent.hpp"
#include "UaSecureChannelComponent.hpp"
#include "UaServiceComponent.hpp"
#include "UaTransport.hpp"
#include "UaSecureChannel.hpp"
#include "UaService.hpp"
#include "MsgUaAssociateSecureChannelReq.hpp"
#include "MsgUaCloseSecureChannelReq.hpp"
#include "MsgUaCloseSecureChannelRsp.hpp"
#include "MsgUaConnectionReleaseInd.hpp"
#include "MsgUaConnectionReleaseReq.hpp"
#include "MsgUaEncodedMessageReceiveInd.hpp"
#include "MsgUaEncodedMessageSendReq.hpp"
#include "MsgUaOpenSecureChannelReq.hpp"
#include "MsgUaOpenSecureChannelRsp.hpp"
#include "MsgUaSecureChannelConfigReq.hpp"
#include "MsgUaSecureChannelInitReq.hpp"
#include "MsgUaSecureChannelReleaseReq.hpp"
#include "MsgUaSecuredMessageReceiveInd.hpp"
#include "MsgUaSecuredMessageSendReq.hpp"
#include "MsgUaServiceConfigReq.hpp"
#include "MsgUaServiceInitReq.hpp"
#include "MsgUaServiceReleaseReq.hpp"
#include "MsgUaTransportConfigReq.hpp"
#include "MsgUaTransportInitReq.hpp"
#include "MsgUaTransportReleaseReq.hpp"

using namespace app;
using vj::Val;
using Bytes = std::vector<std::uint8_t>;

namespace
{
unsigned ipOf(long long a) { return 0x7F000000u + static_cast<unsigned>(a) * 0x8101u; }
unsigned portOf(long long a) { return 0x1111u + static_cast<unsigned>(a) * 0x90u; }
long long keyIdx(long long a) { return static_cast<long long>(ipOf(a)) * 65536 + portOf(a); }

Bytes be4(std::uint32_t v) { return {std::uint8_t(v >> 24), std::uint8_t(v >> 16), std::uint8_t(v >> 8), std::uint8_t(v)}; }
std::uint32_t ofBe4(Bytes const& b) { return b.size() < 4 ? 0 : (std::uint32_t(b[0]) << 24 | std::uint32_t(b[1]) << 16 | std::uint32_t(b[2]) << 8 | b[3]); }
std::uint32_t le4(Bytes const& b, std::size_t p) { return std::uint32_t(b[p]) | std::uint32_t(b[p + 1]) << 8 | std::uint32_t(b[p + 2]) << 16 | std::uint32_t(b[p + 3]) << 24; }
std::string num4(std::uint32_t v) { return vj::bytes(be4(v)); }
long long small(std::uint32_t c) { return c > 1000000 ? 999999 : c; }

// a reader of what the server sent, only to let the script answer with the ids the server chose
struct Reader
{
    Bytes const& b;
    std::size_t p;
    bool ok = true;
    bool need(std::size_t n) { if (p + n > b.size()) ok = false; return ok; }
    std::uint32_t u32() { if (not need(4)) return 0; auto v = le4(b, p); p += 4; return v; }
    std::uint8_t u8() { if (not need(1)) return 0; return b[p++]; }
    void skip(std::size_t n) { if (need(n)) p += n; }
    void str() { auto n = u32(); if (n != 0xffffffffu) skip(n); }
    std::uint32_t node() { auto k = u8(); if (k == 0) return u8(); if (k == 1) { u8(); std::uint32_t l = u8(); return l | std::uint32_t(u8()) << 8; } if (k == 2) { skip(2); return u32(); } ok = false; return 0; }
    void rspHdr() { skip(8 + 4 + 4); if (u8() != 0) ok = false; auto n = u32(); if (n != 0xffffffffu && n != 0) ok = false; node(); if (u8() != 0) ok = false; }
};

struct Run
{
    using MsgInterface = reactor::MsgInterface;
    struct Ids { std::uint32_t ch = 0, tok = 0; bool known = false; std::vector<std::uint32_t> sids; };
    vf::World w;
    std::unique_ptr<ua::transport::UaTransportComponent> t;
    std::unique_ptr<ua::securechannel::UaSecureChannelComponent> s;
    std::unique_ptr<ua::service::UaServiceComponent> v;
    std::map<std::string, std::deque<vf::Stored>> box;
    std::map<long long, Ids> told;                 // by link
    std::map<std::uint32_t, std::uint32_t> tokOf;  // by channel

    Run()
    {
        vclk::reset();
        t = std::make_unique<ua::transport::UaTransportComponent>(w, w);
        s = std::make_unique<ua::securechannel::UaSecureChannelComponent>(w, w);
        v = std::make_unique<ua::service::UaServiceComponent>(w, w);
    }
    ~Run() { v.reset(); s.reset(); t.reset(); }

    static bool opnIds(Bytes const& b, std::size_t p, std::uint32_t& ch, std::uint32_t& tok)
    {
        Reader r{b, p};
        r.str(); r.str(); r.str(); r.skip(8); r.node(); r.rspHdr(); r.skip(4);
        ch = r.u32(); tok = r.u32();
        return r.ok;
    }
    void learn()
    {
        for (auto const& e : w.txConn)
        {
            Bytes const& b = e.second;
            std::size_t p = 0;
            while (p + 12 <= b.size())
            {
                std::size_t const n = le4(b, p + 4);
                if (n < 12 || p + n > b.size()) break;
                Bytes f(b.begin() + p, b.begin() + p + n);
                auto& ids = told[e.first];
                if (f[0] == 'O') { std::uint32_t ch, tok; if (opnIds(f, 12, ch, tok)) { ids.ch = ch; ids.tok = tok; ids.known = true; } }
                if (f[0] == 'M')
                {
                    Reader r{f, 24};
                    if (r.node() == 464) { r.rspHdr(); r.node(); auto a = r.node(); if (r.ok) ids.sids.push_back(a); }
                }
                p += n;
            }
        }
        for (auto const& m : w.sent)
        {
            if (m.msg->getMsgId() != MsgIds::uaOpenSecureChannelRsp) continue;
            auto const& o = static_cast<MsgUaOpenSecureChannelRsp const&>(*m.msg);
            Bytes d(o.data, o.data + o.length);
            std::uint32_t ch, tok;
            if (opnIds(d, 0, ch, tok)) tokOf[o.secureChannelId] = tok;
        }
    }
    void subst(Bytes& d, Val const& op)
    {
        if (not op.has("sub")) return;
        for (auto const& x : op["sub"].arr)
        {
            auto const& a = x.arr;
            std::size_t off = a[0].num, len = a[1].num;
            std::string const kind = a[2].str;
            long long const k = a[3].num;
            std::uint32_t val = 0;
            bool have = false;
            if (kind == "ch" && told[k].known) { val = told[k].ch; have = true; }
            if (kind == "tok" && told[k].known) { val = told[k].tok; have = true; }
            if (kind == "sid" && not told[k].sids.empty() && told[k].sids.back() < 256) { val = told[k].sids.back(); have = true; }
            if (kind == "sid0" && not told[k].sids.empty() && told[k].sids.front() < 256) { val = told[k].sids.front(); have = true; }
            if (kind == "tokc" && tokOf.count(k)) { val = tokOf[k]; have = true; }
            if (not have || off + len > d.size()) continue;
            if (a.size() > 4) val ^= static_cast<std::uint32_t>(a[4].num);
            for (std::size_t i = 0; i < len; ++i) d[off + i] = std::uint8_t(val >> (8 * i));
        }
    }

    template <typename M>
    static std::string secured(char const* k, MsgInterface const& x)
    {
        auto const& m = static_cast<M const&>(x);
        return vj::O().str("m", k).num("c", small(m.connectionId)).raw("ch", num4(m.secureChannelId)).num("ck", m.chunkType.toUint8())
            .raw("d", vj::bytes(m.data, m.length)).done();
    }
    template <typename M>
    static std::string encoded(char const* k, MsgInterface const& x)
    {
        auto const& m = static_cast<M const&>(x);
        return vj::O().str("m", k).num("c", small(m.hdr.connectionId)).raw("ch", num4(m.hdr.secureChannelId)).raw("rid", num4(m.hdr.requestId))
            .raw("sid", num4(m.hdr.sessionId)).raw("d", vj::bytes(m.data, m.length)).done();
    }
    static std::string rec(MsgInterface const& x, std::string& q)
    {
        q = "C";
        switch (x.getMsgId())
        {
        case MsgIds::uaTransportInitRsp: return "{\"m\":\"tinit\"}";
        case MsgIds::uaTransportReleaseRsp: return "{\"m\":\"trel\"}";
        case MsgIds::uaSecureChannelInitRsp: return "{\"m\":\"sinit\"}";
        case MsgIds::uaSecureChannelReleaseRsp: return "{\"m\":\"srel\"}";
        case MsgIds::uaServiceInitRsp: return "{\"m\":\"vinit\"}";
        case MsgIds::uaServiceReleaseRsp: return "{\"m\":\"vrel\"}";
        case MsgIds::uaOpenSecureChannelReq: q = "S"; return secured<MsgUaOpenSecureChannelReq>("opn", x);
        case MsgIds::uaCloseSecureChannelReq: q = "S"; return secured<MsgUaCloseSecureChannelReq>("clo", x);
        case MsgIds::uaSecuredMessageReceiveInd: q = "S"; return secured<MsgUaSecuredMessageReceiveInd>("msg", x);
        case MsgIds::uaOpenSecureChannelRsp: q = "T"; return secured<MsgUaOpenSecureChannelRsp>("opnr", x);
        case MsgIds::uaCloseSecureChannelRsp: q = "T"; return secured<MsgUaCloseSecureChannelRsp>("clor", x);
        case MsgIds::uaSecuredMessageSendReq: q = "T"; return secured<MsgUaSecuredMessageSendReq>("send", x);
        case MsgIds::uaConnectionReleaseReq:
            q = "T";
            return vj::O().str("m", "relreq").num("c", small(static_cast<MsgUaConnectionReleaseReq const&>(x).connectionId)).done();
        case MsgIds::uaConnectionReleaseInd:
        {
            q = "S";
            auto const& m = static_cast<MsgUaConnectionReleaseInd const&>(x);
            return vj::O().str("m", "relind").num("c", small(m.connectionId)).raw("ch", num4(m.secureChannelId)).done();
        }
        case MsgIds::uaAssociateSecureChannelReq:
        {
            q = "S";
            auto const& m = static_cast<MsgUaAssociateSecureChannelReq const&>(x);
            return vj::O().str("m", "assoc").num("c", small(m.hdr.connectionId)).raw("ch", num4(m.hdr.secureChannelId)).raw("rid", num4(m.hdr.requestId))
                .raw("sid", num4(m.hdr.sessionId)).done();
        }
        case MsgIds::uaEncodedMessageSendReq: q = "S"; return encoded<MsgUaEncodedMessageSendReq>("enc", x);
        case MsgIds::uaEncodedMessageReceiveInd: q = "V"; return encoded<MsgUaEncodedMessageReceiveInd>("ind", x);
        default: return vj::O().str("m", "unknown").num("id", x.getMsgId()).done();
        }
    }
    template <typename M>
    void injSecured(Val const& m, Bytes const& d)
    {
        vf::Box<M> b(d.size());
        b->connectionId = m.i("c");
        b->secureChannelId = ofBe4(m.bytes("ch"));
        b->chunkType = UaChunkType::fromUint8(m.i("ck"));
        b->length = d.size();
        if (d.size()) std::memcpy(b->data, d.data(), d.size());
        put(*b);
    }
    template <typename M>
    static void hdr(M& b, Val const& m)
    {
        b.hdr.connectionId = m.i("c");
        b.hdr.secureChannelId = ofBe4(m.bytes("ch"));
        b.hdr.requestId = ofBe4(m.bytes("rid"));
        b.hdr.sessionId = ofBe4(m.bytes("sid"));
    }
    template <typename M>
    void injEncoded(Val const& m, Bytes const& d)
    {
        vf::Box<M> b(d.size());
        hdr(*b, m);
        b->length = d.size();
        if (d.size()) std::memcpy(b->data, d.data(), d.size());
        put(*b);
    }
    std::string dl = "{\"m\":\"none\"}";
    void put(MsgInterface const& m) { std::string q; dl = rec(m, q); w.deliver(m); }

    std::string step(Val const& op)
    {
        w.clearStep();
        long long skip = 0;
        dl = "{\"m\":\"none\"}";
        Bytes rx;
        std::string const o = op.s("op");
        auto link = [&]() -> vf::FakeLink* { auto* l = w.conn(op.i("k")); if (!l) skip = 1; return l; };
        if (o == "tinit") { MsgUaTransportInitReq m; w.deliver(m); }
        else if (o == "trel") { MsgUaTransportReleaseReq m; w.deliver(m); }
        else if (o == "tcfg") { MsgUaTransportConfigReq m; m.addr = vf::mkAddr(ipOf(op.i("a")), portOf(op.i("a"))); w.deliver(m); w.failAcceptor = false; }
        else if (o == "sinit") { MsgUaSecureChannelInitReq m; w.deliver(m); }
        else if (o == "srel") { MsgUaSecureChannelReleaseReq m; w.deliver(m); }
        else if (o == "scfg") { MsgUaSecureChannelConfigReq m; w.deliver(m); }
        else if (o == "vinit") { MsgUaServiceInitReq m; w.deliver(m); }
        else if (o == "vrel") { MsgUaServiceReleaseReq m; w.deliver(m); }
        else if (o == "vcfg") { MsgUaServiceConfigReq m; w.deliver(m); }
        else if (o == "xl") w.failLink = true;
        else if (o == "xt") w.failTimer = true;
        else if (o == "xa") w.failAcceptor = true;
        else if (o == "acc" || o == "accf")
        {
            auto* a = w.acceptorAt(keyIdx(op.i("a")));
            if (a)
            {
                a->backlog = 1;
                if (o == "accf") w.failAccept = true;
                auto h = a->handler;
                if (h) w.guarded([&]{ h(); });
                a->backlog = 0;
                w.failAccept = w.failLink = w.failTimer = false;
            }
            else skip = 1;
        }
        else if (o == "d")
        {
            if (auto* l = link())
            {
                rx = op.bytes("d");
                subst(rx, op);
                for (auto b : rx) l->pending.push_back(b);
                w.linkEvent(*l, reactor::LinkEvent::data);
            }
        }
        else if (o == "eof") { if (auto* l = link()) { l->eof = true; w.linkEvent(*l, reactor::LinkEvent::data); } }
        else if (o == "le") { if (auto* l = link()) { l->close(); w.linkEvent(*l, reactor::LinkEvent::error); } }
        else if (o == "sf") { if (auto* l = link()) l->sendFails = true; }
        else if (o == "clk") vclk::set(op.bytes("s"), op.i("us"));
        else if (o == "tick") { w.advance(op.i("n") * 100000); vclk::pass(op.i("n") * 100000); }
        else if (o == "dlv")
        {
            auto& b = box[op.s("q")];
            if (b.empty()) skip = 1;
            else
            {
                vf::Stored m = std::move(b.front());
                b.pop_front();
                put(*m.msg);
            }
        }
        else if (o == "inj")
        {
            auto const& m = op["m"];
            std::string const k = m.s("m");
            Bytes d = m.has("d") ? m.bytes("d") : Bytes{};
            subst(d, op);
            if (k == "opn") injSecured<MsgUaOpenSecureChannelReq>(m, d);
            else if (k == "clo") injSecured<MsgUaCloseSecureChannelReq>(m, d);
            else if (k == "msg") injSecured<MsgUaSecuredMessageReceiveInd>(m, d);
            else if (k == "opnr") injSecured<MsgUaOpenSecureChannelRsp>(m, d);
            else if (k == "clor") injSecured<MsgUaCloseSecureChannelRsp>(m, d);
            else if (k == "send") injSecured<MsgUaSecuredMessageSendReq>(m, d);
            else if (k == "relreq") { MsgUaConnectionReleaseReq x; x.connectionId = m.i("c"); put(x); }
            else if (k == "relind") { MsgUaConnectionReleaseInd x; x.connectionId = m.i("c"); x.secureChannelId = ofBe4(m.bytes("ch")); put(x); }
            else if (k == "assoc") { MsgUaAssociateSecureChannelReq x; hdr(x, m); put(x); }
            else if (k == "enc") injEncoded<MsgUaEncodedMessageSendReq>(m, d);
            else if (k == "ind") injEncoded<MsgUaEncodedMessageReceiveInd>(m, d);
            else throw std::runtime_error("unknown message " + k);
        }
        else throw std::runtime_error("unknown op " + o);

        learn();
        std::vector<std::string> post, tx, open, lis;
        for (auto& m : w.sent)
        {
            std::string q;
            post.push_back(rec(*m.msg, q));
            if (q != "C") box[q].push_back(std::move(m));
        }
        for (auto const& e : w.txConn) tx.push_back(vj::O().num("k", e.first).raw("d", vj::bytes(e.second)).done());
        for (auto const& l : w.links) if (l->accepted && l->st != vf::FakeLink::St::idle) open.push_back(vj::n(l->peer));
        for (auto const& a : w.acceptors) if (a->listening) for (int i = 0; i < 8; ++i) if (a->addr == keyIdx(i)) lis.push_back(vj::n(i));
        return vj::O().num("skip", skip).num("acc", w.lastAccepted).raw("rx", vj::bytes(rx)).raw("dl", dl).raw("post", vj::arr(post)).raw("tx", vj::arr(tx))
            .raw("open", vj::arr(open)).raw("lis", vj::arr(lis)).raw("tod", vclk::now())
            .raw("res", vj::O().num("l", w.nLinks).num("t", w.nTimers).num("a", w.nAcceptors).done()).done();
    }
};
}

int main() { return vf::mainLoop([]{ return std::make_unique<Run>(); }); }
