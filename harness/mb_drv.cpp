// Conformance driver of the Modbus component (clients and servers).
#include "fake.hpp"
#include "ModbusComponent.hpp"
#include "MsgModbusInitReq.hpp"
#include "MsgModbusInitRsp.hpp"
#include "MsgModbusReleaseReq.hpp"
#include "MsgModbusReleaseRsp.hpp"
#include "MsgModbusConfigReq.hpp"
#include "MsgModbusConfigRsp.hpp"
#include "MsgModbusClientAduReq.hpp"
#include "MsgModbusClientAduRsp.hpp"
#include "MsgModbusAduReq.hpp"
#include "MsgModbusAduRsp.hpp"
#include "Modbus.hpp"

using namespace app;
using vj::Val;

namespace
{
unsigned ipOf(long long a) { return 0xC0A80000u + 200u + static_cast<unsigned>(a) * 0x101u; }
unsigned portOf(long long a) { return 0x8090u + static_cast<unsigned>(a); }
reactor::LinkAddr addrOf(long long a) { return vf::mkAddr(ipOf(a), portOf(a)); }
long long keyIdx(long long a) { return static_cast<long long>(ipOf(a)) * 65536 + portOf(a); }

struct Run
{
    vf::World w;
    std::unique_ptr<modbus::ModbusComponent> comp;
    struct Sess { unsigned sv, sid; };
    std::map<long long, Sess> sess;              // last session a connection's request came from
    std::map<long long, long long> idxOf;        // address key -> index
    Run() { comp = std::make_unique<modbus::ModbusComponent>(w, w); }
    ~Run() { comp.reset(); }

    std::string step(Val const& op)
    {
        w.clearStep();
        long long skip = 0, dataConn = -1;
        std::string const o = op.s("op");
        auto cl = [&]() -> vf::FakeLink* { auto* l = w.linkTo(keyIdx(op.i("p"))); if (!l) skip = 1; return l; };
        auto sv = [&]() -> vf::FakeLink* { auto* l = w.conn(op.i("k")); if (!l) skip = 1; return l; };
        auto push = [&](vf::FakeLink& l) { for (auto b : op.bytes("d")) l.pending.push_back(b); };
        using LS = vf::FakeLink::St;
        if (o == "init")
        {
            MsgModbusInitReq m;
            m.maxNumServers = op.i("s");
            m.maxNumClients = op.i("c");
            w.deliver(m);
        }
        else if (o == "rel") { MsgModbusReleaseReq m; w.deliver(m); }
        else if (o == "cfg")
        {
            auto const& items = op["items"].arr;
            vf::Box<MsgModbusConfigReq> m(items.size() * sizeof(ModbusConfig));
            m->numItems = items.size();
            for (std::size_t i = 0; i < items.size(); ++i)
            {
                m->items[i].id = items[i].i("id");
                m->items[i].mode = items[i].s("m") == "c" ? ModbusConfig::Mode::client : ModbusConfig::Mode::server;
                m->items[i].addr = addrOf(items[i].i("a"));
                idxOf[keyIdx(items[i].i("a"))] = items[i].i("a");
            }
            w.deliver(*m);
            w.failLink = w.failTimer = false;
        }
        else if (o == "req")
        {
            auto const& items = op["items"].arr;
            std::size_t tail = 0;
            for (auto const& it : items) tail += sizeof(ModbusClientAduReqItem) + it.bytes("d").size() + 32;
            vf::Box<MsgModbusClientAduReq> m(tail);
            m->numItems = items.size();
            for (std::size_t i = 0; i < items.size(); ++i)
            {
                auto& d = m->item(i);
                auto const& s = items[i];
                auto const b = s.bytes("d");
                d.clientId = s.i("c");
                d.transactId = static_cast<unsigned>(s.i("th") * 65536 + s.i("tl"));
                d.func = static_cast<ModbusFunction>(s.i("f"));
                d.addr = s.i("a");
                d.startItem = s.i("si");
                d.numItems = s.i("ni");
                d.numBytes = b.size();
                if (b.size()) std::memcpy(d.data, b.data(), b.size());
            }
            w.deliver(*m);
        }
        else if (o == "lc")
        {
            auto* l = cl();
            if (l && l->st == LS::connecting) { l->st = LS::up; w.linkEvent(*l, reactor::LinkEvent::connected); }
            else skip = 1;
        }
        else if (o == "le") { if (auto* l = cl()) { l->close(); w.linkEvent(*l, reactor::LinkEvent::error); } }
        else if (o == "ld" || o == "ldfin")
        {
            auto* l = cl();
            if (l && l->st == LS::up) { push(*l); if (o == "ldfin") l->eof = true; w.linkEvent(*l, reactor::LinkEvent::data); }
            else skip = 1;
        }
        else if (o == "leof")
        {
            auto* l = cl();
            if (l && l->st == LS::up) { l->eof = true; w.linkEvent(*l, reactor::LinkEvent::data); }
            else skip = 1;
        }
        else if (o == "sf")
        {
            auto* l = cl();
            if (l && l->st == LS::up) l->sendFails = true;
            else skip = 1;
        }
        else if (o == "cf") w.failConnect.insert(keyIdx(op.i("p")));
        else if (o == "xl") w.failLink = true;
        else if (o == "xt") w.failTimer = true;
        else if (o == "tick") w.advance(op.i("n") * 10000);
        else if (o == "acc" || o == "accf")
        {
            auto* a = w.acceptorAt(keyIdx(op.i("a")));
            if (a)
            {
                a->backlog = 1;
                if (o == "accf") w.failAccept = true;
                auto h = a->handler;
                if (h) w.guarded([&]{ h(); });
                a->backlog = 0;
                w.failAccept = false;
                w.failLink = w.failTimer = false;
            }
            else skip = 1;
        }
        else if (o == "sd" || o == "sdfin")
        {
            auto* l = sv();
            if (l) { dataConn = op.i("k"); push(*l); if (o == "sdfin") l->eof = true; w.linkEvent(*l, reactor::LinkEvent::data); }
        }
        else if (o == "seof") { if (auto* l = sv()) { l->eof = true; w.linkEvent(*l, reactor::LinkEvent::data); } }
        else if (o == "sle") { if (auto* l = sv()) { l->close(); w.linkEvent(*l, reactor::LinkEvent::error); } }
        else if (o == "ssf") { if (auto* l = sv()) l->sendFails = true; }
        else if (o == "arsp" || o == "arspx")
        {
            Sess s{};
            if (o == "arspx") s = {static_cast<unsigned>(op.i("sv")), static_cast<unsigned>(op.i("sid"))};
            else if (sess.count(op.i("k"))) s = sess[op.i("k")];
            else skip = 1;
            if (not skip)
            {
                auto const b = op.bytes("d");
                vf::Box<MsgModbusAduRsp> m(b.size());
                m->serverId = s.sv;
                m->sessionId = s.sid;
                m->transactId = op.i("tid");
                m->error = static_cast<ModbusError>(op.i("e"));
                m->status = op.i("st") ? MsgStatus::error : MsgStatus::success;
                m->numBytes = b.size();
                if (b.size()) std::memcpy(m->data, b.data(), b.size());
                w.deliver(*m);
            }
        }
        else throw std::runtime_error("unknown op " + o);

        // ---- observations
        std::vector<std::string> rsp, adu, msg, tx, ctx, att, up, open;
        for (auto const& s : w.sent)
        {
            switch (s.msg->getMsgId())
            {
            case MsgIds::modbusClientAduRsp:
            {
                auto const& m = static_cast<MsgModbusClientAduRsp const&>(*s.msg);
                rsp.push_back(vj::O().num("c", m.clientId).num("th", m.transactId >> 16).num("tl", m.transactId & 0xffff)
                    .num("e", static_cast<int>(m.error)).num("s", m.status == MsgStatus::success ? 0 : 1)
                    .raw("d", vj::bytes(m.data, m.numBytes)).done());
            }
            break;
            case MsgIds::modbusAduReq:
            {
                auto const& m = static_cast<MsgModbusAduReq const&>(*s.msg);
                if (dataConn >= 0) sess[dataConn] = {m.serverId, m.sessionId};
                adu.push_back(vj::O().num("sv", m.serverId).num("sid", m.sessionId).num("tid", m.transactId)
                    .num("f", static_cast<int>(m.func)).num("a", m.addr).num("si", m.startItem).num("ni", m.numItems)
                    .raw("d", vj::bytes(m.data, m.numBytes)).done());
            }
            break;
            case MsgIds::modbusInitRsp: msg.push_back(vj::O().str("m", "init").done()); break;
            case MsgIds::modbusReleaseRsp: msg.push_back(vj::O().str("m", "rel").done()); break;
            case MsgIds::modbusConfigRsp:
            {
                auto const& m = static_cast<MsgModbusConfigRsp const&>(*s.msg);
                std::vector<std::string> it;
                for (unsigned i = 0; i < m.numItems; ++i)
                    it.push_back(vj::O().num("id", m.items[i].id).num("s", m.items[i].status == MsgStatus::success ? 0 : 1).done());
                msg.push_back(vj::O().str("m", "cfg").raw("items", vj::arr(it)).done());
            }
            break;
            default: msg.push_back(vj::O().str("m", "unknown").num("id", s.msg->getMsgId()).done()); break;
            }
        }
        for (auto const& e : w.txTo) tx.push_back(vj::O().num("p", idxOf[e.first]).raw("d", vj::bytes(e.second)).done());
        for (auto const& e : w.txConn) ctx.push_back(vj::O().num("k", e.first).raw("d", vj::bytes(e.second)).done());
        for (auto const& e : w.attempts) att.push_back(vj::O().num("p", idxOf[e.first]).num("n", e.second).done());
        for (auto const& l : w.links)
        {
            if (l->st == LS::idle) continue;
            if (l->accepted) open.push_back(vj::n(l->peer));
            else up.push_back(vj::O().num("p", idxOf[l->peer]).num("st", l->st == LS::up ? 2 : 1).done());
        }
        return vj::O().num("skip", skip).num("acc", w.lastAccepted).raw("rsp", vj::arr(rsp)).raw("adu", vj::arr(adu))
            .raw("msg", vj::arr(msg)).raw("tx", vj::arr(tx)).raw("ctx", vj::arr(ctx)).raw("att", vj::arr(att))
            .raw("up", vj::arr(up)).raw("open", vj::arr(open))
            .raw("res", vj::O().num("l", w.nLinks).num("t", w.nTimers).num("a", w.nAcceptors).done()).done();
    }
};
}

int main() { return vf::mainLoop([]{ return std::make_unique<Run>(); }); }
