// Conformance driver of the controller (with its Modbus self-test and OPC UA controllers), the connector and the detector.
#define VF_NO_SLEEP
#include "fake.hpp"
#include "ControllerComponent.hpp"
#include "ModbusTestController.hpp"
#include "UaController.hpp"
#include "ConnectorSimple.hpp"
#include "Detector.hpp"
#include "MsgConnectorInitRsp.hpp"
#include "MsgControllerStartReq.hpp"
#include "MsgControllerStopReq.hpp"
#include "MsgDetectorInitRsp.hpp"
#include "MsgModbusAduReq.hpp"
#include "MsgModbusAduRsp.hpp"
#include "MsgModbusClientAduReq.hpp"
#include "MsgModbusClientAduRsp.hpp"
#include "MsgModbusConfigReq.hpp"
#include "MsgModbusConfigRsp.hpp"
#include "MsgModbusInitReq.hpp"
#include "MsgModbusInitRsp.hpp"
#include "MsgModbusReleaseReq.hpp"
#include "MsgModbusReleaseRsp.hpp"
#include "MsgUaSecureChannelConfigReq.hpp"
#include "MsgUaSecureChannelConfigRsp.hpp"
#include "MsgUaSecureChannelInitReq.hpp"
#include "MsgUaSecureChannelInitRsp.hpp"
#include "MsgUaSecureChannelReleaseReq.hpp"
#include "MsgUaSecureChannelReleaseRsp.hpp"
#include "MsgUaServiceConfigReq.hpp"
#include "MsgUaServiceConfigRsp.hpp"
#include "MsgUaServiceInitReq.hpp"
#include "MsgUaServiceInitRsp.hpp"
#include "MsgUaServiceReleaseReq.hpp"
#include "MsgUaServiceReleaseRsp.hpp"
#include "MsgUaTransportConfigReq.hpp"
#include "MsgUaTransportConfigRsp.hpp"
#include "MsgUaTransportInitReq.hpp"
#include "MsgUaTransportInitRsp.hpp"
#include "MsgUaTransportReleaseReq.hpp"
#include "MsgUaTransportReleaseRsp.hpp"

using namespace app;
using vj::Val;
using Bytes = std::vector<std::uint8_t>;

namespace
{
std::string addr(reactor::LinkAddr const& a)
{
    return vj::bytes(reinterpret_cast<std::uint8_t const*>(a.data), 6);
}

struct Run
{
    vf::World w;
    controller::ControllerComponent ctl{w, w};
    ConnectorSimple conn{w, w};
    Detector det{w, w};

    static std::string rec(reactor::MsgInterface const& x)
    {
        auto just = [](char const* m){ return vj::O().str("m", m).done(); };
        switch (x.getMsgId())
        {
        case MsgIds::connectorInitRsp: return just("conn");
        case MsgIds::detectorInitRsp: return just("det");
        case MsgIds::uaSecureChannelInitReq: return just("sinit");
        case MsgIds::uaSecureChannelConfigReq: return just("scfg");
        case MsgIds::uaSecureChannelReleaseReq: return just("srel");
        case MsgIds::uaServiceInitReq: return just("vinit");
        case MsgIds::uaServiceConfigReq: return just("vcfg");
        case MsgIds::uaServiceReleaseReq: return just("vrel");
        case MsgIds::uaTransportInitReq: return just("tinit");
        case MsgIds::uaTransportReleaseReq: return just("trel");
        case MsgIds::uaTransportConfigReq:
            return vj::O().str("m", "tcfg").raw("a", addr(static_cast<MsgUaTransportConfigReq const&>(x).addr)).done();
        case MsgIds::modbusInitReq:
        {
            auto const& m = static_cast<MsgModbusInitReq const&>(x);
            return vj::O().str("m", "minit").num("c", m.maxNumClients).num("s", m.maxNumServers).done();
        }
        case MsgIds::modbusReleaseReq: return just("mrel");
        case MsgIds::modbusConfigReq:
        {
            auto const& m = static_cast<MsgModbusConfigReq const&>(x);
            std::vector<std::string> v;
            for (unsigned i = 0; i < m.numItems; ++i)
                v.push_back(vj::O().num("id", m.items[i].id).str("mode", m.items[i].mode == ModbusConfig::Mode::client ? "client" : "server").raw("a", addr(m.items[i].addr)).done());
            return vj::O().str("m", "mcfg").raw("items", vj::arr(v)).done();
        }
        case MsgIds::modbusClientAduReq:
        {
            auto const& m = static_cast<MsgModbusClientAduReq const&>(x);
            std::vector<std::string> v;
            for (unsigned i = 0; i < m.numItems; ++i)
            {
                auto const& e = m.item(i);
                v.push_back(vj::O().num("cid", e.clientId).num("tid", e.transactId).num("f", static_cast<int>(e.func)).num("a", e.addr).num("si", e.startItem)
                    .num("ni", e.numItems).raw("d", vj::bytes(e.data, e.numBytes)).done());
            }
            return vj::O().str("m", "madu").raw("items", vj::arr(v)).done();
        }
        case MsgIds::modbusAduRsp:
        {
            auto const& m = static_cast<MsgModbusAduRsp const&>(x);
            return vj::O().str("m", "arsp").num("sv", m.serverId).num("sid", m.sessionId).num("tid", m.transactId).num("err", static_cast<int>(m.error))
                .num("st", m.status == MsgStatus::success ? 1 : 0).raw("d", vj::bytes(m.data, m.numBytes)).done();
        }
        default: return vj::O().str("m", "unknown").num("id", x.getMsgId()).done();
        }
    }

    std::string step(Val const& op)
    {
        w.clearStep();
        std::string const o = op.s("op");
        Bytes rv;
        if (o == "boot")
        {
            ::srand(0);
            for (int i = 0; i < 2048; ++i) rv.push_back(static_cast<std::uint8_t>(::rand() % 65535));
        }
        else if (o == "start") { MsgControllerStartReq m; w.deliver(m); }
        else if (o == "stop") { MsgControllerStopReq m; w.deliver(m); }
        else if (o == "conn") { MsgConnectorInitReq m; w.deliver(m); }
        else if (o == "det") { MsgDetectorInitReq m; w.deliver(m); }
        else if (o == "minit") { MsgModbusInitRsp m; w.deliver(m); }
        else if (o == "mrel") { MsgModbusReleaseRsp m; w.deliver(m); }
        else if (o == "mcfg")
        {
            MsgModbusConfigRsp m;
            m.numItems = 0;
            w.deliver(m);
        }
        else if (o == "sinit") { MsgUaSecureChannelInitRsp m; w.deliver(m); }
        else if (o == "scfg") { MsgUaSecureChannelConfigRsp m; w.deliver(m); }
        else if (o == "srel") { MsgUaSecureChannelReleaseRsp m; w.deliver(m); }
        else if (o == "tinit") { MsgUaTransportInitRsp m; w.deliver(m); }
        else if (o == "tcfg") { MsgUaTransportConfigRsp m; w.deliver(m); }
        else if (o == "trel") { MsgUaTransportReleaseRsp m; w.deliver(m); }
        else if (o == "vinit") { MsgUaServiceInitRsp m; w.deliver(m); }
        else if (o == "vcfg") { MsgUaServiceConfigRsp m; w.deliver(m); }
        else if (o == "vrel") { MsgUaServiceReleaseRsp m; w.deliver(m); }
        else if (o == "crsp")
        {
            Bytes d = op.bytes("d");
            vf::Box<MsgModbusClientAduRsp> b(d.size());
            b->clientId = op.i("cid");
            b->transactId = op.i("tid");
            b->error = static_cast<ModbusError>(op.i("err"));
            b->status = op.i("st") ? MsgStatus::success : MsgStatus::error;
            b->numBytes = d.size();
            if (d.size()) std::memcpy(b->data, d.data(), d.size());
            w.deliver(*b);
        }
        else if (o == "areq")
        {
            Bytes d = op.bytes("d");
            vf::Box<MsgModbusAduReq> b(d.size());
            b->serverId = op.i("sv");
            b->sessionId = op.i("sid");
            b->transactId = op.i("tid");
            b->func = static_cast<ModbusFunction>(op.i("f"));
            b->addr = op.i("a");
            b->startItem = op.i("si");
            b->numItems = op.i("ni");
            b->numBytes = d.size();
            if (d.size()) std::memcpy(b->data, d.data(), d.size());
            w.deliver(*b);
        }
        else if (o == "tick") w.advance(op.i("n") * 1000);
        else throw std::runtime_error("unknown op " + o);
        std::vector<std::string> post;
        for (auto& m : w.sent) post.push_back(rec(*m.msg));
        return vj::O().raw("rv", vj::bytes(rv)).raw("post", vj::arr(post)).num("lost", w.lostMsgs).num("tm", w.nTimers).done();
    }
};
}

int main() { return vf::mainLoop([]{ return std::make_unique<Run>(); }); }
