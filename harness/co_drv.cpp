// Conformance driver of the OPC UA binary codec: decodes the given bytes as the given type,
// reports the value field by field, and encodes it again; compares two values.
#include "fake.hpp"
#include "OpcUaBinaryCodec.hpp"
#include "UaActivateSessionReq.hpp"

using namespace app::ua;
using vj::Val;

namespace
{
using S = std::string;
S join(std::vector<S> const& v) { return vj::arr(v); }

struct D
{
template <typename T> static S num(T v)
{
    unsigned long long u = 0;
    if constexpr (std::is_floating_point_v<T>) std::memcpy(&u, &v, sizeof(T));
    else u = static_cast<unsigned long long>(v);
    std::vector<S> o;
    for (int i = static_cast<int>(sizeof(T)) - 1; i >= 0; --i) o.push_back(vj::n((u >> (8 * i)) & 255));
    return join(o);
}
template <DataTypeId I, typename T> static S d(NumericType<I, T> const& v) { T const x = v; return num(x); }
static S d(XmlElement const&) { return "[]"; }
template <DataTypeId I> static S ds(StringType<I> const& s) { return vj::bytes(reinterpret_cast<std::uint8_t const*>(s.val.data()), s.val.size()); }
static S d(String const& s) { return ds(s); }
static S d(ByteString const& s) { return ds(s); }

template <typename... A> static S all(A const&... a) { return join({d(a)...}); }

static S d(Guid const& g)
{
    std::vector<S> o{d(g.data1), d(g.data2), d(g.data3)};
    for (auto const& b : g.data4) o.push_back(d(b));
    return join(o);
}
static S d(NodeId const& n)
{
    S k, v;
    if (auto* p = std::get_if<UInt32>(&n.value)) { k = "0"; v = d(*p); }
    else if (auto* p = std::get_if<String>(&n.value)) { k = "3"; v = d(*p); }
    else if (auto* p = std::get_if<Guid>(&n.value)) { k = "4"; v = d(*p); }
    else if (auto* p = std::get_if<Opaque>(&n.value)) { k = "5"; v = d(*p); }
    else { k = "9"; v = "[]"; }
    return join({k, d(n.namespaceIndex), v});
}
static S d(ExpandedNodeId const& n) { return all(n.nodeId, n.namespaceUri, n.serverIndex); }
static S d(QualifiedName const& q) { return all(q.namespaceIndex, q.name); }
static S d(LocalizedText const& q) { return all(q.locale, q.text); }
static S d(ExtensionObject const& e) { return join({d(e.nodeId), e.byteString ? d(*e.byteString) : S("[]")}); }
static S d(DiagnosticInfo const& i) { return all(i.symbolicId, i.namespaceUri, i.locale, i.localizedText, i.additionalInfo, i.innerStatusCode, i.innerDiagnosticInfo); }
static S d(Variant const& v)
{
    if (not v.value) return "[]";
    int const i = static_cast<int>(v.value->index());
    return join({vj::n(i < 22 ? i + 1 : i - 21), vj::n(i < 22 ? 0 : 1), std::visit([](auto const& x) { return d(x); }, *v.value)});
}
static S d(DataValue const& v)
{
    return join({v.value.value ? join({d(v.value)}) : S("[]"), d(v.status), d(v.sourceTimestampt), d(v.sourcePicoSeconds), d(v.serverTimeStampt), d(v.serverPicoSeconds)});
}
static S d(MessageHeader const& h) { return all(h.messageType[0], h.messageType[1], h.messageType[2], h.isFinal, h.messageSize); }
static S d(UaMessageHeader const& h) { return all(h.messageType[0], h.messageType[1], h.messageType[2], h.isFinal, h.messageSize, h.secureChannelId); }
static S d(HelloMessage const& h) { return all(h.protocolVersion, h.receiveBufferSize, h.sendBufferSize, h.maxMessageSize, h.maxChunkCount, h.endpointUrl); }
static S d(AcknowledgeMessage const& h) { return all(h.protocolVersion, h.receiveBufferSize, h.sendBufferSize, h.maxMessageSize, h.maxChunkCount); }
static S d(ErrorMessage const& h) { return all(h.error, h.reason); }
static S d(ReverseHelloMessage const& h) { return all(h.serverUri, h.endpointUrl); }
static S d(UaSecurityHeader const& h) { return all(h.securityPolicyUri, h.senderCertificate, h.receiverCertificateThumbprint); }
static S d(UaSecurityTokenHeader const& h) { return all(h.tokenId); }
static S d(UaSequenceHeader const& h) { return all(h.sequenceNumber, h.requestId); }
static S d(UaRequestHeader const& h) { return all(h.authentificationToken, h.timestamp, h.requestHandle, h.returnDignostics, h.auditEntityId, h.timeoutHint, h.additionalHeader); }
static S d(UaResponseHeader const& h) { return all(h.timestamp, h.requestHandle, h.serviceResult, h.serviceDiagnostics, h.stringTable, h.additionalHeader); }
static S d(UaSignatureData const& h) { return all(h.algorithm, h.signature); }
static S d(UaApplicationDescription const& h) { return all(h.applicationUri, h.productUri, h.applicationName, h.applicationType, h.gatewayServerUri, h.discoveryProfileUri, h.discoveryUrls); }
static S d(UaUserTokenPolicy const& h) { return all(h.policyId, h.tokenType, h.issuedTokenType, h.issuerEndpointUrl, h.securityPolicyUri); }
static S d(UaEndpointDescription const& h) { return all(h.endpointUrl, h.server, h.serverCertificate, h.securityMode, h.securityPolicyUri, h.userIdentityTokens, h.transportProfileUri, h.securityLevel); }
static S d(UaChannelSecurityToken const& h) { return all(h.secureChannelId, h.tokenId, h.createdAt, h.revisedLifetime); }
static S d(UaOpenSecureChannelReq const& h) { return all(h.requestHdr, h.clientProtocolVer, h.securityTokenRequestType, h.securityMode, h.clientNonce, h.requestLifetime); }
static S d(UaOpenSecureChannelRsp const& h) { return all(h.responseHdr, h.serverProtocolVer, h.securityToken, h.serverNonce); }
static S d(UaCloseSecureChannelReq const& h) { return all(h.requestHdr); }
static S d(UaCloseSecureChannelRsp const& h) { return all(h.responseHdr); }
static S d(UaGetEndpointsReq const& h) { return all(h.requestHdr, h.endpointUrl, h.localeIds, h.profileUris); }
static S d(UaGetEndpointsRsp const& h) { return all(h.responseHdr, h.endpointDescription); }
static S d(UaCreateSessionReq const& h) { return all(h.requestHdr, h.clientDescription, h.serverUri, h.endpointUrl, h.sessionName, h.clientNonce, h.clientCertificate, h.requestedSessionTimeout, h.maxResponseMessageSize); }
static S d(UaCreateSessionRsp const& h) { return all(h.responseHdr, h.sessionId, h.authenticationToken, h.revisedSessionTimeout, h.serverNonce, h.serverCertificate, h.serverEndpoints, h.signedSoftwareCertificate, h.serverSignature, h.maxRequestMessageSize); }
static S d(UaActivateSessionReq const& h) { return all(h.requestHdr, h.clientSignature, h.clientSoftwareCertificates, h.localeIds, h.userIdentityToken, h.userTokenSignature); }
static S d(UaActivateSessionRsp const& h) { return all(h.responseHdr, h.serverNonce, h.results, h.diagnosticInfos); }
static S d(UaCloseSessionReq const& h) { return all(h.requestHdr, h.deleteSubscriptions); }
static S d(UaCloseSessionRsp const& h) { return all(h.responseHdr); }
static S d(ReadValueId const& h) { return all(h.nodeId, h.attributeId, h.indexRange, h.dataEncoding); }
static S d(UaReadReq const& h) { return all(h.requestHdr, h.maxAge, h.timestampsToReturn, h.nodesToRead); }
static S d(UaReadRsp const& h) { return all(h.responseHdr, h.results, h.diagnosticInfos); }
template <typename M, DataTypeId I> static S d(UaMsgCont<M, I> const& c) { return all(c.eNodeId, c.msg); }
template <typename T> static S d(std::optional<T> const& o) { return o ? join({d(*o)}) : S("[]"); }
template <typename T> static S d(std::unique_ptr<T> const& o) { return o ? join({d(*o)}) : S("[]"); }
template <typename T> static S d(std::vector<T> const& o) { std::vector<S> r; for (auto const& x : o) r.push_back(d(x)); return join(r); }

};

using Fn = std::function<S(std::vector<std::uint8_t> const&, int)>;
template <typename T> S run(std::vector<std::uint8_t> const& b, int copies)
{
    auto rx = std::make_unique<OpcUaSduBuffer>();
    for (auto x : b) rx->write(x);
    T val;
    vj::O o;
    auto const* start = rx->begin();
    try
    {
        OpcUaBinaryCodec s(*rx);
        s >> val;
    }
    catch (std::exception const&)
    {
        return o.str("r", "fail").done();
    }
    o.str("r", "ok").num("u", rx->begin() - start).raw("v", D::d(val));
    auto tx = std::make_unique<OpcUaSduBuffer>();
    std::vector<std::uint8_t> e;
    int done = 0;
    try
    {
        OpcUaBinaryCodec s(*tx);
        for (int i = 0; i < copies; ++i)
        {
            s << val;
            if (i == 0) e.assign(tx->begin(), tx->end());
            ++done;
        }
    }
    catch (std::exception const&)
    {
    }
    return o.raw("e", vj::bytes(e)).num("n", done).num("sz", tx->size()).done();
}
// two values made where other things have been before
template <typename T> struct Made
{
    explicit Made(int seed)
    {
        for (std::size_t i = 0; i < sizeof m; ++i) m[i] = static_cast<unsigned char>(seed ? 17 + i * seed : 0x5a);
        p = new (m) T;
    }
    ~Made() { p->~T(); }
    bool from(std::vector<std::uint8_t> const& b)
    {
        auto rx = std::make_unique<OpcUaSduBuffer>();
        for (auto x : b) rx->write(x);
        try { OpcUaBinaryCodec s(*rx); s >> *p; return true; }
        catch (std::exception const&) { return false; }
    }
    alignas(T) unsigned char m[sizeof(T)];
    T* p;
};
using Bytes = std::vector<std::uint8_t>;
using Eq = std::function<S(Bytes const&, Bytes const&, Bytes const&, Bytes const&)>;
template <typename T> void dims(T&, Bytes const&) {}
void dims(Variant& v, Bytes const& d)
{
    if (d.empty()) return;
    v.arrayDimensions.emplace();
    for (auto x : d) v.arrayDimensions->push_back(Int32(x));
}
template <typename T> S same(Bytes const& a, Bytes const& b, Bytes const& da, Bytes const& db)
{
    Made<T> x(0), y(5);
    vj::O o;
    if (not x.from(a) || not y.from(b)) return o.str("r", "fail").done();
    dims(*x.p, da);
    dims(*y.p, db);
    T const& l = *x.p;
    T const& r = *y.p;
    return o.str("r", "ok").num("ab", l == r).num("ba", r == l).num("aa", l == l).num("bb", r == r).done();
}
std::map<S, Eq> const& eqTable()
{
    static std::map<S, Eq> m;
    if (not m.empty()) return m;
#define R(T) m[#T] = same<T>; m["[]" #T] = same<std::vector<T>>
    R(Boolean); R(SByte); R(Byte); R(Int16); R(UInt16); R(Int32); R(UInt32); R(Int64); R(UInt64); R(Float); R(Double); R(String);
    R(DateTime); R(Guid); R(ByteString); R(NodeId); R(StatusCode); R(DiagnosticInfo); R(QualifiedName); R(LocalizedText);
    R(ExpandedNodeId); R(ExtensionObject); R(DataValue);
#undef R
    m["Variant"] = same<Variant>;
    return m;
}
template <typename T> void reg(std::map<S, Fn>& m, char const* n) { m[n] = run<T>; }
std::map<S, Fn> const& table()
{
    static std::map<S, Fn> m;
    if (not m.empty()) return m;
#define R(T) reg<T>(m, #T)
    R(Boolean); R(SByte); R(Byte); R(Int16); R(UInt16); R(Int32); R(UInt32); R(Int64); R(UInt64); R(Float); R(Double); R(String);
    R(DateTime); R(Guid); R(ByteString); R(NodeId); R(StatusCode); R(DiagnosticInfo); R(QualifiedName); R(LocalizedText);
    R(ExpandedNodeId); R(ExtensionObject); R(DataValue); R(Variant); R(MessageHeader); R(HelloMessage); R(AcknowledgeMessage);
    R(ErrorMessage); R(ReverseHelloMessage); R(UaMessageHeader); R(ReadValueId);
#undef R
#define R(T) reg<Ua##T>(m, #T)
    R(SecurityHeader); R(SequenceHeader); R(RequestHeader); R(ResponseHeader); R(SignatureData); R(ApplicationDescription); R(UserTokenPolicy);
    R(EndpointDescription); R(ChannelSecurityToken);
    R(OpenSecureChannelReq); R(OpenSecureChannelRsp); R(CloseSecureChannelReq); R(CloseSecureChannelRsp); R(GetEndpointsReq); R(GetEndpointsRsp);
    R(CreateSessionReq); R(CreateSessionRsp); R(ActivateSessionReq); R(ActivateSessionRsp); R(CloseSessionReq); R(CloseSessionRsp); R(ReadReq); R(ReadRsp);
#undef R
    reg<UaSecurityTokenHeader>(m, "TokenHeader");
#define R(T) reg<Ua##T##Cont>(m, #T "Cont")
    R(OpenSecureChannelReq); R(OpenSecureChannelRsp); R(CloseSecureChannelReq); R(CloseSecureChannelRsp); R(GetEndpointsReq); R(GetEndpointsRsp);
    R(CreateSessionReq); R(CreateSessionRsp); R(ActivateSessionReq); R(ActivateSessionRsp); R(CloseSessionReq); R(CloseSessionRsp); R(ReadReq); R(ReadRsp);
#undef R
#define R(T) reg<std::vector<T>>(m, "[]" #T)
    R(Boolean); R(SByte); R(Byte); R(Int16); R(UInt16); R(Int32); R(UInt32); R(Int64); R(UInt64); R(Float); R(Double); R(String);
    R(DateTime); R(Guid); R(ByteString); R(NodeId); R(StatusCode); R(DiagnosticInfo); R(QualifiedName); R(LocalizedText);
    R(ExpandedNodeId); R(ExtensionObject); R(DataValue);
#undef R
    return m;
}

// the encoding of a message made from scratch: only its type id is set
template <typename C> S fresh()
{
    auto tx = std::make_unique<OpcUaSduBuffer>();
    OpcUaBinaryCodec s(*tx);
    C c;
    s << c;
    return vj::bytes(std::vector<std::uint8_t>(tx->begin(), tx->end()));
}

struct Run
{
    S step(Val const& op)
    {
        S const o = op.s("op");
        if (o == "dec")
        {
            auto it = table().find(op.s("t"));
            if (it == table().end()) throw std::runtime_error("unknown type " + op.s("t"));
            return it->second(op.bytes("b"), op.i("n"));
        }
        if (o == "eq")
        {
            auto it = eqTable().find(op.s("t"));
            if (it == eqTable().end()) throw std::runtime_error("unknown type " + op.s("t"));
            return it->second(op.bytes("a"), op.bytes("b"), op.has("da") ? op.bytes("da") : Bytes{}, op.has("db") ? op.bytes("db") : Bytes{});
        }
        if (o == "new")
        {
            S const t = op.s("t");
#define R(T) if (t == #T) return vj::O().raw("e", fresh<Ua##T##Cont>()).done()
            R(OpenSecureChannelReq); R(OpenSecureChannelRsp); R(CloseSecureChannelReq); R(CloseSecureChannelRsp); R(GetEndpointsReq); R(GetEndpointsRsp);
            R(CreateSessionReq); R(CreateSessionRsp); R(ActivateSessionReq); R(ActivateSessionRsp); R(CloseSessionReq); R(CloseSessionRsp); R(ReadReq); R(ReadRsp);
#undef R
        }
        throw std::runtime_error("unknown op " + o);
    }
};
}

int main() { return vf::mainLoop([]{ return std::make_unique<Run>(); }); }
