// The simulated world: application threads driving the real library, a bus peer
// written from the specification, and the oracles that judge the history.
#include "world.h"
#include <dlfcn.h>
#include <link.h>
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <pthread.h>
#include <stdexcept>
#include <sys/types.h>
#include <unistd.h>

#include "dbus.h"
#include "dbus_messageistream.h"
#include "dbus_messageostream.h"

namespace sim {
extern u64 memLimit;
}

namespace world {
using namespace sim;
using ref::Val;
namespace M = DBus::Message;
namespace T = DBus::Type;

static const u64 FAR = ~0ull;

struct RuleSpec {
    std::string text, type, sender, iface, member, path, ns, dest;
    bool matches(const ref::Msg& m) const
    {
        if (!type.empty() && type != "signal")
            return false;
        if (!sender.empty() && sender != m.sender)
            return false;
        if (!iface.empty() && iface != m.iface)
            return false;
        if (!member.empty() && member != m.member)
            return false;
        if (!dest.empty() && dest != m.dest)
            return false;
        if (!path.empty() && path != m.path)
            return false;
        if (!ns.empty() && ns != "/" && m.path != ns && m.path.compare(0, ns.size() + 1, ns + "/") != 0)
            return false;
        return true;
    }
};
struct Reg { // one registration of a handler
    int kind; // 0 method, 1 signal, 2 rule
    int name;
    u64 regInv = 0, regRet = FAR, unInv = FAR, unRet = FAR;
    int running = 0, runThread = -1;
};
struct Out { // one message the application hands to the library
    int conn = 0, type = 0, thread = -1;
    u64 tok = 0;
    u32 serial = 0;
    bool conv = false, noReply = false, wantCb = false, echo = false;
    std::string raw, key;
    ref::Msg exp;
    u64 inv = 0, ret = FAR;
    bool pre = false, wire = false;
    u64 wireSeq = 0;
    int nOk = 0, nErr = 0, depth = 0;
    std::vector<int> replies; // valid replies in stream order
    int policy = -1;
    bool sentToPeer = false;
};
struct Inj { // one message the peer sends
    ref::Msg m;
    u64 start = 0, end = 0, sentSeq = 0, tok = 0;
    bool optional = false, mustNot = false, isReply = false, opaque = false, anyName = false;
    int forOut = -1, name = -1, depth = 0;
    int calls = 0;
    std::map<int, int> by;
    u64 doneSeq = FAR; // last callback for it returned
};
struct Conn;
struct BusPeer : Peer {
    Conn* c = nullptr;
    int st = 0; // 0 NUL, 1 AUTH, 2 wait BEGIN/NEGOTIATE, 3 after agreement, 4 messages
    int attempt = 0;
    bool sawNeg = false, dead = false, okSent = false;
    std::string line, buf;
    u64 total = 0, failedAt = FAR;
    u64 readTotal = 0;
    u64 okEnd = 0;
    int hostLeft = 6;
    void onConnect() override {}
    void onBytes(const char* p, size_t n) override;
    void onClientClosed() override;
    void onWriteFailed(int) override;
    void onRead(size_t t, bool eof) override;
    u64 arrived = 0;
    std::deque<std::pair<u64, u64>> arrivals; // bytes available to the library, since when
    void onArrive(size_t n) override;
    void authLine(const std::string& l);
    void frames();
    void frame(const std::string& d);
};
struct Conn {
    int id = 0;
    const ConnPlan* p = nullptr;
    DBus::Native* native = nullptr; // stays set while the destructor runs: handlers may still be using it
    BusPeer* peer = nullptr;
    std::string path;
    bool constructed = false, destroyed = false, destroying = false, begun = false, lost = false, closedByPeer = false, writeFailed = false, readFailed = false, dialogueOk = true;
    bool stalled = false, slept = false, stallForever = false, threw = false, streamBad = false, authCalled = false, authGaveUp = false, everStalled = false;
    u64 beginSeq = FAR, lostSeq = FAR;
    int rejected = 0;
    u64 peerOut = 0, wildAt = FAR, authBytes = 0;
    std::string glue;
    std::vector<Inj> inj;
    std::map<u32, int> bySerial;
    u32 nextSerial = 1;
    int lastIdx = -1;
    int cbThread = -1;
    std::vector<Reg> regs;
    std::map<int, std::vector<int>> cur[3]; // name -> active registrations, per kind
    std::set<int> usedConv;
    std::map<std::string, std::deque<int>> convQ;
    std::vector<int> outs;
    u64 sleepEnd = 0, sleepSince = 0;
    bool longSlept = false;
    int running = 0;
    // counters for the statistics oracle
    u64 sentCalls = 0, sentReturns = 0, sentErrors = 0, sentSignals = 0;
    u64 firstRxSeq = FAR; // evidence that authentication has completed
    u64 okSentSeq = FAR;
    u64 clientAuthBytes = 0, clientAuthLines = 0;
    char waitObj = 0;
    std::vector<size_t> trig2; // pending byte triggers (op index)
    bool ctorFailed = false;
    int freshNext = 100000, freshRule = 15;
};

static const Plan* P;
static std::vector<Conn*> C;
static std::deque<Out> outs; // references stay valid while it grows
static std::map<u32, int> outBySerial;
static std::map<u32, int> allSerials; // every serial seen in this run
static std::set<u32>* earlySerials;   // those of messages made before it
static RuleSpec rules[400]; // 15 for the plans, the rest for names nobody used before
static int freshCtr = 0; // when positive, every name is one that has not been used before
static std::string fresh(const std::string& n)
{
    return freshCtr ? n + (n.size() > 1 && n.back() == '/' ? "f" : n[0] == '/' ? n == "/" ? "f" : "/f" : n[0] == ':' ? "" : "F") + std::to_string(freshCtr) : n;
}
static std::vector<std::vector<size_t>> threadOps;
static std::string hexuid;
static const std::vector<uint8_t>* gmask;
static u64 hostileBytes = 0;
static int activeSends = 0;

static const char* memberNames[7];
static std::string nm(int i, std::string* iface = nullptr, std::string* member = nullptr)
{
    // names that are easy to confuse: beginnings, endings and other cases of one another
    static const char* f[] = { "com.example.A", "com.example.AB", "example.A" };
    const char* const* mem = memberNames;
    std::string a = f[i % 3], b = i / 3 < 7 ? std::string(mem[i / 3]) : "M" + std::to_string(i / 3);
    if (iface)
        *iface = a;
    if (member)
        *member = b;
    return a + "." + b;
}
static const char* senders[] = { ":1.5", ":1.55", "com.example.Svc", "com.example.Svc.Sub", ":11.5", "" };
static const char* dests[] = { ":1.42", "com.example.Me", ":1.4", "", "" };

static bool afflicted(Conn& c)
{
    return c.threw || c.lost || c.writeFailed || c.readFailed || c.wildAt != FAR || c.streamBad || c.everStalled || c.slept || c.p->hostileAuth || c.p->ctorTry || c.destroying;
}
// this connection is healthy and another one is in trouble
static bool bystander(Conn& c)
{
    if (afflicted(c))
        return false;
    for (Conn* d : C)
        if (afflicted(*d))
            return true;
    return false;
}
static std::string ctx(Conn& c, const char* t)
{
    std::string r = t;
    if (bystander(c))
        r += " P21";
    if (c.threw)
        r += " P11";
    if (c.lost || c.writeFailed || c.readFailed)
        r += " P13";
    if (c.wildAt != FAR || P->hostile)
        r += " P10";
    if (c.everStalled)
        r += " P14";
    if (c.p->ctorTry)
        r += " P18";
    return r;
}
#define VIOL(tags, ...)                             \
    do {                                            \
        std::string t__ = (tags);                   \
        violation(t__.c_str(), __VA_ARGS__);        \
    } while (0)

// ------------------------------------------------------------- values --------
static T::Generic viaDecode(const Val& v)
{
    ref::Enc e;
    e.val(v);
    std::string s = ref::sigOf(v);
    T::Generic g = T::create(s);
    DBus::MessageIStream is((const uint8_t*)e.b.data(), e.b.size(), false);
    T::unmarshallData(g, is);
    return g;
}
static bool buildable(const Val& v, bool top = true)
{
    switch (v.t) {
    case 'v':
        return v.k[0].t == 's' || v.k[0].t == 'o' || v.k[0].t == 'u' || v.k[0].t == 'g';
    case 'a':
        if (!top || v.es[0] == 'a')
            return false;
        for (auto& k : v.k)
            if (!buildable(k, false))
                return false;
        return true;
    case '(':
    case '{':
        for (size_t i = 0; i < v.k.size(); ++i)
            if (!buildable(v.k[i], v.t == '{' && i == 1))
                return false;
        return true;
    }
    return true;
}
static T::Generic build(const Val& v);
static double dbl(u64 u)
{
    double d;
    memcpy(&d, &u, 8);
    return d;
}
template <class C>
struct Adder { // a named functor: the recursion below must not create new types
    C& c;
    template <class X>
    void operator()(const X& x) const { c.add(x); }
};
struct Setter {
    T::Generic& g;
    template <class X>
    void operator()(const X& x) const { g = x; }
};
template <class F>
static void withTyped(const Val& v, F f)
{
    switch (v.t) {
    case 'y': f(T::Byte((uint8_t)v.u)); break;
    case 'b': f(T::Boolean(v.u != 0)); break;
    case 'n': f(T::Int16((int16_t)v.u)); break;
    case 'q': f(T::Uint16((uint16_t)v.u)); break;
    case 'i': f(T::Int32((int32_t)v.u)); break;
    case 'u': f(T::Uint32((uint32_t)v.u)); break;
    case 'x': f(T::Int64((int64_t)v.u)); break;
    case 't': f(T::Uint64((uint64_t)v.u)); break;
    case 'd': f(T::Double(dbl(v.u))); break;
    case 's': f(T::String(v.s)); break;
    case 'o': f(T::ObjectPath(v.s)); break;
    case 'g': f(T::Signature(v.s)); break;
    case 'v': {
        const Val& k = v.k[0];
        if (k.t == 's')
            f(T::Variant(T::String(k.s)));
        else if (k.t == 'o')
            f(T::Variant(T::ObjectPath(k.s)));
        else if (k.t == 'u')
            f(T::Variant(T::Uint32((uint32_t)k.u)));
        else
            f(T::Variant(T::Signature(k.s)));
        break;
    }
    case '(': {
        T::Struct s;
        for (auto& k : v.k)
            withTyped(k, Adder<T::Struct> { s });
        f(s);
        break;
    }
    case '{':
        if (v.k[0].t == 's' && v.k[1].t == 'u')
            f(T::DictEntry(v.k[0].s, (uint32_t)v.k[1].u));
        else
            f(T::DictEntry(build(v.k[0]), build(v.k[1])));
        break;
    }
}
static T::Generic build(const Val& v)
{
    T::Generic g;
    if (v.t == 'a') {
        T::Array a;
        if (v.k.empty())
            a.setSignature("a" + v.es);
        for (auto& k : v.k)
            withTyped(k, Adder<T::Array> { a });
        return a;
    }
    withTyped(v, Setter { g });
    return g;
}
static T::Generic toGeneric(const Val& v, Gen& g)
{
    if (v.t == 'a' || v.t == '(' || v.t == '{')
        probe(P_container_value);
    if (v.t == 'v')
        probe(P_variant_value);
    if (buildable(v) && g.p(0.8))
        return build(v);
    return viaDecode(v);
}
static bool fromGeneric(const T::Generic& g, Val& v, std::string& err)
{
    std::string s = T::getMarshallingSignature(g);
    if (s.empty() || ref::oneType(s, 0) != s.size()) {
        err = "value has signature '" + s + "'";
        return false;
    }
    DBus::MessageOStream os;
    T::marshallData(g, os);
    ref::Dec d(os.data.data(), os.data.size(), false);
    size_t i = 0;
    if (!d.val(s, i, v)) {
        err = "re-encoding does not decode: " + d.err;
        return false;
    }
    if (d.o != d.n) {
        err = "re-encoding has trailing bytes";
        return false;
    }
    return true;
}
static bool accessorOk(const T::Generic& g, const Val& v, std::string& got)
{
    switch (v.t) {
    case 'y':
        got = T::asString(g);
        return T::asByte(g) == v.u && got == std::to_string(v.u);
    case 'q':
    case 't':
        got = T::asString(g);
        return got == std::to_string(v.u);
    case 'u':
        got = T::asString(g);
        return got == std::to_string(v.u) && T::asUint32(g) == v.u;
    case 'b':
        got = T::asString(g);
        return got == (v.u ? "1" : "0");
    case 'n':
        got = T::asString(g);
        return got == std::to_string((int16_t)v.u);
    case 'i':
        got = T::asString(g);
        return got == std::to_string((int32_t)v.u);
    case 'x':
        got = T::asString(g);
        return got == std::to_string((int64_t)v.u);
    case 's':
    case 'o':
    case 'g':
        got = T::asString(g);
        return got == v.s;
    case '(':
        if (T::refStruct(g).getEntries() != v.k.size()) {
            got = std::to_string(T::refStruct(g).getEntries()) + " struct entries";
            return false;
        }
        for (size_t i = 0; i < v.k.size(); ++i)
            if (!accessorOk(T::refStruct(g)[i], v.k[i], got))
                return false;
        return true;
    case 'a':
        if (T::refArray(g).getContents().size() != v.k.size()) {
            got = std::to_string(T::refArray(g).getContents().size()) + " array elements";
            return false;
        }
        if (v.es[0] == '{')
            return true;
        for (size_t i = 0; i < v.k.size(); ++i)
            if (!accessorOk(T::refArray(g).getContents()[i], v.k[i], got))
                return false;
        return true;
    case 'v':
        return accessorOk(T::refVariant(g).getValue(), v.k[0], got);
    }
    return true;
}

// ----------------------------------------------------------- sending ---------
static const u64 TINY = 0xb0257ull << 44; // marks the tokens of small messages that come in great numbers
static bool tiny(u64 tok) { return (tok >> 44) == (TINY >> 44); }
static u64 tinyTok(u64 tok, int i) { return TINY | (ref::mix2(tok, i) >> 20); }
static u64 footprint(const Val& v)
{
    u64 n = 1500 + 20 * v.s.size();
    for (auto& k : v.k)
        n += footprint(k);
    return n;
}
static void genBody(Gen& g, std::vector<Val>& out, u64 tok)
{
    if (tiny(tok)) {
        out.push_back(ref::mkU(g.next() & 0xffffffffu));
        return;
    }
    ref::ValCfg vc = P->prof.val;
    if (g.p(0.02)) { // as many parameters as a signature of 255 characters can describe
        size_t most = tok ? 255 : 254;
        for (auto& x : out)
            most -= ref::sigOf(x).size();
        size_t want = g.p(0.3) ? most : (size_t)g.range(120, most);
        while (want) {
            vc.depth = 2;
            Val v = want > 20 && g.p(0.5) ? ref::rndVal(g, vc) : ref::mkU(g.next() & 0xffu, 'y');
            if (ref::sigOf(v).size() > want)
                continue;
            want -= ref::sigOf(v).size();
            out.push_back(std::move(v));
        }
        probe(P_long_signature);
        return;
    }
    int n = g.p(0.2) ? 0 : (int)g.range(1, 4);
    size_t len = 0;
    if (g.p(0.03)) {
        Val v = ref::deepVal(g, vc);
        len += ref::sigOf(v).size();
        for (auto& x : out)
            len += ref::sigOf(x).size();
        if (len <= 240) {
            out.push_back(std::move(v));
            probe(P_deep_value);
        }
    }
    for (int i = 0; i < n; ++i) {
        Val v = ref::rndVal(g, vc);
        len += ref::sigOf(v).size();
        if (len > 200)
            break;
        out.push_back(std::move(v));
    }
    if (g.p(P->prof.pBig)) {
        std::string s((size_t)(g.p(0.6) ? g.range(900, 3000) : g.p(0.7) ? g.range(3000, 20000) : g.range(20000, 90000)), 'a');
        for (size_t i = 0; i < s.size(); i += 7)
            s[i] = (char)('A' + (i / 7) % 26);
        out.push_back(ref::mkS(s));
    }
    if (P->huge && g.p(P->prof.pHuge)) {
        if (g.p(0.5)) {
            std::string s((size_t)g.range(120000, g.p(0.3) ? 4000000 : 700000), 'a');
            for (size_t i = 0; i < s.size(); i += 101)
                s[i] = (char)('A' + (i / 101) % 26);
            out.push_back(ref::mkS(s));
        } else { // an array of more elements or bytes than 16 bits can count
            static const char* el[] = { "y", "u", "t", "s", "(yu)", "q" };
            Val a;
            a.t = 'a';
            a.es = el[g.below(6)];
            int n = (int)(g.p(0.3) ? g.range(66000, 80000) : g.range(9000, 20000));
            vc.maxStr = 9;
            for (int i = 0; i < n; ++i) {
                size_t q = 0;
                a.k.push_back(ref::rndVal(g, vc, a.es, q, 1));
            }
            out.push_back(std::move(a));
        }
        probe(P_huge_message);
    }
    if (sim::memLimit != ~0ull) // hostile runs: what both sides may hold for this body, several copies included
        for (auto& v : out)
            sim::memLimit += footprint(v);
}
struct Built {
    int out = -1;
    std::function<void(DBus::Native&)> send;
};
static std::function<void(const M::MethodReturn&)> okCb(int conn, int out);
static std::function<void(const M::Error&)> errCb(int conn, int out);

// object paths have no maximum length
static std::string anyPath(Gen& g)
{
    std::string s = ref::rndPath(g);
    if (g.p(P->prof.pBig * 0.06)) {
        size_t n = g.p(0.5) ? (size_t)g.range(300, 5000) : (size_t)g.range(5000, 150000);
        while (s.size() < n)
            s += s.size() > 1 ? "/segment" + std::to_string(g.below(100)) : "segment";
        probe(P_long_path);
    }
    return s;
}
static void noteSerial(u32 s, int out)
{
    if (s == 0)
        violation("P15", "zero-serial", "a message was given serial 0");
    // the messages made before this run began; a counter that was set close to its end may have gone all the way round
    if (earlySerials && P->serialStart < 0xfff00000u && earlySerials->count(s))
        violation("P15", "duplicate-serial", "serial %u was given to a message, and had been given to an earlier one of this process", s);
    auto r = allSerials.emplace(s, out);
    if (!r.second)
        violation("P15", "duplicate-serial", "serial %u was given to two messages of this process", s);
}
static int newOut(Conn& c, u64 tok, int type)
{
    int id = (int)outs.size();
    outs.emplace_back();
    Out& o = outs.back();
    o.conn = c.id;
    o.tok = tok;
    o.type = type;
    o.thread = self();
    c.outs.push_back(id);
    return id;
}
template <class Msg>
static void finishOut(int id, const Msg& m, const std::string& dest)
{
    u32 s = m.getSerial();
    yieldPoint();
    if (m.getSerial() != s)
        violation("P15", "serial-changed", "the serial of a message changed from %u to %u", s, m.getSerial());
    noteSerial(s, id);
    Out& o = outs[id];
    o.serial = s;
    o.exp.serial = s;
    o.raw = m.marshall(dest);
    outBySerial.emplace(s, id);
}
// creates the message object(s) described by tok
static Built makeMsg(Conn& c, int kind, u64 tok, u32 replyTo = 0, int depth = 0)
{
    Built b;
    Gen g(ref::mix2(tok, 77));
    std::vector<Val> body;
    genBody(g, body, tok);
    std::vector<T::Generic> gen;
    std::string dest = g.p(0.5) ? "com.example.Svc" : g.p(0.5) ? ":1.9" : "org.freedesktop.DBus";
    std::string path = anyPath(g), iface, member;
    nm((int)g.below(12), &iface, &member);
    if (kind != O_ERROR)
        for (auto& v : body)
            gen.push_back(toGeneric(v, g));
    if (!replyTo)
        replyTo = g.p(0.3) ? 0x80000000u + g.below(1000) : 1 + g.below(1000);
    int cid = c.id;
    if (g.p(0.2)) {
        member += "_Extra" + std::to_string(g.below(100));
        iface += ".Long.Name.Of.Some.Interface";
    }
    path = fresh(path), iface = fresh(iface), member = fresh(member);
    if (dest != "org.freedesktop.DBus")
        dest = fresh(dest);
    {
        // replies to a peer without a name, calls without an interface: such fields are left out
        Gen e(ref::mix2(tok, 0xe3));
        if (dest != "org.freedesktop.DBus" && e.p(0.05))
            dest = "";
        if (kind == O_CALL && dest != "org.freedesktop.DBus" && e.p(0.05)) {
            iface = "";
            probe(P_no_interface);
        }
    }
    switch (kind) {
    case O_CALL: {
        int id = newOut(c, tok, ref::CALL);
        int flags = g.p(0.15) ? 1 : g.p(0.1) ? 2 : g.p(0.03) ? 3 : 0;
        std::shared_ptr<M::MethodCall> m;
        {
            InLib l;
            M::MethodCallParametersIn pp;
            size_t at = 0;
            bool plain = g.p(0.35); // plain C++ values where there is an overload
            if (plain && body.size() > 1 && body[0].t == 's' && body[1].t == 'u')
                pp = M::MethodCallParametersIn(body[0].s, (uint32_t)body[1].u), at = 2;
            else if (plain && body.size() && body[0].t == 's')
                pp = M::MethodCallParametersIn(body[0].s), at = 1;
            else if (plain && body.size())
                pp = M::MethodCallParametersIn(gen[0]), at = 1;
            for (; at < gen.size(); ++at) {
                const Val& v = body[at];
                if (plain && v.t == 'y')
                    pp.add((uint8_t)v.u);
                else if (plain && v.t == 'u')
                    pp.add((uint32_t)v.u);
                else if (plain && v.t == 's')
                    pp.add(v.s);
                else
                    pp.add(gen[at]);
            }
            m = std::make_shared<M::MethodCall>(M::MethodCallIdentifier(path, iface, member), pp, flags);
        }
        Out& o = outs[id];
        o.depth = depth;
        o.exp.type = ref::CALL;
        o.exp.flags = flags;
        o.exp.path = path, o.exp.iface = iface, o.exp.member = member, o.exp.dest = dest;
        o.exp.body = body;
        o.noReply = flags & 1;
        o.wantCb = true;
        if (o.noReply)
            probe(P_noreply_call);
        finishOut(id, *m, dest);
        auto ok = okCb(cid, id);
        auto er = errCb(cid, id);
        b.out = id;
        b.send = [m, dest, ok, er](DBus::Native& n) { n.sendMethodCall(dest, *m, ok, er); };
        break;
    }
    case O_RETURN: {
        int id = newOut(c, tok, ref::RETURN);
        std::shared_ptr<M::MethodReturn> m;
        {
            InLib l;
            m = std::make_shared<M::MethodReturn>(replyTo);
            for (auto& x : gen)
                m->addParameter(x);
        }
        Out& o = outs[id];
        o.exp.type = ref::RETURN;
        o.exp.dest = dest;
        o.exp.hasReply = true;
        o.exp.replySerial = replyTo;
        o.exp.body = body;
        finishOut(id, *m, dest);
        b.out = id;
        b.send = [m, dest](DBus::Native& n) { n.sendMethodReturn(dest, *m); };
        break;
    }
    case O_ERROR: {
        int id = newOut(c, tok, ref::ERROR);
        std::string text = ref::rndStr(g, 60), name = fresh("com.example.Error.E" + std::to_string(g.below(50)));
        std::shared_ptr<M::Error> m;
        {
            InLib l;
            m = std::make_shared<M::Error>(replyTo, name, text);
        }
        Out& o = outs[id];
        o.exp.type = ref::ERROR;
        o.exp.dest = dest;
        o.exp.errname = name;
        o.exp.hasReply = true;
        o.exp.replySerial = replyTo;
        o.exp.body.push_back(ref::mkS(text));
        finishOut(id, *m, dest);
        b.out = id;
        b.send = [m, dest](DBus::Native& n) { n.sendError(dest, *m); };
        break;
    }
    case O_SIGNAL:
    case O_BCAST: {
        int id = newOut(c, tok, ref::SIGNAL);
        std::shared_ptr<M::Signal> m;
        {
            InLib l;
            m = std::make_shared<M::Signal>(M::MethodCallIdentifier(path, iface, member));
            for (auto& x : gen)
                m->addParameter(x);
        }
        if (kind == O_BCAST)
            dest = "";
        Out& o = outs[id];
        o.exp.type = ref::SIGNAL;
        o.exp.path = path, o.exp.iface = iface, o.exp.member = member, o.exp.dest = dest;
        o.exp.body = body;
        finishOut(id, *m, dest);
        b.out = id;
        if (kind == O_BCAST)
            b.send = [m](DBus::Native& n) { n.broadcastSignal(*m); };
        else
            b.send = [m, dest](DBus::Native& n) { n.sendSignal(dest, *m); };
        break;
    }
    }
    return b;
}
static void countSent(Conn& c, int type)
{
    switch (type) {
    case ref::CALL: c.sentCalls++; break;
    case ref::RETURN: c.sentReturns++; break;
    case ref::ERROR: c.sentErrors++; break;
    case ref::SIGNAL: c.sentSignals++; break;
    }
}
// runs one sending API call under the send oracles
static void guardedSend(Conn& c, int id, const std::function<void()>& f, bool mayWait)
{
    Out& o = outs[id];
    o.pre = !c.begun;
    o.inv = seqno();
    if (activeSends++ > 0)
        probe(P_concurrent_sends);
    if (c.cbThread >= 0 && c.cbThread != self())
        probe(P_send_while_handler_runs);
    if (c.stalled)
        probe(P_send_while_stalled);
    if (c.lost || c.writeFailed)
        probe(P_send_after_loss);
    if (c.peer && c.peer->sock && clientBacklog(c.peer->sock) > 0)
        probe(P_send_while_backlog);
    if (o.pre)
        probe(P_presend_queued);
    if (!c.begun && c.peer && c.peer->okSent)
        probe(P_send_during_flush_window);
    countSent(c, o.type);
    logev("send c%d out%d type%d", c.id, id, o.type);
    u64 j0 = selfJump();
    try {
        InLib l;
        f();
    } catch (const std::exception& e) {
        VIOL(ctx(c, "P01 P02 P13 P14"), "send-threw", "a send call threw: %s", e.what());
    } catch (...) {
        VIOL(ctx(c, "P01 P02 P13 P14"), "send-threw", "a send call threw an unknown exception");
    }
    u64 dj = selfJump() - j0;
    --activeSends;
    outs[id].ret = seqno();
    if (!mayWait && dj >= 100 * MS)
        VIOL(ctx(c, "P14"), "send-blocked", "a send call by thread %d kept its caller blocked for %llu ms of simulated time", self(), (unsigned long long)(dj / MS));
}
static void sendMsg(Conn& c, int kind, u64 tok, u32 replyTo = 0, int depth = 0)
{
    Built b = makeMsg(c, kind, tok, replyTo, depth);
    if (b.out < 0)
        return;
    DBus::Native* n = c.native;
    auto s = b.send;
    Gen g(ref::mix2(tok, 0xde1a));
    if (c.cbThread != self() && g.p(0.1))
        sleepFor(g.range(1, 60) * US); // created now, sent later: serials and stream order differ
    guardedSend(c, b.out, [&] { s(*n); }, false);
}
static void sendConv(Conn& c, u64 tok, int depth = 0)
{
    Gen g(ref::mix2(tok, 99));
    int k = (int)g.below(9);
    if (k < 3) {
        if (c.usedConv.count(k))
            k = 8;
        else
            c.usedConv.insert(k);
    }
    int id = newOut(c, tok, ref::CALL);
    Out& o = outs[id];
    o.depth = depth;
    o.conv = true;
    o.wantCb = true;
    o.exp.type = ref::CALL;
    o.exp.path = "/org/freedesktop/DBus";
    o.exp.iface = "org.freedesktop.DBus";
    o.exp.dest = "org.freedesktop.DBus";
    std::string arg = "com.example.N" + std::to_string(id);
    u32 fl = 0;
    static const char* mem[] = { "Hello", "ListNames", "ListActivatableNames", "GetConnectionUnixProcessID", "GetConnectionUnixUser", "RequestName", "ReleaseName", "ListQueuedOwners", "NameHasOwner" };
    o.exp.member = mem[k];
    if (k >= 3)
        o.exp.body.push_back(ref::mkS(arg));
    if (k == 5) {
        fl = (u32)g.below(8);
        o.exp.body.push_back(ref::mkU(fl));
    }
    o.key = o.exp.member + "|" + (k >= 3 ? arg : "");
    c.convQ[o.key].push_back(id);
    probe(P_convenience_call);
    auto ok = okCb(c.id, id);
    auto er = errCb(c.id, id);
    DBus::Native& n = *c.native;
    guardedSend(
        c, id, [&] {
            switch (k) {
            case 0: n.callHello(ok, er); break;
            case 1: n.callListNames(ok, er); break;
            case 2: n.callListActivatableNames(ok, er); break;
            case 3: n.callGetUnixProcessId(arg, ok, er); break;
            case 4: n.callGetConnectionUnixUser(arg, ok, er); break;
            case 5: n.callRequestName(arg, fl, ok, er); break;
            case 6: n.callReleaseName(arg, ok, er); break;
            case 7: n.callListQueuedOwners(arg, ok, er); break;
            default: n.callNameHasOwner(arg, ok, er); break;
            }
        },
        false);
}

// ------------------------------------------------------ registrations --------
static void runActions(Conn& c, u64 tok, int depth, u32 callSerial, int regKind, int regName, const M::Base* src, int inj);
// messages a handler kept a copy of, to be looked at when everything is over
struct Kept {
    int conn, inj;
    std::shared_ptr<M::Base> m;
};
static std::vector<Kept> kept;
template <class Msg>
static void keep(Conn& c, int inj, const Msg& m)
{
    if (P->prof.soak || inj < 0 || c.inj[inj].opaque || kept.size() > 12 || ref::mix2(c.inj[inj].tok, 0x6ee9) % 8)
        return;
    std::shared_ptr<M::Base> k;
    {
        InLib l;
        k = std::make_shared<Msg>(m);
    }
    kept.push_back({ c.id, inj, k });
    probe(P_message_kept);
}

struct CbScope {
    Conn& c;
    bool outer;
    int reg;
    int inj;
    CbScope(Conn& cc, int inj_, int reg_)
        : c(cc)
        , reg(reg_)
        , inj(inj_)
    {
        outer = c.cbThread < 0;
        if (outer)
            c.cbThread = self();
        c.running++;
        if (reg >= 0) {
            c.regs[reg].running++;
            c.regs[reg].runThread = self();
        }
    }
    ~CbScope()
    {
        if (outer)
            c.cbThread = -1;
        c.running--;
        if (reg >= 0)
            c.regs[reg].running--;
        if (inj >= 0)
            c.inj[inj].doneSeq = seqno();
    }
};
static int enter(Conn& c, const M::Base& m, int kind, const char* what)
{
    u32 serial = m.getSerial();
    u64 s = seqno();
    if (c.firstRxSeq == FAR)
        c.firstRxSeq = s;
    progress();
    logev("dispatch c%d %s serial %u", c.id, what, serial);
    probe(P_handler_invoked);
    if (c.destroyed)
        VIOL("P12", "callback-after-destroy", "a %s callback ran after the destruction of its connection had returned", what);
    if (c.destroying)
        probe(P_destroy_during_callback);
    if (c.cbThread >= 0)
        VIOL(ctx(c, "P04 P16"), "overlapping-dispatch", "a %s callback started while another callback of the same connection was still running", what);
    auto it = c.bySerial.find(serial);
    bool wild = c.wildAt != FAR && c.peer->readTotal > c.wildAt;
    if (it == c.bySerial.end()) {
        if (!wild)
            VIOL(ctx(c, "P04 P06 P10"), "phantom-message", "a %s with serial %u was dispatched, but the peer never sent such a message", what, serial);
        return -1;
    }
    Inj& j = c.inj[it->second];
    if (j.start >= c.wildAt)
        return -1;
    // a mutated message may carry the serial of another one
    if (wild && (it->second < c.lastIdx || j.mustNot || j.m.type != kind || j.m.iface != m.getHeaderInterface() || j.m.member != m.getHeaderMember() || j.m.path != m.getHeaderPath() || (j.calls && kind != ref::SIGNAL)))
        return -1;
    if (j.mustNot)
        VIOL(ctx(c, j.end == FAR ? "P04 P13" : "P10"), "bogus-dispatch", "a %s (serial %u) was dispatched although %s", what, serial, j.end == FAR ? "it never arrived completely" : "it is not a valid message of the stream");
    if (c.peer->readTotal < j.end)
        VIOL(ctx(c, "P04"), "early-dispatch", "a %s was dispatched before its last byte had been received (%llu of %llu)", what, (unsigned long long)c.peer->readTotal, (unsigned long long)j.end);
    if (it->second < c.lastIdx)
        VIOL(ctx(c, "P04"), "out-of-order-dispatch", "a %s (message %d of the stream) was dispatched after message %d", what, it->second, c.lastIdx);
    // nothing that happens elsewhere may delay a connection on which nothing blocks
    if (P->cfg.pStop == 0 && !afflicted(c)) {
        auto& a = c.peer->arrivals;
        while (!a.empty() && a.front().first < j.end)
            a.pop_front();
        if (!a.empty() && waited() > a.front().second + 50 * MS)
            VIOL(ctx(c, kind == ref::CALL || kind == ref::SIGNAL ? "P04" : "P04 P07"), "delayed-dispatch", "a %s on a healthy connection was dispatched %llu ms after it had been received, although nothing on that connection blocks", what, (unsigned long long)((waited() - a.front().second) / MS));
        probe(P_prompt_dispatch);
    }
    c.lastIdx = std::max(c.lastIdx, it->second);
    j.calls++;
    return it->second;
}
static void checkParams(Conn& c, const M::Base& m, const ref::Msg& e, const char* what)
{
    if (m.getParameterCount() != e.body.size()) {
        VIOL(ctx(c, "P06"), "wrong-parameter-count", "%s: %zu parameters were sent, %zu delivered", what, e.body.size(), (size_t)m.getParameterCount());
        return;
    }
    for (size_t i = 0; i < e.body.size(); ++i)
        try {
        Val v;
        std::string err;
        if (!fromGeneric(m.getParameter(i), v, err)) {
            VIOL(ctx(c, "P06"), "undecodable-parameter", "%s parameter %zu (%s sent): %s", what, i, ref::show(e.body[i]).c_str(), err.c_str());
            return;
        }
        if (!ref::eq(v, e.body[i])) {
            VIOL(ctx(c, "P06"), "wrong-parameter", "%s parameter %zu: sent %s, delivered %s", what, i, ref::show(e.body[i]).c_str(), ref::show(v).c_str());
            return;
        }
        if (!accessorOk(m.getParameter(i), e.body[i], err)) {
            VIOL(ctx(c, "P06"), "wrong-accessor", "%s parameter %zu: sent %s, accessor returns %s", what, i, ref::show(e.body[i]).c_str(), err.c_str());
            return;
        }
        if (P->logLevel < 4)
            T::toString(m.getParameter(i));
        } catch (const std::exception& x) {
            VIOL(ctx(c, "P06"), "accessor-threw", "%s parameter %zu: %s was sent, reading it throws: %s", what, i, ref::show(e.body[i]).c_str(), x.what());
        }
}
static void checkHeader(Conn& c, const M::Base& m, const ref::Msg& e, const char* what)
{
#define HF(name, got, want)                                                                                                                    \
    if ((got) != (want))                                                                                                                       \
        VIOL(ctx(c, "P06"), "wrong-header", "%s: " name " is '%s', the peer sent '%s'", what, std::string(got).c_str(), std::string(want).c_str());
    HF("path", m.getHeaderPath(), e.path)
    HF("interface", m.getHeaderInterface(), e.iface)
    HF("member", m.getHeaderMember(), e.member)
    HF("sender", m.getHeaderSender(), e.sender)
    HF("destination", m.getHeaderDestination(), e.dest)
#undef HF
    if (m.getSerial() != e.serial)
        VIOL(ctx(c, "P06"), "wrong-header", "%s: serial is %u, the peer sent %u", what, m.getSerial(), e.serial);
    if (m.getReplySerial() != (e.hasReply ? e.replySerial : 0))
        VIOL(ctx(c, "P06"), "wrong-header", "%s: reply serial is %u, the peer sent %u", what, m.getReplySerial(), e.hasReply ? e.replySerial : 0);
    if (m.isReplyExpected() != !(e.flags & 1) && e.type == ref::CALL)
        VIOL(ctx(c, "P06"), "wrong-header", "%s: reply-expected flag is %d, the peer sent flags %d", what, (int)m.isReplyExpected(), e.flags);
    checkParams(c, m, e, what);
}
static void onMethod(int conn, int reg, const M::MethodCall& m)
{
    OutLib l;
    Conn& c = *C[conn];
    int i = enter(c, m, ref::CALL, "method call");
    CbScope sc(c, i, reg);
    Reg& r = c.regs[reg];
    if (r.unRet != FAR)
        VIOL(ctx(c, "P08"), "handler-after-unregister", "the handler of %s was invoked after its unregistration had returned", nm(r.name).c_str());
    if (i >= 0) {
        Inj& j = c.inj[i];
        if (j.m.type != ref::CALL || (!j.anyName && j.m.iface + "." + j.m.member != nm(r.name)))
            VIOL(ctx(c, "P08"), "wrong-handler", "the handler of %s was invoked for %s.%s", nm(r.name).c_str(), j.m.iface.c_str(), j.m.member.c_str());
        if (++j.by[reg] > 1 || j.calls > 1)
            VIOL(ctx(c, "P04 P08"), "duplicate-dispatch", "the call %s (serial %u) invoked handlers %d times", nm(r.name).c_str(), j.m.serial, j.calls);
        if (!j.opaque)
            checkHeader(c, m, j.m, "method call");
        if (m.getFullName() != nm(r.name))
            VIOL(ctx(c, "P06 P08"), "wrong-header", "full name is %s", m.getFullName().c_str());
        u64 tok = j.tok;
        int d = j.depth;
        u32 s = j.m.serial;
        keep(c, i, m);
        runActions(c, tok, d, s, 0, r.name, &m, i);
    }
}
static void onSignal(int conn, int reg, const M::Signal& m)
{
    OutLib l;
    Conn& c = *C[conn];
    int i = enter(c, m, ref::SIGNAL, "signal");
    CbScope sc(c, i, reg);
    Reg r = c.regs[reg];
    std::string who = r.kind == 2 ? "the rule " + rules[r.name].text : "the signal handler of " + nm(r.name);
    if (r.unRet != FAR)
        VIOL(ctx(c, "P09"), "handler-after-unregister", "%s was invoked after its removal had returned", who.c_str());
    if (i >= 0) {
        Inj& j = c.inj[i];
        bool ok = j.m.type == ref::SIGNAL && (r.kind == 2 ? rules[r.name].matches(j.m) : j.m.iface + "." + j.m.member == nm(r.name));
        if (!ok && !j.anyName)
            VIOL(ctx(c, "P09"), "wrong-handler", "%s was invoked for signal %s.%s path=%s sender=%s destination=%s", who.c_str(), j.m.iface.c_str(), j.m.member.c_str(), j.m.path.c_str(), j.m.sender.c_str(), j.m.dest.c_str());
        else if (r.kind == 2)
            probe(P_rule_matched);
        if (r.kind == 2 && rules[r.name].ns == j.m.path)
            probe(P_namespace_exact);
        int times = ++j.by[reg];
        for (auto& x : j.by)
            if (x.first != reg && c.regs[x.first].kind == r.kind && c.regs[x.first].name == r.name && c.regs[x.first].unInv == FAR)
                ++times; // two live registrations of the same name: one of them is to be invoked
        if (times > 1)
            VIOL(ctx(c, "P04 P09"), "duplicate-dispatch", "%s was invoked %d times for one signal (serial %u)", who.c_str(), times, j.m.serial);
        if (!j.opaque)
            checkHeader(c, m, j.m, "signal");
        u64 tok = ref::mix2(j.tok, r.kind * 100 + r.name);
        int d = j.depth;
        keep(c, i, m);
        runActions(c, tok, d, 0, r.kind, r.name, &m, i);
    }
}
static void onReply(int conn, int out, const M::Base& m, bool isErr)
{
    OutLib l;
    Conn& c = *C[conn];
    int i = enter(c, m, isErr ? ref::ERROR : ref::RETURN, isErr ? "error" : "method return");
    CbScope sc(c, i, -1);
    (isErr ? outs[out].nErr : outs[out].nOk)++;
    Out& o = outs[out];
    if (o.nOk + o.nErr > 1)
        VIOL(ctx(c, "P07"), "duplicate-callback", "the callbacks of one call (serial %u) ran %d times", o.serial, o.nOk + o.nErr);
    if (o.noReply)
        VIOL(ctx(c, "P07"), "callback-without-reply", "a callback ran for a call sent without expecting a reply");
    if (i >= 0) {
        Inj& j = c.inj[i];
        if (j.m.type != (isErr ? ref::ERROR : ref::RETURN))
            VIOL(ctx(c, "P07"), "wrong-callback-kind", "the %s callback ran for a message of type %d", isErr ? "failure" : "success", j.m.type);
        if (j.m.replySerial != o.serial || j.forOut != out)
            VIOL(ctx(c, "P07"), "wrong-call", "the callback of call serial %u ran for a reply to serial %u", o.serial, j.m.replySerial);
        else if (!o.replies.empty() && o.replies[0] != i)
            VIOL(ctx(c, "P07"), "not-first-reply", "the callback of call serial %u did not get the first valid reply", o.serial);
        if (o.ret == FAR)
            probe(P_reply_before_send_returns);
        for (int k : c.outs)
            if (k < out && outs[k].wantCb && !outs[k].noReply && outs[k].wire && !(outs[k].nOk + outs[k].nErr)) {
                probe(P_out_of_order_reply);
                break;
            }
        if (isErr)
            probe(P_error_reply);
        if (!j.opaque) {
            checkHeader(c, m, j.m, isErr ? "error" : "method return");
            if (isErr) {
                auto& e = (const M::Error&)m;
                std::string want = !j.m.body.empty() && j.m.body[0].t == 's' ? j.m.body[0].s : "";
                if (e.getMessage() != want)
                    VIOL(ctx(c, "P06 P07"), "wrong-error-text", "error text is '%s', the peer sent '%s'", e.getMessage().substr(0, 60).c_str(), want.substr(0, 60).c_str());
                if (e.getSerialOfReply() != j.m.replySerial)
                    VIOL(ctx(c, "P06 P07"), "wrong-header", "getSerialOfReply is %u", e.getSerialOfReply());
            } else if (((const M::MethodReturn&)m).m_SerialReplyingTo != j.m.replySerial)
                VIOL(ctx(c, "P06 P07"), "wrong-header", "m_SerialReplyingTo is wrong");
        }
        u64 tok = j.tok;
        int d = o.depth;
        if (isErr)
            keep(c, i, (const M::Error&)m);
        else
            keep(c, i, (const M::MethodReturn&)m);
        runActions(c, tok, d, 0, -1, -1, &m, i);
    }
}
// What the library is given to call: an object with state, as a user's would be.
// It notices being destroyed while it runs.
static const u32 LIVE = 0x600dca11;
struct Canary {
    volatile u32 magic = LIVE;
    std::string text = "some captured text that does not fit into the object itself";
    Canary() {}
    Canary(const Canary& o)
        : text(o.text)
    {
    }
    Canary& operator=(const Canary&) { return *this; }
    ~Canary() { magic = 0xdead; }
};
template <class Msg, class F>
struct Functor {
    F f;
    Canary can;
    const char* tags;
    int conn;
    void check() const
    {
        if (can.magic != LIVE)
            VIOL(ctx(*C[conn], tags), "callable-destroyed", "a callback was destroyed by the library while it was running");
    }
    void operator()(const Msg& m) const
    {
        u32 was = can.magic;
        if (was != LIVE)
            VIOL(ctx(*C[conn], tags), "callable-destroyed", "the library invoked a callback it had already destroyed");
        try {
            f(m);
        } catch (...) {
            check();
            throw;
        }
        check();
    }
};
template <class Msg, class F>
static std::function<void(const Msg&)> callable(int conn, const char* tags, F f)
{
    return Functor<Msg, F> { f, Canary(), tags, conn };
}
static std::function<void(const M::MethodReturn&)> okCb(int conn, int out)
{
    return callable<M::MethodReturn>(conn, "P07 P11 P12", [conn, out](const M::MethodReturn& m) { onReply(conn, out, m, false); });
}
static std::function<void(const M::Error&)> errCb(int conn, int out)
{
    return callable<M::Error>(conn, "P07 P11 P12", [conn, out](const M::Error& m) { onReply(conn, out, m, true); });
}

static bool isReg(Conn& c, int kind, int name) { return !c.cur[kind][name].empty(); }
static void apiThrew(Conn& c, const char* tags, const char* what, const char* e) { VIOL(ctx(c, tags), "api-threw", "%s threw: %s", what, e); }
#define API(tags_, api_, ...)                     \
    try {                                        \
        InLib l__;                               \
        __VA_ARGS__;                             \
    } catch (const std::exception& ex_) {          \
        apiThrew(c, tags_, api_, ex_.what());       \
    } catch (...) {                              \
        apiThrew(c, tags_, api_, "?");            \
    }
static void doRegister(Conn& c, int kind, int name)
{
    int id = (int)c.regs.size();
    c.regs.emplace_back();
    c.regs[id].kind = kind;
    c.regs[id].name = name;
    c.regs[id].regInv = seqno();
    c.cur[kind][name].push_back(id);
    int conn = c.id;
    logev("register c%d kind%d name%d reg%d", conn, kind, name, id);
    if (kind == 0) {
        API("P08", "registerMethodCallHandler", c.native->registerMethodCallHandler(nm(name), callable<M::MethodCall>(conn, "P08 P12", [conn, id](const M::MethodCall& m) { onMethod(conn, id, m); })))
    } else {
        API("P09", "registerSignalHandler", c.native->registerSignalHandler(nm(name), callable<M::Signal>(conn, "P09 P12", [conn, id](const M::Signal& m) { onSignal(conn, id, m); })))
    }
    c.regs[id].regRet = seqno();
}
// the registrations of this name end
static std::vector<int> beginUnreg(Conn& c, int kind, int name)
{
    std::vector<int> v = c.cur[kind][name];
    c.cur[kind][name].clear();
    for (int r : v)
        c.regs[r].unInv = seqno();
    if (!v.empty() && c.cbThread >= 0)
        probe(P_unregister_during_dispatch);
    for (int r : v)
        if (c.regs[r].running && c.regs[r].runThread != self())
            probe(P_unregister_blocked_by_handler);
    return v;
}
static void endUnreg(Conn& c, const std::vector<int>& v, const char* tag)
{
    u64 s = seqno();
    for (int r : v) {
        c.regs[r].unRet = s;
        if (c.regs[r].running && c.regs[r].runThread != self())
            VIOL(ctx(c, tag), "still-running", "unregistration by thread %d returned while the handler was still running in thread %d", self(), c.regs[r].runThread);
    }
}
static void doUnregister(Conn& c, int kind, int name)
{
    auto v = beginUnreg(c, kind, name);
    logev("unregister c%d kind%d name%d", c.id, kind, name);
    if (kind == 0) {
        API("P08", "unRegisterMethodCallHandler", c.native->unRegisterMethodCallHandler(nm(name)))
    } else {
        API("P09", "unRegisterSignalHandler", c.native->unRegisterSignalHandler(nm(name)))
    }
    endUnreg(c, v, kind == 0 ? "P08" : "P09");
}
// rules that mean nothing are refused, and nothing is left of them
static void doBadRule(Conn& c, u64 tok)
{
    Gen g(ref::mix2(tok, 0xbad));
    std::string fi, me, r;
    nm((int)g.below(9), &fi, &me);
    std::vector<std::string> keys;
    if (g.p(0.6))
        keys.push_back("type='signal'");
    if (g.p(0.4))
        keys.push_back("interface='" + fi + "'");
    auto put = [&](const std::string& k) { keys.insert(keys.begin() + g.below((u32)keys.size() + 1), k); };
    int kind = (int)g.below(3);
    if (kind == 0) {
        put("path='" + ref::rndPath(g) + "'");
        put("path_namespace='" + (g.p(0.2) ? std::string("/") : ref::rndPath(g)) + "'");
    } else if (kind == 1)
        keys.push_back(g.p(0.5) ? "member" : "arg0");
    else
        keys.push_back("member='" + me);
    for (auto& k : keys)
        r += (r.empty() ? "" : ",") + k;
    int conn = c.id;
    bool refused = false;
    try {
        c.native->callAddMatch(r, callable<M::MethodReturn>(conn, "P09 P12", [](const M::MethodReturn&) {}), callable<M::Error>(conn, "P09 P12", [](const M::Error&) {}),
            callable<M::Signal>(conn, "P09 P12", [conn, r](const M::Signal&) { VIOL(ctx(*C[conn], "P09"), "bad-rule-called", "the handler of the refused rule %s is called", r.c_str()); }));
    } catch (const std::exception&) {
        refused = true;
    }
    probe(P_bad_rule);
    if (!refused)
        VIOL(ctx(c, "P09"), "bad-rule-accepted", "the rule %s is accepted", r.c_str());
}
static void doAddRule(Conn& c, int name, u64 tok)
{
    if (ref::mix2(tok, 0xba) % 6 == 0)
        doBadRule(c, tok);
    if (isReg(c, 2, name))
        return;
    for (int i : c.outs) // another call for the same rule is still under way: the two could not be told apart
        if (outs[i].conv && outs[i].ret == FAR && outs[i].exp.member == "AddMatch" && outs[i].key == "AddMatch|" + rules[name].text)
            return;
    int id = (int)c.regs.size();
    c.regs.emplace_back();
    c.regs[id].kind = 2;
    c.regs[id].name = name;
    c.regs[id].regInv = seqno();
    c.cur[2][name].push_back(id);
    int conn = c.id;
    int oid = newOut(c, tok, ref::CALL);
    Out& o = outs[oid];
    o.conv = o.wantCb = true;
    o.depth = 2;
    o.exp.type = ref::CALL;
    o.exp.path = "/org/freedesktop/DBus";
    o.exp.iface = o.exp.dest = "org.freedesktop.DBus";
    o.exp.member = "AddMatch";
    o.exp.body.push_back(ref::mkS(rules[name].text));
    o.key = "AddMatch|" + rules[name].text;
    c.convQ[o.key].push_back(oid);
    auto ok = okCb(conn, oid);
    auto er = errCb(conn, oid);
    guardedSend(
        c, oid, [&] { c.native->callAddMatch(rules[name].text, ok, er, callable<M::Signal>(conn, "P09 P12", [conn, id](const M::Signal& m) { onSignal(conn, id, m); })); }, true);
    c.regs[id].regRet = seqno();
}
static void doRemoveRule(Conn& c, int name, u64 tok)
{
    auto v = beginUnreg(c, 2, name);
    int oid = newOut(c, tok, ref::CALL);
    Out& o = outs[oid];
    o.conv = true;
    o.noReply = true;
    o.exp.type = ref::CALL;
    o.exp.flags = 1;
    o.exp.path = "/org/freedesktop/DBus";
    o.exp.iface = o.exp.dest = "org.freedesktop.DBus";
    o.exp.member = "RemoveMatch";
    o.exp.body.push_back(ref::mkS(rules[name].text));
    o.key = "RemoveMatch|" + rules[name].text;
    c.convQ[o.key].push_back(oid);
    guardedSend(
        c, oid, [&] { c.native->callRemoveMatch(rules[name].text); }, true);
    endUnreg(c, v, "P09");
}

static std::string doStats(Conn& c)
{
    std::string s;
    API("P17", "getStats", s = c.native->getStats())
    return s;
}

// sends the parameters of a received message on, as they are
static void sendEcho(Conn& c, u64 tok, u32 replyTo, const M::Base& src, const ref::Msg& e, int depth)
{
    Gen g(ref::mix2(tok, 0xec0));
    bool ret = replyTo != 0;
    if (!ret && depth >= 2)
        return;
    int id = newOut(c, tok, ret ? ref::RETURN : ref::SIGNAL);
    Out& o = outs[id];
    o.echo = true;
    o.depth = depth;
    o.exp.type = o.type;
    std::string dest = ret ? ":1.9" : "";
    size_t len = 0;
    for (auto& v : e.body)
        len += ref::sigOf(v).size();
    int lead = std::min((int)g.below(4), 255 - (int)len); // shifts the alignment of what follows
    for (int i = 0; i < lead; ++i)
        o.exp.body.push_back(ref::mkU(i, 'y'));
    for (auto& v : e.body)
        o.exp.body.push_back(v);
    o.exp.dest = dest;
    DBus::Native* n = c.native;
    probe(P_echo);
    if (ret) {
        o.exp.hasReply = true;
        o.exp.replySerial = replyTo;
        std::shared_ptr<M::MethodReturn> m;
        {
            InLib l;
            m = std::make_shared<M::MethodReturn>(replyTo);
            for (int i = 0; i < lead; ++i)
                m->addParameter(T::Byte((uint8_t)i));
            for (size_t i = 0; i < src.getParameterCount(); ++i)
                m->addParameter(src.getParameter(i));
        }
        finishOut(id, *m, dest);
        guardedSend(c, id, [&] { n->sendMethodReturn(dest, *m); }, false);
    } else {
        o.exp.path = "/echo", o.exp.iface = "com.example.Echo", o.exp.member = "Echo";
        std::shared_ptr<M::Signal> m;
        {
            InLib l;
            m = std::make_shared<M::Signal>(M::MethodCallIdentifier("/echo", "com.example.Echo", "Echo"));
            for (int i = 0; i < lead; ++i)
                m->addParameter(T::Byte((uint8_t)i));
            for (size_t i = 0; i < src.getParameterCount(); ++i)
                m->addParameter(src.getParameter(i));
        }
        finishOut(id, *m, dest);
        guardedSend(c, id, [&] { n->broadcastSignal(*m); }, false);
    }
}
static bool crossAllowed = false;
static Conn& target(Conn& c, Gen& g)
{
    if (!crossAllowed || C.size() < 2 || !g.p(P->prof.aCross))
        return c;
    Conn& d = *C[g.below((u32)C.size())];
    if (!d.constructed || d.destroying)
        return c;
    if (&d != &c)
        probe(P_cross_send);
    return d;
}
static void runActions(Conn& c, u64 tok, int depth, u32 callSerial, int regKind, int regName, const M::Base* src, int inj)
{
    Gen g(ref::mix2(tok, 0xac7));
    const Prof& f = P->prof;
    int n = (int)g.below(3) + 1;
    for (int k = 0; k < n; ++k) {
        u64 t2 = tiny(tok) ? tinyTok(tok, 1000 + k) : ref::mix2(tok, 1000 + k);
        if (k == 0 && inj >= 0 && !c.inj[inj].opaque && g.p(f.aEcho)) {
            ref::Msg e = c.inj[inj].m;
            sendEcho(c, t2, callSerial, *src, e, depth + 1);
            continue;
        }
        if (callSerial && k == 0 && g.p(f.aReply)) {
            sendMsg(c, g.p(0.75) ? O_RETURN : O_ERROR, t2, callSerial, depth + 1);
            continue;
        }
        double x = g.unit();
        auto take = [&](double p) {
            bool r = x >= 0 && x < p;
            x -= p;
            return r;
        };
        if (take(f.aNested)) {
            if (depth < 2) {
                probe(P_nested_call);
                if (g.p(0.15))
                    sendConv(target(c, g), t2, depth + 1);
                else
                    sendMsg(target(c, g), O_CALL, t2, 0, depth + 1);
            }
        } else if (take(f.aSignal))
            sendMsg(target(c, g), g.p(0.5) ? O_SIGNAL : O_BCAST, t2);
        else if (take(f.aUnregSelf)) {
            if (regKind >= 0 && regKind < 2 && regName >= 12 && regName < 15) {
                probe(P_handler_self_unregister);
                doUnregister(c, regKind, regName);
                if (g.p(0.3))
                    doRegister(c, regKind, regName);
            }
        } else if (take(f.aReg)) {
            int kd = g.p(0.6) ? 0 : 1, name = 12 + (int)g.below(3);
            if (isReg(c, kd, name) && g.p(0.8))
                doUnregister(c, kd, name);
            else
                doRegister(c, kd, name);
        } else if (take(f.aAddRule))
            doAddRule(c, 12 + (int)g.below(3), t2);
        else if (take(f.aRmRule)) {
            int name = regKind == 2 && regName >= 12 && g.p(0.6) ? regName : 12 + (int)g.below(3);
            if (regKind == 2)
                probe(P_rule_removed_in_handler);
            doRemoveRule(c, name, t2);
        } else if (take(c.id == P->calm ? 0 : f.aThrow)) {
            c.threw = true;
            fault(F_throwing_handler);
            probe(P_callback_threw);
            logev("handler throws");
            throw std::runtime_error("thrown by handler");
        } else if (take(c.id == P->calm ? 0 : f.aThrowInt)) {
            c.threw = true;
            fault(F_throwing_handler);
            probe(P_nonstd_throw);
            logev("handler throws int");
            throw 42;
        } else if (take(c.id == P->calm ? 0 : f.aSlow)) {
            fault(F_slow_handler);
            u64 d = tiny(tok) || g.p(0.6) ? g.range(1, 300) * US : g.range(200, 3000) * MS;
            if (f.longSlow && !tiny(tok) && g.p(0.3) && !c.longSlept) {
                c.longSlept = true; // once: the destructor waits for 30 s at most
                d = g.range(3, 12) * SEC;
            }
            c.sleepEnd = std::max(c.sleepEnd, now()) + d;
            c.slept = true;
            sleepFor(d);
        } else if (take(f.aStats))
            doStats(c);
    }
}

// ------------------------------------------------------------- the peer -------
static void emit(Conn& c, const std::string& bytes)
{
    if (c.lost || !c.peer || c.peer->dead)
        return;
    c.peerOut += bytes.size();
    c.glue += bytes;
}
static std::string hexAt(const std::string& b, size_t at)
{
    std::string r;
    char t[4];
    for (size_t i = at > 8 ? at - 8 : 0; i < b.size() && i < at + 24; ++i) {
        snprintf(t, sizeof t, "%02x", (unsigned char)b[i]);
        r += t;
    }
    return r;
}
static size_t bodyStart(const std::string& d)
{
    u32 n = 0;
    memcpy(&n, d.data() + 4, 4);
    return n < d.size() ? d.size() - n + 8 : 0;
}
static bool holdOut = false; // collecting the data that follows the final server line
static void flushOut(Conn& c, bool all = false)
{
    if (holdOut || c.glue.empty() || !c.peer || !c.peer->sock)
        return;
    std::string b;
    b.swap(c.glue);
    // the end of what was written comes much later than the rest
    if (!all && c.begun && P->prof.pTail > 0 && b.size() > 1 && chance(P->prof.pTail, F_torn_delivery)) {
        size_t k = 1 + drawU((u32)std::min<size_t>(b.size() - 1, 60));
        c.glue = b.substr(b.size() - k);
        b.resize(b.size() - k);
        int id = c.id;
        at(now() + (100ull << drawU(5)) * MS, [id] { flushOut(*C[id], true); });
    }
    peerSend(c.peer->sock, b);
}
static u32 peerSerial(Conn& c)
{
    u32 s = c.nextSerial++;
    if (s >= 0x80000000u)
        probe(P_high_serial);
    return s;
}
static int addInj(Conn& c, const ref::Msg& m, size_t len, u64 tok)
{
    int id = (int)c.inj.size();
    c.inj.emplace_back();
    Inj& j = c.inj.back();
    j.m = m;
    j.tok = tok;
    j.start = c.peerOut;
    j.end = c.peerOut + len;
    j.sentSeq = seqno();
    if (c.wildAt != FAR)
        j.optional = true;
    c.bySerial[m.serial] = id;
    return id;
}
static void decorate(Conn& c, Gen& g, ref::Msg& m)
{
    m.be = c.p->mixEndian ? g.p(0.5) : c.p->bigEndian;
    if (m.be)
        probe(P_big_endian_in);
    m.order = g.p(0.5) ? (u32)g.next() | 1 : 0;
    if (c.p->addExtra && g.p(0.6)) {
        int n = (int)g.range(1, 3);
        for (int i = 0; i < n; ++i) {
            ref::ValCfg vc;
            vc.depth = 2;
            vc.width = 2;
            m.extra.push_back({ (int)g.range(10, 200), g.p(0.5) ? ref::mkS(g.p(P->prof.pBig * 0.1) ? std::string(g.below(150000), 'h') : ref::rndStr(g, 12)) : ref::rndVal(g, vc) });
        }
        if (g.p(0.3))
            m.extra.push_back({ 9, ref::mkU(0) });
    }
}
static int sendInj(Conn& c, const ref::Msg& m, u64 tok)
{
    std::string b = ref::encode(m);
    if (b.size() > 1024)
        probe(P_msg_gt_1k);
    int id = addInj(c, m, b.size(), tok);
    logev("peer sends c%d inj%d type%d serial %u %zu bytes", c.id, id, m.type, m.serial, b.size());
    emit(c, b);
    return id;
}
// a signal that just satisfies or just misses one of the rules
static void nearRule(Gen& g, ref::Msg& m)
{
    const RuleSpec& r = rules[g.below(15)];
    auto twist = [&](std::string& field, const std::string& v, const char* tail) {
        if (v.empty())
            return;
        field = v;
        if (g.p(0.15))
            field += tail;
        else if (g.p(0.1) && v.size() > 4)
            field.pop_back();
    };
    twist(m.sender, r.sender, "5");
    twist(m.iface, r.iface, "B");
    twist(m.member, r.member, "1");
    twist(m.dest, r.dest, "2");
    if (!r.path.empty()) {
        m.path = r.path;
        if (g.p(0.2))
            m.path = r.path == "/" ? "/a" : g.p(0.5) ? r.path + "/a" : r.path + "b";
    } else if (r.ns.size() > 1) {
        switch (g.below(6)) {
        case 0:
            m.path = r.ns;
            break;
        case 1:
            m.path = r.ns + "/z";
            break;
        case 2:
            m.path = r.ns + "z";
            break;
        case 3: // found further on, with a slash where the namespace would end
            m.path = "/" + std::string(r.ns.size() - 1, 'q') + r.ns;
            break;
        case 4:
            m.path = "/q" + r.ns + "/z";
            break;
        default:
            m.path = r.ns.substr(0, r.ns.size() - 1);
            if (m.path.size() > 1 && m.path.back() == '/')
                m.path.pop_back();
            break;
        }
    }
    if (m.member.size() == 0 || m.iface.find('.') == std::string::npos || m.iface.back() == '.')
        nm(0, &m.iface, &m.member);
    probe(P_near_rule);
}
static ref::Msg mkIncoming(Conn& c, const Op& o, Gen& g)
{
    ref::Msg m;
    m.type = o.kind == I_SIGNAL ? ref::SIGNAL : ref::CALL;
    nm(o.name, &m.iface, &m.member);
    m.path = anyPath(g);
    m.sender = senders[g.below(6)];
    m.dest = dests[g.below(5)];
    m.flags = m.type == ref::CALL ? (g.p(0.25) ? 1 : g.p(0.2) ? (int)g.below(8) : 0) : (g.p(0.5) ? 1 : 0);
    if (m.type == ref::SIGNAL && o.name != 20 && g.p(0.3))
        nearRule(g, m);
    m.serial = peerSerial(c);
    genBody(g, m.body, o.tok);
    decorate(c, g, m);
    if (o.name == 20) {
        probe(P_call_unregistered);
        if (m.type == ref::CALL && g.p(0.4))
            m.iface.clear(); // optional in a call; nobody can have registered for it
    }
    return m;
}
static void badBody(Gen& g, ref::Msg& m, std::string& body, std::string& sig)
{
    ref::Enc e;
    e.be = m.be;
    switch (g.below(11)) {
    case 10: { // a short array that claims to be as long as an array may be
        static const char* el[] = { "ay", "ay", "au", "at", "ax", "ad", "ab", "as", "a(yy)", "a{us}", "aay", "av" };
        sig = el[g.below(12)];
        e.num(g.p(0.4) ? 67108864 : g.range(500000, 67108864) & ~7ull, 4);
        if (g.p(0.5))
            e.align(8);
        for (int i = (int)g.below(6); i > 0; --i)
            e.num(0, 4);
        break;
    }
    case 0:
        sig = "s";
        e.num(100 + g.below(100000), 4);
        e.b += "short";
        break;
    case 1:
        sig = "as";
        e.num(g.p(0.5) ? 4000 : 60000000, 4);
        e.str("x");
        break;
    case 2:
        sig = "t";
        e.b = "abc";
        break;
    case 3:
        sig = g.p(0.5) ? "(u" : "u)";
        if (sig == "u)")
            sig = "(us";
        e.num(7, 4);
        break;
    case 4:
        sig = "v";
        e.sig("z");
        e.num(5, 4);
        break;
    case 5:
        sig = g.p(0.5) ? "z" : "az";
        e.num(4, 4);
        e.num(4, 4);
        break;
    case 6:
        sig = "a()";
        e.num(8, 4);
        e.align(8);
        e.num(1, 8);
        break;
    case 7: {
        sig = "v";
        int n = (int)g.range(70, 3000);
        for (int i = 0; i < n; ++i)
            e.sig("v");
        e.sig("y");
        e.b.push_back(1);
        break;
    }
    case 8:
        sig = "uuu";
        e.num(1, 4);
        e.num(2, 4);
        e.b += "xy";
        break;
    default:
        sig = "a{sv}";
        e.num(40, 4);
        e.align(8);
        e.str("key");
        e.sig("s");
        e.num(0x7fffffff, 4);
        e.b += "zz";
    }
    body = e.b;
    logev("undecodable body: signature %.20s, %zu bytes", sig.c_str(), body.size());
}
static void makeHostile(Conn& c, const Op& o)
{
    Gen g(ref::mix2(o.tok, 0xbad));
    Op t = o;
    t.kind = g.p(0.6) ? I_CALL : I_SIGNAL;
    if (t.name > 2)
        t.name = (int)g.below(3);
    ref::Msg m = mkIncoming(c, t, g);
    std::string b;
    switch (o.kind) {
    case I_BADBODY: {
        std::string body, sig;
        badBody(g, m, body, sig);
        b = ref::encodeRaw(m, body, sig);
        int id = addInj(c, m, b.size(), o.tok);
        c.inj[id].mustNot = true;
        fault(F_corrupt_body);
        break;
    }
    case I_BADHDR: {
        fault(F_corrupt_header);
        // a complete valid message hidden where no message can be
        ref::Msg hid = mkIncoming(c, t, g);
        hid.serial = peerSerial(c);
        std::string hidden = ref::encode(hid);
        int k = (int)g.below(5);
        if (k < 2) {
            m.body.clear();
            b = ref::encode(m);
            ref::Enc e;
            e.be = m.be;
            e.b = b;
            e.at32(k == 0 ? 12 : 4, k == 0 ? 0x04000001u + g.below(1u << 30) : 0x08000001u + g.below(1u << 30));
            b = e.b.substr(0, g.p(0.5) ? 16 : e.b.size());
            int pad = (int)g.below(3) * 8;
            b += std::string(pad, 0) + hidden;
        } else {
            ref::Enc e;
            e.be = m.be;
            e.b.push_back(m.be ? 'B' : 'l');
            e.b.push_back((char)m.type);
            e.b.push_back(0);
            e.b.push_back(1);
            e.num(hidden.size(), 4);
            e.num(m.serial, 4);
            e.num(0, 4);
            size_t st = e.b.size();
            e.b.push_back(1);
            if (k == 2) { // unknown type in the variant
                e.sig("z");
                e.str("/a");
            } else if (k == 3) { // string runs past the header
                e.sig("o");
                e.num(100000 + g.below(1000000), 4);
                e.b += "/abc";
            } else { // nested far too deeply
                int n = (int)g.range(80, 3000);
                for (int i = 0; i < n; ++i)
                    e.sig("v");
                e.sig("u");
                e.num(1, 4);
            }
            e.at32(12, (u32)(e.b.size() - st));
            e.align(8);
            b = e.b + hidden;
        }
        int id = addInj(c, hid, b.size(), o.tok);
        c.inj[id].mustNot = true;
        int id2 = addInj(c, m, b.size(), o.tok);
        c.inj[id2].mustNot = true;
        probe(P_frame_error);
        hostileBytes += b.size();
        emit(c, b);
        // what follows may or may not be dispatched
        for (auto& x : c.inj)
            (void)x;
        c.streamBad = true;
        return;
    }
    case I_MUTANT: {
        fault(F_hostile_bytes);
        b = ref::encode(m);
        c.wildAt = std::min(c.wildAt, c.peerOut);
        int n = (int)g.range(1, 5);
        for (int i = 0; i < n; ++i) {
            size_t at = g.p(0.5) ? g.below((u32)std::min<size_t>(b.size(), 120)) : g.below((u32)b.size());
            b[at] = g.p(0.3) ? (char)0xff : g.p(0.3) ? (char)g.below(4) : g.p(0.3) ? "ybnqiuxtdsogav(){}"[g.below(18)] : (char)g.next();
        }
        if (g.p(0.2))
            b.resize(b.size() - g.below((u32)b.size() / 2 + 1));
        break;
    }
    case I_RANDOM: {
        fault(F_hostile_bytes);
        c.wildAt = std::min(c.wildAt, c.peerOut);
        int n = (int)g.range(1, 400);
        for (int i = 0; i < n; ++i)
            b.push_back((char)g.next());
        if (g.p(0.7)) {
            b[0] = g.p(0.5) ? 'l' : 'B';
            if (n > 16)
                for (int i = 5; i < 16; ++i)
                    b[i] = g.p(0.6) ? 0 : (char)g.below(60);
        }
        break;
    }
    case I_DEEP: {
        probe(P_deep_nesting);
        ref::Enc e;
        e.be = m.be;
        std::string sig;
        int k = (int)g.below(6);
        int n = (int)g.range(2, 250);
        if (k == 5) { // known header fields with values of the wrong type
            static const int code[] = { 1, 2, 3, 5, 5, 6, 7, 8, 8 };
            int cnt = (int)g.range(1, 3);
            for (int i = 0; i < cnt; ++i) {
                int cd = code[g.below(9)];
                ref::ValCfg vc;
                vc.depth = 2;
                vc.width = 2;
                m.extra.push_back({ cd, g.p(0.3) ? ref::mkS(g.p(0.5) ? "99999999999999999999" : ref::rndStr(g, 12)) : g.p(0.3) ? ref::mkU(g.next() & 0xffffffff) : ref::rndVal(g, vc) });
            }
            probe(P_odd_header);
            b = ref::encode(m);
            int id = addInj(c, m, b.size(), o.tok);
            c.inj[id].optional = c.inj[id].opaque = c.inj[id].anyName = true;
            break;
        }
        if (k == 0) { // variants in variants, arrays, structs, dictionaries, as deep as one likes
            sig = "v";
            n = g.p(0.5) ? n : g.p(0.5) ? (int)g.range(250, 4000) : (int)g.range(4000, 40000);
            int kind = (int)g.below(6);
            std::vector<std::pair<size_t, size_t>> len;
            for (int i = 0; i < n; ++i) {
                int kd = kind < 4 ? kind : (int)g.below(4);
                static const char* sg[] = { "v", "av", "(v)", "a{yv}" };
                e.sig(sg[kd]);
                if (kd & 1) {
                    e.num(0, 4);
                    size_t at = e.b.size() - 4;
                    if (kd == 3)
                        e.align(8);
                    len.push_back({ at, e.b.size() });
                }
                if (kd == 2)
                    e.align(8);
                if (kd == 3)
                    e.b.push_back(1);
            }
            e.sig("y");
            e.b.push_back(7);
            for (auto& x : len)
                e.at32(x.first, (u32)(e.b.size() - x.second));
        } else if (k == 1) { // arrays of arrays
            sig = std::string(n, 'a') + "y";
            for (int i = 0; i < n; ++i)
                e.num(g.p(0.5) ? 0 : (u64)(n - i - 1) * 4, 4);
        } else if (k == 2) { // structs in structs
            n = n / 2 + 1;
            sig = std::string(n, '(') + "y" + std::string(g.p(0.7) ? n : n / 2, ')');
            e.b = std::string(8, 1);
        } else if (k == 3) { // many elements
            sig = g.p(0.5) ? "ay" : "aay";
            int cnt = (int)g.range(1000, 20000);
            if (sig == "ay") {
                e.num(cnt, 4);
                e.b += std::string(cnt, 'q');
            } else {
                e.num((u64)cnt * 4, 4);
                for (int i = 0; i < cnt; ++i)
                    e.num(0, 4);
            }
        } else { // dict entries and brackets in odd places
            static const char* odd[] = { "{sv}", "a{s}", "a{}", "a{sss}", ")(", "}", "a", "aa", "(a)", "((", "a{s(}", "a{vs}", "()", "a{sa}" };
            sig = odd[g.below(14)];
            e.num(24, 4);
            e.num(0, 4);
            for (int i = 0; i < 6; ++i)
                e.num(g.p(0.5) ? 1 : 0, 4);
        }
        b = ref::encodeRaw(m, e.b, sig);
        int id = addInj(c, m, b.size(), o.tok);
        c.inj[id].optional = true;
        c.inj[id].opaque = true;
        break;
    }
    case I_TRUNC: {
        fault(F_hostile_bytes);
        b = ref::encode(m);
        ref::Enc e;
        e.be = m.be;
        e.b = b;
        e.at32(4, g.p(0.5) ? 0x07f00000u : 5000);
        c.wildAt = std::min(c.wildAt, c.peerOut);
        b = e.b;
        break;
    }
    }
    hostileBytes += b.size();
    emit(c, b);
}
static void lose(Conn& c)
{
    c.lost = true;
    c.lostSeq = seqno();
    if (!c.begun)
        probe(P_loss_during_auth);
    if (c.peer->sock && clientBacklog(c.peer->sock) > 0)
        probe(P_loss_mid_write);
}
static void peerOp(size_t idx)
{
    const Op& o = P->ops[idx];
    Conn& c = *C[o.conn];
    if (!c.peer || !c.peer->sock || c.lost)
        return;
    Sock* s = c.peer->sock;
    Gen g(ref::mix2(o.tok, 0x1c));
    bool msg = o.kind < I_STALLR || o.kind == I_TRUNC;
    if (msg && !c.begun && !c.p->earlyData)
        return;
    logev("peer op %zu %s", idx, kindName[o.kind]);
    switch (o.kind) {
    case I_CALL:
    case I_SIGNAL: {
        if (o.rep > 1)
            probe(P_burst_in);
        for (int i = 0; i < o.rep; ++i) {
            Op t = o;
            if (o.rep > 1)
                t.tok = tinyTok(o.tok, i);
            ref::Msg m = mkIncoming(c, t, g);
            int id = sendInj(c, m, t.tok);
            c.inj[id].name = o.name;
            if (c.streamBad)
                c.inj[id].optional = true;
            if (!o.glue && i % 8 == 7)
                flushOut(c);
        }
        break;
    }
    case I_RETURN:
    case I_ERROR: { // replies nobody asked for
        ref::Msg m;
        m.type = o.kind == I_RETURN ? ref::RETURN : ref::ERROR;
        m.hasReply = true;
        m.serial = peerSerial(c);
        m.replySerial = g.p(0.5) ? 0xfff00000u + g.below(100000) : 0x40000000u + g.below(100000);
        if (g.p(0.3)) { // a serial that belongs to a message which is not an outstanding call
            for (int id : c.outs)
                if (outs[id].serial && (outs[id].type != ref::CALL || outs[id].noReply)) {
                    m.replySerial = outs[id].serial;
                    break;
                }
        }
        bool noSerial = g.p(0.15);
        if (noSerial) // not a valid reply: nothing may happen
            m.hasReply = false;
        else if (C.size() > 1 && g.p(0.5)) { // answers a call of another connection
            for (auto& x : outs)
                if (x.conn != c.id && x.serial && x.type == ref::CALL && x.wantCb && x.nOk + x.nErr == 0) {
                    m.replySerial = x.serial;
                    break;
                }
        }
        if (m.type == ref::ERROR)
            m.errname = "com.example.Error.Odd";
        m.sender = senders[g.below(6)];
        genBody(g, m.body, 0);
        if (m.type == ref::ERROR && g.p(0.7))
            m.body.insert(m.body.begin(), ref::mkS(ref::rndStr(g, 30)));
        decorate(c, g, m);
        int id = sendInj(c, m, o.tok);
        c.inj[id].isReply = true;
        if (noSerial)
            c.inj[id].optional = true;
        fault(F_reply_unknown);
        probe(P_unknown_reply_ignored);
        break;
    }
    case I_UNKNOWN: {
        Op t = o;
        t.kind = I_CALL;
        ref::Msg m = mkIncoming(c, t, g);
        m.type = (int)g.range(5, 255);
        if (g.p(0.5)) {
            m.hasReply = true;
            m.replySerial = g.below(100);
        }
        sendInj(c, m, o.tok);
        probe(P_unknown_type);
        break;
    }
    case I_STALLR: {
        u64 until = o.a ? now() + o.a : NEVER;
        c.stalled = c.everStalled = true;
        if (o.a)
            at(until, [&c] { c.stalled = false; });
        peerStallRead(s, until);
        return;
    }
    case I_STALLW:
        c.everStalled = true;
        peerStallWrite(s, o.a ? now() + o.a : NEVER);
        return;
    case I_CLOSE:
        flushOut(c, true);
        if (c.peer->buf.size() || !c.glue.empty())
            probe(P_loss_mid_message);
        lose(c);
        c.closedByPeer = true;
        peerClose(s);
        return;
    case I_RESET:
        flushOut(c, true);
        lose(c);
        peerReset(s);
        return;
    case I_CLOSEMID: {
        if (!c.begun) {
            flushOut(c);
            peerSend(s, "OK 12");
            c.peerOut += 5;
            lose(c);
            peerClose(s);
            return;
        }
        Op t = o;
        t.kind = I_CALL;
        t.name = (int)g.below(3);
        ref::Msg m = mkIncoming(c, t, g);
        std::string b = ref::encode(m);
        int id = addInj(c, m, b.size(), o.tok);
        c.inj[id].end = FAR;
        c.inj[id].mustNot = true;
        probe(P_loss_mid_message);
        b.resize(1 + g.below((u32)b.size() - 1));
        emit(c, b);
        flushOut(c, true);
        lose(c);
        peerClose(s);
        return;
    }
    default:
        makeHostile(c, o);
        if (c.streamBad || c.wildAt != FAR)
            ;
    }
    if (!o.glue)
        flushOut(c);
}
static bool maskOn(size_t i) { return i >= gmask->size() || (*gmask)[i]; }
// replies to one client call
static void serve(Conn& c, int out)
{
    Out& o = outs[out];
    const Prof& f = P->prof;
    Gen g(ref::mix2(o.tok, 0x5e7));
    auto mk = [&](bool err, int bodyKind, u64 salt) {
        ref::Msg m;
        Gen h(ref::mix2(o.tok, salt));
        m.type = err ? ref::ERROR : ref::RETURN;
        m.hasReply = true;
        m.replySerial = o.serial;
        m.flags = h.p(0.5) ? 1 : 0;
        m.sender = senders[h.below(6)];
        m.dest = dests[h.below(5)];
        if (err)
            m.errname = "com.example.Error.Failed";
        if (bodyKind == 0) {
            if (err) {
                m.body.push_back(ref::mkS(ref::rndStr(h, 50)));
                if (h.p(0.2))
                    genBody(h, m.body, tiny(o.tok) ? o.tok : 0);
            } else
                genBody(h, m.body, o.tok);
        } else if (bodyKind == 2) {
            m.body.push_back(h.p(0.5) ? ref::mkU(h.next() & 0xffffffff) : ref::mkU(h.next(), 't'));
        }
        decorate(c, h, m);
        return m;
    };
    u64 d = g.p(0.5) ? 0 : g.below(60) * US;
    if (g.p(f.rLate)) {
        d = g.range(1, 40) * MS;
        fault(F_reply_late);
    }
    if (tiny(o.tok) && P->seed % 3) // hundreds of calls are outstanding before the first is answered
        d += 500 * US + g.below(P->seed % 2 ? 3000 : 30) * US;
    bool calm = (o.tok & 0xffff) == 0xca1f; // probe traffic: always answered
    if (!calm && g.p(f.rNone)) {
        fault(F_reply_drop);
        return;
    }
    if (o.noReply && !g.p(0.3))
        return; // a wrong reply to a call that expects none, sometimes
    bool err = !calm && g.p(f.rErr);
    int bk = 0;
    if (!calm) {
        if (g.p(f.rNoBody))
            bk = 1;
        else if (err && g.p(f.rOddErr))
            bk = 2;
    }
    bool badFirst = !calm && g.p(f.rBadFirst);
    int dups = !calm && g.p(f.rDup) ? (int)g.range(1, 2) : 0;
    int conn = c.id;
    u64 tok = o.tok;
    auto doSend = [conn, out, tok](ref::Msg m, u64 salt) {
        Conn& c = *C[conn];
        if (c.lost)
            return;
        m.serial = peerSerial(c);
        int id = sendInj(c, m, tiny(tok) ? tinyTok(tok, (int)salt) : ref::mix2(tok, salt));
        c.inj[id].isReply = true;
        c.inj[id].forOut = out;
        c.inj[id].depth = outs[out].depth;
        if (c.streamBad)
            c.inj[id].optional = true;
        if (!tiny(tok))
          for (int k : c.outs)
            if (k < out && outs[k].wantCb && !outs[k].noReply && outs[k].wire && outs[k].replies.empty()) {
                fault(F_reply_reordered);
                break;
            }
        outs[out].replies.push_back(id);
        Gen q(ref::mix2(tok, salt + 5));
        if (!q.p(0.25))
            flushOut(c);
        else
            at(now() + 3 * US, [conn] { flushOut(*C[conn]); });
    };
    if (badFirst) {
        ref::Msg m = mk(err, 0, 41);
        at(now() + d, [conn, m, tok]() mutable {
            Conn& c = *C[conn];
            if (c.lost)
                return;
            Gen h(ref::mix2(tok, 42));
            std::string body, sig;
            m.serial = peerSerial(c);
            badBody(h, m, body, sig);
            std::string b = ref::encodeRaw(m, body, sig);
            int id = addInj(c, m, b.size(), tok);
            c.inj[id].mustNot = true;
            hostileBytes += b.size();
            fault(F_corrupt_body);
            probe(P_body_corrupt_isolated);
            emit(c, b);
            flushOut(c);
        });
        d += 1 * US;
    }
    ref::Msg m = mk(err, bk, 43);
    at(now() + d, [m, doSend] { doSend(m, 44); });
    for (int i = 0; i < dups; ++i) {
        fault(F_reply_dup);
        probe(P_dup_reply_ignored);
        bool e2 = g.p(0.5);
        ref::Msg m2 = mk(e2, 0, 45 + i);
        u64 d2 = d + (g.p(0.5) ? 1 * US : g.below(3000) * US);
        at(now() + d2, [m2, doSend, i] { doSend(m2, 50 + i); });
    }
}

static void begin(Conn& c)
{
    c.begun = true;
    c.beginSeq = seqno();
    probe(P_auth_done);
    logev("c%d BEGIN", c.id);
    for (size_t i = 0; i < P->ops.size(); ++i) {
        const Op& o = P->ops[i];
        if (o.thread == 100 && o.conn == c.id && o.trig == 0 && maskOn(i)) {
            if (c.p->earlyData && o.kind < I_STALLR && o.delay == 0)
                continue; // went out with the final server line
            at(now() + 1 * US + o.delay, [i] { peerOp(i); });
        }
    }
    int id = c.id;
    // anything glued and still pending goes out in the end
    u64 last = 0;
    for (auto& o : P->ops)
        if (o.thread == 100 && o.conn == c.id)
            last = std::max(last, o.delay);
    at(now() + last + 10 * US, [id] { flushOut(*C[id], true); });
    wakeAll(&c.waitObj);
}
static void serverLines(Conn& c, const std::vector<std::string>& lines, u64 delay, const std::string& tail)
{
    std::string all;
    for (auto& l : lines)
        all += l + "\r\n";
    c.authBytes += all.size();
    c.peerOut += all.size();
    int id = c.id;
    if (lines.size() > 1)
        probe(P_auth_multi_line);
    if (c.p->splitLines && all.size() > 2) {
        fault(F_auth_split);
        Gen g(ref::mix2(c.p->hostileTok, all.size()));
        size_t k = 1 + g.below((u32)all.size() - 1);
        if (g.p(0.3))
            k = all.size() - 1; // between CR and LF
        std::string a = all.substr(0, k), b = all.substr(k) + tail;
        at(now() + delay, [id, a] { peerSend(C[id]->peer->sock, a); });
        at(now() + delay + 30 * US, [id, b] { peerSend(C[id]->peer->sock, b); });
    } else {
        std::string a = all + tail;
        at(now() + delay, [id, a] { peerSend(C[id]->peer->sock, a); });
    }
}
// messages that follow the final server line in the same read
static std::string earlyBytes(Conn& c)
{
    std::string r;
    if (!c.p->earlyData)
        return r;
    holdOut = true;
    for (size_t i = 0; i < P->ops.size(); ++i) {
        const Op& o = P->ops[i];
        if (o.thread == 100 && o.conn == c.id && o.trig == 0 && o.delay == 0 && o.kind < I_STALLR && maskOn(i))
            peerOp(i), probe(P_data_after_ok_same_read);
    }
    holdOut = false;
    r.swap(c.glue);
    return r;
}
void BusPeer::authLine(const std::string& l)
{
    Conn& cc = *c;
    const ConnPlan& p = *cc.p;
    cc.clientAuthLines++;
    cc.clientAuthBytes += l.size() + 2;
    logev("c%d auth line '%s'", cc.id, l.substr(0, 60).c_str());
    bool harmless = l.compare(0, 5, "ERROR") == 0 || l == "CANCEL";
    if (p.hostileAuth) {
        if (l == "BEGIN") {
            st = 4;
            begin(cc);
            return;
        }
        if (hostLeft-- > 0) {
            Gen g(ref::mix2(p.hostileTok, hostLeft));
            static const char* odd[] = { "OK\r\n", "OK \r\n", "OK zz\r\n", "OK 1\r\n", "\r\n", "\n", "REJECTED\r\n", "AGREE_UNIX_FD\r\n", "ERROR\r\n", "DATA\r\n", "DATA 00ff\r\n", "\r\n\r\n\r\n", "AUTH\r\n", "CANCEL\r\n", "NEGOTIATE_UNIX_FD\r\n",
                "OK 1234\n", "O", "\r" };
            std::string b;
            int n = (int)g.range(1, 4);
            for (int i = 0; i < n; ++i) {
                int k = (int)g.below(7);
                if (k < 4)
                    b += odd[g.below(18)];
                else if (k == 4)
                    b += std::string(1 + g.below(60000), "A \n\r"[g.below(2)]);
                else if (k == 5)
                    for (int q = (int)g.range(1, 200); q > 0; --q)
                        b.push_back((char)g.next());
                else
                    b += "REJECTED EXTERNAL " + std::string(g.below(5000), 'x') + "\r\n";
            }
            if (g.p(0.3))
                b += "OK 0123456789abcdef\r\n";
            fault(F_hostile_bytes);
            hostileBytes += b.size();
            cc.peerOut += b.size();
            cc.wildAt = 0;
            peerSend(sock, b);
        }
        return;
    }
    switch (st) {
    case 1: {
        if (l == "BEGIN") {
            VIOL(ctx(cc, "P03 P02"), "begin-before-ok", "BEGIN was sent before the server's OK");
            st = 4;
            begin(cc);
            return;
        }
        std::string want = "AUTH EXTERNAL " + hexuid;
        if (l != want) {
            if (!harmless)
                VIOL(ctx(cc, "P03 P02"), "bad-auth-line", "expected '%s', the client sent '%s'", want.c_str(), l.substr(0, 80).c_str());
            return;
        }
        std::vector<std::string> lines = p.noiseBeforeOk;
        if (!lines.empty())
            fault(F_auth_noise);
        if (attempt < p.rejects) {
            ++attempt;
            fault(F_auth_reject);
            lines.push_back(p.mechs);
            u64 end = cc.peerOut;
            for (auto& x : lines)
                end += x.size() + 2;
            okEnd = end; // tells the application once it has been read
            serverLines(cc, lines, p.authDelay, "");
            return;
        }
        if (p.noOk)
            return;
        lines.push_back(p.guid);
        okSent = true;
        cc.okSentSeq = seqno();
        if (p.rejects)
            probe(P_rejected_then_ok);
        st = 2;
        if (p.negotiate)
            serverLines(cc, lines, p.authDelay, "");
        else {
            u64 ab = 0;
            for (auto& x : lines)
                ab += x.size() + 2;
            cc.peerOut += ab;
            std::string t = earlyBytes(cc);
            cc.peerOut -= ab; // accounted again below
            serverLines(cc, lines, p.authDelay, t);
        }
        return;
    }
    case 2:
        if (p.negotiate && !sawNeg) {
            if (l == "NEGOTIATE_UNIX_FD") {
                sawNeg = true;
                probe(P_negotiated);
                std::vector<std::string> lines = p.noiseBeforeAgree;
                lines.push_back(p.agreeKind == 0 ? std::string("AGREE_UNIX_FD") : p.agreeKind == 1 ? std::string("ERROR") : p.errText);
                u64 ab = 0;
                for (auto& x : lines)
                    ab += x.size() + 2;
                cc.peerOut += ab;
                std::string t = earlyBytes(cc);
                cc.peerOut -= ab;
                cc.okSentSeq = seqno();
                serverLines(cc, lines, p.authDelay, t);
                st = 3;
                return;
            }
            if (l == "BEGIN") {
                VIOL(ctx(cc, "P03"), "begin-before-negotiation", "BEGIN was sent although descriptor passing had been requested and not negotiated");
                st = 4;
                begin(cc);
                return;
            }
        } else if (l == "BEGIN") {
            st = 4;
            begin(cc);
            return;
        }
        if (!harmless)
            VIOL(ctx(cc, "P03 P02"), "bad-auth-line", "after OK the client sent '%s'", l.substr(0, 80).c_str());
        return;
    case 3:
        if (l == "BEGIN") {
            st = 4;
            begin(cc);
            return;
        }
        if (!harmless)
            VIOL(ctx(cc, "P03 P02"), "bad-auth-line", "after NEGOTIATE_UNIX_FD the client sent '%s'", l.substr(0, 80).c_str());
        return;
    }
}
void BusPeer::onBytes(const char* p, size_t n)
{
    Conn& cc = *c;
    if (total + n > failedAt)
        VIOL(ctx(cc, "P13 P01"), "write-after-failure", "the client wrote again after a write had failed");
    total += n;
    size_t i = 0;
    while (i < n && st < 4) {
        char ch = p[i++];
        if (st == 0) {
            if (ch != 0)
                VIOL("P03 P02", "no-greeting", "the first octet is %d, not NUL", ch);
            st = 1;
            continue;
        }
        if (ch == '\n' && !line.empty() && line.back() == '\r') {
            line.pop_back();
            std::string l;
            l.swap(line);
            authLine(l);
            continue;
        }
        if ((unsigned char)ch < 32 && ch != '\r' && !cc.p->hostileAuth) {
            VIOL(ctx(cc, "P02 P03 P01"), "data-before-begin", "octet %d was sent before BEGIN (after '%s')", ch, line.substr(0, 40).c_str());
            st = 5;
            return;
        }
        line.push_back(ch);
        if (line.size() > 400 && !cc.p->hostileAuth) {
            VIOL(ctx(cc, "P02 P03 P01"), "data-before-begin", "message data was sent before BEGIN");
            st = 5;
            return;
        }
    }
    if (st == 4 && i < n) {
        buf.append(p + i, n - i);
        frames();
    }
    for (size_t k = 0; k < cc.trig2.size(); ++k) {
        size_t op = cc.trig2[k];
        if (total >= P->ops[op].a) {
            cc.trig2.erase(cc.trig2.begin() + k);
            --k;
            at(now(), [op] { peerOp(op); });
        }
    }
}
void BusPeer::frames()
{
    size_t o = 0;
    bool torn = !buf.empty();
    (void)torn;
    while (!buf.empty() && !dead) {
        std::string err;
        long k = ref::frameSize(buf.data() + o, buf.size() - o, err);
        if (k < 0) {
            VIOL(ctx(*c, "P01 P05 P02"), "stream-corrupt", "the outgoing stream does not continue with a message: %s", err.c_str());
            dead = true;
            break;
        }
        if (k == 0)
            break;
        std::string d = buf.substr(o, k);
        o += k;
        frame(d);
    }
    buf.erase(0, o);
    if (!buf.empty())
        probe(P_msg_torn_across_writes);
}
static std::string msgDiff(const ref::Msg& a, const ref::Msg& e)
{
#define D(f, n) \
    if (a.f != e.f) \
        return std::string(n) + " is '" + a.f + "', should be '" + e.f + "'";
    if (a.type != e.type)
        return "type is " + std::to_string(a.type);
    if (e.type == ref::CALL ? a.flags != e.flags : (a.flags & ~1))
        return "flags are " + std::to_string(a.flags) + ", should be " + std::to_string(e.flags);
    D(path, "path")
    D(iface, "interface")
    D(member, "member")
    D(errname, "error name")
    D(dest, "destination")
    D(sender, "sender")
#undef D
    if (a.hasReply != e.hasReply || a.replySerial != e.replySerial)
        return "reply serial is " + std::to_string(a.replySerial) + ", should be " + std::to_string(e.replySerial);
    if (!a.extra.empty())
        return "an unexpected header field " + std::to_string(a.extra[0].first);
    if (a.body.size() != e.body.size())
        return "the body has " + std::to_string(a.body.size()) + " values, should have " + std::to_string(e.body.size());
    for (size_t i = 0; i < a.body.size(); ++i)
        if (!ref::eq(a.body[i], e.body[i]))
            return "body value " + std::to_string(i) + " is " + ref::show(a.body[i]) + ", should be " + ref::show(e.body[i]);
    return "";
}
// calls made inside the library carry nothing that tells two overlapping ones with the same content apart
static bool hasTwin(Conn& c, int k)
{
    if (!outs[k].conv)
        return false;
    for (int i : c.outs)
        if (i != k && outs[i].conv && outs[i].key == outs[k].key && outs[i].inv < outs[k].ret && outs[k].inv < outs[i].ret)
            return true;
    return false;
}
void BusPeer::frame(const std::string& d)
{
    Conn& cc = *c;
    ref::Dec q(d.data(), d.size(), d[0] == 'B');
    q.o = 8;
    u64 serial = 0;
    q.num(serial, 4);
    int id = -1;
    auto it = outBySerial.find((u32)serial);
    if (it != outBySerial.end() && outs[it->second].conn == cc.id)
        id = it->second;
    ref::Msg m;
    std::string err;
    bool ok = ref::decode(d, m, err);
    if (id < 0) {
        // a message created inside the library (bus calls)
        if (!ok) {
            VIOL(ctx(cc, "P01 P05 P02"), "stream-corrupt", "a %zu-byte message on the wire is invalid: %s", d.size(), err.c_str());
            return;
        }
        std::string key = m.member + "|" + (m.body.empty() || m.body[0].t != 's' ? "" : m.body[0].s);
        auto k = cc.convQ.find(key);
        if (m.type != ref::CALL || k == cc.convQ.end() || k->second.empty()) {
            bool badConv = m.type == ref::CALL && m.dest == "org.freedesktop.DBus";
            VIOL(ctx(cc, badConv ? "P05 P01" : "P01"), "unknown-message", "a message nobody sent is on the wire: type %d %s.%s serial %u", m.type, m.iface.c_str(), m.member.c_str(), m.serial);
            return;
        }
        id = k->second.front();
        k->second.pop_front();
        outs[id].serial = m.serial;
        noteSerial(m.serial, id);
        outBySerial.emplace(m.serial, id);
    }
    Out& o = outs[id];
    if (o.wire) {
        VIOL(ctx(cc, o.pre ? "P01 P02" : "P01"), "duplicate-message", "the message with serial %u was transmitted twice", o.serial);
        return;
    }
    if (!o.raw.empty() && o.raw != d) {
        size_t i = 0;
        while (i < d.size() && i < o.raw.size() && d[i] == o.raw[i])
            ++i;
        VIOL(ctx(cc, o.pre ? "P01 P02" : "P01"), "message-modified", "the message with serial %u differs on the wire from its encoding at byte %zu (of %zu, expected %zu): ..%s, expected ..%s", o.serial, i, d.size(), o.raw.size(), hexAt(d, i).c_str(), hexAt(o.raw, i).c_str());
    }
    if (!ok)
        VIOL(ctx(cc, o.echo ? "P05 P06" : "P05"), "undecodable-message", "the message with serial %u does not decode: %s (signature %s, body ..%s)", o.serial, err.c_str(), o.exp.bodySig().c_str(), hexAt(d, bodyStart(d)).c_str());
    else {
        if (m.emptyField)
            VIOL(ctx(cc, "P05"), "empty-field", "the message with serial %u has a header field (code %d) that is empty: a decoder refuses it", o.serial, m.emptyField);
        std::string df = msgDiff(m, o.exp);
        if (!df.empty())
            VIOL(ctx(cc, o.echo ? "P05 P06" : "P05"), "wrong-content", "message type %d serial %u: %s", o.type, o.serial, df.c_str());
    }
    o.wire = true;
    o.wireSeq = seqno();
    for (int k : cc.outs) {
        Out& x = outs[k];
        if (!x.wire && x.ret < o.inv && !hasTwin(cc, k))
            VIOL(ctx(cc, (o.pre || x.pre) ? "P01 P02" : "P01"), "order", "message serial %u arrived before serial %u, whose send call had returned earlier%s", o.serial, x.serial, x.pre ? " (sent before authentication)" : "");
    }
    logev("c%d wire out%d", cc.id, id);
    if (m.be)
        probe(P_big_endian_in);
    if (o.type == ref::CALL && !cc.lost && ok)
        serve(cc, id);
}
void BusPeer::onClientClosed() { logev("c%d client closed", c->id); }
void BusPeer::onWriteFailed(int)
{
    c->writeFailed = true;
    failedAt = sockTxTotal(sock);
}
void BusPeer::onArrive(size_t n)
{
    arrived += n;
    if (c->begun)
        arrivals.push_back({ arrived, waited() });
}
void BusPeer::onRead(size_t t, bool eof)
{
    Conn& cc = *c;
    size_t before = readTotal;
    readTotal = t;
    if (eof && !cc.lost && !cc.destroying) {
        cc.readFailed = true;
        cc.lost = true;
        wakeAll(&cc.waitObj);
    }
    int n = 0, part = 0;
    for (auto& j : cc.inj) {
        if (j.end > before && j.end <= t)
            ++n;
        if (j.start < t && j.end > t)
            ++part;
    }
    if (n > 1)
        probe(P_many_msgs_one_read);
    if (part)
        probe(P_msg_split_over_reads);
    if (st < 4 && okEnd && readTotal >= okEnd && !okSent) {
        okEnd = 0;
        int id = cc.id;
        at(now() + 50 * US, [id] {
            C[id]->rejected++;
            wakeAll(&C[id]->waitObj);
        });
    }
}

// ------------------------------------------------------- application threads ---
static void doAuth(Conn& c)
{
    c.authCalled = true;
    if (c.p->authSleep)
        sleepFor(c.p->authSleep);
    u64 dl = now() + 20 * SEC;
    for (int a = 0; a <= c.p->rejects; ++a) {
        bool neg = c.p->attemptNeg[a];
        logev("BeginAuth c%d attempt %d", c.id, a);
        API("P03", "BeginAuth", c.native->BeginAuth(neg ? DBus::AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : DBus::AuthenticationProtocol::AUTH_BASIC))
        if (a == c.p->rejects || c.p->hostileAuth)
            break;
        while (c.rejected <= a && !c.lost && now() < dl)
            if (!waitOn(&c.waitObj, now() + 1 * SEC) && c.lost)
                break;
        if (c.rejected <= a) {
            c.authGaveUp = true;
            return;
        }
    }
}
static void runOp(const Op& o)
{
    Conn& c = *C[o.conn];
    if (!c.constructed)
        return;
    if (o.delay)
        sleepFor(o.delay);
    sh->opsRun++;
    if (o.rep > 1) {
        probe(P_burst_out);
        for (int i = 0; i < o.rep && !c.destroyed; ++i)
            if (o.kind == O_CONV)
                sendConv(c, tinyTok(o.tok, i));
            else
                sendMsg(c, o.kind, tinyTok(o.tok, i));
        return;
    }
    switch (o.kind) {
    case O_CALL:
    case O_RETURN:
    case O_ERROR:
    case O_SIGNAL:
    case O_BCAST:
        sendMsg(c, o.kind, o.tok);
        break;
    case O_CONV:
        sendConv(c, o.tok);
        break;
    case O_REGM:
    case O_REGS: {
        int k = o.kind == O_REGM ? 0 : 1;
        Gen g(o.tok);
        if (!isReg(c, k, o.name) || g.p(0.1))
            doRegister(c, k, o.name);
        break;
    }
    case O_UNREGM:
        doUnregister(c, 0, o.name);
        break;
    case O_UNREGS:
        doUnregister(c, 1, o.name);
        break;
    case O_ADDRULE:
        doAddRule(c, o.name, o.tok);
        break;
    case O_RMRULE:
        doRemoveRule(c, o.name, o.tok);
        break;
    case O_SLEEP:
        sleepFor(o.a);
        break;
    case O_STATS:
        if (c.cbThread >= 0)
            probe(P_stats_read_concurrent);
        doStats(c);
        break;
    case O_CREATE: {
        Gen g(o.tok);
        int n = (int)g.range(1, 5);
        for (int i = 0; i < n; ++i) {
            u32 s, s2;
            std::string raw;
            static const M::MethodCallIdentifier id("/a", "b.c", "D");
            {
                InLib l;
                switch (g.below(4)) {
                case 0: {
                    M::MethodCall m(id);
                    s = m.getSerial();
                    M::MethodCall k(m);
                    s2 = k.getSerial();
                    raw = k.marshall("x.y");
                    break;
                }
                case 1: {
                    M::MethodReturn m(5);
                    s = m.getSerial();
                    M::MethodReturn k(m);
                    k.addParameter(T::Uint32(3));
                    s2 = k.getSerial();
                    raw = k.marshall("x.y");
                    break;
                }
                case 2: {
                    M::Signal m(id);
                    s = m.getSerial();
                    M::Signal k(m);
                    s2 = k.getSerial();
                    raw = k.marshall("");
                    break;
                }
                default: {
                    M::Error m(5, "a.b.C", "text");
                    s = m.getSerial();
                    M::Error k(m);
                    s2 = k.getSerial();
                    raw = k.marshall("x.y");
                }
                }
            }
            noteSerial(s, -1);
            probe(P_serial_concurrent);
            ref::Dec q(raw.data(), raw.size(), false);
            q.o = 8;
            u64 ws = 0;
            q.num(ws, 4);
            if (s2 != s || ws != s)
                violation("P15", "serial-changed", "a message created with serial %u carries %u after a copy and %llu in its encoding", s, s2, (unsigned long long)ws);
        }
        break;
    }
    }
}
static int liveApp = 0;
static char joinObj;
static void* appThread(void* a)
{
    int t = (int)(long)a;
    for (size_t i = 0; i < C.size(); ++i)
        if (C[i]->p->authThread == t + 1 && C[i]->constructed) {
            probe(P_beginauth_late);
            doAuth(*C[i]);
        }
    for (size_t i : threadOps[t])
        runOp(P->ops[i]);
    --liveApp;
    wakeAll(&joinObj);
    return nullptr;
}

// -------------------------------------------------------------- end checks ----
static bool healthy(Conn& c) { return c.constructed && !c.destroyed && !c.lost && !c.writeFailed && !c.readFailed; }

static void checkIncoming(Conn& c, const char* when)
{
    if (!c.begun)
        return;
    // a registration gap is only judged when the dispatch position is certain
    std::vector<u64> doneAfter(c.inj.size() + 1, FAR); // earliest time a later message had been dispatched
    for (size_t i = c.inj.size(); i-- > 0;) {
        doneAfter[i] = doneAfter[i + 1];
        if (c.inj[i].doneSeq != FAR && c.inj[i].doneSeq < doneAfter[i])
            doneAfter[i] = c.inj[i].doneSeq;
    }
    for (size_t i = 0; i < c.inj.size(); ++i) {
        Inj& j = c.inj[i];
        if (j.optional || j.mustNot || j.end > c.peer->readTotal || j.start >= c.wildAt)
            continue;
        u64 by = doneAfter[i + 1]; // surely dispatched before this moment
        auto must = [&](const Reg& r) { return r.regRet < j.sentSeq && (r.unInv == FAR || r.unInv > by); };
        if (j.m.type == ref::CALL || j.m.type == ref::SIGNAL) {
            // group registrations by name: at least one of the live ones is to be invoked
            std::string full = j.m.iface + "." + j.m.member;
            int kind = j.m.type == ref::CALL ? 0 : 1;
            bool need = false, got = false;
            for (size_t r = 0; r < c.regs.size(); ++r) {
                Reg& x = c.regs[r];
                if (x.kind == kind && nm(x.name) == full) {
                    need |= must(x);
                    got |= j.by.count((int)r) > 0;
                }
                if (kind == 1 && x.kind == 2 && must(x) && !rules[x.name].matches(j.m))
                    probe(P_rule_not_matched);
                if (kind == 1 && x.kind == 2 && rules[x.name].matches(j.m) && must(x) && !j.by.count((int)r)) {
                    // an earlier callback for the same signal may legitimately have thrown or removed the rule
                    if (!c.threw)
                        VIOL(ctx(c, "P04 P09"), "missed-signal", "%s: the rule %s was not invoked for signal %s path=%s sender=%s destination=%s (serial %u)", when, rules[x.name].text.c_str(), full.c_str(), j.m.path.c_str(), j.m.sender.c_str(), j.m.dest.c_str(), j.m.serial);
                }
            }
            bool params = j.name < 3 && j.m.body.size(); // perhaps it could not be decoded
            if (need && !got)
                VIOL(ctx(c, kind ? params ? "P04 P09 P06" : "P04 P09" : params ? "P04 P08 P06" : "P04 P08"), "missed-message", "%s: %s %s (serial %u, message %zu of the stream, complete) was never dispatched to its handler", when, kind ? "signal" : "call", full.c_str(), j.m.serial, i);
        } else if (j.isReply && j.forOut >= 0) {
            Out& o = outs[j.forOut];
            if (!o.noReply && o.nOk + o.nErr == 0 && !o.replies.empty() && o.replies[0] == (int)i)
                VIOL(ctx(c, j.m.body.size() ? "P07 P04 P06" : "P07 P04"), "missed-reply", "%s: the %s to call serial %u was received but its callback never ran", when, j.m.type == ref::ERROR ? "error" : "return", o.serial);
        }
    }
}
static void checkOutgoing(Conn& c, const char* when)
{
    if (!c.begun)
        return;
    if (healthy(c) && !c.destroying) {
        for (int k : c.outs) {
            Out& o = outs[k];
            if (o.inv && !o.wire)
                VIOL(ctx(c, o.pre ? "P01 P02 P14" : "P01 P14"), "message-lost", "%s: a message accepted from thread %d (type %d, serial %u%s) was never transmitted", when, o.thread, o.type, o.serial, o.pre ? ", sent before authentication" : "");
        }
        if (!c.peer->buf.empty())
            VIOL(ctx(c, "P01 P14"), "incomplete-message", "%s: %zu bytes of an incomplete message remain on the stream", when, c.peer->buf.size());
    } else if (!c.peer->buf.empty() && !c.peer->dead) {
        // the peer must have seen a prefix of a message
        bool okp = false;
        for (int k : c.outs) {
            Out& o = outs[k];
            if (o.wire)
                continue;
            if (o.raw.empty() || o.raw.compare(0, c.peer->buf.size(), c.peer->buf) == 0) {
                okp = true;
                break;
            }
        }
        if (!okp)
            VIOL(ctx(c, "P01 P13"), "bad-tail", "%s: the stream ends with %zu bytes that are no prefix of any pending message", when, c.peer->buf.size());
    }
}
static void checkAuth(Conn& c)
{
    if (c.p->hostileAuth || c.lost || c.writeFailed || c.readFailed || !c.constructed || c.p->noOk || !c.authCalled || c.destroyed)
        return;
    if (c.authGaveUp && (c.everStalled || sh->faults[F_process_stop]))
        return;
    if (!c.begun)
        VIOL(ctx(c, "P03"), "auth-stuck", "the server completed its part of the dialogue (attempt %d, ok sent %d, negotiation %d) but BEGIN was never sent", c.peer->attempt, (int)c.peer->okSent, c.p->negotiate);
}
static bool statVal(const std::string& s, const char* key, u64& v)
{
    size_t p = s.find(std::string(" ") + key + ": ");
    if (p == std::string::npos)
        return false;
    v = strtoull(s.c_str() + p + strlen(key) + 3, nullptr, 10);
    return true;
}
static void checkStats(Conn& c)
{
    if (!healthy(c) || !c.begun || c.wildAt != FAR || c.streamBad || c.p->hostileAuth)
        return;
    std::string s = doStats(c);
    probe(P_stats_checked);
    u64 rc = 0, rr = 0, re = 0, rs = 0;
    for (auto& j : c.inj) {
        if (j.optional || j.mustNot)
            return; // not a clean stream
        switch (j.m.type) {
        case ref::CALL: ++rc; break;
        case ref::RETURN: ++rr; break;
        case ref::ERROR: ++re; break;
        case ref::SIGNAL: ++rs; break;
        }
    }
    u64 lo = 0, hi = 0;
    for (int k : c.outs) {
        Out& o = outs[k];
        if (!o.inv)
            continue;
        if (o.ret < c.okSentSeq)
            ++lo;
        if (o.inv < std::min(c.firstRxSeq, c.outs.empty() ? FAR : FAR) && o.inv < c.beginSeq)
            ++hi;
        else if (o.inv < c.firstRxSeq) {
            // a send made between the BEGIN line and the end of the flush may still be queued
            bool evidence = false;
            for (int q : c.outs)
                if (outs[q].wire && outs[q].wireSeq < o.inv)
                    evidence = true;
            if (!evidence)
                ++hi;
        }
    }
    struct {
        const char* key;
        u64 lo, hi;
    } t[] = {
        { "count_sent_methodcalls", c.sentCalls, c.sentCalls },
        { "count_sent_methodreturns", c.sentReturns, c.sentReturns },
        { "count_sent_errors", c.sentErrors, c.sentErrors },
        { "count_sent_signals", c.sentSignals, c.sentSignals },
        { "count_receive_methodcalls", rc, rc },
        { "count_receive_methodreturns", rr, rr },
        { "count_receive_errors", re, re },
        { "count_receive_signals", rs, rs },
        { "bytes_auth", c.authBytes, c.authBytes },
        { "bytes_message", c.peer->readTotal - c.authBytes, c.peer->readTotal - c.authBytes },
        { "bytes_read", c.peer->readTotal, c.peer->readTotal },
        { "bytes_sent", c.peer->total - 1, c.peer->total },
        { "count_messages_queued", lo, hi },
        { "count_messages_pumped", lo, hi },
    };
    u64 q = 0, pm = 0;
    for (auto& x : t) {
        u64 v = 0;
        if (!statVal(s, x.key, v)) {
            VIOL(ctx(c, "P17"), "missing-statistic", "the statistics do not report %s", x.key);
            continue;
        }
        if (v < x.lo || v > x.hi)
            VIOL(ctx(c, "P17"), "wrong-statistic", "%s is %llu, the history says %llu%s", x.key, (unsigned long long)v, (unsigned long long)x.lo, x.lo != x.hi ? " or more" : "");
        if (!strcmp(x.key, "count_messages_queued"))
            q = v;
        if (!strcmp(x.key, "count_messages_pumped"))
            pm = v;
    }
    if (q != pm)
        VIOL(ctx(c, "P17"), "wrong-statistic", "%llu messages were queued before authentication but %llu pumped after it", (unsigned long long)q, (unsigned long long)pm);
}
static void checkIdle(const char* when)
{
    for (Conn* c : C) {
        if (!c->constructed || c->destroyed || !c->peer)
            continue;
        checkAuth(*c);
        checkOutgoing(*c, when);
        checkIncoming(*c, when);
        if (healthy(*c) && c->begun) {
            if (peerBacklog(c->peer->sock) != 0 && c->wildAt == FAR && !c->streamBad)
                VIOL(ctx(*c, "P04 P14"), "stopped-reading", "%s: %zu received bytes are waiting but the library no longer reads", when, peerBacklog(c->peer->sock));
            if (clientBacklog(c->peer->sock) != 0)
                violation("P99", "harness", "peer backlog at idle");
        }
    }
}

static void construct(Conn& c, const std::string& path, bool expectOk)
{
    int fd0 = openFds(), th0 = libThreads();
    bool failed = false;
    u64 s0 = sh->faults[F_socket_fail] + sh->faults[F_epoll_create_fail] + sh->faults[F_eventfd_fail] + sh->faults[F_epoll_ctl_fail] + sh->faults[F_thread_fail] + sh->faults[F_connect_other];
    try {
        InLib l;
        c.native = new DBus::Native(path);
    } catch (const std::exception& e) {
        failed = true;
        logev("construction failed");
    } catch (...) {
        failed = true;
        violation("P18", "odd-exception", "a failed construction threw something not derived from std::exception");
    }
    u64 s1 = sh->faults[F_socket_fail] + sh->faults[F_epoll_create_fail] + sh->faults[F_eventfd_fail] + sh->faults[F_epoll_ctl_fail] + sh->faults[F_thread_fail] + sh->faults[F_connect_other];
    if (failed) {
        probe(P_ctor_failed);
        if (openFds() != fd0)
            violation("P18", "descriptor-leak", "a failed construction left %d descriptor(s) open", openFds() - fd0);
        if (libThreads() != th0)
            violation("P18", "thread-leak", "a failed construction left %d thread(s) behind", libThreads() - th0);
        if (expectOk && s0 == s1 && !(c.lost || c.writeFailed))
            violation("P18 P12", "construction-failed", "construction failed although nothing was wrong");
    } else {
        c.constructed = true;
        if (!c.peer)
            violation("P18", "no-connection", "construction reported success without a connection");
    }
}
static void destroy(Conn& c)
{
    if (!c.constructed || c.destroyed)
        return;
    c.destroying = true;
    logev("destroy c%d", c.id);
    if (!c.begun)
        probe(P_destroy_before_auth);
    if (c.peer->sock && clientBacklog(c.peer->sock))
        probe(P_destroy_with_backlog);
    if (c.lost)
        probe(P_destroy_peer_gone);
    if (pendingEvents())
        probe(P_destroy_mid_traffic);
    for (int k : c.outs)
        if (outs[k].wantCb && outs[k].nOk + outs[k].nErr == 0) {
            probe(P_destroy_pending_calls);
            break;
        }
    u64 j0 = selfJump(), t0 = now(), se0 = c.sleepEnd;
    (void)se0;
    try {
        InLib l;
        delete c.native;
        c.native = nullptr;
    } catch (...) {
        VIOL(ctx(c, "P12"), "destructor-threw", "the destructor threw");
    }
    u64 dj = selfJump() - j0;
    u64 allow = 10 * SEC + (c.sleepEnd > t0 ? c.sleepEnd - t0 : 0);
    c.destroyed = true;
    if (dj > allow)
        VIOL(ctx(c, "P12"), "slow-destruction", "destroying the connection took %llu ms of simulated time", (unsigned long long)(dj / MS));
    if (c.running)
        VIOL(ctx(c, "P12"), "callback-during-return", "a callback was still running when destruction returned");
    if (c.peer->sock && sockOpen(c.peer->sock))
        VIOL(ctx(c, "P12"), "descriptor-leak", "the socket is still open after destruction");
}

void prewarm()
{
    char b[64];
    snprintf(b, sizeof b, "%d %.3f", 5, 1.5);
    std::string s = std::to_string(12345);
    DBus::Log::setLevel(99);
    try {
        throw std::runtime_error("warm");
    } catch (...) {
    }
    try {
        throw 1;
    } catch (...) {
    }
    DBus::Utils::isAlignedTo(8, 8);
    earlySerials = new std::set<u32>;
    DBus::Message::MethodCallIdentifier mid("/a", "b.c", "D");
    for (int i = 0; i < 40; ++i)
        earlySerials->insert(M::MethodCall(mid).getSerial());
    // one encoding and one decoding, so that lazily created C++ runtime state exists
    Gen g(5);
    Val v = ref::mkU(7);
    Val w;
    std::string e;
    fromGeneric(viaDecode(v), w, e);
    std::string hx;
    DBus::Utils::ConvertBinaryToHexString(hx, "12");
}

static void makeRules()
{
    std::set<std::string> seen;
    for (int i = 0; i < 15; ++i)
        for (int salt = 0;; ++salt) {
            Gen g(ref::mix2(P->seed, 7000 + i * 100 + salt));
            RuleSpec r;
            std::string fi, me;
            nm((int)g.below(9), &fi, &me);
            std::vector<std::string> keys;
            auto add = [&](const char* k, std::string& field, const std::string& v) {
                field = v;
                // quotes are optional, and may enclose any part of the value
                size_t cut = g.below((u32)v.size() + 1);
                keys.push_back(std::string(k) + "=" + (g.p(0.8) ? "'" + v + "'" : g.p(0.6) ? v : v.substr(0, cut) + "'" + v.substr(cut) + "'"));
            };
            if (g.p(0.75))
                add("type", r.type, g.p(0.93) ? "signal" : g.p(0.6) ? "method_call" : g.p(0.5) ? "method_return" : "error");
            if (g.p(0.4))
                add("sender", r.sender, senders[g.below(5)]);
            if (g.p(0.45))
                add("interface", r.iface, fi);
            if (g.p(0.35))
                add("member", r.member, me);
            if (g.p(0.5)) {
                if (g.p(0.5))
                    add("path", r.path, ref::rndPath(g));
                else
                    add("path_namespace", r.ns, ref::rndPath(g));
            }
            if (g.p(0.15))
                add("destination", r.dest, dests[g.below(3)]);
            if (g.p(0.4)) // in any order
                for (size_t k = keys.size(); k > 1; --k)
                    std::swap(keys[k - 1], keys[g.below((u32)k)]);
            if (r.type == "method_call" || r.type == "method_return" || r.type == "error" || (r.type.empty() && g.p(0.2))) {
                // values with commas, backslashes and quotes, in rules that some other constraint rejects anyway
                static const char* args[] = { "arg0='\\'", "arg0='a,b'", "arg1=\\'", "arg0=''\\'''", "arg2='C:\\'", "arg0path='/a,b/'", "arg0='type=signal,'", "arg0='it'\\''s'", "arg3=\\", "arg0=',',arg1='\\',arg2=','", "arg0namespace='com.example'" };
                if (r.type.empty())
                    add("type", r.type, "error");
                for (int n = (int)g.below(3); n > 0; --n)
                    keys.insert(keys.begin() + g.below((u32)keys.size() + 1), args[g.below(11)]);
            }
            if (!keys.empty() && g.p(0.1))
                keys.insert(keys.begin() + g.below((u32)keys.size() + 1), "eavesdrop='false'");
            std::string t, sep = g.p(0.15) ? ", " : ",";
            for (auto& k : keys)
                t += (t.empty() ? "" : sep) + k;
            bool any = !keys.empty();
            r.text = t;
            if (!any || !seen.insert(t).second)
                continue;
            rules[i] = r;
            break;
        }
}

static ssize_t sinkWrite(void*, const char*, size_t n) { return (ssize_t)n; }
// ------------------------------------------------------------- memory ---------
// Equal amounts of traffic, again and again: what the library holds must level off.
// Capacities of buffers may grow a few times, so a few windows that each hold more
// than the one before only raise a suspicion, which many more windows have to confirm.
static void soakWindow(Conn& c);
static void freshWindow(Conn& c);
static void streamWindow(Conn& c);
static void churn(int w);
template <class F> static void repeatWork(const char* what, u64 least, F window)
{
    const size_t screen = 6, full = 24;
    std::vector<u64> v;
    // always more than before, by about the same except where the capacity of something grew
    auto rising = [&](size_t from) {
        std::vector<u64> d;
        for (size_t i = from; i < v.size(); ++i)
            d.push_back(v[i] > v[i - 1] ? v[i] - v[i - 1] : 0);
        std::sort(d.begin(), d.end());
        return d[0] >= least && d[d.size() / 2] <= 8 * d[0];
    };
    while (v.size() < full) {
        window((int)v.size());
        v.push_back(libLive());
        if (v.size() >= screen && !rising(3))
            break;
    }
    std::string h;
    for (u64 x : v)
        h += " " + std::to_string(x);
    logev("memory %s:%s", what, h.c_str());
    if (v.size() == full)
        violation("P22", "memory-growth", "%s: the library's memory grows with every repetition of the same work; bytes held after each:%s", what, h.c_str());
}
static void soakWindow(Conn& c)
{
    for (int i = 0; i < 6; ++i) {
        u64 tok = ref::mix2(P->seed, 0x50a0 + i);
        Gen g(tok);
        auto peerMsg = [&](int kind, int name) {
            Op o;
            o.conn = c.id;
            o.kind = kind;
            o.name = name;
            Gen h(ref::mix2(tok, kind));
            ref::Msg m = mkIncoming(c, o, h);
            int id = sendInj(c, m, ref::mix2(tok, 50 + kind));
            (void)id;
        };
        sendMsg(c, O_CALL, (tok & ~0xffffull) | 0xca1f);
        sendConv(c, ref::mix2(tok, 8) | 1);
        sendMsg(c, g.p(0.5) ? O_RETURN : O_ERROR, tok + 1);
        sendMsg(c, O_BCAST, tok + 2);
        int nm = g.p(0.5) ? (int)g.below(3) : 12 + (int)g.below(3);
        peerMsg(I_CALL, nm);
        peerMsg(I_SIGNAL, nm);
        if (g.p(0.5))
            peerMsg(I_CALL, 20);
        flushOut(c);
        if (g.p(0.4)) { // an undecodable body
            ref::Msg m;
            m.type = g.p(0.5) ? ref::CALL : ref::SIGNAL;
            m.path = "/a", m.iface = "a.b", m.member = "C";
            m.serial = peerSerial(c);
            std::string body, sig;
            badBody(g, m, body, sig);
            std::string b = ref::encodeRaw(m, body, sig);
            int id = addInj(c, m, b.size(), tok);
            c.inj[id].mustNot = true;
            fault(F_corrupt_body);
            emit(c, b);
            flushOut(c);
        }
        if (g.p(0.5)) { // a reply nobody waits for
            ref::Msg m;
            m.type = g.p(0.5) ? ref::RETURN : ref::ERROR;
            m.hasReply = true;
            m.serial = peerSerial(c);
            m.replySerial = 0xf0000000u + g.below(1000);
            m.errname = m.type == ref::ERROR ? "a.b.C" : "";
            int id = sendInj(c, m, tok + 9);
            c.inj[id].isReply = true;
            flushOut(c);
            fault(F_reply_unknown);
        }
        int dyn = 3 + (int)g.below(2);
        if (isReg(c, 0, dyn))
            doUnregister(c, 0, dyn);
        else
            doRegister(c, 0, dyn);
        if (g.p(0.5)) {
            doAddRule(c, 5, tok + 12);
            doRemoveRule(c, 5, tok + 13);
        }
        if (g.p(0.5))
            doStats(c);
        if (g.p(0.3))
            waitIdle(100 * SEC);
    }
    if (!waitIdle(700 * SEC))
        violation("P14", "no-quiescence", "the connection never became idle: %s", describeThreads().c_str());
}
// Every name, path, sender, destination, error name and rule is one never used before.
static void freshWindow(Conn& c)
{
    for (int i = 0; i < 4; ++i) {
        u64 tok = ref::mix2(P->seed, 0xf4e5 + i);
        Gen g(tok);
        int ctr = freshCtr = c.freshNext++;
        auto peerMsg = [&](int kind, int name, bool rename) {
            Op o;
            o.conn = c.id;
            o.kind = kind;
            o.name = name;
            Gen h(ref::mix2(tok, kind + 100 * rename));
            ref::Msg m = mkIncoming(c, o, h);
            m.path = fresh(m.path);
            if (rename) {
                m.iface = fresh(m.iface);
                m.member = fresh(m.member);
            }
            if (!m.sender.empty())
                m.sender = fresh(m.sender);
            if (!m.dest.empty())
                m.dest = fresh(m.dest);
            sendInj(c, m, ref::mix2(tok, 50 + kind));
            flushOut(c);
        };
        sendMsg(c, O_CALL, (tok & ~0xffffull) | 0xca1f);
        sendMsg(c, O_RETURN, tok + 1);
        sendMsg(c, O_ERROR, tok + 2);
        sendMsg(c, g.p(0.5) ? O_SIGNAL : O_BCAST, tok + 3);
        peerMsg(I_CALL, 0, true);
        peerMsg(I_SIGNAL, 1, true);
        peerMsg(I_SIGNAL, (int)g.below(12), false);
        { // an error nobody waits for, with a name nobody knows
            ref::Msg m;
            m.type = ref::ERROR;
            m.hasReply = true;
            m.serial = peerSerial(c);
            m.replySerial = 0xf0000000u + (u32)ctr;
            m.errname = fresh("a.b.C");
            m.body.push_back(ref::mkS(fresh("text ")));
            int id = sendInj(c, m, tok + 9);
            c.inj[id].isReply = true;
            flushOut(c);
        }
        int nameA = 300000 + 3 * ctr; // registered, called, and gone again
        for (int kind = 0; kind < 2; ++kind) {
            doRegister(c, kind, nameA);
            peerMsg(kind ? I_SIGNAL : I_CALL, nameA, false);
            if (g.p(0.5))
                waitIdle(100 * SEC);
            doUnregister(c, kind, nameA);
        }
        if (c.freshRule < (int)(sizeof rules / sizeof *rules)) {
            int r = c.freshRule++;
            rules[r].member = fresh("Rule");
            rules[r].text = "type='signal',member='" + rules[r].member + "'";
            doAddRule(c, r, tok + 12);
            if (g.p(0.5))
                waitIdle(100 * SEC);
            ref::Msg m;
            m.type = ref::SIGNAL;
            m.path = "/a", m.iface = "a.b", m.member = rules[r].member;
            m.serial = peerSerial(c);
            sendInj(c, m, tok + 14);
            flushOut(c);
            if (g.p(0.5))
                waitIdle(100 * SEC);
            doRemoveRule(c, r, tok + 13);
        }
    }
    freshCtr = 0;
    if (!waitIdle(700 * SEC))
        violation("P14", "no-quiescence", "the connection never became idle: %s", describeThreads().c_str());
    probe(P_fresh_window);
}
// An endless stream that is never at the end of a message when a read returns.
static void streamWindow(Conn& c)
{
    Gen g(ref::mix2(P->seed, 0x57ea));
    for (int i = 0; i < 12; ++i) {
        ref::Msg m;
        m.type = ref::SIGNAL;
        m.path = "/a", m.iface = "a.b", m.member = "Stream";
        m.serial = peerSerial(c);
        m.body.push_back(ref::mkS(std::string(20 + g.below(2400), 's')));
        sendInj(c, m, ref::mix2(P->seed, i));
        size_t keep = std::min<size_t>(c.glue.size() - 1, 1 + g.below(g.p(0.5) ? 20 : 1000));
        std::string tail = c.glue.substr(c.glue.size() - keep);
        c.glue.resize(c.glue.size() - keep);
        flushOut(c, true);
        c.glue = tail;
        if (!waitIdle(700 * SEC))
            violation("P14", "no-quiescence", "the connection never became idle: %s", describeThreads().c_str());
    }
    probe(P_stream_window);
}
// Much is held for a while, by a peer that does not read or before authentication;
// once it has been delivered, it must be gone.
static void heldWindow()
{
    Gen g(ref::mix2(P->seed, 0x4e1d));
    bool before = g.p(0.5);
    Conn* c = new Conn();
    c->id = (int)C.size();
    c->p = &P->conns[0];
    c->path = "/sim/held";
    c->regs.reserve(2048);
    C.push_back(c);
    listen(c->path, [c]() -> Peer* {
        BusPeer* b = new BusPeer();
        b->c = c;
        c->peer = b;
        return b;
    });
    construct(*c, c->path, true);
    if (!c->constructed)
        return;
    if (!before) {
        doAuth(*c);
        waitIdle(700 * SEC);
        if (!healthy(*c) || !c->begun)
            return;
        sendMsg(*c, O_SIGNAL, tinyTok(P->seed, 0));
        waitIdle(700 * SEC);
        c->stalled = c->everStalled = true;
        peerStallRead(c->peer->sock, NEVER);
    }
    u64 m0 = libLive(), sum = 0;
    int n = (int)g.range(150, 400);
    for (int i = 0; i < n; ++i) {
        M::Signal* m;
        int id = newOut(*c, tinyTok(P->seed, i), ref::SIGNAL);
        std::string text((size_t)g.range(500, 3000), 't');
        {
            InLib l;
            m = new M::Signal(M::MethodCallIdentifier("/a", "a.b", "Held"));
            m->addParameter(T::String(text));
        }
        Out& o = outs[id];
        o.exp.type = ref::SIGNAL;
        o.exp.path = "/a", o.exp.iface = "a.b", o.exp.member = "Held";
        o.exp.body.push_back(ref::mkS(text));
        finishOut(id, *m, "");
        guardedSend(*c, id, [&] { c->native->broadcastSignal(*m); }, false);
        {
            InLib l;
            delete m;
        }
        sum += text.size();
    }
    u64 m1 = libLive();
    if (before)
        doAuth(*c);
    else {
        releaseStalls();
        c->stalled = false;
    }
    if (!waitIdle(700 * SEC))
        violation("P14", "no-quiescence", "the connection never became idle: %s", describeThreads().c_str());
    checkOutgoing(*c, "after much was held");
    u64 m2 = libLive();
    logev("memory held: %llu before, %llu while %llu bytes wait, %llu when they have been delivered", (unsigned long long)m0, (unsigned long long)m1, (unsigned long long)sum, (unsigned long long)m2);
    if (healthy(*c) && c->begun && m1 > m0 + sum / 2 && m2 > m0 + 16384 + sum / 3)
        violation("P22", "delivered-retained", "the library held %llu bytes before and still holds %llu after %llu bytes of messages that had to wait (%s) were delivered", (unsigned long long)m0, (unsigned long long)m2, (unsigned long long)sum,
            before ? "for authentication" : "for the peer to read");
    probe(P_held_window);
    destroy(*c);
}
// What follows a header that no message can have is not the beginning of anything, and is not kept.
static void floodWindow()
{
    Gen g(ref::mix2(P->seed, 0xf10d));
    Conn* c = new Conn();
    c->id = (int)C.size();
    c->p = &P->conns[0];
    c->path = "/sim/flood";
    c->regs.reserve(2048);
    C.push_back(c);
    listen(c->path, [c]() -> Peer* {
        BusPeer* b = new BusPeer();
        b->c = c;
        c->peer = b;
        return b;
    });
    construct(*c, c->path, true);
    if (!c->constructed)
        return;
    doAuth(*c);
    waitIdle(700 * SEC);
    if (!healthy(*c) || !c->begun) {
        destroy(*c);
        return;
    }
    ref::Msg m;
    m.type = ref::SIGNAL;
    m.path = "/a", m.iface = "a.b", m.member = "Flood";
    m.serial = peerSerial(*c);
    m.be = g.p(0.4);
    std::string b = ref::encode(m);
    ref::Enc e;
    e.be = m.be;
    e.b = b;
    bool body = g.p(0.6);
    u32 claim = body ? (g.p(0.5) ? 0xffffffffu - g.below((u32)b.size() + 40) : 0x08000001u + g.below(0xf0000000u)) : g.p(0.5) ? 0xffffffffu - g.below(40) : 0x04000001u + g.below(0xf0000000u);
    e.at32(body ? 4 : 12, claim);
    c->wildAt = 0;
    u64 m0 = libLive(), sum = 0;
    peerSend(c->peer->sock, e.b);
    c->peerOut += e.b.size();
    for (int i = (int)g.range(4, 8); i > 0; --i) {
        std::string t((size_t)g.range(30000, 60000), (char)g.below(256));
        c->peerOut += t.size();
        hostileBytes += t.size();
        sum += t.size();
        peerSend(c->peer->sock, t);
        if (g.p(0.5))
            waitIdle(100 * SEC);
    }
    if (!waitIdle(700 * SEC))
        violation("P14", "no-quiescence", "the connection never became idle: %s", describeThreads().c_str());
    u64 m1 = libLive();
    logev("memory flood: %llu before, %llu after %llu bytes that follow an impossible header", (unsigned long long)m0, (unsigned long long)m1, (unsigned long long)sum);
    if (m1 > m0 + 32768)
        violation("P22 P10", "flood-retained", "the library held %llu bytes before, and %llu after a header that claims %u bytes of %s and %llu more bytes", (unsigned long long)m0, (unsigned long long)m1, claim, body ? "body" : "fields", (unsigned long long)sum);
    probe(P_flood_window);
    destroy(*c);
}
static void churn(int w)
{
    for (int i = 0; i < 4; ++i) {
        Gen g(ref::mix2(P->seed, 0xc4c4 + i));
        Conn* c = new Conn();
        c->id = (int)C.size();
        c->p = &P->conns[0];
        c->path = "/sim/churn" + std::to_string(w) + "." + std::to_string(i);
        c->regs.reserve(2048);
        C.push_back(c);
        if (i == 3 || !g.p(0.8)) { // a connection attempt that fails
            construct(*c, c->path, false);
            continue;
        }
        listen(c->path, [c]() -> Peer* {
            BusPeer* b = new BusPeer();
            b->c = c;
            c->peer = b;
            return b;
        });
        construct(*c, c->path, true);
        doRegister(*c, 0, 0);
        doRegister(*c, 1, 1);
        if (g.p(0.5))
            sendMsg(*c, O_CALL, g.next());
        if (g.p(0.7))
            doAuth(*c);
        if (g.p(0.5))
            sendMsg(*c, O_SIGNAL, g.next());
        if (g.p(0.3)) {
            c->everStalled = true;
            peerStallRead(c->peer->sock, NEVER);
        }
        if (g.p(0.5))
            sendMsg(*c, O_CALL, g.next());
        if (g.p(0.5))
            waitIdle(60 * SEC);
        destroy(*c);
        waitIdle(60 * SEC);
    }
}

void runPlan(const Plan& p, const std::vector<uint8_t>& mask)
{
    P = &p;
    if (p.prof.soak)
        trackMemory();
    if (p.logLevel < 4) { // the logging code runs too; what it writes goes nowhere
        cookie_io_functions_t io = { nullptr, sinkWrite, nullptr, nullptr };
        if (FILE* f = fopencookie(nullptr, "w", io)) {
            stderr = f;
            DBus::Log::setLevel(p.logLevel);
            probe(P_logging_on);
        }
    }
    if (p.serialStart) { // as if the process had made that many messages before
        void* a = dlsym(RTLD_DEFAULT, "_ZN4DBus7Message4Base15m_SerialCounterE");
        Dl_info di;
        const ElfW(Sym)* sym = nullptr;
        if (a && dladdr1(a, &di, (void**)&sym, RTLD_DL_SYMENT) && sym && sym->st_size == 4) {
            *(u32*)a = p.serialStart;
            probe(P_serial_forwarded);
        }
    }
    gmask = &mask;
    sim::simUid = P->uid;
    static const char* allMembers[] = { "M", "M1", "m", "M11", "MaM", "Ma", "Other" };
    std::copy(allMembers, allMembers + 7, memberNames);
    Gen gn(ref::mix2(P->seed, 0x4a3e));
    for (int i = 6; i > 0; --i)
        std::swap(memberNames[i], memberNames[gn.below(i + 1)]);
    hexuid.clear();
    for (char ch : std::to_string(P->uid)) {
        static const char* h = "0123456789abcdef";
        hexuid.push_back(h[(unsigned char)ch >> 4]);
        hexuid.push_back(h[(unsigned char)ch & 15]);
    }
    makeRules();
    if (p.hostile) {
        // generous: everything the harness itself holds plus a large factor on hostile input
        sim::memLimit = liveBytes() + (96u << 20);
        watchBigAllocations();
    }
    threadOps.resize(p.nthreads);
    for (size_t i = 0; i < p.ops.size(); ++i)
        if (p.ops[i].thread >= 0 && p.ops[i].thread < p.nthreads && maskOn(i))
            threadOps[p.ops[i].thread].push_back(i);
    for (size_t i = 0; i < p.conns.size(); ++i) {
        Conn* c = new Conn();
        c->id = (int)i;
        c->p = &p.conns[i];
        c->path = "/sim/bus" + std::to_string(i);
        c->nextSerial = p.conns[i].serial0;
        c->regs.reserve(2048);
        C.push_back(c);
        listen(c->path, [c]() -> Peer* {
            BusPeer* b = new BusPeer();
            b->c = c;
            c->peer = b;
            return b;
        });
        listen(c->path + ".refused", []() -> Peer* { return nullptr; });
    }
    crossAllowed = true;
    for (Conn* c : C)
        if (c->p->destroyEarly || c->p->hostileAuth)
            crossAllowed = false;
    double sys = cfg.pSys;
    for (Conn* c : C) {
        int k = c->p->ctorTry;
        if (k) {
            cfg.pSys = 0;
            if (k == 1)
                construct(*c, "/sim/nowhere", false);
            else if (k == 2)
                construct(*c, c->path + ".refused", false);
            else {
                cfg.pSys = sys;
                construct(*c, c->path, true);
                cfg.pSys = 0;
            }
            if (c->constructed && k < 3)
                violation("P18", "bogus-success", "construction succeeded without a server");
            if (!c->constructed) {
                construct(*c, c->path, true);
                if (c->constructed)
                    probe(P_ctor_retry_ok);
            }
        } else {
            cfg.pSys = 0;
            construct(*c, c->path, true);
        }
    }
    for (Conn* c : C) {
        if (!c->constructed)
            continue;
        for (size_t i = 0; i < p.ops.size(); ++i) {
            const Op& o = p.ops[i];
            if (o.thread != 100 || o.conn != c->id || !maskOn(i))
                continue;
            if (o.trig == 1)
                at(now() + 1 * US + o.delay, [i] { peerOp(i); });
            else if (o.trig == 2)
                c->trig2.push_back(i);
        }
        for (int k = 0; k < 2; ++k) {
            for (int n = 0; n < 3; ++n)
                doRegister(*c, k, n);
            for (int n = 12; n < 15; ++n)
                doRegister(*c, k, n);
        }
    }
    for (size_t i = 0; i < p.ops.size(); ++i)
        if (p.ops[i].thread == -1 && maskOn(i))
            runOp(p.ops[i]);
    for (Conn* c : C)
        if (c->constructed && c->p->authThread < 0)
            doAuth(*c);
    std::vector<pthread_t> th(p.nthreads);
    int n = 0;
    for (int t = 0; t < p.nthreads; ++t) {
        bool need = !threadOps[t].empty();
        for (Conn* c : C)
            need |= c->p->authThread == t + 1;
        if (!need)
            continue;
        liveApp++;
        pthread_create(&th[n++], nullptr, appThread, (void*)(long)t);
    }
    for (Conn* c : C)
        if (c->constructed && c->p->authThread == 0)
            doAuth(*c);
    for (int i = 0; i < n; ++i)
        pthread_join(th[i], nullptr);
    logev("joined");
    for (Conn* c : C)
        if (c->p->destroyEarly) {
            if (c->p->destroyDelay)
                sleepFor(c->p->destroyDelay);
            destroy(*c);
        }
    if (!waitIdle(700 * SEC))
        violation("P14", "no-quiescence", "the connection never became idle: %s", describeThreads().c_str());
    releaseStalls();
    for (Conn* c : C) {
        c->stalled = false;
        flushOut(*c);
    }
    if (!waitIdle(700 * SEC))
        violation("P14", "no-quiescence", "the connection never became idle after the faults stopped: %s", describeThreads().c_str());
    probe(P_idle_reached);
    checkIdle("when everything is idle");
    // the connection must still be usable
    bool probed = false;
    for (Conn* c : C) {
        if (!healthy(*c) || !c->begun || c->wildAt != FAR || c->streamBad)
            continue;
        probed = true;
        u64 tok = (ref::mix2(p.seed, 0x9999 + c->id) & ~0xffffull) | 0xca1f;
        sendMsg(*c, O_CALL, tok);
        if (c->everStalled)
            probe(P_drained_after_stall);
        Op o;
        o.conn = c->id;
        o.kind = I_CALL;
        o.name = 0;
        Gen g(ref::mix2(tok, 3));
        ref::Msg m = mkIncoming(*c, o, g);
        sendInj(*c, m, ref::mix2(tok, 4));
        o.kind = I_SIGNAL;
        ref::Msg m2 = mkIncoming(*c, o, g);
        sendInj(*c, m2, ref::mix2(tok, 5));
        flushOut(*c);
    }
    if (probed) {
        if (!waitIdle(700 * SEC))
            violation("P14", "no-quiescence", "the connection never became idle after the probe: %s", describeThreads().c_str());
        checkIdle("after the probe traffic");
    }
    for (Conn* c : C)
        if (c->constructed && !c->destroyed)
            checkStats(*c);
    if (p.prof.soak && probed && C.size() == 1 && healthy(*C[0]) && C[0]->begun) {
        Gen g(ref::mix2(P->seed, 0x50a1));
        if (g.p(0.5))
            repeatWork("the same traffic repeated on one connection", 24, [](int) { soakWindow(*C[0]); probe(P_soak_window); });
        if (g.p(0.5))
            repeatWork("traffic with ever new names", 24, [](int) { freshWindow(*C[0]); });
        if (g.p(0.5)) {
            u64 m0 = 0, b0 = 0; // capacities may double now and then, but not in proportion to all that was received
            repeatWork("a stream cut inside messages", 24, [&](int w) {
                streamWindow(*C[0]);
                if (w == 1)
                    m0 = libLive(), b0 = C[0]->peerOut;
                else if (w > 4 && libLive() > m0 + (C[0]->peerOut - b0) / 3)
                    violation("P22", "stream-retained", "while %llu bytes of messages were received and dispatched the library's memory grew by %llu bytes, although only the last message is incomplete", (unsigned long long)(C[0]->peerOut - b0), (unsigned long long)(libLive() - m0));
            });
        }
        flushOut(*C[0]);
        waitIdle(700 * SEC);
        checkIdle("after repeated traffic");
    }
    if (p.prof.soak && ref::mix2(P->seed, 0x4e1e) % 3 == 0)
        heldWindow();
    if (p.prof.soak && ref::mix2(P->seed, 0xf10e) % 4 == 0)
        floodWindow();
    for (Conn* c : C)
        destroy(*c);
    if (p.prof.soak && ref::mix2(P->seed, 0xc4c5) % 2) {
        repeatWork("connections made and destroyed repeatedly", 8, [](int w) { churn(w); probe(P_churn_window); });
    }
    // copies of received messages are still what they were
    for (auto& k : kept)
        checkHeader(*C[k.conn], *k.m, C[k.conn]->inj[k.inj].m, "a kept copy of a message");
    {
        InLib l;
        kept.clear();
    }
    if (openFds() != 0)
        violation("P12 P18", "descriptor-leak", "%d descriptor(s) remain after every connection was destroyed", openFds());
    if (libThreads() != 0)
        violation("P12 P18", "thread-leak", "%d library thread(s) remain after every connection was destroyed: %s", libThreads(), describeThreads().c_str());
    // nothing may happen any more
    waitIdle(60 * SEC);
    logev("end");
    sh->finished = 1;
    finishRun(0);
}
} // namespace world
