// Plan generation: one seed -> one complete, deterministic description of a run.
#include "world.h"
#include <algorithm>
#include <cstdio>
#include <cstring>

namespace world {
using namespace sim;

const char* kindName[] = { "call", "return", "error", "signal", "broadcast", "bus-call", "register-method", "unregister-method", "register-signal", "unregister-signal", "add-rule", "remove-rule", "sleep", "stats", "create", "begin-auth",
    "peer-call", "peer-signal", "peer-return", "peer-error", "peer-unknown-type", "peer-bad-body", "peer-bad-header", "peer-mutant", "peer-random", "peer-deep", "peer-stall-read", "peer-stall-write", "peer-close", "peer-reset", "peer-close-mid", "peer-truncated" };

static Prof base()
{
    Prof p;
    std::fill(p.w, p.w + KINDS, 0.0);
    p.w[O_CALL] = 6;
    p.w[O_RETURN] = 1;
    p.w[O_ERROR] = 1;
    p.w[O_SIGNAL] = 2;
    p.w[O_BCAST] = 1;
    p.w[O_CONV] = 1;
    p.w[O_REGM] = 0.7;
    p.w[O_UNREGM] = 0.5;
    p.w[O_REGS] = 0.7;
    p.w[O_UNREGS] = 0.5;
    p.w[O_ADDRULE] = 0.8;
    p.w[O_RMRULE] = 0.5;
    p.w[O_SLEEP] = 1;
    p.w[O_STATS] = 0.3;
    p.w[O_CREATE] = 0.3;
    p.w[I_CALL] = 6;
    p.w[I_SIGNAL] = 5;
    p.w[I_RETURN] = 0.3;
    p.w[I_ERROR] = 0.3;
    p.w[I_UNKNOWN] = 0.4;
    p.w[I_BADBODY] = 0;
    return p;
}

static bool prof(const std::string& id, Prof& p)
{
    p = base();
    p.id = id;
    double* w = p.w;
    if (id == "P01") {
        p.pBurst = 0.06, p.pHuge = 0.02;
        p.maxThreads = 4;
        p.maxOps = 9;
        p.maxPeer = 4;
        w[O_CALL] = 6, w[O_SIGNAL] = 5, w[O_BCAST] = 3, w[O_RETURN] = 3, w[O_ERROR] = 2;
        w[O_REGM] = w[O_UNREGM] = w[O_REGS] = w[O_UNREGS] = 0.1;
        p.pBig = 0.25;
        p.pStall = 0.2;
        p.pPresend = 0.3;
        p.aSignal = 0.3, p.aReply = 0.6;
        p.pNet = 0.7;
    } else if (id == "P02") {
        p.pBurst = 0.08, p.pHuge = 0.01;
        p.maxThreads = 3;
        p.maxOps = 7;
        p.maxPeer = 3;
        w[O_REGM] = w[O_UNREGM] = w[O_REGS] = w[O_UNREGS] = 0.05;
        p.pPresend = 0.95;
        p.pLateAuth = 0.6;
        p.pRejects = 0.2;
        p.pNeg = 0.4;
        p.pLoss = 0.02;
        p.pNoOk = 0.06;
        p.pDestroyEarly = 0.03;
    } else if (id == "P03") {
        p.maxThreads = 2;
        p.maxOps = 3;
        p.maxPeer = 4;
        p.pPresend = 0.6;
        p.pLateAuth = 0.4;
        p.pRejects = 0.4;
        p.pNoise = 0.5;
        p.pNeg = 0.5;
        p.pEarly = 0.4;
        p.pSplit = 0.5;
        p.pNoOk = 0.02;
        p.pLoss = 0.02;
        p.pDestroyEarly = 0.02;
        p.pNet = 0.7;
    } else if (id == "P04") {
        p.pTail = 0.15;
        p.pBurst = 0.06, p.pHuge = 0.02;
        p.maxThreads = 2;
        p.maxOps = 5;
        p.maxPeer = 16;
        p.pDynNames = 0.15;
        w[I_UNKNOWN] = 1.5;
        w[I_CALL] = 8, w[I_SIGNAL] = 8;
        w[I_BADBODY] = 0.15;
        p.pBig = 0.2;
        p.pEarly = 0.25;
        p.pNet = 0.8;
        p.aThrow = 0.03;
    } else if (id == "P05") {
        p.pBurst = 0.02, p.pHuge = 0.03;
        p.maxThreads = 3;
        p.maxOps = 12;
        p.maxPeer = 4;
        p.val.depth = 4;
        p.val.width = 4;
        w[O_CONV] = 4;
        w[O_RETURN] = 4, w[O_ERROR] = 2, w[O_SIGNAL] = 4;
        w[O_ADDRULE] = 2, w[O_RMRULE] = 1.5;
        p.aReply = 0.6;
        p.pNet = 0.2;
        p.pDestroyEarly = p.pLoss = p.pIoFail = 0.01;
    } else if (id == "P06") {
        p.pTail = 0.05;
        p.pBurst = 0.02, p.pHuge = 0.03;
        p.maxThreads = 2;
        p.maxOps = 8;
        p.maxPeer = 14;
        p.val.depth = 4;
        p.val.width = 4;
        p.pDynNames = 0.1;
        p.rErr = 0.35, p.rNoBody = 0.15, p.rOddErr = 0.15;
        p.pNet = 0.3;
        p.pDestroyEarly = p.pLoss = p.pIoFail = 0.01;
    } else if (id == "P07") {
        p.pTail = 0.08;
        p.pBurst = 0.08, p.pHuge = 0.01;
        p.maxThreads = 4;
        p.maxOps = 8;
        p.maxPeer = 4;
        w[O_CALL] = 14, w[O_CONV] = 3, w[I_RETURN] = 3, w[I_ERROR] = 2, w[O_SIGNAL] = 0.5;
        p.aNested = 0.35;
        p.aThrow = 0.08, p.aThrowInt = 0.03;
        p.rNone = 0.08, p.rErr = 0.3, p.rNoBody = 0.15, p.rOddErr = 0.1, p.rDup = 0.35, p.rLate = 0.3, p.rBadFirst = 0.05;
    } else if (id == "P08") {
        p.maxThreads = 3;
        p.maxOps = 8;
        p.maxPeer = 14;
        w[O_REGM] = 8, w[O_UNREGM] = 7, w[I_CALL] = 14, w[I_SIGNAL] = 1, w[O_CALL] = 1, w[O_SLEEP] = 4;
        p.pDynNames = 0.85;
        p.aUnregSelf = 0.3, p.aReg = 0.2, p.aSlow = 0.15;
    } else if (id == "P09") {
        p.maxThreads = 3;
        p.maxOps = 9;
        p.maxPeer = 16;
        w[O_ADDRULE] = 8, w[O_RMRULE] = 5, w[O_REGS] = 4, w[O_UNREGS] = 3, w[I_SIGNAL] = 18, w[I_CALL] = 1, w[O_CALL] = 1, w[O_SLEEP] = 3;
        p.pDynNames = 0.8;
        p.aUnregSelf = 0.15, p.aReg = 0.1, p.aAddRule = 0.25, p.aRmRule = 0.35, p.aSlow = 0.1;
    } else if (id == "P10") {
        p.maxThreads = 2;
        p.maxOps = 5;
        p.maxPeer = 10;
        w[I_BADBODY] = 4, w[I_BADHDR] = 2, w[I_MUTANT] = 2.5, w[I_RANDOM] = 1, w[I_DEEP] = 1.5, w[I_TRUNC] = 0.3;
        p.pHostAuth = 0.25;
        p.rBadFirst = 0.2;
        p.pNet = 0.4;
        p.val.depth = 4;
        p.pPresend = 0.1, p.pLateAuth = 0.05;
        p.pDynNames = 0.1;
    } else if (id == "P11") {
        p.maxThreads = 3;
        p.maxOps = 8;
        p.maxPeer = 12;
        p.aThrow = 0.35, p.aThrowInt = 0.12;
        p.aNested = 0.15;
        p.rDup = 0.3;
        p.pDynNames = 0.3;
        w[O_ADDRULE] = 2;
    } else if (id == "P12") {
        p.pBurst = 0.05, p.pHuge = 0.02;
        p.maxThreads = 2;
        p.maxOps = 6;
        p.maxPeer = 8;
        p.maxConn = 2;
        p.pDestroyEarly = 0.85;
        p.pLateAuth = 0.3;
        p.pPresend = 0.4;
        p.pNoOk = 0.15;
        p.pStall = 0.35;
        p.pLoss = 0.25;
        p.pIoFail = 0.1;
        p.aSlow = 0.25;
        p.longSlow = true;
        p.aNested = 0.2, p.aSignal = 0.2;
        p.pBig = 0.2;
    } else if (id == "P13") {
        p.pTail = 0.08;
        p.pBurst = 0.05, p.pHuge = 0.02;
        p.maxThreads = 3;
        p.maxOps = 8;
        p.maxPeer = 10;
        p.pLoss = 0.6;
        p.pIoFail = 0.5;
        p.pBig = 0.2;
        p.pStall = 0.15;
        p.pDestroyEarly = 0.1;
        p.pDynNames = 0.1;
    } else if (id == "P14") {
        p.pBurst = 0.06, p.pHuge = 0.02;
        p.maxThreads = 4;
        p.maxOps = 9;
        p.maxPeer = 10;
        p.pStall = 0.7;
        p.pBig = 0.3;
        p.aSlow = 0.3, p.aNested = 0.2, p.aSignal = 0.25, p.aReply = 0.5, p.aThrow = 0.05;
        p.pDestroyEarly = 0.03;
        p.pLoss = 0.05;
    } else if (id == "P15") {
        p.maxThreads = 5;
        p.minThreads = 2;
        p.maxConn = 3;
        p.maxOps = 9;
        p.maxPeer = 6;
        w[O_CREATE] = 10, w[O_CONV] = 2;
        w[O_REGM] = w[O_UNREGM] = w[O_REGS] = w[O_UNREGS] = w[O_ADDRULE] = w[O_RMRULE] = w[O_SLEEP] = 0.1;
        p.aReply = 0.7, p.aNested = 0.3;
        p.pLoss = p.pIoFail = 0.02;
        p.raceStress = true;
    } else if (id == "P16") {
        p.maxThreads = 4;
        p.minThreads = 2;
        p.maxOps = 8;
        p.maxPeer = 10;
        p.maxConn = 2;
        w[O_REGM] = w[O_UNREGM] = w[O_REGS] = w[O_UNREGS] = w[O_ADDRULE] = w[O_RMRULE] = 2;
        w[O_STATS] = 2;
        p.pDynNames = 0.6;
        p.pLateAuth = 0.3;
        p.pDestroyEarly = 0.2;
        p.raceStress = true;
    } else if (id == "P17") {
        p.pBurst = 0.05, p.pHuge = 0.01;
        p.maxThreads = 4;
        p.minThreads = 1;
        p.maxOps = 9;
        p.maxPeer = 10;
        w[O_STATS] = 1;
        p.pPresend = 0.5;
        p.pLateAuth = 0.4;
        p.rErr = 0.35;
        p.pDestroyEarly = 0.01;
        p.pLoss = p.pIoFail = 0.01;
        p.pSplit = 0.4;
        p.raceStress = true;
    } else if (id == "P18") {
        p.maxThreads = 1;
        p.maxOps = 3;
        p.maxPeer = 3;
        p.maxConn = 2;
        p.pCtor = 0.9;
        p.pDestroyEarly = 0.2;
        p.pLoss = 0.1;
    } else if (id == "P21") {
        p.pTail = 0.05;
        p.pBurst = 0.04, p.pHuge = 0.01;
        p.maxThreads = 3;
        p.maxConn = 3;
        p.maxOps = 9;
        p.maxPeer = 8;
        p.trouble = true;
        p.pLoss = 0.3, p.pStall = 0.4, p.pIoFail = 0.15, p.pDestroyEarly = 0.2, p.pHostAuth = 0.1;
        p.aSlow = 0.15, p.aThrow = 0.1, p.aNested = 0.3, p.aSignal = 0.2, p.aCross = 0.4;
        w[I_RETURN] = 2, w[I_ERROR] = 1;
        w[I_MUTANT] = 0.4, w[I_RANDOM] = 0.3, w[I_BADHDR] = 0.3, w[I_BADBODY] = 0.3;
        p.rLate = 0.3;
    } else if (id == "P22") {
        p.soak = true, p.pHuge = 0;
        p.maxThreads = 2;
        p.maxOps = 4;
        p.maxPeer = 4;
        p.pBig = 0;
        p.pDestroyEarly = 0, p.pLoss = 0, p.pIoFail = 0, p.pNoOk = 0, p.pStall = 0.2;
        p.rNone = 0, p.rDup = 0.3, p.rLate = 0.1, p.rErr = 0.35, p.rBadFirst = 0.1;
        p.aThrow = 0.12, p.aThrowInt = 0.05, p.aReg = 0.1, p.aUnregSelf = 0.1, p.aAddRule = 0.1, p.aRmRule = 0.1, p.aNested = 0.2;
        p.pDynNames = 0.4;
    } else if (id == "ALL") {
        p.maxThreads = 3;
        p.maxConn = 2;
    } else
        return false;
    return true;
}
bool knownProperty(const std::string& id)
{
    Prof p;
    return prof(id, p);
}

static int pick(Gen& g, const double* w, int a, int b)
{
    double t = 0;
    for (int i = a; i <= b; ++i)
        t += w[i];
    double x = g.unit() * t;
    for (int i = a; i <= b; ++i) {
        x -= w[i];
        if (x < 0)
            return i;
    }
    return a;
}
static double logu(Gen& g, double a, double b) // log-uniform
{
    double u = g.unit();
    double r = a;
    // pow without libm dependence
    double k = b / a;
    int n = 30;
    double step = 1.0;
    // r = a * k^u via binary expansion
    double kk = k;
    (void)step;
    for (int i = 0; i < n && u > 0; ++i) {
        // square root of kk by Newton
        double s = kk > 1 ? kk : 1;
        for (int j = 0; j < 40; ++j)
            s = 0.5 * (s + kk / s);
        kk = s;
        u *= 2;
        if (u >= 1) {
            r *= kk;
            u -= 1;
        }
    }
    return r;
}

Plan makePlan(const std::string& id, u64 seed)
{
    Plan P;
    P.seed = seed;
    prof(id, P.prof);
    Prof& f = P.prof;
    Gen g(ref::mix2(seed, 0x51a9));
    Config& c = P.cfg;

    // ---- scheduler
    if (g.p(0.3)) {
        c.mode = 1;
        c.pctDepth = (int)g.range(1, 6);
        c.pctSteps = (u32)logu(g, 200, 6000);
    } else
        c.pSwitch = g.p(0.15) ? 0 : logu(g, 0.01, 0.6);
    bool race = !strcmp(flavour(), "race");
    if (g.p(f.raceStress ? 0.9 : 0.6))
        c.memGap = (u32)(race ? logu(g, f.raceStress ? 15 : 40, 20000) : logu(g, 40, 30000));
    if (c.mode == 1 && c.memGap && g.p(0.5))
        c.memGap = 0;
    c.pSpurious = g.p(0.15) ? 0.05 : 0;
    c.stepCost = g.p(0.5) ? 500 : g.p(0.5) ? 50 : 5000;
    // ---- network
    if (g.p(f.pNet)) {
        if (g.p(0.5))
            c.pPartial = logu(g, 0.02, 0.8);
        if (g.p(0.5))
            c.pShort = logu(g, 0.02, 0.8);
        if (g.p(0.3))
            c.pEintr = logu(g, 0.01, 0.3);
        if (g.p(0.6))
            c.pSeg = logu(g, 0.02, 0.9);
        if (g.p(0.5))
            c.pDelay = logu(g, 0.05, 0.9);
        if (g.p(0.2))
            c.pSpuriousAgain = logu(g, 0.02, 0.4);
        if (g.p(0.12))
            c.byteMode = true;
        c.delayScale = g.p(0.3) ? 2 * US : g.p(0.5) ? 20 * US : 500 * US;
    }
    if (g.p(0.35))
        c.txCap = (u32)logu(g, 48, 4000);
    else if (g.p(0.3))
        c.txCap = 212992;
    if (g.p(0.2))
        c.rxCap = (u32)logu(g, 16, 3000);

    if (g.p(f.pIoFail)) {
        c.failBudget = 1;
        if (g.p(0.65))
            c.pSendFail = logu(g, 0.02, 0.5);
        else
            c.pRecvFail = logu(g, 0.02, 0.5);
    }
    c.pJump = g.p(0.1) ? 0.01 : 0;
    c.pStop = g.p(0.08) ? logu(g, 0.0005, 0.05) : 0;
    if (g.p(0.12))
        P.logLevel = (int)g.below(4);
    if (g.p(f.pSerial)) {
        static const u32 near[] = { 0x100, 0x8000, 0x10000, 0x1000000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0 };
        P.serialStart = g.p(0.8) ? near[g.below(8)] - 1 - (u32)g.below(12) : 1 + (u32)g.below(0xfffffff0u);
    }
    if (P.logLevel < 2)
        f.pBig = 0; // every byte is logged in hexadecimal
    {
        static const u32 ids[] = { 0, 7, 10, 999, 1000, 65534, 1000000, 0x7fffffffu, 0x80000000u, 0xfffffffeu };
        P.uid = g.p(0.8) ? ids[g.below(10)] : (u32)g.next();
    }
    // one system call per few bytes would make these runs endless
    P.huge = !race && P.logLevel >= 2 && !c.byteMode && (!c.txCap || c.txCap > 3000) && (!c.rxCap || c.rxCap > 1000) && c.pPartial < 0.3 && c.pSeg < 0.3;
    bool burst = g.p(f.pBurst) && P.logLevel >= 2 && !f.soak && !c.byteMode;

    // ---- topology
    int nc = f.maxConn > 1 ? (int)g.range(f.trouble ? 2 : 1, f.maxConn) : 1;
    if (f.trouble)
        P.calm = (int)g.below(nc);
    P.nthreads = (int)g.range(f.minThreads, f.maxThreads);
    bool small = g.p(0.3); // small runs reach deep interleavings cheaply
    for (int i = 0; i < nc; ++i) {
        ConnPlan k;
        k.rejects = g.p(f.pRejects) ? (int)g.range(1, 2) : 0;
        for (int a = 0; a <= k.rejects; ++a)
            k.attemptNeg.push_back(g.p(f.pNeg));
        k.negotiate = k.attemptNeg.back();
        static const char* noise[] = { "INFO hello", "EXTENSION_COM_EXAMPLE 1 2", "FOO", "X", "WELCOME to the bus", "Nothing", "OKAY then", "AGREE_UNIX_FDS", "BEGIN", "REJECTEDLY no",
            // a line ends with CR LF, and with nothing else
            "FOO\nOK 0123456789abcdef", "INFO a\rOK 0123456789abcdef", "X\nAGREE_UNIX_FD", "INFO\nERROR", "X\n", "INFO\rBEGIN\n",
            // words of the client's side mean nothing in the server's mouth
            "AUTH", "AUTH EXTERNAL 30", "CANCEL", "NEGOTIATE_UNIX_FD", "DATA 616263", "DATA",
            // answers that are not due
            "ERROR", "ERROR \"not now\"", "AGREE_UNIX_FD" };
        if (g.p(f.pNoise))
            for (int j = (int)g.range(1, 3); j > 0; --j)
                k.noiseBeforeOk.push_back(noise[g.below(25)]);
        if (g.p(f.pNoise))
            for (int j = (int)g.range(1, 2); j > 0; --j)
                k.noiseBeforeAgree.push_back(noise[g.p(0.3) ? 16 + g.below(6) : g.below(16)]);
        k.guid = "OK ";
        for (int j = 0; j < 32; ++j)
            k.guid += "0123456789abcdef"[g.below(16)];
        k.mechs = "REJECTED EXTERNAL DBUS_COOKIE_SHA1 ANONYMOUS";
        k.errText = "ERROR \"descriptor passing is not supported\"";
        if (g.p(f.pNoise * 0.5)) { // nothing limits a line to the size of one read
            auto lng = [&](std::string& t) {
                int n = (int)logu(g, 30, 6000);
                while ((int)t.size() < n)
                    t += " X-MECHANISM-" + std::to_string(g.below(1000));
            };
            lng(k.mechs);
            lng(k.errText);
            for (auto& t : k.noiseBeforeOk)
                if (g.p(0.5))
                    lng(t);
        }
        k.agreeKind = g.p(0.65) ? 0 : (int)g.range(1, 2);
        k.earlyData = g.p(f.pEarly);
        k.splitLines = g.p(f.pSplit);
        k.authDelay = g.p(0.5) ? 0 : (u64)logu(g, 1000, 5e6);
        k.noOk = g.p(f.pNoOk) && i != P.calm;
        k.hostileAuth = g.p(f.pHostAuth) && i != P.calm;
        k.hostileTok = g.next();
        if (k.hostileAuth)
            P.hostile = true;
        k.destroyEarly = g.p(f.pDestroyEarly) && i != P.calm;
        k.destroyDelay = g.p(0.4) ? 0 : (u64)logu(g, 500, 2e7);
        if (g.p(f.pLateAuth)) {
            k.authThread = (int)g.range(0, P.nthreads);
            k.authSleep = g.p(0.5) ? 0 : (u64)logu(g, 500, 3e6);
        }
        if (g.p(f.pCtor))
            k.ctorTry = (int)g.range(1, 6);
        if (k.ctorTry > 3)
            k.ctorTry = 3;
        k.serial0 = g.p(0.5) ? 1 + g.below(1000) : g.p(0.5) ? 0x7fffff00u + g.below(512) : (u32)g.next() | 0x80000000u;
        if (k.serial0 > 0xfff00000u)
            k.serial0 -= 0x200000;
        k.bigEndian = g.p(0.3);
        k.mixEndian = g.p(0.3);
        k.addExtra = g.p(0.3);
        P.conns.push_back(k);
    }
    if (f.pCtor > 0) {
        c.pSys = logu(g, 0.05, 1.0);
        c.sysBudget = g.range(1, 3);
    }
    // ---- application operations
    for (int t = 0; t < P.nthreads; ++t) {
        int n = (int)g.range(1, small ? std::min(4, f.maxOps) : f.maxOps);
        for (int i = 0; i < n; ++i) {
            Op o;
            o.thread = t;
            o.conn = (int)g.below(nc);
            o.kind = pick(g, f.w, O_CALL, O_CREATE);
            if (o.kind == O_SLEEP)
                o.a = (u32)logu(g, 500, 2e6);
            if (g.p(0.15))
                o.delay = (u64)logu(g, 300, 1e6);
            // dynamic names belong to one thread each
            o.name = 3 + t + P.nthreads * (int)g.below(2);
            o.tok = g.next();
            P.ops.push_back(o);
        }
    }
    // set-up operations (controller, before authentication)
    if (g.p(f.pPresend)) {
        int n = (int)g.range(1, 4);
        for (int i = 0; i < n; ++i) {
            Op o;
            o.thread = -1;
            o.conn = (int)g.below(nc);
            o.kind = pick(g, f.w, O_CALL, O_CONV);
            o.tok = g.next();
            P.ops.push_back(o);
        }
    }
    if (f.w[O_ADDRULE] > 0)
        for (int i = 0; i < nc; ++i)
            for (int r = 0; r < (f.w[O_ADDRULE] > 4 ? 6 : 3); ++r)
                if (g.p(f.w[O_ADDRULE] > 1 ? 0.7 : 0.3)) {
                    Op o;
                    o.thread = -1;
                    o.conn = i;
                    o.kind = O_ADDRULE;
                    o.name = f.w[O_ADDRULE] > 4 ? (r < 3 ? r : 9 + r) : r == 2 ? 12 + (int)g.below(3) : r; // permanent rules and callback-managed ones
                    o.tok = g.next();
                    P.ops.push_back(o);
                }
    if (burst && g.p(0.8)) { // many small messages by one thread, or before authentication
        static const int kinds[] = { O_CALL, O_CALL, O_CALL, O_SIGNAL, O_RETURN, O_CONV };
        for (int n = g.p(0.7) ? 1 : 2; n > 0; --n) {
            Op o;
            o.thread = g.p(f.pPresend * 0.7) ? -1 : (int)g.below(P.nthreads);
            o.conn = (int)g.below(nc);
            o.kind = kinds[g.below(6)];
            o.rep = (int)logu(g, 20, race ? 150 : 1500);
            o.tok = g.next();
            if (o.thread < 0)
                P.ops.push_back(o);
            else
                P.ops.insert(P.ops.begin() + g.below((u32)P.ops.size() + 1), o);
        }
    }
    // ---- peer operations
    for (int i = 0; i < nc; ++i) {
        int n = (int)g.range(small ? 1 : 2, small ? std::min(5, f.maxPeer) : f.maxPeer);
        u64 t = 0;
        double spread = g.p(0.4) ? 0 : logu(g, 1e3, 3e6);
        for (int j = 0; j < n; ++j) {
            Op o;
            o.thread = 100;
            o.conn = i;
            o.kind = pick(g, f.w, I_CALL, I_DEEP);
            if (i == P.calm && o.kind >= I_BADBODY)
                o.kind = I_SIGNAL;
            o.tok = g.next();
            o.glue = g.p(0.35);
            t += (u64)(spread * g.unit());
            o.delay = t;
            // names: permanent 0..2, thread-owned 3.., callback-managed 12..14, unknown 20
            double x = g.unit();
            if (x < f.pDynNames * 0.7)
                o.name = 3 + (int)g.below(2 * P.nthreads);
            else if (x < f.pDynNames)
                o.name = 12 + (int)g.below(3);
            else if (x > 0.97)
                o.name = 20;
            else
                o.name = (int)g.below(3);
            if (o.kind >= I_BADBODY && o.kind <= I_DEEP && o.kind != I_BADBODY)
                P.hostile = true;
            if (o.kind == I_BADBODY || o.kind == I_TRUNC)
                P.hostile = true;
            P.ops.push_back(o);
        }
        if (burst && g.p(0.6)) {
            Op o;
            o.thread = 100;
            o.conn = i;
            o.kind = g.p(0.5) ? I_CALL : I_SIGNAL;
            o.rep = (int)logu(g, 20, race ? 100 : 1000);
            o.name = (int)g.below(3);
            o.tok = g.next();
            o.glue = g.p(0.35);
            o.delay = (u64)(t * g.unit());
            P.ops.push_back(o);
        }
        if (g.p(f.pStall) && i != P.calm) {
            Op o;
            o.thread = 100;
            o.conn = i;
            o.kind = g.p(0.7) ? I_STALLR : I_STALLW;
            o.trig = g.p(0.3) ? 1 : 0;
            o.delay = g.p(0.5) ? 0 : (u64)logu(g, 500, 3e6);
            o.a = g.p(0.5) ? 0 : (u32)logu(g, 1e5, 3e9); // 0 = until released
            o.tok = g.next();
            P.ops.push_back(o);
        }
        if (g.p(f.pLoss) && i != P.calm) {
            Op o;
            o.thread = 100;
            o.conn = i;
            static const int k[] = { I_CLOSE, I_RESET, I_CLOSEMID, I_CLOSEMID };
            o.kind = k[g.below(4)];
            double x = g.unit();
            if (x < 0.55) {
                o.trig = 0;
                o.delay = (u64)logu(g, 500, 4e6);
            } else if (x < 0.8) {
                o.trig = 2;
                o.a = (u32)logu(g, 1, 3000);
            } else {
                o.trig = 1;
                o.delay = (u64)logu(g, 500, 2e6);
            }
            o.tok = g.next();
            P.ops.push_back(o);
        }
    }
    return P;
}

std::string Plan::describe(const std::vector<uint8_t>& mask) const
{
    char b[600];
    std::string r;
    snprintf(b, sizeof b, "threads=%d connections=%zu scheduler=%s switch=%.3f mem-gap=%u sndbuf=%u rcvbuf=%u partial=%.2f short=%.2f eintr=%.2f seg=%.2f delay=%.2f send-fail=%.2f recv-fail=%.2f\n", nthreads, conns.size(),
        cfg.mode ? "pct" : "random", cfg.pSwitch, cfg.memGap, cfg.txCap, cfg.rxCap, cfg.pPartial, cfg.pShort, cfg.pEintr, cfg.pSeg, cfg.pDelay, cfg.pSendFail, cfg.pRecvFail);
    r += b;
    for (size_t i = 0; i < conns.size(); ++i) {
        auto& k = conns[i];
        snprintf(b, sizeof b, "conn %zu: rejects=%d negotiate=%d agree=%d early-data=%d split=%d no-ok=%d hostile-auth=%d destroy-early=%d(+%llu ns) auth-thread=%d ctor=%d\n", i, k.rejects, k.negotiate, k.agreeKind, k.earlyData, k.splitLines,
            k.noOk, k.hostileAuth, k.destroyEarly, (unsigned long long)k.destroyDelay, k.authThread, k.ctorTry);
        r += b;
    }
    for (size_t i = 0; i < ops.size(); ++i) {
        if (i < mask.size() && !mask[i])
            continue;
        auto& o = ops[i];
        snprintf(b, sizeof b, "op %zu: thread %d conn %d %s name=%d delay=%llu a=%u trig=%d%s\n", i, o.thread, o.conn, kindName[o.kind], o.name, (unsigned long long)o.delay, o.a, o.trig, o.glue ? " glued" : "");
        r += b;
        if (o.rep > 1)
            r.insert(r.size() - 1, " times=" + std::to_string(o.rep));
    }
    return r;
}
} // namespace world
