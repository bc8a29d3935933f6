// Simulated world: plans (what a run does), the bus peer, the oracles.
#pragma once
#include "core.h"
#include "ref.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace world {
using ref::Gen;
using ref::u32;
using ref::u64;

enum Kind {
    // application operations
    O_CALL, O_RETURN, O_ERROR, O_SIGNAL, O_BCAST, O_CONV, O_REGM, O_UNREGM, O_REGS, O_UNREGS, O_ADDRULE, O_RMRULE, O_SLEEP, O_STATS, O_CREATE, O_BEGINAUTH,
    // peer operations
    I_CALL, I_SIGNAL, I_RETURN, I_ERROR, I_UNKNOWN, I_BADBODY, I_BADHDR, I_MUTANT, I_RANDOM, I_DEEP, I_STALLR, I_STALLW, I_CLOSE, I_RESET, I_CLOSEMID, I_TRUNC,
    KINDS
};
extern const char* kindName[];

struct Op {
    int thread = 0; // -1 controller before authentication, 0.. application threads, 100 peer
    int conn = 0;
    int kind = 0;
    u64 tok = 0;
    u64 delay = 0; // before the operation (application) or after the trigger (peer)
    int name = 0;  // name / rule index
    u32 a = 0;
    int trig = 0; // peer: 0 = authenticated, 1 = connected, 2 = client bytes >= a
    bool glue = false; // peer: sent in one write with the next message
    int rep = 1;       // so many small messages in a row
};
struct ConnPlan {
    int negotiate = 0;
    std::vector<int> attemptNeg;  // descriptor passing requested at each attempt
    int rejects = 0;
    std::vector<std::string> noiseBeforeOk, noiseBeforeAgree;
    std::string guid, errText, mechs;
    int agreeKind = 0; // 0 AGREE, 1 ERROR, 2 ERROR with text
    bool earlyData = false;
    bool splitLines = false;
    u64 authDelay = 0;
    bool hostileAuth = false;
    u64 hostileTok = 0;
    bool noOk = false; // server never completes
    bool destroyEarly = false;
    u64 destroyDelay = 0;
    u64 authSleep = 0;   // before the controller calls BeginAuth
    int authThread = -1; // -1 controller before spawning, 0 controller after spawning, n>0 application thread n-1
    int ctorTry = 0;     // 1 missing path, 2 refused, 3 fault injection
    u32 serial0 = 1;
    bool bigEndian = false; // peer byte order preference
    bool mixEndian = false;
    bool addExtra = false;
};
struct Prof {
    std::string id;
    int maxConn = 1, maxThreads = 3, minThreads = 1, maxOps = 10, maxPeer = 10;
    double w[KINDS];
    double pPresend = 0.3, pLateAuth = 0.2, pRejects = 0.1, pNoise = 0.15, pNeg = 0.25, pEarly = 0.1, pSplit = 0.2, pHostAuth = 0, pNoOk = 0.01;
    double pDestroyEarly = 0.1, pCtor = 0;
    double pBig = 0.1; // large messages
    double pStall = 0.1, pLoss = 0.05, pIoFail = 0.03;
    // handler actions
    double aEcho = 0.1, aCross = 0.2, aReply = 0.3, aNested = 0.1, aSignal = 0.1, aUnregSelf = 0.05, aReg = 0.05, aAddRule = 0.05, aRmRule = 0.05, aThrow = 0.03, aThrowInt = 0.01, aSlow = 0.05, aStats = 0.03;
    bool longSlow = false;
    // reply policy
    double rNone = 0.05, rErr = 0.2, rNoBody = 0.05, rOddErr = 0.05, rDup = 0.1, rLate = 0.1, rBadFirst = 0;
    double pDynNames = 0.5;
    ref::ValCfg val;
    double pNet = 0.5; // probability that a network-noise class is active in a run
    bool raceStress = false;
    double pTail = 0.02;  // the end of what the peer wrote comes much later
    double pBurst = 0.03; // hundreds of messages outstanding, queued or in flight at once
    double pHuge = 0.01;  // messages of up to 4 MB
    double pSerial = 0.12; // the serial counter starts somewhere else
    bool soak = false; // measures memory over repeated traffic
    bool trouble = false; // several connections, at least one of them without faults
};
struct Plan {
    u64 seed = 0;
    Prof prof;
    sim::Config cfg;
    int nthreads = 1;
    std::vector<ConnPlan> conns;
    std::vector<Op> ops;
    bool hostile = false;
    int calm = -1; // a connection nothing bad happens to
    u32 serialStart = 0; // of the process-wide counter: as after a long history
    u32 uid = 0;  // who the process runs as
    bool huge = false; // such messages are affordable in this run
    int logLevel = 99; // below 4: the library's log is on
    std::string describe(const std::vector<uint8_t>& mask) const;
};
bool knownProperty(const std::string& id);
Plan makePlan(const std::string& property, u64 seed);
// runs in the forked child; never returns
[[noreturn]] void runPlan(const Plan& p, const std::vector<uint8_t>& mask);
void prewarm();
} // namespace world
