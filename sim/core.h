// Deterministic simulator core: threads, time, choices, sockets.  See DESIGN.md.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {
typedef uint64_t u64;
typedef uint32_t u32;

const int MAXT = 24; // simulated threads per run
const u64 NEVER = ~0ull;
const u64 US = 1000ull, MS = 1000000ull, SEC = 1000000000ull;

// ---- choice streams -------------------------------------------------------
enum { ST_S = 0, ST_M = 1, ST_F = 2, NSTREAM = 3 };
const u32 CAP_S = 1u << 20, CAP_M = 1u << 17, CAP_F = 1u << 18;

// ---- probes and fault counters -------------------------------------------
#define FAULT_LIST(X) \
    X(partial_write) X(send_eagain_full) X(send_eintr) X(send_enobufs) X(send_epipe) X(send_reset) X(send_spurious_eagain) \
    X(short_read) X(recv_eintr) X(recv_reset) X(recv_error) X(peer_eof) X(peer_stall_read) X(peer_stall_write) X(segmented_delivery) X(torn_delivery) X(byte_delivery) \
    X(delayed_delivery) X(epoll_eintr) X(cond_spurious) X(clock_jump) X(process_stop) X(connect_refused) X(connect_noent) X(connect_eintr) X(connect_other) \
    X(socket_fail) X(epoll_create_fail) X(eventfd_fail) X(epoll_ctl_fail) X(thread_fail) X(send_blocked) X(slow_handler) X(throwing_handler) \
    X(reply_dup) X(reply_drop) X(reply_unknown) X(reply_reordered) X(reply_late) X(hostile_bytes) X(corrupt_body) X(corrupt_header) X(auth_reject) X(auth_noise) X(auth_split) \
    X(mem_preempt) X(sync_preempt)
enum Fault {
#define X(n) F_##n,
    FAULT_LIST(X)
#undef X
        F_COUNT
};
extern const char* fault_names[];
#define PROBE_LIST(X) \
    X(msg_torn_across_writes) X(send_while_backlog) X(concurrent_sends) X(presend_queued) X(send_during_flush_window) X(auth_done) X(auth_multi_line) X(negotiated) X(data_after_ok_same_read) \
    X(msg_split_over_reads) X(many_msgs_one_read) X(big_endian_in) X(high_serial) X(unknown_type) X(msg_gt_1k) X(reply_before_send_returns) X(dup_reply_ignored) X(unknown_reply_ignored) X(nested_call) X(out_of_order_reply) \
    X(handler_invoked) X(handler_self_unregister) X(unregister_during_dispatch) X(unregister_blocked_by_handler) X(call_unregistered) X(rule_matched) X(rule_not_matched) X(rule_removed_in_handler) X(namespace_exact) \
    X(bad_rule) X(no_interface) X(callback_threw) X(nonstd_throw) X(destroy_before_auth) X(destroy_mid_traffic) X(destroy_with_backlog) X(destroy_peer_gone) X(destroy_during_callback) X(destroy_pending_calls) X(loss_mid_message) X(loss_mid_write) X(send_after_loss) X(loss_during_auth) \
    X(send_while_stalled) X(send_while_handler_runs) X(drained_after_stall) X(serial_concurrent) X(stats_checked) X(ctor_failed) X(ctor_retry_ok) X(container_value) X(variant_value) X(convenience_call) X(rejected_then_ok) \
    X(body_corrupt_isolated) X(frame_error) X(deep_nesting) X(deep_value) X(idle_reached) X(error_reply) X(noreply_call) X(stats_read_concurrent) X(beginauth_late) X(message_kept) X(echo) X(cross_send) X(odd_header) X(logging_on) X(long_path) X(long_signature) X(huge_message) X(burst_out) X(burst_in) X(held_window) X(flood_window) X(near_rule) X(serial_forwarded) X(soak_window) X(churn_window) X(fresh_window) X(stream_window) X(prompt_dispatch)
enum Probe {
#define X(n) P_##n,
    PROBE_LIST(X)
#undef X
        P_COUNT
};
extern const char* probe_names[];

// ---- result block shared with the parent process ---------------------------
struct Violation {
    char cls[80];
    char tags[96];
    char msg[1200];
};
struct Shared {
    u32 finished; // 1 = run completed, 2 = violation recorded
    u32 nviol;    // non-target violations seen
    Violation other; // the first of them
    Violation v;  // target violation
    u64 hash;     // rolling hash of the event log
    u64 schedHash; // rolling hash of the schedule
    u64 events;
    u64 steps, switches, simtime, memhooks;
    u64 progress;
    u32 n[NSTREAM];
    u32 faults[F_COUNT];
    u32 probes[P_COUNT];
    u32 opsRun;
    u32 stepcap;
    u32 logLen;
    char log[1 << 16]; // tail of event log (only when logging enabled)
    uint8_t S[CAP_S];
    u32 M[CAP_M];
    uint16_t F[CAP_F];
};
extern Shared* sh;

struct Config {
    // scheduling
    int mode = 0;            // 0 random walk, 1 PCT
    double pSwitch = 0.1;    // per sync point
    u32 memGap = 0;          // mean gap between memory-level preemptions, 0 = off
    int pctDepth = 3;
    u32 pctSteps = 3000;
    u64 stepCost = 500;      // ns per sync step
    double pSpurious = 0;    // spurious condition wake-ups
    // network
    u32 txCap = 65536, rxCap = 65536;
    double pPartial = 0, pShort = 0, pEintr = 0, pDelay = 0, pSeg = 0;
    bool byteMode = false;
    u64 delayScale = 20 * US;
    double pSendFail = 0, pRecvFail = 0, pSpuriousAgain = 0;
    u32 failBudget = 0;
    // construction faults
    double pSys = 0;
    u32 sysBudget = 0;
    double pJump = 0;
    double pStop = 0; // once: the process is stopped for seconds
    u64 maxSteps = 1000000; // without progress
    u64 allSteps = 4000000;
};
extern Config cfg;

// replay source: when set, choices come from here (0 beyond the end)
struct Replay {
    std::vector<uint8_t> S;
    std::vector<u32> M;
    std::vector<uint16_t> F;
};

void start(u64 seed, const Replay* rp, const char* target, bool wantLog); // in the child, before any simulated thread
u32 draw(int stream, u32 n, double p); // value in [0,n); non-zero with probability p
u32 drawU(u32 n);                      // uniform from stream F, 0 benign
bool chance(double p, int fault);      // F stream; counts the fault
void fault(int f, u32 k = 1);
void probe(int p);
void logev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
u64 now();
void progress(); // something was transferred or dispatched
u64 waited(); // simulated time that passed because nothing could run
u64 seqno(); // global event sequence number
void at(u64 when, std::function<void()> fn);
bool pendingEvents();

// record a violation; stops the run when it concerns the property being checked
void violation(const char* tags, const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
bool tagsInclude(const char* tags, const char* id);
extern char target[16];
[[noreturn]] void finishRun(int code);

// ---- threads ---------------------------------------------------------------
int self();
u64 selfJump(); // simulated time skipped while the current thread was blocked
void yieldPoint();
void sleepFor(u64 ns);
bool waitOn(void* obj, u64 deadline); // false on timeout
void wakeAll(void* obj);
bool waitIdle(u64 maxNs); // true when nothing can happen any more
int liveThreads();  // threads not finished, other than the caller
int libThreads();   // threads created by library code that are still alive
int openFds();
std::string describeThreads();
void noSwitch(bool on);
u64 liveBytes();
void watchBigAllocations();
void trackMemory();
u64 libLive(); // bytes allocated by library code and not freed

extern __thread int inlib;
struct InLib {
    int s;
    InLib() : s(inlib) { inlib = 1; }
    ~InLib() { inlib = s; }
};
struct OutLib {
    int s;
    OutLib() : s(inlib) { inlib = 0; }
    ~OutLib() { inlib = s; }
};

// ---- sockets ---------------------------------------------------------------
struct Sock;
struct Peer { // implemented by the harness
    Sock* sock = nullptr;
    virtual void onConnect() = 0;
    virtual void onBytes(const char* p, size_t n) = 0; // peer application reads
    virtual void onClientClosed() = 0;                  // client closed or shut down
    virtual void onWriteFailed(int err) = 0;
    virtual void onRead(size_t total, bool eof) = 0; // client read up to byte `total`
    virtual void onArrive(size_t) {} // so many more bytes can be read by the library
    virtual ~Peer() {}
};
// path registry
void listen(const std::string& path, std::function<Peer*()> acceptor);
// peer side operations
void peerSend(Sock*, const std::string& bytes);
void peerClose(Sock*);      // orderly EOF after everything queued
void peerReset(Sock*);      // abortive: both directions die now
void peerStallRead(Sock*, u64 until);  // peer stops consuming
void peerStallWrite(Sock*, u64 until); // deliveries to the client stop
size_t clientBacklog(Sock*); // bytes written by client, not consumed by peer
size_t peerBacklog(Sock*);   // bytes written by peer, not yet read by client
bool sockOpen(Sock*);
void releaseStalls();
u64 sockTxTotal(Sock*);

// race runtime
void vcAcquireObj(const void* o);
void vcReleaseObj(const void* o);
void vcThreadStart(int parent, int child);
void vcThreadJoin(int child);
void vcInit();
void memCountdown();
extern u32 memLeft;
extern u32 simUid; // who the simulated process runs as
void onBudget();
const char* flavour();
} // namespace sim
