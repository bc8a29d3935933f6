// Driver: seeded search, gating, minimisation, replay.  One forked child per simulated run.
#include "world.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using sim::Shared;
using sim::u32;
using sim::u64;

static double wall()
{
    struct timespec t;
    syscall(228, CLOCK_MONOTONIC, &t); // not the simulated clock
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static std::string property;
static std::vector<int> cpus;
static int timeoutSec = 60;

// ------------------------------------------------------------------ one run --
enum Res { OK, VIOL, TOOL, FOREIGN };
struct Outcome {
    Res res = OK;
    std::string cls, msg, tags;
    u64 hash = 0;
};
struct Slot { // one per worker
    Shared* sh;
    int err; // file receiving the child's stderr
};
static Slot mkSlot()
{
    Slot s;
    s.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    s.err = memfd_create("err", 0);
    return s;
}
static std::string readErr(int fd)
{
    char b[20000];
    ssize_t n = pread(fd, b, sizeof b - 1, 0);
    return n > 0 ? std::string(b, n) : "";
}
static bool firstLineWith(const std::string& s, const char* w, std::string& out)
{
    size_t p = s.find(w);
    if (p == std::string::npos)
        return false;
    size_t e = s.find('\n', p);
    out = s.substr(p, e == std::string::npos ? std::string::npos : e - p);
    return true;
}
// the child never returns; nothing is allocated in the parent before the fork
static int spawnRun(Slot& sl, u64 seed, const std::vector<uint8_t>& mask, const sim::Replay* rp, bool log)
{
    memset(sl.sh, 0, offsetof(Shared, log));
    if (ftruncate(sl.err, 0) || lseek(sl.err, 0, SEEK_SET) < 0) { }
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        dup2(sl.err, 2);
        struct itimerval it = {};
        it.it_value.tv_sec = timeoutSec;
        setitimer(ITIMER_REAL, &it, nullptr);
        sim::sh = sl.sh;
        world::Plan* plan = new world::Plan(world::makePlan(property, seed));
        sim::cfg = plan->cfg;
        sim::start(seed, rp, property.c_str(), log);
        world::runPlan(*plan, mask);
    }
    return pid;
}
static std::string hexOf(u64 x)
{
    char b[32];
    snprintf(b, sizeof b, "0x%llx", (unsigned long long)x);
    return b;
}
static Outcome finish(Slot& sl, int pid)
{
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    Outcome o;
    Shared* s = sl.sh;
    o.hash = s->hash;
    if (s->finished == 2) {
        o.res = VIOL;
        o.cls = s->v.cls;
        o.msg = s->v.msg;
        o.tags = s->v.tags;
        if (o.cls.compare(0, 7, "harness") == 0)
            o.res = TOOL;
        return o;
    }
    if (s->finished == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0)
        return o;
    std::string err = readErr(sl.err), l;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
        o.res = TOOL;
        o.cls = "wall-timeout";
        o.msg = "the run did not finish within its real-time limit";
        return o;
    }
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 71)) {
        o.res = FOREIGN;
        return o;
    }
    o.res = VIOL;
    o.tags = "ANY";
    std::string where;
    if (firstLineWith(err, "ERROR: AddressSanitizer: ", l)) {
        std::string k = l.substr(strlen("ERROR: AddressSanitizer: "));
        k = k.substr(0, k.find(' '));
        o.cls = "memory-" + k;
        std::istringstream is(err);
        int n = 0;
        while (std::getline(is, l) && n < 14) {
            size_t p = l.find("    #");
            if (p == 0) {
                where += " " + l.substr(4, l.find("  (") == std::string::npos ? std::string::npos : l.find("  (") - 4);
                ++n;
            } else if (n && (l.find("freed by") != std::string::npos))
                where += " | freed";
        }
        o.msg = "memory error " + k + ":" + where;
    } else if (WIFSIGNALED(st)) {
        o.cls = "crash-" + std::to_string(WTERMSIG(st));
        o.msg = "the process was killed by signal " + std::to_string(WTERMSIG(st));
        if (!err.empty())
            o.msg += ": " + err.substr(0, 300);
        for (auto& c : o.msg)
            if (c == '\n')
                c = ' ';
    } else if (WIFEXITED(st)) {
        o.cls = "exit-" + std::to_string(WEXITSTATUS(st));
        o.msg = "the process exited with status " + std::to_string(WEXITSTATUS(st)) + ": " + err.substr(0, 300);
    }
    return o;
}
static Outcome runOnce(Slot& sl, u64 seed, const std::vector<uint8_t>& mask, const sim::Replay* rp, bool log = false) { return finish(sl, spawnRun(sl, seed, mask, rp, log)); }

static std::string sym(const std::string& in) // resolve pc values in a message
{
    std::string out, s = in;
    char exe[512];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[n > 0 ? n : 0] = 0;
    size_t p = 0;
    for (;;) {
        size_t q = s.find("0x", p);
        if (q == std::string::npos)
            break;
        size_t e = q + 2;
        while (e < s.size() && isxdigit((unsigned char)s[e]))
            ++e;
        std::string a = s.substr(q, e - q);
        out += s.substr(p, e - p);
        p = e;
        std::string cmd = std::string("addr2line -Cfe '") + exe + "' " + a + " 2>/dev/null";
        if (FILE* f = popen(cmd.c_str(), "r")) {
            char fn[400] = "", fl[400] = "";
            if (fgets(fn, sizeof fn, f) && fgets(fl, sizeof fl, f)) {
                fn[strcspn(fn, "\n")] = 0, fl[strcspn(fl, "\n")] = 0;
                std::string F = fn, L = fl;
                if (F != "??" && F.size()) {
                    size_t sl = L.rfind('/');
                    if (sl != std::string::npos)
                        L = L.substr(sl + 1);
                    out += " [" + F.substr(0, 80) + " " + L + "]";
                }
            }
            pclose(f);
        }
    }
    return out + s.substr(p);
}

// ------------------------------------------------------------- known findings -
struct Known {
    std::string prop, cls, sub, text;
};
static std::vector<Known> known;
static void loadKnown(const char* f)
{
    std::ifstream in(f);
    std::string l;
    while (std::getline(in, l)) {
        // finding: property=<id> class=<cls> match="<substring>" <text>
        if (l.compare(0, 9, "finding: "))
            continue;
        Known k;
        size_t p = l.find("property="), c = l.find("class="), m = l.find("match=\"");
        if (p == std::string::npos || c == std::string::npos || m == std::string::npos)
            continue;
        k.prop = l.substr(p + 9, l.find(' ', p) - p - 9);
        k.cls = l.substr(c + 6, l.find(' ', c) - c - 6);
        size_t e = l.find('"', m + 7);
        k.sub = l.substr(m + 7, e - m - 7);
        k.text = l.substr(e + 1);
        known.push_back(k);
    }
}
static int knownIdx(const Outcome& o)
{
    for (size_t i = 0; i < known.size(); ++i)
        if (known[i].prop == property && known[i].cls == o.cls && o.msg.find(known[i].sub) != std::string::npos)
            return (int)i;
    return -1;
}

// ------------------------------------------------------------------- replay ---
template <class V>
static void putRle(std::ostream& o, const char* n, const V& v)
{
    o << n;
    for (size_t i = 0; i < v.size();) {
        size_t j = i;
        while (j < v.size() && v[j] == v[i])
            ++j;
        o << ' ' << (unsigned long)v[i];
        if (j - i > 1)
            o << 'x' << (j - i);
        i = j;
    }
    o << '\n';
}
template <class V>
static void getRle(const std::string& l, V& v)
{
    std::istringstream is(l);
    std::string t;
    is >> t;
    while (is >> t) {
        unsigned long a = 0, n = 1;
        size_t x = t.find('x');
        a = strtoul(t.c_str(), nullptr, 10);
        if (x != std::string::npos)
            n = strtoul(t.c_str() + x + 1, nullptr, 10);
        for (unsigned long i = 0; i < n && v.size() < (1u << 21); ++i)
            v.push_back((typename V::value_type)a);
    }
}
struct File {
    std::string flavour, cls, msg;
    u64 seed = 0, hash = 0;
    std::vector<uint8_t> mask;
    sim::Replay rp;
};
static bool loadFile(const char* fn, File& f)
{
    std::ifstream in(fn);
    if (!in)
        return false;
    std::string l;
    while (std::getline(in, l)) {
        if (l == "--")
            break;
        std::string k = l.substr(0, l.find(' ')), v = l.find(' ') == std::string::npos ? "" : l.substr(l.find(' ') + 1);
        if (k == "property")
            property = v;
        else if (k == "flavour")
            f.flavour = v;
        else if (k == "seed")
            f.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "class")
            f.cls = v;
        else if (k == "hash")
            f.hash = strtoull(v.c_str(), nullptr, 16);
        else if (k == "mask")
            getRle(l, f.mask);
        else if (k == "S")
            getRle(l, f.rp.S);
        else if (k == "M")
            getRle(l, f.rp.M);
        else if (k == "F")
            getRle(l, f.rp.F);
    }
    return !property.empty();
}
static void saveFile(const std::string& fn, const File& f, const std::string& tail)
{
    std::ofstream o(fn);
    o << "property " << property << "\nflavour " << f.flavour << "\nseed " << f.seed << "\nclass " << f.cls << "\nmessage " << f.msg << "\nhash " << std::hex << f.hash << std::dec << "\n";
    putRle(o, "mask", f.mask);
    putRle(o, "S", f.rp.S);
    putRle(o, "M", f.rp.M);
    putRle(o, "F", f.rp.F);
    o << "--\n"
      << tail;
}
static void capture(Slot& sl, sim::Replay& r)
{
    Shared* s = sl.sh;
    r.S.assign(s->S, s->S + s->n[0]);
    r.M.assign(s->M, s->M + s->n[1]);
    r.F.assign(s->F, s->F + s->n[2]);
}

// --------------------------------------------------------------- minimisation -
static int trials = 0;
static double minDeadline = 0;
static Slot mslot;
static bool sameViol(const Outcome& o, const std::string& cls) { return o.res == VIOL && o.cls == cls && knownIdx(o) < 0; }
static bool tryIt(File& best, const std::vector<uint8_t>& mask, const sim::Replay& rp)
{
    if (wall() > minDeadline)
        return false;
    ++trials;
    Outcome o = runOnce(mslot, best.seed, mask, &rp);
    if (!sameViol(o, best.cls))
        return false;
    best.mask = mask;
    capture(mslot, best.rp); // what was really consumed, normalised
    best.hash = o.hash;
    best.msg = o.msg;
    return true;
}
template <class V>
static void zeroChunks(File& best, V sim::Replay::*field)
{
    // first truncate, then set ever smaller chunks of non-zero choices to the benign value
    for (size_t len : { (size_t)0, (best.rp.*field).size() / 2 }) {
        sim::Replay r = best.rp;
        if (len < (r.*field).size()) {
            (r.*field).resize(len);
            tryIt(best, best.mask, r);
        }
    }
    size_t chunk = 1;
    while (chunk * 2 <= (best.rp.*field).size())
        chunk *= 2;
    for (; chunk >= 1 && wall() < minDeadline; chunk /= 2) {
        size_t nz = 0;
        for (auto x : (best.rp.*field))
            nz += x != 0;
        if (nz == 0)
            break;
        for (size_t i = 0; i < (best.rp.*field).size() && wall() < minDeadline; i += chunk) {
            bool any = false;
            sim::Replay r = best.rp;
            for (size_t j = i; j < i + chunk && j < (r.*field).size(); ++j) {
                any |= (r.*field)[j] != 0;
                (r.*field)[j] = 0;
            }
            if (any)
                tryIt(best, best.mask, r);
        }
    }
}
static void dropOps(File& best)
{
    size_t n = best.mask.size(), chunk = 1;
    while (chunk * 2 <= n)
        chunk *= 2;
    for (; chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i < n && wall() < minDeadline; i += chunk) {
            std::vector<uint8_t> m = best.mask;
            bool any = false;
            for (size_t j = i; j < i + chunk && j < n; ++j) {
                any |= m[j];
                m[j] = 0;
            }
            if (!any)
                continue;
            if (tryIt(best, m, best.rp))
                continue;
            // choices shift when an operation disappears: also try with a quieter schedule
            sim::Replay r = best.rp;
            std::fill(r.M.begin(), r.M.end(), 0);
            tryIt(best, m, r);
        }
    }
}
static void minimise(File& best, double secs)
{
    minDeadline = wall() + secs;
    {
        sim::Replay none;
        tryIt(best, best.mask, none);
    }
    dropOps(best);
    size_t before = 0;
    for (int round = 0; round < 3 && wall() < minDeadline; ++round) {
        zeroChunks(best, &sim::Replay::M);
        zeroChunks(best, &sim::Replay::F);
        zeroChunks(best, &sim::Replay::S);
        dropOps(best);
        size_t sz = best.rp.S.size() + best.rp.M.size() + best.rp.F.size();
        if (sz == before)
            break;
        before = sz;
    }
    auto trim = [](auto& v) {
        while (!v.empty() && v.back() == 0)
            v.pop_back();
    };
    File t = best;
    trim(t.rp.S);
    trim(t.rp.M);
    trim(t.rp.F);
    minDeadline = wall() + 10;
    Outcome o = runOnce(mslot, t.seed, t.mask, &t.rp);
    if (sameViol(o, t.cls) && o.hash == best.hash)
        best.rp = t.rp;
}

// ----------------------------------------------------------------- the search -
struct RunRec {
    u64 hash, sched;
    u32 flags; // 1 ran, 2 non-trivial, 4 violation
};
struct Global {
    std::atomic<u32> next;
    std::atomic<u32> stop; // lowest violating index + 1, or 0
    std::atomic<u32> tool;
    std::atomic<u32> slow; // runs given up because they took too much real time
    char toolMsg[400];
    struct W {
        u64 runs, steps, switches, simtime, memhooks, events, foreign, stepcap;
        u64 n[3];
        u64 faults[sim::F_COUNT], probes[sim::P_COUNT];
        u64 runsWithFault[sim::F_COUNT];
        u64 knownHits[64];
    } w[64];
    u32 maxRuns;
};
static Global* G;
static RunRec* recs;
static u64 baseSeed;
static int surveyFd = -1; // survey mode: list every violation instead of stopping
static u64 seedOf(u32 idx) { return ref::mix2(ref::mix2(baseSeed, 0xd5), idx) >> 1; }

static void worker(int w, double deadline)
{
    if (!cpus.empty()) {
        cpu_set_t cs;
        CPU_ZERO(&cs);
        CPU_SET(cpus[w % cpus.size()], &cs);
        sched_setaffinity(0, sizeof cs, &cs);
    }
    Slot sl = mkSlot();
    std::vector<uint8_t> mask;
    Global::W& a = G->w[w];
    for (;;) {
        if (G->stop || G->tool || wall() > deadline)
            break;
        u32 i = G->next++;
        if (i >= G->maxRuns)
            break;
        Outcome o = runOnce(sl, seedOf(i), mask, nullptr);
        Shared* s = sl.sh;
        a.runs++;
        a.steps += s->steps;
        a.switches += s->switches;
        a.simtime += s->simtime > 1000 * sim::SEC ? s->simtime - 1000 * sim::SEC : 0;
        a.memhooks += s->memhooks;
        a.events += s->events;
        a.stepcap += s->stepcap;
        for (int k = 0; k < 3; ++k)
            a.n[k] += s->n[k];
        u32 nf = 0;
        for (int k = 0; k < sim::F_COUNT; ++k) {
            a.faults[k] += s->faults[k];
            a.runsWithFault[k] += s->faults[k] != 0;
            nf += s->faults[k];
        }
        for (int k = 0; k < sim::P_COUNT; ++k)
            a.probes[k] += s->probes[k];
        recs[i].hash = s->hash;
        recs[i].sched = s->schedHash;
        // non-trivial: at least one thread switch, one injected fault or pre-emption, and one operation of the plan executed
        recs[i].flags = 1 | (s->switches > 0 && nf > 0 && s->opsRun > 0 ? 2 : 0);
        if (o.res == FOREIGN)
            a.foreign++;
        if (o.res == TOOL && o.cls == "wall-timeout" && ++G->slow < 12) {
            a.stepcap++; // says nothing; many of them would mean that something hangs
            recs[i].flags = 1;
        } else if (o.res == TOOL) {
            if (!G->tool.exchange(i + 1))
                snprintf(G->toolMsg, sizeof G->toolMsg, "run %u seed %llu: %s: %s", i, (unsigned long long)seedOf(i), o.cls.c_str(), o.msg.c_str());
        }
        if (surveyFd >= 0) {
            if (o.res != OK) {
                char b[1600];
                int n = snprintf(b, sizeof b, "%s\t%s\t%llu\t%s\n", o.cls.c_str(), o.tags.c_str(), (unsigned long long)seedOf(i), o.msg.c_str());
                if (write(surveyFd, b, std::min<size_t>(n, sizeof b - 1)) < 0) { }
            } else if (s->nviol) {
                char b[1600];
                int n = snprintf(b, sizeof b, "(other) %s\t%s\t%llu\t%s\n", s->other.cls, s->other.tags, (unsigned long long)seedOf(i), s->other.msg);
                if (write(surveyFd, b, std::min<size_t>(n, sizeof b - 1)) < 0) { }
            }
            continue;
        }
        if (o.res == VIOL) {
            int k = knownIdx(o);
            if (k >= 0 && k < 64) {
                a.knownHits[k]++;
                continue;
            }
            u32 cur = G->stop;
            while ((cur == 0 || i + 1 < cur) && !G->stop.compare_exchange_weak(cur, i + 1)) { }
        }
    }
    _exit(0);
}

static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\')
            r += '\\', r += (char)c;
        else if (c == '\n')
            r += "\\n";
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += (char)c;
    }
    return r + "\"";
}

static int doReplay(const char* fn, bool log)
{
    File f;
    if (!loadFile(fn, f)) {
        fprintf(stderr, "cannot read %s\n", fn);
        return 2;
    }
    if (f.flavour != sim::flavour()) {
        fprintf(stderr, "file needs the %s build\n", f.flavour.c_str());
        return 2;
    }
    mslot = mkSlot();
    Outcome o = runOnce(mslot, f.seed, f.mask, &f.rp, log);
    if (log)
        fwrite(mslot.sh->log, 1, mslot.sh->logLen, stdout);
    if (o.res != VIOL) {
        printf("not reproduced (%s)\n", o.res == TOOL ? o.msg.c_str() : "the run passed");
        return o.res == TOOL ? 2 : 0;
    }
    printf("%s: %s\nhash %llx %s\n", o.cls.c_str(), sym(o.msg).c_str(), (unsigned long long)o.hash, o.cls == f.cls && o.hash == f.hash ? "(identical to the recorded execution)" : "(DIFFERS from the recorded execution)");
    printf("VIOLATION property=%s replay=%s\n", property.c_str(), fn);
    return o.cls == f.cls && o.hash == f.hash ? 1 : 3;
}

static int usage()
{
    fprintf(stderr, "usage: sim check --property P --seed N --runs N --wall S --workers N --json F --replays DIR [--known F] | sim one --property P --run-seed N [--log] | sim replay FILE [--log] | sim hash --property P --seed N --runs N --workers N\n");
    return 2;
}

int main(int argc, char** argv)
{
    // same addresses in every process where the system allows it
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        setenv("SIM_REEXEC", "1", 1);
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    std::string mode = argc > 1 ? argv[1] : "";
    std::string json, replays = "replays", tier = "quick", kn;
    u64 runSeed = 0;
    u32 runs = 1000;
    double wallCap = 60, minSecs = 25;
    int workers = 8;
    bool log = false;
    const char* file = nullptr;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--property")
            property = next();
        else if (a == "--seed")
            baseSeed = strtoull(next(), nullptr, 10);
        else if (a == "--run-seed")
            runSeed = strtoull(next(), nullptr, 10);
        else if (a == "--runs")
            runs = (u32)strtoul(next(), nullptr, 10);
        else if (a == "--wall")
            wallCap = atof(next());
        else if (a == "--min-secs")
            minSecs = atof(next());
        else if (a == "--workers")
            workers = std::max(1, std::min(64, atoi(next())));
        else if (a == "--json")
            json = next();
        else if (a == "--replays")
            replays = next();
        else if (a == "--known")
            kn = next();
        else if (a == "--tier")
            tier = next();
        else if (a == "--log")
            log = true;
        else if (a[0] != '-')
            file = argv[i];
        else
            return usage();
    }
    if (!kn.empty())
        loadKnown(kn.c_str());
    cpu_set_t cs;
    if (sched_getaffinity(0, sizeof cs, &cs) == 0)
        for (int i = 0; i < CPU_SETSIZE; ++i)
            if (CPU_ISSET(i, &cs))
                cpus.push_back(i);
    signal(SIGPIPE, SIG_IGN);
    world::prewarm();
    auto pin = [&](int w) {
        if (!cpus.empty()) {
            cpu_set_t c1;
            CPU_ZERO(&c1);
            CPU_SET(cpus[w % cpus.size()], &c1);
            sched_setaffinity(0, sizeof c1, &c1);
        }
    };
    if (mode == "replay") {
        if (!file)
            return usage();
        pin(getpid());
        return doReplay(file, log);
    }
    if (!world::knownProperty(property))
        return usage();
    if (mode == "one") {
        pin(getpid());
        mslot = mkSlot();
        std::vector<uint8_t> mask;
        Outcome o = runOnce(mslot, runSeed, mask, nullptr, log);
        world::Plan p = world::makePlan(property, runSeed);
        if (log) {
            fputs(p.describe(mask).c_str(), stdout);
            fwrite(mslot.sh->log, 1, mslot.sh->logLen, stdout);
        }
        Shared* s = mslot.sh;
        printf("result %d %s: %s\nhash %llx events %llu steps %llu switches %llu sim %.3f s hooks %llu S/M/F %u/%u/%u other-violations %u\n", o.res, o.cls.c_str(), sym(o.msg).c_str(), (unsigned long long)o.hash, (unsigned long long)s->events,
            (unsigned long long)s->steps, (unsigned long long)s->switches, s->simtime > 1000 * sim::SEC ? (s->simtime - 1000 * sim::SEC) * 1e-9 : 0.0, (unsigned long long)s->memhooks, s->n[0], s->n[1], s->n[2], s->nviol);
        std::string e = readErr(mslot.err);
        if (!e.empty())
            fprintf(stderr, "%s\n", e.c_str());
        return o.res;
    }
    if (mode == "survey")
        surveyFd = open(file ? file : "/dev/stdout", O_WRONLY | O_CREAT | O_APPEND | O_TRUNC, 0666);
    G = (Global*)mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    recs = (RunRec*)mmap(nullptr, sizeof(RunRec) * (size_t)runs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    G->maxRuns = runs;
    double t0 = wall();
    std::vector<pid_t> pids;
    for (int w = 0; w < workers; ++w) {
        pid_t p = fork();
        if (p == 0)
            worker(w, t0 + wallCap);
        pids.push_back(p);
    }
    bool workerDied = false;
    for (pid_t p : pids) {
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) { }
        workerDied |= !WIFEXITED(st) || WEXITSTATUS(st);
    }
    double searchWall = wall() - t0;
    if (mode == "hash") {
        for (u32 i = 0; i < runs; ++i)
            printf("%u %llx %llx %u\n", i, (unsigned long long)recs[i].hash, (unsigned long long)recs[i].sched, recs[i].flags);
        return 0;
    }
    if (mode == "survey")
        return 0;
    if (mode != "check")
        return usage();
    Global::W a = {};
    for (int w = 0; w < workers; ++w) {
        u64 *d = (u64*)&a, *s = (u64*)&G->w[w];
        for (size_t i = 0; i < sizeof a / 8; ++i)
            d[i] += s[i];
    }
    std::set<u64> dist, sched;
    u64 nontriv = 0;
    for (u32 i = 0; i < runs; ++i) {
        if (!(recs[i].flags & 1))
            continue;
        sched.insert(recs[i].sched);
        if (recs[i].flags & 2) {
            nontriv++;
            dist.insert(recs[i].hash);
        }
    }
    int rc = 0;
    std::string vtext, vfile, vcls;
    double minWall = 0;
    if (workerDied) {
        fprintf(stderr, "a worker process died\n");
        rc = 2;
    }
    if (G->stop) {
        u32 idx = G->stop - 1;
        u64 seed = seedOf(idx);
        double m0 = wall();
        pin(getpid());
        mslot = mkSlot();
        std::vector<uint8_t> nomask;
        Outcome o = runOnce(mslot, seed, nomask, nullptr);
        u64 h1 = o.hash;
        Outcome o2 = runOnce(mslot, seed, nomask, nullptr);
        if (o.res != VIOL || o2.res != VIOL || o.cls != o2.cls || h1 != o2.hash || h1 != recs[idx].hash) {
            fprintf(stderr, "run %u seed %llu does not repeat exactly (%s %llx / %s %llx / %llx)\n", idx, (unsigned long long)seed, o.cls.c_str(), (unsigned long long)h1, o2.cls.c_str(), (unsigned long long)o2.hash, (unsigned long long)recs[idx].hash);
            rc = 2;
        } else {
            File f;
            f.flavour = sim::flavour();
            f.seed = seed;
            f.cls = o.cls;
            f.msg = o.msg;
            f.hash = o.hash;
            f.mask.assign(world::makePlan(property, seed).ops.size(), 1);
            capture(mslot, f.rp);
            size_t ops0 = f.mask.size(), s0 = f.rp.S.size(), m0n = f.rp.M.size(), f0 = f.rp.F.size();
            Outcome r = runOnce(mslot, seed, f.mask, &f.rp);
            if (sameViol(r, o.cls) && r.hash != h1) {
                // a change of the code that reads memory it never wrote can see other values here: what is recorded
                // must still repeat exactly, but may differ from the first sight of it
                capture(mslot, f.rp);
                h1 = f.hash = r.hash;
                f.msg = r.msg;
                r = runOnce(mslot, seed, f.mask, &f.rp);
            }
            if (!sameViol(r, o.cls) || r.hash != h1) {
                fprintf(stderr, "run %u seed %llu: the recorded schedule does not reproduce it (%s %llx vs %llx)\n", idx, (unsigned long long)seed, r.cls.c_str(), (unsigned long long)r.hash, (unsigned long long)h1);
                rc = 2;
            } else {
                minimise(f, minSecs);
                Outcome fin = runOnce(mslot, f.seed, f.mask, &f.rp, true);
                size_t ops1 = std::count(f.mask.begin(), f.mask.end(), 1);
                auto nz = [](auto& v) { return (size_t)std::count_if(v.begin(), v.end(), [](auto x) { return x != 0; }); };
                f.msg = sym(f.msg);
                std::ostringstream tail;
                tail << "minimised: operations " << ops0 << " -> " << ops1 << ", schedule choices " << s0 << " -> " << nz(f.rp.S) << ", pre-emption gaps " << m0n << " -> " << nz(f.rp.M) << ", fault choices " << f0 << " -> " << nz(f.rp.F) << " (" << trials << " trials)\n\n";
                tail << world::makePlan(property, seed).describe(f.mask) << "\nevent log (tail):\n" << std::string(mslot.sh->log, mslot.sh->logLen);
                mkdir(replays.c_str(), 0777);
                vfile = replays + "/" + property + "-" + f.flavour + "-" + std::to_string(seed) + ".replay";
                saveFile(vfile, f, tail.str());
                vtext = f.msg;
                vcls = f.cls;
                // a fresh process must reproduce it
                fflush(stdout);
                std::string cmd = "env -u SIM_REEXEC /proc/" + std::to_string(getpid()) + "/exe replay '" + vfile + "' >/dev/null 2>&1";
                int st = system(cmd.c_str());
                if (!sameViol(fin, f.cls) || !WIFEXITED(st) || WEXITSTATUS(st) != 1) {
                    fprintf(stderr, "the replay file %s does not reproduce in a fresh process (status %d)\n", vfile.c_str(), st);
                    rc = 2;
                } else
                    rc = 1;
                printf("run %u of %u, seed %llu (%s build)\n", idx, runs, (unsigned long long)seed, f.flavour.c_str());
                printf("%s: %s\n", f.cls.c_str(), f.msg.c_str());
                printf("minimised: operations %zu -> %zu, schedule choices %zu -> %zu, pre-emption gaps %zu -> %zu, fault choices %zu -> %zu\n", ops0, ops1, s0, nz(f.rp.S), m0n, nz(f.rp.M), f0, nz(f.rp.F));
            }
        }
        minWall = wall() - m0;
    } else if (G->tool) {
        fprintf(stderr, "tool error: %s\n", G->toolMsg);
        rc = 2;
    }
    for (size_t k = 0; k < known.size() && k < 64; ++k)
        if (a.knownHits[k])
            printf("KNOWN-FINDING: property=%s%s\n", property.c_str(), known[k].text.c_str());
    if (!json.empty()) {
        std::ofstream o(json);
        o << "{\"property\":" << jstr(property) << ",\"flavour\":" << jstr(sim::flavour()) << ",\"seed\":" << baseSeed << ",\"workers\":" << workers << ",\"runs\":" << a.runs << ",\"runs_limit\":" << runs << ",\"nontrivial\":" << nontriv
          << ",\"distinct_nontrivial\":" << dist.size() << ",\"distinct_schedules\":" << sched.size() << ",\"search_wall_s\":" << searchWall << ",\"minimise_wall_s\":" << minWall << ",\"steps\":" << a.steps << ",\"switches\":" << a.switches
          << ",\"sim_seconds\":" << (double)a.simtime * 1e-9 << ",\"memory_hooks\":" << a.memhooks << ",\"events\":" << a.events << ",\"foreign\":" << a.foreign << ",\"stepcap\":" << a.stepcap;
        o << ",\"choices\":{\"schedule\":" << a.n[0] << ",\"preemption\":" << a.n[1] << ",\"fault\":" << a.n[2] << "}";
        o << ",\"faults\":{";
        for (int k = 0; k < sim::F_COUNT; ++k)
            o << (k ? "," : "") << jstr(sim::fault_names[k]) << ":" << a.faults[k];
        o << "},\"runs_with_fault\":{";
        for (int k = 0; k < sim::F_COUNT; ++k)
            o << (k ? "," : "") << jstr(sim::fault_names[k]) << ":" << a.runsWithFault[k];
        o << "},\"probes\":{";
        for (int k = 0; k < sim::P_COUNT; ++k)
            o << (k ? "," : "") << jstr(sim::probe_names[k]) << ":" << a.probes[k];
        o << "},\"samples\":[";
        int ns = 0;
        for (u32 i = 0; i < runs && ns < 3; ++i)
            if (recs[i].flags & 2) {
                world::Plan p = world::makePlan(property, seedOf(i));
                o << (ns ? "," : "") << "{\"run\":" << i << ",\"run_seed\":" << seedOf(i) << ",\"log_hash\":" << jstr(hexOf(recs[i].hash)) << ",\"schedule_hash\":" << jstr(hexOf(recs[i].sched)) << ",\"plan\":" << jstr(p.describe({})) << "}";
                ++ns;
            }
        o << "],\"known\":{";
        for (size_t k = 0; k < known.size() && k < 64; ++k)
            o << (k ? "," : "") << jstr(known[k].cls + "|" + known[k].sub) << ":" << a.knownHits[k];
        o << "},\"violation\":" << (rc == 1 ? jstr(vcls + ": " + vtext) : "null") << ",\"replay\":" << jstr(vfile) << ",\"rc\":" << rc << "}\n";
    }
    if (rc == 1)
        printf("VIOLATION property=%s replay=%s\n", property.c_str(), vfile.c_str());
    return rc;
}
