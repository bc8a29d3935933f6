// A tiny message bus on a real AF_UNIX socket in a scratch directory, for the demonstrations.
#pragma once
#include "dbus.h"
#include "dbus_native.h"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <poll.h>
#include <pthread.h>
#include <stdexcept>
#include <string>
#include <sys/socket.h>
#include <sys/un.h>
#include <thread>
#include <unistd.h>
#include <vector>

static inline void msleep(double ms) { usleep((useconds_t)(ms * 1000)); }
[[noreturn]] static inline void fail(const std::string& why)
{
    fprintf(stderr, "FAILED: %s\n", why.c_str());
    fflush(stderr);
    _exit(1);
}
[[noreturn]] static inline void pass()
{
    fprintf(stderr, "ok\n");
    _exit(0); // whatever is still running does not matter
}
#define EXPECT(c)                                                        \
    do {                                                                 \
        if (!(c))                                                        \
            fail(std::string("line ") + std::to_string(__LINE__) + ": " #c); \
    } while (0)

template <class F> static bool eventually(F f, int ms = 5000)
{
    for (int i = 0; i < ms; ++i) {
        if (f())
            return true;
        msleep(1);
    }
    return f();
}
// fail rather than hang
static inline void watchdog(int seconds, const char* why)
{
    std::thread([=] { sleep(seconds); fail(why); }).detach();
}

struct Frame {
    int type = 0, flags = 0;
    uint32_t serial = 0, reply = 0;
    std::map<int, std::string> f; // string-like header fields
    std::string body, raw;
    bool valid = false;
    std::string str(size_t at = 0) const
    {
        uint32_t n;
        if (body.size() < at + 5)
            return "";
        memcpy(&n, body.data() + at, 4);
        return n <= body.size() - at - 5 ? body.substr(at + 4, n) : "";
    }
};
static inline void put32(std::string& s, uint32_t v) { s.append((char*)&v, 4); }
static inline void pad(std::string& s, size_t a)
{
    while (s.size() % a)
        s.push_back(0);
}
static inline std::string bstr(const std::string& v)
{
    std::string s;
    put32(s, (uint32_t)v.size());
    s += v;
    s.push_back(0);
    return s;
}
struct Out {
    int type = 4, flags = 0;
    uint32_t serial = 1, reply = 0;
    std::string path, iface, member, dest, sender, error, sig, body, extra;
    static void field(std::string& h, int code, char t, const std::string& v)
    {
        if (v.empty())
            return;
        pad(h, 8);
        h.push_back((char)code);
        h.push_back(1);
        h.push_back(t);
        h.push_back(0);
        if (t == 'g') {
            h.push_back((char)v.size());
            h += v;
            h.push_back(0);
        } else {
            pad(h, 4);
            h += bstr(v);
        }
    }
    std::string bytes() const
    {
        std::string h;
        field(h, 1, 'o', path);
        field(h, 2, 's', iface);
        field(h, 3, 's', member);
        field(h, 4, 's', error);
        if (reply) {
            pad(h, 8);
            h += std::string("\x05\x01u\0", 4);
            put32(h, reply);
        }
        field(h, 6, 's', dest);
        field(h, 7, 's', sender);
        field(h, 8, 'g', sig);
        field(h, 100, 's', extra);
        std::string m = "l";
        m.push_back((char)type);
        m.push_back((char)flags);
        m.push_back(1);
        put32(m, (uint32_t)body.size());
        put32(m, serial);
        put32(m, (uint32_t)h.size());
        m += h;
        pad(m, 8);
        return m + body;
    }
};
static inline Out call(const std::string& iface, const std::string& member, uint32_t serial = 1)
{
    Out o;
    o.type = 1;
    o.path = "/a";
    o.iface = iface;
    o.member = member;
    o.sender = ":1.5";
    o.serial = serial;
    return o;
}
static inline Out signal_(const std::string& iface, const std::string& member, uint32_t serial = 1)
{
    Out o = call(iface, member, serial);
    o.type = 4;
    return o;
}
static inline Out replyTo(uint32_t serial, const std::string& text = "", uint32_t own = 77)
{
    Out o;
    o.type = 2;
    o.serial = own;
    o.reply = serial;
    o.sender = "org.freedesktop.DBus";
    if (!text.empty())
        o.sig = "s", o.body = bstr(text);
    return o;
}

struct Peer {
    int fd = -1;
    std::string in;
    ~Peer() { close(); }
    void close()
    {
        if (fd >= 0)
            ::close(fd);
        fd = -1;
    }
    bool fill(int ms)
    {
        pollfd p { fd, POLLIN, 0 };
        if (poll(&p, 1, ms) <= 0)
            return false;
        char b[65536];
        ssize_t n = ::read(fd, b, sizeof b);
        if (n <= 0)
            return false;
        in.append(b, (size_t)n);
        return true;
    }
    // a line of the authentication dialogue, without the line end; "" when none comes
    std::string line(int ms = 5000)
    {
        for (;;) {
            size_t skip = !in.empty() && in[0] == 0 ? 1 : 0, e = in.find("\r\n", skip);
            if (e != std::string::npos) {
                std::string l = in.substr(skip, e - skip);
                in.erase(0, e + 2);
                return l;
            }
            if (!fill(ms))
                return "";
        }
    }
    void write(const std::string& s)
    {
        size_t at = 0;
        while (at < s.size()) {
            ssize_t n = ::send(fd, s.data() + at, s.size() - at, MSG_NOSIGNAL);
            if (n <= 0)
                return;
            at += (size_t)n;
        }
    }
    void handshake()
    {
        if (line().rfind("AUTH EXTERNAL", 0) != 0)
            fail("no AUTH line");
        write("OK 1234\r\n");
        if (line() != "BEGIN")
            fail("no BEGIN line");
    }
    // the next message; valid is false when none comes or the bytes are not a message
    Frame next(int ms = 5000)
    {
        Frame r;
        auto need = [&](size_t n) {
            while (in.size() < n)
                if (!fill(ms))
                    return false;
            return true;
        };
        if (!need(16))
            return r;
        uint32_t bl, hl;
        memcpy(&bl, &in[4], 4);
        memcpy(&hl, &in[12], 4);
        if (in[0] != 'l' || in[1] < 1 || in[1] > 4 || in[3] != 1 || bl > 1u << 27 || hl > 1u << 26)
            return r;
        size_t bs = (16 + hl + 7) / 8 * 8;
        if (!need(bs + bl))
            return r;
        r.type = in[1];
        r.flags = in[2];
        memcpy(&r.serial, &in[8], 4);
        r.raw = in.substr(0, bs + bl);
        r.body = in.substr(bs, bl);
        size_t at = 16;
        while (at < 16 + hl) {
            at = (at + 7) / 8 * 8;
            if (at + 6 > 16 + hl)
                return r;
            int code = in[at];
            char t = in[at + 2];
            at += 4;
            if (t == 'g') {
                size_t n = (unsigned char)in[at];
                r.f[code] = in.substr(at + 1, n);
                at += n + 2;
            } else if (t == 'u') {
                memcpy(&r.reply, &in[at], 4);
                at += 4;
            } else if (t == 's' || t == 'o') {
                uint32_t n;
                memcpy(&n, &in[at], 4);
                if (n > hl)
                    return r;
                r.f[code] = in.substr(at + 4, n);
                at += 5 + n;
            } else
                return r;
        }
        in.erase(0, bs + bl);
        r.valid = true;
        return r;
    }
};
struct Bus {
    std::string dir, path;
    int lfd = -1;
    Bus()
    {
        const char* t = getenv("DEMO_DIR");
        dir = t ? t : "/tmp";
        dir += "/busXXXXXX";
        if (!mkdtemp(&dir[0]))
            fail("mkdtemp");
        path = dir + "/s";
        lfd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_un a {};
        a.sun_family = AF_UNIX;
        strncpy(a.sun_path, path.c_str(), sizeof a.sun_path - 1);
        if (bind(lfd, (sockaddr*)&a, sizeof a) || listen(lfd, 16))
            fail("bind");
    }
    std::unique_ptr<Peer> accept()
    {
        std::unique_ptr<Peer> p(new Peer);
        p->fd = accept4(lfd, nullptr, nullptr, SOCK_CLOEXEC);
        return p;
    }
};
// a connection and its peer, authenticated
struct Pair {
    Bus& bus;
    std::unique_ptr<DBus::Native> native;
    std::unique_ptr<Peer> peer;
    explicit Pair(Bus& b, bool auth = true)
        : bus(b)
    {
        native.reset(new DBus::Native(b.path));
        peer = b.accept();
        if (auth) {
            native->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
            peer->handshake();
        }
    }
    // everything sent to the connection so far has been dispatched
    void settle()
    {
        static std::atomic<int> n { 0 };
        std::string m = "Settle" + std::to_string(++n);
        std::atomic<bool> seen { false };
        native->registerSignalHandler("demo.Settle." + m, [&](const DBus::Message::Signal&) { seen = true; });
        peer->write(signal_("demo.Settle", m).bytes());
        if (!eventually([&] { return seen.load(); }))
            fail("messages are no longer dispatched");
        native->unRegisterSignalHandler("demo.Settle." + m);
    }
};
static inline DBus::Message::MethodCall mkCall(const std::string& member, const std::string& text = "", uint32_t flags = 0)
{
    DBus::Message::MethodCallParametersIn in;
    if (!text.empty())
        in.add(text);
    return DBus::Message::MethodCall(DBus::Message::MethodCallIdentifier("/a", "demo.I", member), in, flags);
}
static inline DBus::Message::Signal mkSignal(const std::string& member)
{
    return DBus::Message::Signal(DBus::Message::MethodCallIdentifier("/a", "demo.I", member));
}
// what happens after a call of the C library returns, or before it is made; set by a demonstration
static thread_local double slowUnlockMs = 0; // pause after giving up a mutex
static std::atomic<int> slowUnlockAllUs { 0 };
#ifdef HOOK_UNLOCK
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real(m);
    int e = errno;
    if (slowUnlockMs > 0)
        msleep(slowUnlockMs);
    else if (int us = slowUnlockAllUs.load())
        usleep((useconds_t)us);
    errno = e;
    return r;
}
#endif
