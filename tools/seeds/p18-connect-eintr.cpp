// connect() is interrupted: construction either fails, or yields a connection that works.
#include "fakebus.h"
static std::atomic<int> interrupt_ { 0 };
extern "C" int connect(int fd, const sockaddr* a, socklen_t n)
{
    static auto real = (int (*)(int, const sockaddr*, socklen_t))dlsym(RTLD_NEXT, "connect");
    if (interrupt_ && a->sa_family == AF_UNIX) {
        --interrupt_;
        errno = EINTR;
        return -1;
    }
    return real(fd, a, n);
}
int main()
{
    watchdog(20, "hung");
    Bus bus;
    interrupt_ = 1;
    std::unique_ptr<DBus::Native> n;
    try {
        n.reset(new DBus::Native(bus.path));
    } catch (const std::exception&) {
        pass();
    }
    interrupt_ = 0;
    pollfd p { bus.lfd, POLLIN, 0 };
    if (poll(&p, 1, 1000) != 1)
        fail("construction reported success, but there is no connection");
    pass();
}
