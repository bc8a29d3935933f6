// Rules are removed while signals arrive; run under ThreadSanitizer.
#include "fakebus.h"
int main()
{
    watchdog(150, "hung");
    Bus bus;
    Pair p(bus);
    std::atomic<bool> stop { false };
    std::thread feed([&] { while (!stop) p.peer->write(signal_("a.B", "C").bytes()); });
    std::thread drain([&] { char b[4096]; while (!stop) recv(p.peer->fd, b, sizeof b, MSG_DONTWAIT), msleep(1); });
    for (int i = 0; i < 200; ++i) {
        p.native->callAddMatch("type='signal',interface='a.B'", [](const DBus::Message::MethodReturn&) {}, [](const DBus::Message::Error&) {}, [&](const DBus::Message::Signal&) {});
        msleep(1);
        p.native->callRemoveMatch("type='signal',interface='a.B'");
    }
    stop = true;
    drain.join();
    shutdown(p.peer->fd, SHUT_RDWR);
    feed.join();
    return 0;
}
