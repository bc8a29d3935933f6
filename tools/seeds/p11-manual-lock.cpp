// After a handler has thrown, registering handlers for the protocol and destroying the connection still works.
#include "fakebus.h"
int main()
{
    watchdog(20, "destroying the connection blocks: a lock stayed held after a handler had thrown");
    Bus bus;
    std::unique_ptr<Pair> p(new Pair(bus));
    std::atomic<int> n { 0 };
    p->native->registerMethodCallHandler("a.B.C", [&](const DBus::Message::MethodCall&) { ++n; throw std::runtime_error("no"); });
    p->peer->write(call("a.B", "C").bytes());
    EXPECT(eventually([&] { return n == 1; }));
    msleep(50);
    p->native.reset();
    pass();
}
