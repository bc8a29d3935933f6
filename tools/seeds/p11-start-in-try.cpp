// After a handler has thrown, the messages behind the one it was given are still dispatched.
#include "fakebus.h"
int main()
{
    watchdog(20, "hung");
    Bus bus;
    Pair p(bus);
    std::atomic<int> n { 0 }, later { 0 };
    p.native->registerMethodCallHandler("a.B.C", [&](const DBus::Message::MethodCall&) { ++n; throw std::runtime_error("no"); });
    p.native->registerMethodCallHandler("a.B.D", [&](const DBus::Message::MethodCall&) { ++later; });
    p.peer->write(call("a.B", "C", 1).bytes() + call("a.B", "D", 2).bytes());
    msleep(100);
    p.peer->write(call("a.B", "D", 3).bytes());
    if (!eventually([&] { return later == 2; }, 2000))
        fail("messages after one whose handler threw are not dispatched");
    EXPECT(n == 1);
    pass();
}
