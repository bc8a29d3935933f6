// A call whose header fields take more than 64 KiB, between two ordinary ones.
#include "fakebus.h"
int main()
{
    watchdog(60, "hung");
    Bus bus;
    Pair p(bus);
    std::atomic<int> n { 0 };
    std::atomic<size_t> len { 0 };
    p.native->registerMethodCallHandler("a.B.C", [&](const DBus::Message::MethodCall& m) { ++n; if (m.getHeaderPath().size() > len) len = m.getHeaderPath().size(); });
    Out a = call("a.B", "C", 1), b = call("a.B", "C", 2), c = call("a.B", "C", 3);
    b.path = "/" + std::string(70000, 'p');
    p.peer->write(a.bytes() + b.bytes() + c.bytes());
    if (!eventually([&] { return n == 3; }, 3000))
        fail(std::to_string(n) + " of 3 calls were dispatched");
    EXPECT(len == 70001);
    pass();
}
