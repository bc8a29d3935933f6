// Calls nobody handles were received all the same.
#include "fakebus.h"
int main()
{
    watchdog(20, "hung");
    Bus bus;
    Pair p(bus);
    p.native->registerMethodCallHandler("a.B.C", [](const DBus::Message::MethodCall&) {});
    p.peer->write(call("a.B", "C", 1).bytes() + call("a.B", "D", 2).bytes() + call("a.B", "E", 3).bytes());
    p.settle();
    std::string s = p.native->getStats();
    size_t at = s.find("count_receive_methodcalls:");
    EXPECT(at != std::string::npos);
    if (atoi(s.c_str() + s.find(':', at) + 1) != 3)
        fail("three calls were received, but the statistics say:\n" + s);
    pass();
}
