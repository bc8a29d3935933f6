// A signal that arrives after callAddMatch() has returned, but before the bus has answered the call.
#include "fakebus.h"
int main()
{
    watchdog(60, "hung");
    Bus bus;
    Pair p(bus);
    std::atomic<int> n { 0 };
    p.native->callAddMatch("type='signal',interface='a.B'", [](const DBus::Message::MethodReturn&) {}, [](const DBus::Message::Error&) {}, [&](const DBus::Message::Signal&) { ++n; });
    Frame f = p.peer->next();
    EXPECT(f.valid && f.f[3] == "AddMatch");
    p.peer->write(signal_("a.B", "C").bytes() + replyTo(f.serial).bytes() + signal_("a.B", "C", 2).bytes());
    p.settle();
    if (n != 2)
        fail("the rule was invoked for " + std::to_string(n) + " of 2 signals");
    pass();
}
