// A rule for one sender is not satisfied by another whose name merely begins the same way.
#include "fakebus.h"
int main()
{
    watchdog(60, "hung");
    Bus bus;
    Pair p(bus);
    std::atomic<int> n { 0 };
    p.native->callAddMatch("type='signal',interface='a.B',sender=':1.5'", [](const DBus::Message::MethodReturn&) {}, [](const DBus::Message::Error&) {}, [&](const DBus::Message::Signal&) { ++n; });
    for (const char* s : { ":1.5", ":1.55", ":1", ":1.50", ":11.5", "com.example.x" }) {
        Out o = signal_("a.B", "C");
        o.sender = s;
        p.peer->write(o.bytes());
    }
    p.settle();
    if (n != 1)
        fail("the rule was invoked " + std::to_string(n) + " times, for one signal that satisfies it");
    pass();
}
