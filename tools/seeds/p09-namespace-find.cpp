// path_namespace matches the path and what is below it, not a path that contains it elsewhere.
#include "fakebus.h"
int main()
{
    watchdog(60, "hung");
    Bus bus;
    Pair p(bus);
    std::atomic<int> n { 0 };
    p.native->callAddMatch("type='signal',path_namespace='/org/a'", [](const DBus::Message::MethodReturn&) {}, [](const DBus::Message::Error&) {}, [&](const DBus::Message::Signal&) { ++n; });
    for (const char* s : { "/org/a", "/org/a/b", "/org/ab", "/x/org/a", "/x/org/a/b", "/org" }) {
        Out o = signal_("a.B", "C");
        o.path = s;
        p.peer->write(o.bytes());
    }
    p.settle();
    if (n != 2)
        fail("the rule was invoked " + std::to_string(n) + " times, for two signals that satisfy it");
    pass();
}
