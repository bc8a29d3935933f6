// A rule whose removal has returned is not invoked any more, whenever the bus answers.
#include "fakebus.h"
int main()
{
    watchdog(60, "hung");
    Bus bus;
    Pair p(bus);
    std::atomic<int> n { 0 };
    const char* rule = "type='signal',interface='a.B'";
    p.native->callAddMatch(rule, [](const DBus::Message::MethodReturn&) {}, [](const DBus::Message::Error&) {}, [&](const DBus::Message::Signal&) { ++n; });
    Frame f = p.peer->next();
    p.peer->write(replyTo(f.serial).bytes() + signal_("a.B", "C").bytes());
    p.settle();
    EXPECT(n == 1);
    p.native->callRemoveMatch(rule);
    p.peer->write(signal_("a.B", "C", 2).bytes());
    p.settle();
    if (n != 1)
        fail("the handler of a removed rule was invoked");
    pass();
}
