// A call sent without expecting a reply: a reply that comes all the same invokes nothing.
#include "fakebus.h"
int main()
{
    watchdog(60, "hung");
    Bus bus;
    Pair p(bus);
    std::atomic<int> n { 0 };
    p.native->sendMethodCall("x.y", mkCall("M", "", 1), [&](const DBus::Message::MethodReturn&) { ++n; }, [&](const DBus::Message::Error&) { ++n; });
    Frame f = p.peer->next();
    EXPECT(f.valid && f.flags == 1);
    p.peer->write(replyTo(f.serial).bytes());
    p.settle();
    EXPECT(n == 0);
    pass();
}
