// A reply that arrives on one connection does not answer a call made on another.
#include "fakebus.h"
int main()
{
    watchdog(20, "hung");
    Bus bus;
    Pair a(bus), b(bus);
    std::atomic<int> n { 0 };
    a.native->sendMethodCall("x.y", mkCall("M"), [&](const DBus::Message::MethodReturn&) { ++n; });
    Frame f = a.peer->next();
    b.peer->write(replyTo(f.serial).bytes());
    b.settle();
    if (n)
        fail("a reply on another connection invoked the callback");
    a.peer->write(replyTo(f.serial).bytes());
    a.settle();
    EXPECT(n == 1);
    pass();
}
