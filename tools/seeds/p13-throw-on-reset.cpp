// The peer resets the connection; the process goes on, and later sends return.
#include "fakebus.h"
int main()
{
    watchdog(15, "hung");
    Bus bus;
    Pair p(bus);
    // unread data makes closing the socket a reset
    p.native->broadcastSignal(mkSignal("S"));
    msleep(100);
    p.peer->close();
    msleep(200);
    p.native->broadcastSignal(mkSignal("T"));
    p.native->sendMethodCall("x.y", mkCall("M"));
    Pair q(bus);
    q.settle();
    p.native.reset();
    pass();
}
