// The peer stops sending, but goes on reading what it is sent: everything sent later still arrives, and
// a thread that sends at that moment does not use a descriptor that may belong to somebody else.
#include "fakebus.h"
int main()
{
    watchdog(15, "hung");
    Bus bus;
    Pair p(bus);
    shutdown(p.peer->fd, SHUT_WR);
    msleep(200);
    p.native->broadcastSignal(mkSignal("S"));
    Frame f = p.peer->next(2000);
    if (!f.valid || f.f[3] != "S")
        fail("after the peer has closed its sending direction nothing is written any more");
    pass();
}
