// A message sent while the handshake completes: the sender is slow whenever it has given up a lock.
#define HOOK_UNLOCK
#include "fakebus.h"
int main()
{
    watchdog(100, "hung");
    Bus bus;
    for (int round = 0; round < 8; ++round) {
        Pair p(bus, false);
        p.native->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
        p.peer->line();
        DBus::Message::Signal s = mkSignal("Racing");
        std::thread t([&] { slowUnlockMs = 40; p.native->broadcastSignal(s); slowUnlockMs = 0; });
        msleep(10 + 10 * round);
        p.peer->write("OK 1234\r\n");
        if (p.peer->line() != "BEGIN")
            fail("no BEGIN");
        t.join();
        Frame f = p.peer->next(2000);
        if (!f.valid || f.f[3] != "Racing")
            fail("a message sent while authentication completed was never transmitted");
        p.peer->close();
    }
    pass();
}
