// A server that answers before BeginAuth() has returned; descriptor passing is requested.
#define HOOK_UNLOCK
#include "fakebus.h"
int main()
{
    watchdog(60, "hung");
    Bus bus;
    Pair p(bus, false);
    std::thread t([&] {
        p.peer->line();
        p.peer->write("OK 1234\r\n");
        std::string l = p.peer->line(3000);
        if (l != "NEGOTIATE_UNIX_FD")
            fail("descriptor passing was requested, but the client sent: " + l);
        p.peer->write("AGREE_UNIX_FD\r\n");
        if (p.peer->line(3000) != "BEGIN")
            fail("no BEGIN");
    });
    slowUnlockMs = 50;
    p.native->BeginAuth(DBus::AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD);
    slowUnlockMs = 0;
    t.join();
    pass();
}
