// Messages are sent all the way through the handshake; they must arrive in the order they were sent.
#define HOOK_UNLOCK
#include "fakebus.h"
int main()
{
    watchdog(100, "hung");
    Bus bus;
    Pair p(bus, false);
    p.native->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
    p.peer->line();
    std::atomic<int> sent { 0 };
    std::atomic<bool> stop { false };
    std::thread t([&] {
        slowUnlockMs = 0.001;
        while (!stop) {
            p.native->sendMethodCall("x.y", mkCall("N" + std::to_string(sent), "", 1));
            ++sent;
            usleep(100);
        }
    });
    eventually([&] { return sent > 100; });
    slowUnlockAllUs = 2000; // the thread that completes the handshake is slow
    p.peer->write("OK 1234\r\n");
    if (p.peer->line() != "BEGIN")
        fail("no BEGIN");
    for (int i = 0; i < 300; ++i) {
        Frame f = p.peer->next();
        if (!f.valid || f.f[3] != "N" + std::to_string(i))
            fail("expected message N" + std::to_string(i) + ", got " + f.f[3]);
        if (i == 200)
            slowUnlockAllUs = 0;
    }
    stop = true;
    t.join();
    pass();
}
