// The server's answer contains a long line that arrives in several pieces.
#include "fakebus.h"
int main()
{
    watchdog(60, "hung");
    Bus bus;
    Pair p(bus, false);
    p.native->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
    p.peer->line();
    std::string ok = "OK " + std::string(700, 'a') + "\r\n";
    for (size_t i = 0; i < ok.size(); i += 100) {
        p.peer->write(ok.substr(i, 100));
        msleep(30);
    }
    if (p.peer->line(3000) != "BEGIN")
        fail("no BEGIN after an OK with a long identifier");
    pass();
}
