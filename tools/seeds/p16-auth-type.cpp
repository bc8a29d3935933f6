// A server that answers before it is asked; run under ThreadSanitizer.
#include "fakebus.h"
int main()
{
    watchdog(100, "hung");
    Bus bus;
    for (int i = 0; i < 30; ++i) {
        Pair p(bus, false);
        p.peer->write("OK 1234\r\n");
        p.native->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
        msleep(3);
    }
    return 0;
}
