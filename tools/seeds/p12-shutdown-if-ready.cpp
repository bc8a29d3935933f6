// A connection that is destroyed before the server has said anything.
#include "fakebus.h"
int main()
{
    watchdog(15, "the destructor of an unauthenticated connection does not return");
    Bus bus;
    Pair p(bus, false);
    p.native->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
    p.peer->line();
    p.native.reset();
    pass();
}
