// An empty array of structs: the padding before its (absent) first element is still there.
#include "fakebus.h"
int main()
{
    watchdog(60, "hung");
    Bus bus;
    Pair p(bus);
    DBus::Type::Array a, ax;
    a.setSignature("a(tt)");
    ax.setSignature("ax");
    DBus::Message::Signal s = mkSignal("S");
    s.addParameter(DBus::Type::Uint32(7)); // body offset 4: the length ends at 8, no padding needed
    s.addParameter(a);
    s.addParameter(ax); // length ends at 12: four octets of padding
    s.addParameter(DBus::Type::Uint32(9));
    p.native->broadcastSignal(s);
    Frame f = p.peer->next();
    EXPECT(f.valid);
    std::string want;
    put32(want, 7), put32(want, 0), put32(want, 0), put32(want, 0), put32(want, 9);
    EXPECT(f.body == want);
    pass();
}
