// A reply to a call whose serial is 2^31 or more (serials a peer chose reach handlers as reply serials).
#include "fakebus.h"
int main()
{
    watchdog(60, "hung");
    // what a handler sees of a reply: decode it through the message class, as the connection does
    Bus bus;
    Pair p(bus);
    DBus::Message::MethodReturn out(0x90000001u);
    std::string raw = out.marshall("x.y");
    DBus::MessageProtocol proto;
    uint32_t seen = 0;
    proto.setMethodReturnHandler([&](const DBus::Message::MethodReturn& r) { seen = r.getReplySerial(); });
    DBus::OctetBuffer b((const uint8_t*)raw.data(), raw.size());
    proto.onReceiveData(b);
    if (seen != 0x90000001u)
        fail("the reply serial 0x90000001 was read as " + std::to_string(seen));
    pass();
}
