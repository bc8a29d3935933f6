// Many small messages in one read, and then silence: all of them must be dispatched.
#include "fakebus.h"
int main()
{
    watchdog(60, "hung");
    Bus bus;
    Pair p(bus);
    std::atomic<int> n { 0 };
    const int calls = 40;
    std::string s;
    for (int i = 0; i < calls; ++i)
        p.native->sendMethodCall("x.y", mkCall("M"), [&](const DBus::Message::MethodReturn&) { ++n; });
    for (int i = 0; i < calls; ++i) {
        Out o;
        o.type = 2;
        o.serial = (uint32_t)i + 1;
        o.reply = p.peer->next().serial;
        s += o.bytes();
    }
    p.peer->write(s);
    if (!eventually([&] { return n == calls; }, 3000))
        fail("only " + std::to_string(n) + " of " + std::to_string(calls) + " replies were dispatched; the rest is held back");
    pass();
}
