// Sending returns promptly while a handler is running in the I/O thread.
#include "fakebus.h"
int main()
{
    watchdog(30, "hung");
    Bus bus;
    Pair p(bus);
    std::atomic<int> state { 0 };
    std::atomic<bool> sent { false };
    p.native->registerMethodCallHandler("a.B.C", [&](const DBus::Message::MethodCall&) {
        state = 1;
        eventually([&] { return sent.load(); }, 3000); // waits for the other thread to have sent
        state = 2;
    });
    p.peer->write(call("a.B", "C").bytes());
    EXPECT(eventually([&] { return state == 1; }));
    p.native->broadcastSignal(mkSignal("S"));
    if (state != 1)
        fail("a send had to wait for a running handler");
    sent = true;
    pass();
}
