// A peer that answers before sendMethodCall() has returned.
#define HOOK_UNLOCK
#include "fakebus.h"
int main()
{
    watchdog(60, "hung");
    Bus bus;
    Pair p(bus);
    std::atomic<int> n { 0 };
    std::thread t([&] {
        for (int i = 0; i < 5; ++i) {
            Frame f = p.peer->next();
            p.peer->write(replyTo(f.serial).bytes());
        }
    });
    for (int i = 0; i < 5; ++i) {
        DBus::Message::MethodCall m = mkCall("M");
        slowUnlockMs = 30; // the sending thread is slow after each lock it gives up
        p.native->sendMethodCall("x.y", m, [&](const DBus::Message::MethodReturn&) { ++n; });
        slowUnlockMs = 0;
    }
    t.join();
    if (!eventually([&] { return n == 5; }, 3000))
        fail("the callbacks of " + std::to_string(5 - n) + " of 5 calls were never invoked");
    pass();
}
