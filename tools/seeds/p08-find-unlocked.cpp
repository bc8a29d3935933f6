// unRegisterMethodCallHandler() must not return while the handler is still running in the I/O thread.
#include "fakebus.h"
int main()
{
    watchdog(60, "hung");
    Bus bus;
    Pair p(bus);
    std::atomic<int> state { 0 };
    p.native->registerMethodCallHandler("a.B.C", [&](const DBus::Message::MethodCall&) { state = 1; msleep(300); state = 2; });
    p.peer->write(call("a.B", "C").bytes());
    EXPECT(eventually([&] { return state == 1; }));
    p.native->unRegisterMethodCallHandler("a.B.C");
    if (state != 2)
        fail("the handler was still running when its unregistration returned");
    pass();
}
