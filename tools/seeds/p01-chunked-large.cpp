// One thread sends large messages while another sends small ones: the stream must stay a sequence of whole messages.
#include "fakebus.h"
int main()
{
    watchdog(100, "hung");
    Bus bus;
    Pair p(bus);
    std::atomic<bool> stop { false };
    std::thread small([&] { while (!stop) { p.native->broadcastSignal(mkSignal("Small")); usleep(50); } });
    std::thread big([&] { for (int i = 0; i < 60; ++i) p.native->sendMethodCall("x.y", mkCall("Big", std::string(3000000, 'b'), 1)); });
    int n = 0;
    while (n < 60) {
        Frame f = p.peer->next();
        if (!f.valid)
            fail("the stream is not a sequence of messages any more");
        if (f.f[3] == "Big") {
            ++n;
            if (f.str() != std::string(3000000, 'b'))
                fail("a large message was damaged");
        }
    }
    stop = true;
    pass();
}
