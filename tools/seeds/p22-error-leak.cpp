// Signals nobody handles leave nothing behind.
#include "fakebus.h"
#include <malloc.h>
int main()
{
    watchdog(100, "hung");
    Bus bus;
    Pair p(bus);
    size_t used0 = 0;
    for (int i = 0; i < 200; ++i) {
        std::string s;
        for (int k = 0; k < 100; ++k)
            s += signal_("a.B", "C" + std::to_string(i * 100 + k)).bytes();
        p.peer->write(s);
        p.settle();
        if (i == 20)
            used0 = mallinfo2().uordblks + mallinfo2().hblkhd;
    }
    size_t used = mallinfo2().uordblks + mallinfo2().hblkhd;
    if (used > used0 + 500000)
        fail("memory grew by " + std::to_string(used - used0) + " octets");
    pass();
}
