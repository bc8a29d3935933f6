// Flags may be combined.
#include "fakebus.h"
int main()
{
    watchdog(60, "hung");
    Bus bus;
    Pair p(bus);
    for (uint32_t fl = 0; fl < 4; ++fl) {
        p.native->sendMethodCall("x.y", mkCall("F", "", fl));
        Frame f = p.peer->next();
        EXPECT(f.valid && f.flags == (int)fl);
    }
    pass();
}
