// A process that creates many messages.
#include "fakebus.h"
#include <set>
int main()
{
    watchdog(60, "hung");
    std::set<uint32_t> all;
    for (int k = 0; k < 200000; ++k) {
        uint32_t s = mkSignal("S").getSerial();
        if (!s || !all.insert(s).second)
            fail("message " + std::to_string(k) + " has the serial " + std::to_string(s));
    }
    pass();
}
