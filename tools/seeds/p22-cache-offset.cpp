// A stream whose reads never end at the end of a message.
#include "fakebus.h"
#include <malloc.h>
int main()
{
    watchdog(100, "hung");
    Bus bus;
    Pair p(bus);
    std::atomic<int> n { 0 };
    p.native->registerSignalHandler("a.B.C", [&](const DBus::Message::Signal&) { ++n; });
    Out o = signal_("a.B", "C");
    o.sig = "s";
    o.body = bstr(std::string(3900, 'x'));
    std::string m = o.bytes(), tail;
    size_t used0 = 0;
    for (int i = 1; i <= 3000; ++i) {
        std::string s = tail + m;
        p.peer->write(s.substr(0, s.size() - 40));
        tail = s.substr(s.size() - 40);
        if (!eventually([&] { return n == i - 1; }))
            fail("not dispatched");
        if (i == 50)
            used0 = mallinfo2().uordblks + mallinfo2().hblkhd;
    }
    size_t used = mallinfo2().uordblks + mallinfo2().hblkhd;
    if (used > used0 + 3000000)
        fail("memory grew by " + std::to_string(used - used0) + " octets although all but one message have been dispatched");
    pass();
}
