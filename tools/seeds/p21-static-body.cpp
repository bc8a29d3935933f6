// Two connections receive bodies at the same time; each handler sees its own.
#include "fakebus.h"
int main()
{
    watchdog(100, "hung");
    Bus bus;
    Pair a(bus), b(bus);
    std::atomic<int> na { 0 }, nb { 0 }, bad { 0 };
    // a handler of one connection runs long; meanwhile the other connection receives
    a.native->registerSignalHandler("a.B.C", [&](const DBus::Message::Signal& s) { ++na; if (DBus::Type::asString(s.getParameter(0)) != std::string(3000, 'a')) ++bad; });
    b.native->registerSignalHandler("a.B.C", [&](const DBus::Message::Signal& s) { ++nb; if (DBus::Type::asString(s.getParameter(0)) != std::string(3000, 'b')) ++bad; });
    auto feed = [](Pair& p, char ch) {
        Out o = signal_("a.B", "C");
        o.sig = "s";
        o.body = bstr(std::string(3000, ch));
        std::string s = o.bytes();
        for (int i = 0; i < 4000; ++i)
            p.peer->write(s);
    };
    std::thread ta([&] { feed(a, 'a'); }), tb([&] { feed(b, 'b'); });
    ta.join();
    tb.join();
    a.settle();
    b.settle();
    if (bad || na != 4000 || nb != 4000)
        fail(std::to_string(bad) + " bodies were wrong; " + std::to_string(na) + " and " + std::to_string(nb) + " of 4000 arrived");
    pass();
}
