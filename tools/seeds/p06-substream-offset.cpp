// Arrays of variants that hold eight-octet values, beginning at every possible offset.
#include "fakebus.h"
#include "dbus_type_array.h"
#include "dbus_type_uint64.h"
int main()
{
    watchdog(60, "hung");
    Bus bus;
    Pair p(bus);
    std::atomic<int> n { 0 };
    std::string got;
    p.native->registerSignalHandler("a.B.C", [&](const DBus::Message::Signal& s) {
        const auto& a = DBus::Type::refArray(s.getParameter(s.getParameterCount() - 1)).getContents();
        for (auto& v : a)
            got += DBus::Type::asString(v) + ";";
        ++n;
    });
    for (int lead = 0; lead < 3; ++lead) { // an array behind so many integers
        Out o = signal_("a.B", "C");
        std::string b;
        for (int i = 0; i < lead; ++i)
            o.sig += "u", put32(b, 7);
        o.sig += "av";
        size_t lenAt = b.size();
        put32(b, 0);
        size_t st = b.size();
        for (uint64_t x : { 11ull, 22ull }) {
            b += std::string("\x01t\0", 3);
            pad(b, 8);
            b.append((char*)&x, 8);
        }
        uint32_t l = (uint32_t)(b.size() - st);
        memcpy(&b[lenAt], &l, 4);
        o.body = b;
        p.peer->write(o.bytes());
        eventually([&] { return n == lead + 1; }, 1000);
        if (n != lead + 1 || got != "11;22;")
            fail("with " + std::to_string(lead) + " integers in front the array was read as " + got);
        got.clear();
    }
    pass();
}
