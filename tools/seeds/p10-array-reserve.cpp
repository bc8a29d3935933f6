// Small messages that claim to contain large arrays must not make the process reserve large amounts of memory.
#include "fakebus.h"
#include <sys/resource.h>
static std::atomic<size_t> biggest { 0 };
void* operator new(size_t n)
{
    size_t b = biggest;
    while (n > b && !biggest.compare_exchange_weak(b, n))
        ;
    void* p = malloc(n);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
int main()
{
    watchdog(60, "hung");
    Bus bus;
    Pair p(bus);
    biggest = 0;
    for (uint32_t n : { 1000000u, 60000000u }) {
        Out o = signal_("a.B", "C");
        o.sig = "ay";
        put32(o.body, n);
        o.body += "abcd";
        p.peer->write(o.bytes());
    }
    p.settle();
    if (biggest > 1000000)
        fail("a message of less than 200 octets made the library allocate " + std::to_string(biggest) + " octets at once");
    pass();
}
