// Several threads create messages; all serials differ.
#define HOOK_UNLOCK
#include "fakebus.h"
#include <set>
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (slowUnlockMs > 0) // pause before taking a lock
        sched_yield();
    return real(m);
}
int main()
{
    watchdog(60, "hung");
    std::vector<std::vector<uint32_t>> v(8);
    std::vector<std::thread> t;
    for (int i = 0; i < 8; ++i)
        t.emplace_back([&, i] {
            slowUnlockMs = 0.0001;
            for (int k = 0; k < 20000; ++k)
                v[i].push_back(mkSignal("S").getSerial());
            slowUnlockMs = 0;
        });
    for (auto& x : t)
        x.join();
    std::set<uint32_t> all;
    for (auto& x : v)
        for (uint32_t s : x)
            if (!s || !all.insert(s).second)
                fail("the serial " + std::to_string(s) + " was given to two messages");
    pass();
}
