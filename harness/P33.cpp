// P33: the clock of the native platform.
#include "ref.hpp"
#include "spine/core/debugging.hpp"
#include "spine/platform/hal.hpp"

struct Clock : mc::Model {
    const std::vector<int64_t>* amounts;
    __int128 us = 0; // what has been slept so far
    explicit Clock(const std::vector<int64_t>* a, const std::vector<int64_t>& bases) : amounts(a) {
        int64_t base = mc::pick(bases);
        mc::label("clock at %lld us", (long long)base);
        HAL::delay_us(k_time_us(base));
        us = base;
        look();
    }
    void look() {
        mc::eq(HAL::micros().raw(), (int64_t)us, "microsecond clock");
        mc::eq(HAL::millis().raw(), (int64_t)(us / 1000), "millisecond clock");
        mc::eq(HAL::micros().raw(), (int64_t)us, "microsecond clock, read again");
    }
    void step() override {
        int op = mc::choose(9);
        int64_t n = mc::pick(*amounts);
        static const int64_t unit[] = {1000, 1, 1000, 1, 1000, 1000000, 1000000, 60000000, 1000};
        static const char* name[] = {"delay(ms)", "delay_us(us)", "delay_ms(ms)", "delay_us(int)", "delay_ms(int)", "delay(s)", "delay_us(s)", "delay_ms(m)", "delay_us(ms)"};
        mc::assume((__int128)n * unit[op] < ((__int128)1 << 60));
        mc::assume((op != 3 && op != 4) || n <= 0xffffffffLL);
        mc::label("%s %lld", name[op], (long long)n);
        switch (op) {
        case 0: HAL::delay(k_time_ms(n)); break;
        case 1: HAL::delay_us(k_time_us(n)); break;
        case 2: HAL::delay_ms(k_time_ms(n)); break;
        case 3: HAL::delay_us((uint32_t)n); break;
        case 4: HAL::delay_ms((uint32_t)n); break;
        case 5: HAL::delay(k_time_s(n)); break;
        case 6: HAL::delay_us(k_time_s(n)); break;
        case 7: HAL::delay_ms(k_time_m(n)); break;
        case 8: HAL::delay_us(k_time_ms(n)); break;
        }
        us += (__int128)n * unit[op];
        mc::assume(us < ((__int128)1 << 61));
        look();
    }
};
MC_MAIN {
    bool th = mc::thorough();
    static const std::vector<int64_t> small = {0, 1, 2, 499, 500, 501, 999, 1000, 1001, 1999};
    static const std::vector<int64_t> large = {1, 999, 1000, 16777215, 16777217, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 4294967297LL, 4294967295001LL, 9007199254740993LL};
    mc::config("small delays", [] { return new Clock(&small, {0, 1, 999, 1000, 16777216001LL, 4294967295999LL}); }, th ? 4 : 3, {3000000});
    mc::config("large delays", [] { return new Clock(&large, {0, 1, 4294967295LL, 4294967295999LL, 1LL << 53, (1LL << 59) + 1}); }, th ? 4 : 3, {3000000});
}
