// P17: real units against the ratio of their scales.
// MC-FLAGS: -O0
#include "units_model.hpp"
#include "spine/structure/units/time.hpp"
using R = spnu::RealRawType;
template <typename... U> static void addr(const char* n, std::vector<um::LD> mag) {
    um::Spec<R> s;
    s.mag = std::move(mag);
    s.values = {0, 1, -1, 0.5f, 3, 7.25f, -12.75f, 60, 1000, 1e-3f, 86400, 123456.7f, -1e6f};
    s.others = {0, 1, -1, 2.5f, 1000, 1e-3f, 60, 3600, -99.5f, 1e6f};
    s.scalars = {0, 1, -1, 2, 0.5f, -3, 1000, 1e-3f};
    um::add<R, U...>(n, s, mc::thorough() && sizeof...(U) < 5 ? 2 : 1);
}
// a quantity alone in its dimension only combines with itself
struct Temperature : mc::Model {
    void step() override {
        float x = (mc::choose(4001) - 2000) * 0.25f;
        mc::label("temperature %g", x);
        auto close = [](double a, double b) { return std::fabs(a - b) <= 1e-4; };
        mc::check(close(to_kelvin(celsius(x)).raw(), x + 273.15), "kelvin of %g celsius is %g", x, (double)to_kelvin(celsius(x)).raw());
        mc::check(close(to_celsius(kelvin(x)).raw(), x - 273.15), "celsius of %g kelvin is %g", x, (double)to_celsius(kelvin(x)).raw());
        mc::check(close(to_celsius(to_kelvin(celsius(x))).raw(), x), "celsius to kelvin and back");
        mc::eq(to_celsius(celsius(x)).raw(), x, "celsius of celsius");
        mc::eq(to_kelvin(kelvin(x)).raw(), x, "kelvin of kelvin");
    }
};
MC_MAIN {
    using um::LD;
    addr<time_us, time_ms, time_s, time_m, time_h, time_d, time_W, time_M, time_Y>("time", {1e-6L, 1e-3L, 1, 60, 3600, 86400, 604800, 2419200, 31536000});
    addr<meter_n, meter_u, meter_m, meter_c, meter_d, meter, meter_k>("length", {1e-9L, 1e-6L, 1e-3L, 1e-2L, 1e-1L, 1, 1e3L});
    addr<gram_u, gram_m, gram, gram_k>("mass", {1e-6L, 1e-3L, 1, 1e3L});
    addr<joule_p, joule_n, joule_u, joule_m, joule, joule_k, joule_M, joule_G, joule_T>("energy", {1e-12L, 1e-9L, 1e-6L, 1e-3L, 1, 1e3L, 1e6L, 1e9L, 1e12L});
    addr<litre_ml, litre, cubic_metre>("volume", {1e-3L, 1, 1e3L});
    addr<watt_m, watt, watt_k, watt_M, watt_G>("power", {1e-3L, 1, 1e3L, 1e6L, 1e9L});
    addr<hertz, hertz_k, hertz_M, hertz_G>("frequency", {1, 1e3L, 1e6L, 1e9L});
    addr<farad_p, farad_n, farad_u, farad_m, farad>("capacitance", {1e-12L, 1e-9L, 1e-6L, 1e-3L, 1});
    addr<ohm_m, ohm, ohm_k, ohm_M>("resistance", {1e-3L, 1, 1e3L, 1e6L});
    addr<pascal, pascal_k, pascal_M>("pressure", {1, 1e3L, 1e6L});
    addr<newton, newton_k>("force", {1, 1e3L});
    addr<amp_u, amp_m, amp>("current", {1e-6L, 1e-3L, 1});
    addr<volt_u, volt_m, volt>("potential", {1e-6L, 1e-3L, 1});
    addr<coulomb_n, coulomb_u, coulomb_m, coulomb>("charge", {1e-9L, 1e-6L, 1e-3L, 1});
    addr<siemens_u, siemens_m, siemens>("conductance", {1e-6L, 1e-3L, 1});
    addr<katal>("catalytic activity", {1});
    addr<weber>("magnetic flux", {1});
    addr<tesla>("magnetic flux density", {1});
    addr<gray>("absorbed dose", {1});
    addr<lumen>("luminous flux", {1});
    addr<henry>("inductance", {1});
    addr<mole>("amount of substance", {1});
    addr<sievert>("dose equivalent", {1});
    addr<becquerel>("radioactivity", {1});
    addr<lux>("illuminance", {1});
    addr<kelvin>("temperature in kelvin", {1});
    addr<celsius>("temperature in celsius", {1});
    using namespace spnu;
    using T = struct TagAll;
    addr<Unit<T, Atto, R>, Unit<T, Femto, R>, Unit<T, Pico, R>>("smallest SI prefixes", {1e-18L, 1e-15L, 1e-12L});
    addr<Unit<T, Deca, R>, Unit<T, Hecto, R>, Unit<T, Kilo, R>, Unit<T, Base, R>>("deca and hecto", {10, 100, 1000, 1});
    addr<Unit<T, Giga, R>, Unit<T, Tera, R>, Unit<T, Peta, R>, Unit<T, Exa, R>>("largest SI prefixes", {1e9L, 1e12L, 1e15L, 1e18L});
    mc::config("celsius and kelvin", [] { return new Temperature; }, 1);
}
