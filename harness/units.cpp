// unit and physical constants (macros.hpp)
#include "vx.hpp"
#include "macros.hpp"
using namespace vx;
namespace u = hub::unit;
namespace k = hub::consts;
using namespace hub::unit;
VX_EXPORT void h_units(double *o) {
    o[0] = u::AU, o[1] = u::Ms, o[2] = u::year, o[3] = u::deg, o[4] = u::kyr, o[5] = u::Myr, o[6] = u::Gyr;
    o[7] = u::month, o[8] = u::day, o[9] = u::hr, o[10] = u::min, o[11] = u::sec, o[12] = u::T_hubble;
    o[13] = u::kg, o[14] = u::mp, o[15] = u::km, o[16] = u::m, o[17] = u::cm, o[18] = u::PC;
    o[19] = u::Rs, o[20] = u::Re, o[21] = u::Rj, o[22] = u::kms, o[23] = u::cms, o[24] = u::Me, o[25] = u::Mj, o[26] = u::Mmoon;
}
VX_EXPORT void h_consts27(double *o) {
    o[0] = k::pi, o[1] = k::G, o[2] = k::C, o[3] = k::kB, o[4] = k::kB_on_mp;
    o[5] = k::a_jupiter, o[6] = k::e_jupiter, o[7] = k::LoAN_jupiter, o[8] = k::AoP_jupiter, o[9] = k::i_jupiter;
    o[10] = k::a_neptune, o[11] = k::e_neptune, o[12] = k::LoAN_neptune, o[13] = k::AoP_neptune, o[14] = k::i_neptune;
    o[15] = k::a_mercury, o[16] = k::e_mercury, o[17] = k::LoAN_mercury, o[18] = k::AoP_mercury, o[19] = k::i_mercury;
}
// unit literals: integer and floating point form of every unit
#define LIT(i, n) o[2 * i] = 3_##n, o[2 * i + 1] = 2.5_##n;
VX_EXPORT void h_literals(double *o) {
    LIT(0, AU) LIT(1, Ms) LIT(2, year) LIT(3, deg) LIT(4, kyr) LIT(5, Myr) LIT(6, Gyr)
    LIT(7, month) LIT(8, day) LIT(9, hr) LIT(10, min) LIT(11, sec) LIT(12, T_hubble)
    LIT(13, kg) LIT(14, mp) LIT(15, km) LIT(16, m) LIT(17, cm) LIT(18, PC)
    LIT(19, Rs) LIT(20, Re) LIT(21, Rj) LIT(22, kms) LIT(23, cms) LIT(24, Me) LIT(25, Mj) LIT(26, Mmoon)
}
// any amount given as a literal
VX_EXPORT void h_lit_any(double x, size_t n, double *o) {
    o[0] = u::operator""_year(static_cast<long double>(x)), o[1] = u::operator""_year(static_cast<unsigned long long>(n));
    o[2] = u::operator""_km(static_cast<long double>(x)), o[3] = u::operator""_km(static_cast<unsigned long long>(n));
    o[4] = u::operator""_Mj(static_cast<long double>(x)), o[5] = u::operator""_Mj(static_cast<unsigned long long>(n));
    o[6] = u::year, o[7] = u::km, o[8] = u::Mj;
}
// every literal against its unit: o[j] = literal, o[54 + j] = amount * unit
VX_EXPORT void h_literals_all(double *o) {
    h_literals(o);
    double un[27];
    h_units(un);
    for (int j = 0; j < 54; ++j) o[54 + j] = (j % 2 ? 2.5 : 3.0) * un[j / 2];
}
