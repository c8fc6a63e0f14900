// Independent reference model of the tidal theory used as oracle.
// Written from the published tables (Schureman 1958, Meeus 1998, Ray's
// admittance coefficients) and the documentation comments of the headers, in
// extended precision; shares no code with the library.
#pragma once
#include <cmath>
#include <complex>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace ref {

#include "lpe_table.inc"

using ld = long double;
const ld PI = 3.14159265358979323846264338327950288L;
const ld TWO_PI = 2 * PI;
inline ld rad(ld d) { return d * PI / 180.0L; }
inline ld wrap360(ld d) {
  ld r = fmodl(d, 360.0L);
  if (r < 0) r += 360.0L;
  if (r >= 360.0L) r = 0;
  return r;
}
// signed difference modulo 2*pi, in (-pi, pi]
inline ld angdiff(ld a, ld b) {
  return remainderl(a - b, TWO_PI);
}

enum Formulae { kMeeus, kSch1, kSch3 };

struct Angles {
  ld T, s, h, p, N, p1;  // radians
  ld I, xi, nu, nup, nus, x1ra, R, P;
};

inline ld dms(ld d, ld m, ld s) { return d + m / 60.0L + s / 3600.0L; }

inline void derive(Angles& a) {
  a.I = acosl(0.91370L - 0.03569L * cosl(a.N));
  ld t = tanl(a.N / 2);
  ld at1 = atanl(1.01883L * t), at2 = atanl(0.64412L * t);
  a.xi = a.N - at1 - at2;
  if (a.xi > PI) a.xi -= TWO_PI;
  a.nu = at1 - at2;
  ld tg2 = tanl(a.I / 2) * tanl(a.I / 2);
  a.P = a.p - a.xi;
  a.x1ra = sqrtl(1 - 12 * tg2 * cosl(2 * a.P) + 36 * tg2 * tg2);
  a.R = atanl(sinl(2 * a.P) / (1 / (6 * tg2) - cosl(2 * a.P)));
  a.nup = atanl(sinl(2 * a.I) * sinl(a.nu) / (sinl(2 * a.I) * cosl(a.nu) + 0.3347L));
  ld s2 = sinl(a.I) * sinl(a.I);
  a.nus = atanl(s2 * sinl(2 * a.nu) / (s2 * cosl(2 * a.nu) + 0.0727L)) / 2;
}

inline Angles angles(Formulae f, double epoch, int leap) {
  Angles a{};
  ld N, h, s, p1, p;
  if (f == kMeeus) {
    ld T = ((ld)epoch + leap + 32.184L - 946728000.0L) / 3155760000.0L;
    ld T2 = T * T, T3 = T2 * T, T4 = T3 * T;
    ld L = 218.3164477L + 481267.88123421L * T - 0.0015786L * T2 + T3 / 538841.0L - T4 / 65194000.0L;
    ld D = 297.8501921L + 445267.1114034L * T - 0.0018819L * T2 + T3 / 545868.0L - T4 / 113065000.0L;
    ld M = 357.5291092L + 35999.0502909L * T - 0.0001536L * T2 + T3 / 24490000.0L;
    N = 125.0445479L - 1934.1362891L * T + 0.0020754L * T2 + T3 / 467441.0L - T4 / 60616000.0L;
    p = 83.3532465L + 4069.0137287L * T - 0.0103200L * T2 - T3 / 80053.0L + T4 / 18999000.0L;
    s = L;
    h = L - D;
    p1 = h - M;
  } else {
    ld T = ((ld)epoch / 86400.0L + 25567.5L) / 36525.0L;
    bool o3 = f == kSch3;
    ld T2 = o3 ? T * T : 0, T3 = o3 ? T * T * T : 0;
    N = dms(259, 10, 57.12L) - (5 * 360.0L + 482912.63L / 3600) * T + 7.58L / 3600 * T2 + 0.008L / 3600 * T3;
    h = dms(279, 41, 48.04L) + 129602768.13L / 3600 * T + 1.089L / 3600 * T2;
    s = dms(270, 26, 14.72L) + (1336 * 360.0L + 1108411.20L / 3600) * T + 9.09L / 3600 * T2 + 0.0068L / 3600 * T3;
    p1 = dms(281, 13, 15.0L) + 6189.03L / 3600 * T + 1.63L / 3600 * T2 + 0.012L / 3600 * T3;
    p = dms(334, 19, 40.87L) + (11 * 360.0L + 392515.94L / 3600) * T - 37.24L / 3600 * T2 - 0.045L / 3600 * T3;
  }
  a.N = rad(wrap360(N));
  a.h = rad(wrap360(h));
  a.s = rad(wrap360(s));
  a.p = rad(wrap360(p));
  a.p1 = rad(wrap360(p1));
  a.T = rad(180.0L + 15.0L * fmodl((ld)epoch, 86400.0L) / 3600.0L);
  derive(a);
  return a;
}

enum Node {
  F1, FO1, FOO1, FJ1, FM1, FM2, FM3, FMF, FMM, FM22, FM23, FM24, FK1, FK2, FM2K2, FM2K1, FM2O1, FM22K1, FM22K2, FL2, F79, F141
};

inline ld node_factor(Node n, const Angles& a) {
  ld I = a.I, sI = sinl(I), c2 = cosl(I / 2);
  ld m2 = c2 * c2 * c2 * c2 / 0.9154L;
  ld o1 = sI * c2 * c2 / 0.3800L;
  ld s2I = sinl(2 * I);
  ld k1 = sqrtl(0.8965L * s2I * s2I + 0.6001L * s2I * cosl(a.nu) + 0.1006L);
  ld k2 = sqrtl(19.0444L * sI * sI * sI * sI + 2.7702L * sI * sI * cosl(2 * a.nu) + 0.0981L);
  switch (n) {
    case F1: return 1;
    case FO1: return o1;
    case FOO1: return sI * sinl(I / 2) * sinl(I / 2) / 0.0164L;
    case FJ1: return s2I / 0.7214L;
    case FM1: return o1 * sqrtl(2.310L + 1.435L * cosl(2 * a.P));
    case FM2: return m2;
    case FM3: return powl(c2, 6) / 0.8758L;
    case FMF: return sI * sI / 0.1578L;
    case FMM: return (2.0L / 3.0L - sI * sI) / 0.5021L;
    case FM22: return m2 * m2;
    case FM23: return m2 * m2 * m2;
    case FM24: return m2 * m2 * m2 * m2;
    case FK1: return k1;
    case FK2: return k2;
    case FM2K2: return m2 * k2;
    case FM2K1: return m2 * k1;
    case FM2O1: return m2 * o1;
    case FM22K1: return m2 * m2 * k1;
    case FM22K2: return m2 * m2 * k2;
    case FL2: return m2 * a.x1ra;
    case F79: return sI * sI / 0.1565L;
    case F141: return (sI - 1.25L * sI * sI * sI) / 0.3192L;
  }
  return 0;
}

struct Row {
  const char* name;
  char type;       // L or S
  bool admittance; // inferred by admittance when the model lacks it
  int T, s, h, p, p1, shift;         // Greenwich argument (shift in quarter turns)
  int xi, nu, nup, nus;              // nodal phase
  Node f;
  int special;     // 1: M13, 2: L2
};

inline const std::vector<Row>& rows() {
  static const std::vector<Row> t = {
      {"Mm", 'L', false, 0, 1, 0, -1, 0, 0, 0, 0, 0, 0, FMM, 0},
      {"Mf", 'L', false, 0, 2, 0, 0, 0, 0, -2, 0, 0, 0, FMF, 0},
      {"Mtm", 'L', false, 0, 3, 0, -1, 0, 0, -2, 0, 0, 0, FMF, 0},
      {"Msqm", 'L', false, 0, 4, -2, 0, 0, 0, -2, 0, 0, 0, FMF, 0},
      {"Ssa", 'L', false, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, F1, 0},
      {"Sa", 'L', false, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, F1, 0},
      {"2Q1", 'S', true, 1, -4, 1, 2, 0, 1, 2, -1, 0, 0, FO1, 0},
      {"Sigma1", 'S', true, 1, -4, 3, 0, 0, 1, 2, -1, 0, 0, FO1, 0},
      {"Q1", 'S', false, 1, -3, 1, 1, 0, 1, 2, -1, 0, 0, FO1, 0},
      {"Rho1", 'S', true, 1, -3, 3, -1, 0, 1, 2, -1, 0, 0, FO1, 0},
      {"O1", 'S', false, 1, -2, 1, 0, 0, 1, 2, -1, 0, 0, FO1, 0},
      {"MP1", 'S', false, 1, -2, 3, 0, 0, -1, 0, -1, 0, 0, FJ1, 0},
      {"M11", 'S', true, 1, -1, 1, 1, 0, -1, 0, -1, 0, 0, FJ1, 0},
      {"M12", 'S', true, 1, -1, 1, -1, 0, -1, 2, -1, 0, 0, FO1, 0},
      {"M13", 'S', false, 1, -1, 1, 1, 0, -1, 0, -1, 0, 0, FM1, 1},
      {"Chi1", 'S', true, 1, -1, 3, -1, 0, -1, 0, -1, 0, 0, FJ1, 0},
      {"Pi1", 'S', true, 1, 0, -2, 0, 1, 1, 0, 0, 0, 0, F1, 0},
      {"P1", 'S', false, 1, 0, -1, 0, 0, 1, 0, 0, 0, 0, F1, 0},
      {"S1", 'S', false, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, F1, 0},
      {"K1", 'S', false, 1, 0, 1, 0, 0, -1, 0, 0, -1, 0, FK1, 0},
      {"Psi1", 'S', false, 1, 0, 2, 0, -1, -1, 0, 0, 0, 0, F1, 0},
      {"Phi1", 'S', true, 1, 0, 3, 0, 0, -1, 0, 0, 0, 0, F1, 0},
      {"Theta1", 'S', true, 1, 1, -1, 1, 0, -1, 0, -1, 0, 0, FJ1, 0},
      {"J1", 'S', true, 1, 1, 1, -1, 0, -1, 0, -1, 0, 0, FJ1, 0},
      {"OO1", 'S', true, 1, 2, 1, 0, 0, -1, -2, -1, 0, 0, FOO1, 0},
      {"MNS2", 'S', false, 2, -5, 4, 1, 0, 0, 4, -4, 0, 0, FM22, 0},
      {"Eps2", 'S', true, 2, -5, 4, 1, 0, 0, 2, -2, 0, 0, FM2, 0},
      {"2N2", 'S', true, 2, -4, 2, 2, 0, 0, 2, -2, 0, 0, FM2, 0},
      {"Mu2", 'S', true, 2, -4, 4, 0, 0, 0, 2, -2, 0, 0, FM2, 0},
      {"2MS2", 'S', false, 2, -4, 4, 0, 0, 0, 4, -4, 0, 0, FM22, 0},
      {"N2", 'S', false, 2, -3, 2, 1, 0, 0, 2, -2, 0, 0, FM2, 0},
      {"Nu2", 'S', true, 2, -3, 4, -1, 0, 0, 2, -2, 0, 0, FM2, 0},
      {"M2", 'S', false, 2, -2, 2, 0, 0, 0, 2, -2, 0, 0, FM2, 0},
      {"MKS2", 'S', false, 2, -2, 4, 0, 0, 0, 2, -2, 0, -2, FM2K2, 0},
      {"Lambda2", 'S', true, 2, -1, 0, 1, 0, 2, 2, -2, 0, 0, FM2, 0},
      {"L2", 'S', true, 2, -1, 2, -1, 0, 2, 2, -2, 0, 0, FL2, 2},
      {"2MN2", 'S', false, 2, -1, 2, -1, 0, 2, 2, -2, 0, 0, FM23, 0},
      {"T2", 'S', true, 2, 0, -1, 0, 1, 0, 0, 0, 0, 0, F1, 0},
      {"S2", 'S', false, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, F1, 0},
      {"R2", 'S', false, 2, 0, 1, 0, -1, 2, 0, 0, 0, 0, F1, 0},
      {"K2", 'S', false, 2, 0, 2, 0, 0, 0, 0, 0, 0, -2, FK2, 0},
      {"MSN2", 'S', false, 2, 1, 0, -1, 0, 0, 0, 0, 0, 0, FM22, 0},
      {"Eta2", 'S', true, 2, 1, 2, -1, 0, 0, 0, -2, 0, 0, F79, 0},
      {"2SM2", 'S', false, 2, 2, -2, 0, 0, 0, -2, 2, 0, 0, FM2, 0},
      {"MO3", 'S', false, 3, -4, 3, 0, 0, 1, 4, -3, 0, 0, FM2O1, 0},
      {"2MK3", 'S', false, 3, -4, 3, 0, 0, 1, 4, -4, 1, 0, FM22K1, 0},
      {"M3", 'S', false, 3, -3, 3, 0, 0, 0, 3, -3, 0, 0, FM3, 0},
      {"MK3", 'S', false, 3, -2, 3, 0, 0, -1, 2, -2, -1, 0, FM2K1, 0},
      {"N4", 'S', false, 4, -6, 4, 2, 0, 0, 4, -4, 0, 0, FM22, 0},
      {"MN4", 'S', false, 4, -5, 4, 1, 0, 0, 4, -4, 0, 0, FM22, 0},
      {"M4", 'S', false, 4, -4, 4, 0, 0, 0, 4, -4, 0, 0, FM22, 0},
      {"SN4", 'S', false, 4, -3, 2, 1, 0, 0, 2, -2, 0, 0, FM2, 0},
      {"MS4", 'S', false, 4, -2, 2, 0, 0, 0, 2, -2, 0, 0, FM2, 0},
      {"MK4", 'S', false, 4, -2, 4, 0, 0, 0, 2, -2, 0, -2, FM2K2, 0},
      {"S4", 'S', false, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, F1, 0},
      {"SK4", 'S', false, 4, 0, 2, 0, 0, 0, 0, 0, 0, -2, FK2, 0},
      {"R4", 'S', false, 4, 0, 2, 0, -2, 0, 0, 0, 0, 0, F1, 0},
      {"2MN6", 'S', false, 6, -7, 6, 1, 0, 0, 6, -6, 0, 0, FM23, 0},
      {"M6", 'S', false, 6, -6, 6, 0, 0, 0, 6, -6, 0, 0, FM23, 0},
      {"MSN6", 'S', false, 6, -5, 4, 1, 0, 0, 4, -4, 0, 0, FM22, 0},
      {"2MS6", 'S', false, 6, -4, 4, 0, 0, 0, 4, -4, 0, 0, FM22, 0},
      {"2MK6", 'S', false, 6, -4, 6, 0, 0, 0, 4, -4, 0, -2, FM22K2, 0},
      {"2SM6", 'S', false, 6, -2, 2, 0, 0, 0, 2, -2, 0, 0, FM2, 0},
      {"MSK6", 'S', false, 6, -2, 4, 0, 0, 0, 2, -2, 0, -2, FM2K2, 0},
      {"S6", 'S', false, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0, F1, 0},
      {"M8", 'S', false, 8, -8, 8, 0, 0, 0, 8, -8, 0, 0, FM24, 0},
      {"MSf", 'L', false, 0, 2, -2, 0, 0, 0, 2, -2, 0, 0, FM2, 0},
      {"A5", 'L', false, 0, 2, -2, 0, 0, 0, 0, 0, 0, 0, FMM, 0},
      {"Sa1", 'L', false, 0, 0, 1, 0, -1, 0, 0, 0, 0, 0, F1, 0},
      {"Sta", 'L', false, 0, 0, 3, 0, -1, 0, 0, 0, 0, 0, F1, 0},
      {"Mm2", 'L', false, 0, 1, 0, 0, 0, -1, -1, 0, 0, 0, F141, 0},
      {"Mm1", 'L', false, 0, 1, 0, 1, 0, 2, -2, 0, 0, 0, FMF, 0},
      {"Mf1", 'L', false, 0, 2, 0, -2, 0, 0, 0, 0, 0, 0, FMM, 0},
      {"Mf2", 'L', false, 0, 2, 0, -1, 0, -1, -1, 0, 0, 0, F141, 0},
      {"M0", 'L', false, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, FMM, 0},
  };
  return t;
}

inline const Row& row(const std::string& name) {
  for (auto& r : rows())
    if (name == r.name) return r;
  fprintf(stderr, "reference table has no wave %s\n", name.c_str());
  abort();
}

inline ld greenwich_v(const Row& r, const Angles& a) {
  return r.T * a.T + r.s * a.s + r.h * a.h + r.p * a.p + r.p1 * a.p1 + r.shift * PI / 2;
}
inline ld nodal_u(const Row& r, const Angles& a) {
  ld u = r.xi * a.xi + r.nu * a.nu + r.nup * a.nup + r.nus * a.nus;
  if (r.special == 1) u -= rad(1 / sqrtl(2.310L + 1.435L * cosl(2 * a.P)));
  if (r.special == 2) u -= a.R;
  return u;
}
// Known finding C04/2MK6: the library (and its own test) uses the cube of
// f(M2) where the documentation says the square.
inline ld nodal_f(const Row& r, const Angles& a) { return node_factor(r.f, a); }
inline ld nodal_f_2mk6_code(const Angles& a) {
  return node_factor(FM23, a) * node_factor(FK2, a);
}
inline ld nodal_f_code(const Row& r, const Angles& a) {
  return std::strcmp(r.name, "2MK6") == 0 ? nodal_f_2mk6_code(a) : nodal_f(r, a);
}

using cld = std::complex<ld>;
using Tides = std::map<std::string, cld>;

// Admittance: replaces the value of every wave flagged in `inferred`.
inline void admittance(Tides& t, const std::map<std::string, bool>& inferred) {
  auto set = [&](const char* n, cld v) {
    auto it = inferred.find(n);
    if (it != inferred.end() && it->second) t[n] = v;
  };
  cld q1 = t["Q1"], o1 = t["O1"], k1 = t["K1"];
  set("2Q1", 0.263L * q1 - 0.0252L * o1);
  set("Sigma1", 0.297L * q1 - 0.0264L * o1);
  set("Rho1", 0.164L * q1 + 0.0048L * o1);
  set("M11", 0.0389L * o1 + 0.0282L * k1);
  set("M12", 0.0140L * o1 + 0.0101L * k1);
  set("Chi1", 0.0064L * o1 + 0.0060L * k1);
  set("Pi1", 0.0030L * o1 + 0.0171L * k1);
  set("Phi1", -0.0015L * o1 + 0.0152L * k1);
  set("Theta1", -0.0065L * o1 + 0.0155L * k1);
  set("J1", -0.0389L * o1 + 0.0836L * k1);
  set("OO1", -0.0431L * o1 + 0.0613L * k1);
  cld n2 = t["N2"], m2 = t["M2"], k2 = t["K2"];
  set("2N2", 0.264L * n2 - 0.0253L * m2);
  cld n22 = t["2N2"];
  set("Eps2", 0.53285L * n22 - 0.03304L * n2);
  set("Eta2", -0.0034925L * m2 + 0.0831707L * k2);
  set("Mu2", 0.069439968323L * k2 + 0.351535557706L * n2 - 0.046278307672L * m2);
  set("Nu2", -0.006104695053L * k2 + 0.156878802427L * n2 + 0.006755704028L * m2);
  set("Lambda2", 0.016503557465L * k2 - 0.013307812292L * n2 + 0.007753383202L * m2);
  set("L2", 0.077137765667L * k2 - 0.051653455134L * n2 + 0.027869916824L * m2);
  set("T2", 0.180480173707L * k2 - 0.020101177502L * n2 + 0.008331518844L * m2);
}

// Lines of the potential that belong to a constituent (given dynamically,
// it is taken out of the equilibrium tide).
inline const std::map<std::string, std::vector<int>>& lpe_lines2() {
  static const std::map<std::string, std::vector<int>> m = {
      {"M0", {0, 1}},           {"Mm", {29, 30, 31, 32}}, {"Mf", {56, 57, 58, 59}}, {"Mtm", {85, 86, 87}}, {"Msqm", {98, 99, 100}},
      {"Ssa", {9, 11, 12}},     {"Sa1", {4}},             {"Sta", {13}},            {"Mm1", {33, 34, 35}}, {"Mf1", {53, 54, 55}},
      {"A5", {44, 45, 46}}};
  return m;
}
inline const std::map<std::string, std::vector<int>>& lpe_lines3() {
  static const std::map<std::string, std::vector<int>> m = {{"Mm2", {3, 4, 5, 6}}, {"Mf2", {8, 9}}};
  return m;
}

// Long-period equilibrium tide (cm)
template <typename Names>
ld equilibrium(const Angles& a, ld lat, const Names& dynamic) {
  bool off2[106] = {}, off3[17] = {};
  for (auto& n : dynamic) {
    auto i2 = lpe_lines2().find(n);
    if (i2 != lpe_lines2().end())
      for (int k : i2->second) off2[k] = true;
    auto i3 = lpe_lines3().find(n);
    if (i3 != lpe_lines3().end())
      for (int k : i3->second) off3[k] = true;
  }
  ld h2 = 0, h3 = 0;
  auto phase = [&](const double* r) { return r[0] * a.s + r[1] * a.h + r[2] * a.p - r[3] * a.N + r[4] * a.p1; };
  for (int k = 0; k < 106; ++k)
    if (!off2[k]) h2 += ld(kOrder2[k][5]) * cosl(phase(kOrder2[k]));
  for (int k = 0; k < 17; ++k)
    if (!off3[k]) h3 += ld(kOrder3[k][5]) * sinl(phase(kOrder3[k]));
  ld s = sinl(rad(lat));
  ld c20 = sqrtl(5 / (4 * PI)) * (1.5L * s * s - 0.5L) + 0.014432247L;
  ld c30 = sqrtl(7 / (4 * PI)) * (2.5L * s * s - 1.5L) * s - 0.012469818L;
  return 100 * ((1 - 0.609L + 0.302L) * c20 * h2 + (1 - 0.291L + 0.093L) * c30 * h3);
}

}  // namespace ref
