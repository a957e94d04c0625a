// Verification shim for the (absent) abscab-cpp dependency: same signatures.
// Straight-segment Biot-Savart for polygons, 512-gon for circles.  Only ever
// compiled into replay drivers; nothing proved depends on it.
#ifndef VERIF_SHIM_ABSCAB_H_
#define VERIF_SHIM_ABSCAB_H_
#include <cmath>
#include <vector>
namespace abscab {
constexpr double MU_0 = 1.25663706212e-6;
inline void SegA(const double* a, const double* b, const double* p, double c,
                 double* out) {
  double l[3], L = 0, ra = 0, rb = 0;
  for (int i = 0; i < 3; ++i) {
    l[i] = b[i] - a[i]; L += l[i] * l[i];
    ra += (p[i] - a[i]) * (p[i] - a[i]); rb += (p[i] - b[i]) * (p[i] - b[i]);
  }
  L = std::sqrt(L); ra = std::sqrt(ra); rb = std::sqrt(rb);
  const double eps = L / (ra + rb);
  for (int i = 0; i < 3; ++i)
    out[i] += MU_0 * c / (4 * M_PI) * std::log((1 + eps) / (1 - eps)) * l[i] / L;
}
inline void SegB(const double* a, const double* b, const double* p, double c,
                 double* out) {
  double l[3], r[3], L = 0, ra = 0, rb = 0;
  for (int i = 0; i < 3; ++i) {
    l[i] = b[i] - a[i]; r[i] = p[i] - a[i]; L += l[i] * l[i];
    ra += r[i] * r[i]; rb += (p[i] - b[i]) * (p[i] - b[i]);
  }
  L = std::sqrt(L); ra = std::sqrt(ra); rb = std::sqrt(rb);
  const double f = MU_0 * c / (4 * M_PI) * 2 * (ra + rb) /
                   (ra * rb * ((ra + rb) * (ra + rb) - L * L));
  out[0] += f * (l[1] * r[2] - l[2] * r[1]);
  out[1] += f * (l[2] * r[0] - l[0] * r[2]);
  out[2] += f * (l[0] * r[1] - l[1] * r[0]);
}
inline void magneticFieldPolygonFilament(int nv, const double* v, double c, int n,
                                         const double* p, double* out, int = 1, bool = true) {
  for (int i = 0; i < n; ++i)
    for (int s = 0; s + 1 < nv; ++s) SegB(v + 3 * s, v + 3 * s + 3, p + 3 * i, c, out + 3 * i);
}
inline void vectorPotentialPolygonFilament(int nv, const double* v, double c, int n,
                                           const double* p, double* out, int = 1, bool = true) {
  for (int i = 0; i < n; ++i)
    for (int s = 0; s + 1 < nv; ++s) SegA(v + 3 * s, v + 3 * s + 3, p + 3 * i, c, out + 3 * i);
}
inline std::vector<double> Circle(const double* c, const double* nrm, double r) {
  double n = std::sqrt(nrm[0]*nrm[0]+nrm[1]*nrm[1]+nrm[2]*nrm[2]);
  double z[3] = {nrm[0]/n, nrm[1]/n, nrm[2]/n}, x[3] = {1, 0, 0}, y[3];
  if (std::fabs(z[0]) > 0.9) { x[0] = 0; x[1] = 1; }
  double d = x[0]*z[0]+x[1]*z[1]+x[2]*z[2], m = 0;
  for (int i = 0; i < 3; ++i) { x[i] -= d * z[i]; m += x[i]*x[i]; }
  for (int i = 0; i < 3; ++i) x[i] /= std::sqrt(m);
  y[0]=z[1]*x[2]-z[2]*x[1]; y[1]=z[2]*x[0]-z[0]*x[2]; y[2]=z[0]*x[1]-z[1]*x[0];
  std::vector<double> v;
  for (int k = 0; k <= 512; ++k) { double t = 2*M_PI*k/512;
    for (int i = 0; i < 3; ++i) v.push_back(c[i]+r*(std::cos(t)*x[i]+std::sin(t)*y[i])); }
  return v;
}
inline void magneticFieldCircularFilament(const double* c, const double* nrm, double r, double I,
                                          int n, const double* p, double* out, int = 1) {
  auto v = Circle(c, nrm, r); magneticFieldPolygonFilament(513, v.data(), I, n, p, out);
}
inline void vectorPotentialCircularFilament(const double* c, const double* nrm, double r, double I,
                                            int n, const double* p, double* out, int = 1) {
  auto v = Circle(c, nrm, r); vectorPotentialPolygonFilament(513, v.data(), I, n, p, out);
}
}  // namespace abscab
#endif
