"""S13 (C12), S14 (C13), S15 (C14)"""
P = 'src/vmecpp/cpp/vmecpp/vmec/'
MM = P + 'ideal_mhd_model/ideal_mhd_model.cc'
FF = P + 'ideal_mhd_model/fft_toroidal.cc'
V = 'vmecpp/vmec/'
SRCS = [V + 'ideal_mhd_model/ideal_mhd_model.cc', V + 'ideal_mhd_model/dft_toroidal.cc', V + 'fourier_coefficients/fourier_coefficients.cc', V + 'fourier_forces/fourier_forces.cc', V + 'fourier_geometry/fourier_geometry.cc',
        'vmecpp/common/util/util.cc']
LD = '-Wl,--unresolved-symbols=ignore-all'
HEAD = '''#include <sstream>
#include <vector>
#include <string>
#include <mutex>
#include <thread>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <iostream>
#include <numbers>
#include <span>
#include <optional>
#include <memory>
#define private public
#define protected public
#include "vmecpp/common/fourier_basis_fast_poloidal/fourier_basis_fast_poloidal.h"
#include "vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.h"
#undef private
#undef protected
using namespace vmecpp;
template <class T> static T& Raw() { return *(T*)calloc(1, sizeof(T) + 64); }
'''
RIG = HEAD + '''
struct Rig { Sizes& s = Raw<Sizes>(); RadialPartitioning& r = Raw<RadialPartitioning>(); FlowControl& fc = Raw<FlowControl>(); RadialProfiles& p = Raw<RadialProfiles>(); HandoverStorage& h = Raw<HandoverStorage>();
  FourierBasisFastPoloidal& fb = Raw<FourierBasisFastPoloidal>(); VmecConstants& c = Raw<VmecConstants>(); ThreadLocalStorage& ls = Raw<ThreadLocalStorage>(); VacuumPressureState& vac = Raw<VacuumPressureState>(); IdealMhdModel* m;
  Rig(bool lasym, int ns, int lo, int hi) {
    s.mpol = 2; s.ntor = 1; s.nnyq2 = 2; s.nZeta = 3; s.nThetaReduced = 4; s.nThetaEven = 6; s.nThetaEff = lasym ? 6 : 4; s.nZnT = s.nZeta * s.nThetaEff; s.mnsize = 4; s.lthreed = true; s.lasym = lasym; s.nfp = 1; s.num_basis = lasym ? 4 : 2;
    s.wInt = Eigen::VectorXd::Constant(s.nThetaEff, 0.25);
    r.nsMinF = lo; r.nsMaxF = hi; r.nsMinF1 = lo > 0 ? lo - 1 : 0; r.nsMaxF1 = hi + 1 < ns ? hi + 1 : ns; r.nsMaxFIncludingLcfs = r.nsMaxF1 == ns ? ns : hi; r.nsMinH = r.nsMinF1; r.nsMaxH = r.nsMaxF1 - 1; r.nsMinFi = lo > 1 ? lo : 1; r.nsMaxFi = hi < ns - 1 ? hi : ns - 1; r.ns_ = ns; r.num_threads_ = 1;
    fc.ns = ns; fc.deltaS = 1.0 / (ns - 1);
    m = new IdealMhdModel(&fc, &s, &fb, &p, &c, &ls, &h, &r, nullptr, 1, 1, 1, &vac);
  }
};
'''
SEEDS = []
SEEDS.append(dict(id='S13', prop='C12', edits=[(MM, '''  for (int jF = r_.nsMinF; jF < r_.nsMaxFIncludingLcfs; ++jF) {
    const int base = (jF - r_.nsMinF) * s_.nZnT;
    for (int k = 0; k < s_.nZeta; ++k) {
      const int kRev''', '''  for (int jF = r_.nsMinF; jF < r_.nsMaxF; ++jF) {
    const int base = (jF - r_.nsMinF) * s_.nZnT;
    for (int k = 0; k < s_.nZeta; ++k) {
      const int kRev''')],
 needs='a non-symmetric fixed-boundary run, on the thread that holds the plasma boundary', breaks='the constraint geometry on the boundary surface is left without its antisymmetric part and unextended',
 sources=SRCS, ldflags=LD, demo=RIG + '''
int main() {
  Rig R(true, 6, 3, 5); auto& m = *R.m;
  for (auto* a : {&m.rCon, &m.zCon, &m.rCon_asym, &m.zCon_asym}) for (int i = 0; i < a->size(); ++i) (*a)[i] = 1.0 + i;
  auto r0 = m.rCon; auto ra = m.rCon_asym;
  m.symrzl();
  int bad = 0;
  for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 6; ++l) {
    auto at = [&](int k, int l) { return (j * 3 + k) * 6 + l; };
    double e = l < 4 ? r0[at(k, l)] + ra[at(k, l)] : r0[at((3 - k) % 3, 6 - l)] - ra[at((3 - k) % 3, 6 - l)];
    if (std::abs(m.rCon[at(k, l)] - e) > 1e-12) bad = 1;
  }
  printf("bad %d\\n", bad);
  return bad;
}
'''))
SEEDS.append(dict(id='S14', prop='C13', edits=[(FF, '''    X[n][1] = spec[n] * (n * nfp) * nscale[n] * 0.5;
  }
  for (int n = ntor + 1; n < nhalf; ++n) {''', '''    X[n][1] = spec[n] * (n * nfp) * nscale[n] * 0.5;
  }
  for (int n = nhalf - (nhalf - ntor) / 2; n < nhalf; ++n) {''')],
 needs='a run with fewer toroidal modes after one with more on the same toroidal grid, in the same process', breaks='the padding of the toroidal derivative spectra is only partly cleared, so coefficients of the previous run leak into the toroidal derivatives',
 sources=[V + 'ideal_mhd_model/fft_toroidal.cc', V + 'fourier_coefficients/fourier_coefficients.cc', V + 'fourier_forces/fourier_forces.cc', V + 'fourier_geometry/fourier_geometry.cc'],
 ldflags=LD + ' -DVMECPP_USE_FFTX -I"$C/third_party/fftx_codelets/lib_fftx_prdftbat_cpu_srcs" -I"$C/third_party/fftx_codelets/lib_fftx_iprdftbat_cpu_srcs"',
 demo=HEAD + '''
#include "vmecpp/vmec/ideal_mhd_model/fft_toroidal.h"
static int g_n, g_cnt;
static void C2r(double* out, double* in) { int nh = g_n / 2 + 1; for (int q = 0; q < g_cnt; ++q) for (int k = 0; k < g_n; ++k) { double s = in[q * 2 * nh]; for (int n = 1; n < nh; ++n) { double a = 2 * std::acos(-1.0) * n * k / g_n; double f = (2 * n == g_n) ? 1 : 2; s += f * (in[(q * nh + n) * 2] * std::cos(a) - ((2 * n == g_n) ? 0 : in[(q * nh + n) * 2 + 1] * std::sin(a))); } out[q * g_n + k] = s; } }
static std::vector<double> Run(int ntor, int nZeta) {
  auto& s = Raw<Sizes>(); s.mpol = 2; s.ntor = ntor; s.nnyq2 = nZeta / 2; s.nZeta = nZeta; s.nThetaReduced = 3; s.nThetaEff = 3; s.nThetaEven = 4; s.nZnT = nZeta * 3; s.lthreed = true; s.nfp = 1;
  auto& r = Raw<RadialPartitioning>(); r.nsMinF1 = 0; r.nsMaxF1 = 3; r.nsMinF = 0; r.nsMaxF = 2; r.nsMaxFIncludingLcfs = 3;
  auto& fb = Raw<FourierBasisFastPoloidal>();
  auto tri = [&](int n, double b) { Eigen::VectorXd v(n); for (int i = 0; i < n; ++i) v[i] = std::cos(b * (i + 1)); return v; };
  for (auto* a : {&fb.cosmu, &fb.sinmu, &fb.cosmum, &fb.sinmum, &fb.cosmui, &fb.sinmui, &fb.cosmumi, &fb.sinmumi}) *a = tri(6, 0.7);
  fb.nscale = Eigen::VectorXd::Constant(s.nnyq2 + 1, std::sqrt(2.0)); fb.nscale[0] = 1;
  auto& x = Raw<FourierGeometry>(); auto& rp = Raw<RadialProfiles>(); rp.sqrtSF = tri(3, 0.3);
  std::vector<double> c(3 * 2 * (ntor + 1)); for (size_t i = 0; i < c.size(); ++i) c[i] = 1 + 0.1 * i;
  x.rmncc = c; x.rmnss = c; x.zmnsc = c; x.zmncs = c; x.lmnsc = c; x.lmncs = c;
  int N = 3 * s.nZnT; std::vector<std::vector<double>> b(18, std::vector<double>(N)); int q = 0;
  RealSpaceGeometry g; g.r1_e = b[q++]; g.r1_o = b[q++]; g.ru_e = b[q++]; g.ru_o = b[q++]; g.rv_e = b[q++]; g.rv_o = b[q++]; g.z1_e = b[q++]; g.z1_o = b[q++]; g.zu_e = b[q++]; g.zu_o = b[q++]; g.zv_e = b[q++]; g.zv_o = b[q++]; g.lu_e = b[q++]; g.lu_o = b[q++]; g.lv_e = b[q++]; g.lv_o = b[q++]; g.rCon = b[q++]; g.zCon = b[q++];
  auto& pl = Raw<ToroidalFftPlans>(); pl.n = nZeta; pl.nhalf = nZeta / 2 + 1; pl.nfp = 1; pl.mpol = 2; pl.fftx_full_c2r_run = C2r; g_n = nZeta; g_cnt = 24;
  FourierToReal3DSymmFastPoloidalFft(x, tri(2, 1.0), r, s, rp, fb, pl, g);
  std::vector<double> o; for (auto& v : b) o.insert(o.end(), v.begin(), v.end());
  return o;
}
int main() {
  auto a = Run(1, 12);      // fresh buffers
  Run(4, 12);
  auto b = Run(1, 12);      // after a run with more toroidal modes
  int bad = 0; for (size_t i = 0; i < a.size(); ++i) if (std::abs(a[i] - b[i]) > 1e-10) bad = 1;
  printf("bad %d\\n", bad);
  return bad;
}
'''))
SEEDS.append(dict(id='S15', prop='C14', edits=[(MM, '''  const int nsMinHere = r_.nsMinF;
  double localForceNorm1 =''', '''  const int nsMinHere = std::max(r_.nsMinF1, std::min(r_.nsMinF, 1));
  double localForceNorm1 =''')],
 needs='more than two threads: a partition that starts beyond the second surface', breaks='the surface shared with the inner neighbour is counted in the norm of both partitions, and the axis is dropped',
 sources=SRCS, ldflags=LD, demo=RIG + '''
int main() {
  Rig R(false, 8, 3, 5); auto& m = *R.m;
  R.h.magneticEnergy = R.h.thermalEnergy = R.h.plasmaVolume = 1; R.c.lamscale = 1;
  for (auto* a : {&m.guu, &m.r12, &m.bsubu, &m.bsubv}) a->setOnes();
  FourierGeometry x(&R.s, &R.r, 8);
  const int mn = R.s.mnsize; double e = 0;
  for (int k = 0; k < (int)x.rcc.size(); ++k) x.zsc[k] = 1 + k;
  for (int j = 3; j < 5; ++j) for (int q = 0; q < mn; ++q) e += x.zsc[(j - 2) * mn + q] * x.zsc[(j - 2) * mn + q];
  m.computeForceNorms(x);
  printf("%g %g\\n", R.h.fNorm1, 1 / e);
  return std::abs(R.h.fNorm1 * e - 1) > 1e-9;
}
'''))
