SEEDS = []
MG = 'src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc'
SEEDS.append(dict(id='S20', prop='C18', edits=[(MG, '''  bR.setZero(num_grid_points);
  bP.setZero(num_grid_points);
  bZ.setZero(num_grid_points);
''', '''  if (bR.size() != num_grid_points) {
    bR.setZero(num_grid_points);
    bP.setZero(num_grid_points);
    bZ.setZero(num_grid_points);
  }
''')],
 needs='a field provider that is loaded a second time (new currents, same table size)', breaks='the field of the first load is still contained in the field of the second',
 sources=['vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc'], ldflags='-Wl,--unresolved-symbols=ignore-all', demo='''#include <cstdio>
#include <cmath>
#include "vmecpp/free_boundary/mgrid_provider/mgrid_provider.h"
int main() {
  makegrid::MagneticFieldResponseTable t;
  auto& p = t.parameters;
  p.number_of_field_periods = 1; p.number_of_r_grid_points = 2; p.number_of_z_grid_points = 2; p.number_of_phi_grid_points = 1;
  p.r_grid_minimum = 1; p.r_grid_maximum = 2; p.z_grid_minimum = -1; p.z_grid_maximum = 1;
  t.b_r.setOnes(1, 4); t.b_p.setOnes(1, 4); t.b_z.setOnes(1, 4);
  vmecpp::MGridProvider m;
  Eigen::VectorXd c(1);
  Eigen::VectorXd r(1), z(1), br(1), bp(1), bz(1);
  r << 1.5; z << 0.25;
  for (double cur : {1.0, 3.0}) {
    c << cur;
    if (!m.LoadFields(t, c).ok()) return 2;
    m.interpolate(0, 1, 1, r, z, br, bp, bz);
    if (std::abs(br[0] - cur) > 1e-12) { printf("%g instead of %g\\n", br[0], cur); return 1; }
  }
  return 0;
}
'''))
LSF = 'src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc'
SIF = 'src/vmecpp/cpp/vmecpp/free_boundary/singular_integrals/singular_integrals.cc'
SEEDS.append(dict(id='S21', prop='C19', edits=[(LSF, 'bsin_asym[idx_l_negn] = -bsin_mat_asym(n, l);', 'bsin_asym[idx_l_negn] = bsin_mat_asym(n, l);')],
 needs='a non-stellarator-symmetric free-boundary case with toroidal modes', breaks='the source of the vacuum problem is projected onto the wrong function for negative toroidal mode numbers',
 sources=['vmecpp/free_boundary/laplace_solver/laplace_solver.cc', 'vmecpp/common/sizes/sizes.cc', 'vmecpp/common/fourier_basis/fourier_basis.cc', 'vmecpp/common/util/util.cc'], ldflags='-Wl,--unresolved-symbols=ignore-all', demo='''#include <cstdio>
#include <cmath>
#include <vector>
#include "vmecpp/free_boundary/laplace_solver/laplace_solver.h"
#include "vmecpp/free_boundary/tangential_partitioning/tangential_partitioning.h"
using namespace vmecpp;
int main() {
  Sizes s(true, 1, 3, 2, 12, 8);
  FourierBasisFastToroidal fb(&s);
  TangentialPartitioning& tp = *(TangentialPartitioning*)calloc(1, sizeof(TangentialPartitioning));
  tp.ztMin = 0; tp.ztMax = s.nZnT;
  int nf = 2, mf = 4, nm = (2 * nf + 1) * (mf + 1);
  std::vector<double> share(4 * nm * nm), bs(2 * nm); std::vector<int> piv(2 * nm);
  LaplaceSolver ls(&s, &fb, &tp, nf, mf, share, piv, bs);
  // source cos(u + v): only the mode m = 1, n = -1 may respond
  Eigen::VectorXd g(s.nThetaEven * s.nZeta);
  for (int l = 0; l < s.nThetaEven; ++l) for (int k = 0; k < s.nZeta; ++k) g[l * s.nZeta + k] = cos(2 * M_PI * l / s.nThetaEven + 2 * M_PI * k / s.nZeta);
  ls.SymmetriseSourceTerm(g);
  ls.PerformToroidalFourierTransforms();
  ls.PerformPoloidalFourierTransforms();
  double p = std::abs(ls.bvec_cos[(nf + 1) * (mf + 1) + 1]), q = std::abs(ls.bvec_cos[(nf - 1) * (mf + 1) + 1]);
  printf("m=1: n=+1 %g n=-1 %g\\n", p, q);
  return p < 1e-10 * q ? 0 : 1;
}
'''))
SEEDS.append(dict(id='S22', prop='C19', edits=[(SIF, '''        if (l - 1 <= kL) {
          Tlm[l - 1][kl] = T_lo;''', '''        if (l - 1 < kL) {
          Tlm[l - 1][kl] = T_lo;''')],
 needs='a strongly skewed surface metric at a grid point, so that the backward recurrence is used', breaks='the highest-order singular integral keeps the value of an earlier evaluation',
 sources=['vmecpp/free_boundary/singular_integrals/singular_integrals.cc', 'vmecpp/common/sizes/sizes.cc', 'vmecpp/common/fourier_basis/fourier_basis.cc', 'vmecpp/common/util/util.cc'], ldflags='-Wl,--unresolved-symbols=ignore-all', demo='''#include <cstdio>
#include <cmath>
#include <vector>
#include <array>
#include <span>
#include <iostream>
#include <sstream>
#define private public
#include "vmecpp/free_boundary/singular_integrals/singular_integrals.h"
#undef private
using namespace vmecpp;
int main() {
  Sizes s(false, 1, 5, 3, 16, 10);
  FourierBasisFastToroidal fb(&s);
  TangentialPartitioning& tp = *(TangentialPartitioning*)calloc(1, sizeof(TangentialPartitioning));
  tp.ztMin = 0; tp.ztMax = 1;
  SurfaceGeometry& g = *(SurfaceGeometry*)calloc(1, sizeof(SurfaceGeometry));
  int nf = 3, mf = 5;
  SingularIntegrals o(&s, &fb, &tp, &g, nf, mf);
  Eigen::VectorXd one(1), a(1), b(1), z(1);
  a << 1.0; b << 1.85; z << 0.1;
  for (int i = 0; i < 2; ++i) o.prepareUpdate(a, b, a, z, z, z, true);
  for (int l = 0; l <= nf + mf; ++l) {
    double sum = 0; int n = 200000;
    for (int i = 0; i < n; ++i) { double t = -1 + (i + .5) * 2 / n; sum += 2.0 / n * pow(t, l) / sqrt((2 - 1.85) * t * t + 2 + 1.85); }
    if (std::abs(sum - o.Tlm[l][0]) > 1e-6) { printf("l=%d %g instead of %g\\n", l, o.Tlm[l][0], sum); return 1; }
  }
  return 0;
}
'''))
