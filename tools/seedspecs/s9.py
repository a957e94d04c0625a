SEEDS = []
OQ = 'src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc'
PRE = '''#include <cstdio>
#include <cmath>
#include <sstream>
#include <vector>
#include <string>
#include <array>
#include <span>
#include <optional>
#include <iostream>
#include <algorithm>
#define private public
#include "vmecpp/vmec/output_quantities/output_quantities.h"
#undef private
using namespace vmecpp;
template <class T> static T& Raw() { return *(T*)calloc(1, sizeof(T) + 64); }
'''
SRCS = ['vmecpp/vmec/output_quantities/output_quantities.cc', 'vmecpp/vmec/handover_storage/handover_storage.cc']
SEEDS.append(dict(id='S23', prop='C20', edits=[(OQ, '''        const int source_index_reversed = jH * s.nZnT + kl_reversed;

        const int target_index = jH * vmec_internal_results.nZnT_reduced + kl;

        decomposed_bcov.bsubu_s(target_index) =''', '''        const int source_index_reversed =
            jH * s.nZnT + (k * s.nThetaEven + l_reversed);

        const int target_index = jH * vmec_internal_results.nZnT_reduced + kl;

        decomposed_bcov.bsubu_s(target_index) =''')],
 needs='a non-stellarator-symmetric, three-dimensional case (the reflection of the toroidal angle is the identity otherwise)', breaks='symmetric and antisymmetric parts of B_u, B_v are formed with a point that is not the reflection of the grid point',
 sources=SRCS, ldflags='-Wl,--unresolved-symbols=ignore-all', demo=PRE + '''int main() {
  auto& s = Raw<Sizes>();
  s.lasym = true; s.nZeta = 4; s.nThetaReduced = 4; s.nThetaEven = 6; s.nThetaEff = 6; s.nZnT = 24;
  VmecInternalResults r;
  r.num_full = 3; r.num_half = 2; r.nZnT_reduced = 16;
  BSubSFull b; b.bsubs_full.setZero(3, 24);
  r.bsubu.setZero(2, 24); r.bsubv.setZero(2, 24);
  // an even function of (theta, zeta): no antisymmetric part
  for (int j = 0; j < 2; ++j) for (int k = 0; k < 4; ++k) for (int l = 0; l < 6; ++l)
    r.bsubu(j, k * 6 + l) = r.bsubv(j, k * 6 + l) = cos(2 * M_PI * l / 6 - 2 * M_PI * k / 4);
  auto d = DecomposeCovariantBBySymmetry(s, r, b);
  double a = d.bsubu_a.cwiseAbs().maxCoeff() + d.bsubv_a.cwiseAbs().maxCoeff();
  printf("antisymmetric part of an even function: %g\\n", a);
  return a > 1e-12;
}
'''))
SEEDS.append(dict(id='S24', prop='C21', edits=[(OQ, '''        int idx_lk = l * s.nZeta + k;

        const double bsubvvac_r =''', '''        int idx_lk = k * s.nThetaEff + l;

        const double bsubvvac_r =''')],
 needs='a free-boundary run with an active vacuum contribution and more than one toroidal plane', breaks='the surface pressure in the Shafranov integrals is taken from other points of the boundary',
 sources=SRCS, ldflags='-Wl,--unresolved-symbols=ignore-all', demo=PRE + '''int main() {
  auto& s = Raw<Sizes>();
  s.nZeta = 3; s.nThetaReduced = 4; s.nThetaEven = 6; s.nThetaEff = 4; s.nZnT = 12; new (&s.wInt) decltype(s.wInt)(); s.wInt.setOnes(4);
  auto& fc = Raw<FlowControl>(); fc.ns = 4; fc.deltaS = 1. / 3; const_cast<bool&>(fc.lfreeb) = true;
  auto& h = Raw<HandoverStorage>(); new (&h.vacuum_magnetic_pressure) decltype(h.vacuum_magnetic_pressure)();
  h.vacuum_magnetic_pressure.resize(12);
  for (int l = 0; l < 4; ++l) for (int k = 0; k < 3; ++k) h.vacuum_magnetic_pressure[l * 3 + k] = 10 * l + k;
  VmecInternalResults r;
  r.num_full = 4; r.num_half = 3; r.nZnT_reduced = 12; r.sign_of_jacobian = -1;
  for (auto* p : {&r.ruFull, &r.zuFull, &r.r_e, &r.r_o, &r.rv_e, &r.rv_o, &r.zv_e, &r.zv_o}) p->setOnes(4, 12);
  for (auto* p : {&r.r12, &r.bsupv, &r.total_pressure}) p->setOnes(3, 12);
  for (auto* p : {&r.dVdsH, &r.presH, &r.phipH, &r.iotaH}) p->setOnes(3);
  JxBOutFileContents x; for (auto* p : {&x.jpar2, &x.jdotb, &x.bdotb, &x.jperp2}) p->setOnes(4);
  Threed1FirstTableIntermediate t; t.tau.setOnes(3, 12); t.bvcoH.setOnes(3);
  auto g = ComputeIntermediateThreed1GeometricMagneticQuantities(s, fc, h, r, x, t, VacuumPressureState::kActive);
  double e = 0;
  for (int k = 0; k < 3; ++k) for (int l = 0; l < 4; ++l) e += std::abs(g.phat[k * 4 + l] - (10 * l + k));
  printf("deviation %g\\n", e);
  return e > 1e-12;
}
'''))
