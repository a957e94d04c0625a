V = 'vmecpp/vmec/'
RPF = 'src/vmecpp/cpp/' + V + 'radial_profiles/radial_profiles.cc'
PRE = '''#include <sstream>
#include <vector>
#include <string>
#include <array>
#include <map>
#include <span>
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <iostream>
#define private public
#include "vmecpp/vmec/radial_profiles/radial_profiles.h"
#include "vmecpp/vmec/vmec_constants/vmec_constants.h"
#undef private
using namespace vmecpp;
template <class T> static T* Raw() { return (T*)calloc(1, sizeof(T) + 64); }
'''
SRCS = [V + 'radial_profiles/radial_profiles.cc', V + 'vmec_constants/vmec_constants.cc', V + 'radial_partitioning/radial_partitioning.cc', V + 'handover_storage/handover_storage.cc', V + 'profile_parameterization_data/profile_parameterization_data.cc']
LD = '-Wl,--unresolved-symbols=ignore-all'
SEEDS = []
SEEDS.append(dict(id='S17', prop='C16', edits=[(RPF, 'mass * std::pow(std::abs(vpnorm) * r00, id_.gamma)', 'mass * std::pow(vpnorm * r00, id_.gamma)')],
 needs='a negative toroidal flux derivative (sign of the Jacobian times phiedge) together with a non-zero adiabatic index', breaks='the mass profile becomes NaN (or negative for an odd integer gamma)',
 sources=SRCS, ldflags=LD, demo=PRE + '''
int main() {
  auto& id = *Raw<VmecINDATA>(); auto& r = *Raw<RadialPartitioning>(); auto& h = *Raw<HandoverStorage>(); auto& fc = *Raw<FlowControl>();
  r.nsMinF1 = r.nsMinH = 0; r.nsMaxF1 = 5; r.nsMaxH = 4; fc.ns = 5;
  RadialProfiles& p = *new RadialProfiles(&r, &h, &id, &fc, -1, 0.05);
  id.aphi = Eigen::VectorXd::Constant(1, 1.0); id.am = id.ai = id.ac = Eigen::VectorXd::Constant(1, 1.0);
  id.bloat = 1.0; id.gamma = 5.0 / 3.0; id.phiedge = 2.0; id.spres_ped = 1.0; id.ntor = 0; id.rbc.resize(1, 1); id.rbc(0, 0) = 3.0;
  p.pmassType = p.piotaType = p.pcurrType = ProfileParameterization::POWER_SERIES; p.pressureScalingFactor = 1.0;
  p.computeMagneticFluxes();
  VmecConstants vc; vc.rmsPhiP = 0.0;
  p.evalRadialProfiles(false, vc);
  for (int j = 0; j < 4; ++j) if (!(std::abs(p.massH[j] - std::pow(3.0 * 2.0 / (2.0 * M_PI), 5.0 / 3.0)) < 1e-9)) { printf("mass %d %g\\n", j, p.massH[j]); return 1; }
  return 0;
}
'''))
SEEDS.append(dict(id='S18', prop='C16', edits=[(RPF, 'const double br = M(iv - 1) - cr * (X(iv - 1) - X(iv));', 'const double br = M(iv - 1) - cr * (X(iv - 2) - X(iv - 1));')],
 needs='an Akima profile with curved data and unequal last two knot distances, evaluated in the outermost intervals', breaks='the continuation beyond the last knot is not the parabola through the last three knots: wrong slope at the edge',
 sources=SRCS, ldflags=LD, demo=PRE + '''
int main() {
  RadialProfiles& p = *Raw<RadialProfiles>();
  Eigen::VectorXd x(6), y(6);
  x << 0.0, 0.2, 0.35, 0.6, 0.7, 1.0;
  for (int i = 0; i < 6; ++i) y[i] = 1.0 + 2.0 * x[i] - 3.0 * x[i] * x[i];
  // a parabola is reproduced exactly in the outermost interval: all slopes are those of the parabola at both ends up to Akima's weights,
  // and mirroring the data mirrors the interpolant
  Eigen::VectorXd xr(6), yr(6);
  for (int i = 0; i < 6; ++i) { xr[i] = 1.0 - x[5 - i]; yr[i] = y[5 - i]; }
  for (double t = 0.0; t <= 1.0; t += 0.01) {
    double a = p.evalAkima(x, y, t), b = p.evalAkima(xr, yr, 1.0 - t);
    if (t < 1e-9 || t > 1 - 1e-9) continue;
    if (std::abs(a - b) > 1e-10) { printf("t %g: %g %g\\n", t, a, b); return 1; }
  }
  return 0;
}
'''))
