V = 'vmecpp/vmec/'
BDF = 'src/vmecpp/cpp/' + V + 'boundaries/boundaries.cc'
PRE = '''#include <sstream>
#include <vector>
#include <string>
#include <array>
#include <map>
#include <span>
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <iostream>
#define private public
#include "vmecpp/vmec/boundaries/boundaries.h"
#undef private
using namespace vmecpp;
'''
SRCS = [V + 'boundaries/boundaries.cc', V + 'boundaries/guess_magnetic_axis.cc', 'vmecpp/common/sizes/sizes.cc', 'vmecpp/common/util/util.cc', 'vmecpp/common/fourier_basis/fourier_basis.cc']
LD = '-Wl,--unresolved-symbols=ignore-all'
SEEDS = []
SEEDS.append(dict(id='S19', prop='C17', edits=[(BDF, 'rbcs[idx_mn] *= m_parity;', 'rbcs[idx_mn] *= -m_parity;')],
 needs='a non-axisymmetric, non-stellarator-symmetric boundary given with the poloidal angle running the wrong way round', breaks='after reversing the angle the boundary is a different surface',
 sources=SRCS, ldflags=LD, demo=PRE + '''
static double R(const Boundaries& b, double t, double z) {
  double r = 0;
  for (int m = 0; m < 3; ++m) for (int n = 0; n < 3; ++n) {
    int i = m * 3 + n;
    r += b.rbcc[i] * cos(m * t) * cos(n * z) + b.rbss[i] * sin(m * t) * sin(n * z) + b.rbsc[i] * sin(m * t) * cos(n * z) + b.rbcs[i] * cos(m * t) * sin(n * z);
  }
  return r;
}
int main() {
  Sizes s(true, 1, 3, 2, 12, 8); FourierBasisFastPoloidal f(&s);
  Boundaries b(&s, &f, -1);
  for (int i = 0; i < 9; ++i) {
    b.rbcc[i] = 1 + .1 * i; b.rbss[i] = i < 3 ? 0 : .3 - .02 * i; b.rbsc[i] = i < 3 ? 0 : .5 + .07 * i; b.rbcs[i] = i % 3 ? .2 + .03 * i : 0;
    b.zbsc[i] = b.zbcs[i] = b.zbcc[i] = b.zbss[i] = 0.1;
  }
  double before = R(b, 0.7, 0.4);
  b.flipTheta();
  double after = R(b, M_PI - 0.7, 0.4);
  if (std::abs(before - after) > 1e-12) { printf("%.15g %.15g\\n", before, after); return 1; }
  return 0;
}
'''))
