B='src/vmecpp/cpp/vmecpp/'
SEEDS=[]
FBS=['vmecpp/common/fourier_basis/fourier_basis.cc','vmecpp/common/sizes/sizes.cc','vmecpp/common/util/util.cc']
SEEDS.append(dict(id='S05', prop='C02', edits=[(B+'common/sizes/sizes.cc','nThetaEven = 2 * (ntheta / 2);','nThetaEven = 2 * ((ntheta + 1) / 2);')],
 needs='an odd requested ntheta above the Nyquist minimum', breaks='the poloidal grid is rounded up instead of down: more points than requested',
 sources=['vmecpp/common/sizes/sizes.cc'],
 demo='''#include "vmecpp/common/sizes/sizes.h"
#include <cstdio>
int main(){ int bad=0; for(int nt=20;nt<60;++nt){ vmecpp::Sizes s(false,5,4,3,nt,20); int even=nt/2*2; if(s.nThetaEven!=even||s.nThetaReduced!=even/2+1) bad=1; }
 printf("bad %d\\n",bad); return bad; }
'''))
SEEDS.append(dict(id='S06', prop='C03', edits=[(B+'common/fourier_basis/fourier_basis.cc','''      if (l == 0 || l == s_.nThetaReduced - 1) {
        cosmui[idx_ml] /= 2.0;''','''      if (l == 0 || (l == s_.nThetaReduced - 1 && m < s_.mnyq2)) {
        cosmui[idx_ml] /= 2.0;''')],
 needs='the highest (Nyquist) poloidal mode at the theta = pi grid point', breaks='integration weight at the last grid point is not halved for the Nyquist mode',
 sources=FBS,
 demo='''#include "vmecpp/common/fourier_basis/fourier_basis.h"
#include <cstdio>
#include <cmath>
int main(){ vmecpp::Sizes s(false,1,4,2,20,12); vmecpp::FourierBasis<vmecpp::FourierBasisFastPoloidalLayout> t(&s); int bad=0; double nrm=1.0/(s.nZeta*(s.nThetaReduced-1));
 for(int m=0;m<=s.mnyq2;++m) for(int l=0;l<s.nThetaReduced;++l){ double e=std::cos(2*M_PI*m*l/s.nThetaEven)*(m?std::sqrt(2.):1.)*nrm*((l==0||l==s.nThetaReduced-1)?.5:1.); if(std::fabs(e-t.cosmui[m*s.nThetaReduced+l])>1e-12) bad=1; }
 printf("bad %d\\n",bad); return bad; }
'''))
SEEDS.append(dict(id='S07', prop='C04', edits=[(B+'common/fourier_basis/fourier_basis.cc','''        m_fcCos[mn] = 0.5 * (raw_cc + sgn_n * raw_ss) / basis_norm;''','''        m_fcCos[mn] = 0.5 * (raw_cc + (n == -n_size ? 1 : sgn_n) * raw_ss) / basis_norm;''')],
 needs='a mode with n = -ntor and a non-zero sin-sin coefficient', breaks='sign of the sin*sin contribution is wrong for the most negative toroidal mode',
 sources=FBS,
 demo='''#include "vmecpp/common/fourier_basis/fourier_basis.h"
#include <cstdio>
#include <cmath>
#include <vector>
int main(){ vmecpp::Sizes s(false,1,4,2,20,12); vmecpp::FourierBasis<vmecpp::FourierBasisFastPoloidalLayout> t(&s); int M=4,N=2; int mn=(N+1)+(M-1)*(2*N+1);
 std::vector<double> a(mn),cc(M*(N+1)),ss(M*(N+1)),b(mn); for(int i=0;i<mn;++i)a[i]=1+0.37*i; t.cos_to_cc_ss(a,cc,ss,N,M); t.cc_ss_to_cos(cc,ss,b,N,M); double d=0; for(int i=0;i<mn;++i)d=std::max(d,std::fabs(a[i]-b[i])); printf("%g\\n",d); return d>1e-12; }
'''))
SEEDS.append(dict(id='S08', prop='C08', edits=[(B+'common/util/util.cc','''  for (int j = jMin + 1; j < jMax - 1; ++j) {
    const double denominator = m_d[j] - m_a[j - 1] * m_b[j];
    // Division by zero may produce NaN, this is handled elsewhere.
    m_a[j] /= denominator;''','''  for (int j = jMin + 1; j < jMax - 1; ++j) {
    const double denominator =
        m_d[j] - (j > 1 ? m_a[j - 1] * m_b[j] : m_a[jMin] * m_b[jMin]);
    // Division by zero may produce NaN, this is handled elsewhere.
    m_a[j] /= denominator;''')],
 needs='a system whose first active row is the axis row (jMin = 0)', breaks='second row of the elimination uses the wrong lower off-diagonal, so the returned values do not solve the system',
 sources=['vmecpp/common/util/util.cc'],
 demo='''#include "vmecpp/common/util/util.h"
#include <cstdio>
#include <cmath>
#include <vector>
using V=std::vector<double>;
int main(){ double worst=0; for(int jm=0;jm<3;++jm){ int n=7; V a(n),d(n),b(n),c(n); for(int i=0;i<n;++i){a[i]=.3+.1*i;b[i]=.7-.05*i;d[i]=4+.2*i;c[i]=1+i;} V A=a,D=d,Bq=b,C=c; vmecpp::TridiagonalSolveSerial(A,D,Bq,C.data(),n,jm,n,1);
 for(int i=jm;i<n;++i){ double r=d[i]*C[i]-c[i]; if(i>jm)r+=b[i]*C[i-1]; if(i+1<n)r+=a[i]*C[i+1]; worst=std::max(worst,std::fabs(r)); } }
 printf("residual %g\\n",worst); return worst>1e-10; }
'''))
SEEDS.append(dict(id='S09', prop='C09', edits=[(B+'vmec/fourier_forces/fourier_forces.cc','''          if (jF < jMaxRZ) {
            local_fResR += frsc[idx_fc] * frsc[idx_fc];''','''          if (jF < jMaxIncludeBoundary) {
            local_fResR += frsc[idx_fc] * frsc[idx_fc];''')],
 needs='a non-symmetric run and a partition that holds the last surface with edge forces excluded', breaks='the asymmetric edge force leaks into the interior residual',
 sources=['vmecpp/vmec/fourier_forces/fourier_forces.cc','vmecpp/vmec/fourier_coefficients/fourier_coefficients.cc','vmecpp/vmec/radial_partitioning/radial_partitioning.cc','vmecpp/common/sizes/sizes.cc'],
 demo='''#include "vmecpp/vmec/fourier_forces/fourier_forces.h"
#include <cstdio>
#include <cmath>
int main(){ vmecpp::Sizes s(true,1,3,1,20,12); vmecpp::RadialPartitioning r; r.adjustRadialPartitioning(1,0,5,true,false); vmecpp::FourierForces f(&s,&r,5); f.setZero(); int last=(5-1)*3*2+3; f.frsc[last]=2.0; f.frsc[0]=1.0; Eigen::Vector3d x; f.residuals(x,false); printf("%g\\n",x[0]); return std::fabs(x[0]-1.0)>1e-12; }
'''))
