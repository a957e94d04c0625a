B='src/vmecpp/cpp/vmecpp/'
SEEDS=[]
SEEDS.append(dict(id='S01', prop='C01', edits=[(B+'vmec/radial_partitioning/radial_partitioning.cc','''    if (thread_id < work_remainder) {
      nsMinF += thread_id;
      nsMaxF += thread_id + 1;''','''    if (thread_id <= work_remainder && work_remainder > 0) {
      nsMinF += thread_id;
      nsMaxF += std::min(thread_id + 1, work_remainder + 1);''')],
 needs='a thread count that does not divide the number of surfaces, and the thread right after the remainder', breaks='two threads own the same surface (overlapping radial ranges)',
 sources=['vmecpp/vmec/radial_partitioning/radial_partitioning.cc'],
 demo='''#include "vmecpp/vmec/radial_partitioning/radial_partitioning.h"
#include <cstdio>
int main(){ int bad=0;
 for(int fb=0;fb<2;++fb) for(int ns=4;ns<40;++ns) for(int n=1;n<=ns/2;++n){ int next=0; for(int t=0;t<n;++t){ vmecpp::RadialPartitioning r; r.adjustRadialPartitioning(n,t,ns,fb,false); if(r.nsMinF!=next) bad=1; next=r.nsMaxF; } if(next!=(fb?ns:ns-1)) bad=1; }
 printf("bad=%d\\n",bad); return bad; }
'''))
SEEDS.append(dict(id='S02', prop='C07', edits=[(B+'vmec/ideal_mhd_model/mhdforce_kernel.h','''      gbubv_i[kl] = gsqrt[iHalf] * bsupu[iHalf] * bsupv[iHalf];
      gbvbv_i[kl] = gsqrt[iHalf] * bsupv[iHalf] * bsupv[iHalf];
    }
    sqrtSHi = sqrtSH[j0 - nsMinH];''','''      gbubv_i[kl] = gsqrt[iHalf] * bsupu[iHalf] * bsupv[iHalf];
      gbvbv_i[kl] = gsqrt[iHalf] * bsupv[iHalf] * bsupv[iHalf];
    }
    sqrtSHi = sqrtSH[std::min(j0 + 1, nsMaxH - 1) - nsMinH];''')],
 needs='a radial partition that does not start at the axis (second or later thread)', breaks='the odd-m force on the first surface of every later partition uses sqrt(s) of the wrong half-grid point',
 demo='''#include <algorithm>
#include "vmecpp/vmec/ideal_mhd_model/mhdforce_kernel.h"
#include <cstdio>
#include <cmath>
#include <vector>
#include <random>
using V=std::vector<double>;
static const int NZ=3;
static std::vector<V> run(const std::vector<V>& g,const std::vector<V>& h,const V& sF,const V& sH,int nsMinF,int nsMaxF,int ns){
  int f1=nsMinF>0?nsMinF-1:0, hmin=f1; int F1max=std::min(ns,nsMaxF+1); int hmax=F1max-1;
  auto cutF=[&](const V&x){return V(x.begin()+f1*NZ,x.begin()+F1max*NZ);}; auto cutH=[&](const V&x){return V(x.begin()+hmin*NZ,x.begin()+hmax*NZ);};
  std::vector<V> a,b; for(auto&x:g)a.push_back(cutF(x)); for(auto&x:h)b.push_back(cutH(x));
  V f(sF.begin()+f1,sF.begin()+F1max), hh(sH.begin()+hmin,sH.begin()+hmax);
  std::vector<V> s(26,V(NZ,0.0)), o(12,V((nsMaxF-nsMinF)*NZ,0.0));
  vmecpp::ComputeMHDForceDensity(a[0].data(),a[1].data(),a[2].data(),a[3].data(),a[4].data(),a[5].data(),a[6].data(),a[7].data(),a[8].data(),a[9].data(),a[10].data(),
   b[0].data(),b[1].data(),b[2].data(),b[3].data(),b[4].data(),b[5].data(),b[6].data(),b[7].data(),b[8].data(),b[9].data(),f.data(),hh.data(),
   s[0].data(),s[1].data(),s[2].data(),s[3].data(),s[4].data(),s[5].data(),s[6].data(),s[7].data(),s[8].data(),s[9].data(),s[10].data(),s[11].data(),s[12].data(),s[13].data(),s[14].data(),s[15].data(),s[16].data(),s[17].data(),s[18].data(),s[19].data(),s[20].data(),s[21].data(),s[22].data(),s[23].data(),s[24].data(),s[25].data(),
   0.1,NZ,nsMinF,f1,hmin,hmax,nsMaxF,true,o[0].data(),o[1].data(),o[2].data(),o[3].data(),o[4].data(),o[5].data(),o[6].data(),o[7].data(),o[8].data(),o[9].data(),o[10].data(),o[11].data());
  return o; }
int main(){ int ns=9; std::mt19937 r(1); std::uniform_real_distribution<double> u(0.5,1.5); auto rnd=[&](int n){V x(n);for(auto&y:x)y=u(r);return x;};
 std::vector<V> g,h; for(int i=0;i<11;++i)g.push_back(rnd(ns*NZ)); for(int i=0;i<10;++i)h.push_back(rnd((ns-1)*NZ)); V sF(ns),sH(ns-1); for(int j=0;j<ns;++j)sF[j]=std::sqrt(j/(ns-1.0)); for(int j=0;j<ns-1;++j)sH[j]=std::sqrt((j+.5)/(ns-1.0));
 auto all=run(g,h,sF,sH,0,ns-1,ns); auto lo=run(g,h,sF,sH,0,4,ns), hi=run(g,h,sF,sH,4,ns-1,ns); double d=0;
 for(int q=0;q<12;++q) for(int i=0;i<(ns-1)*NZ;++i){ double e= i<4*NZ? lo[q][i]:hi[q][i-4*NZ]; d=std::max(d,std::fabs(e-all[q][i])); }
 printf("max difference between partitions %g\\n",d); return d>1e-10; }
'''))
SEEDS.append(dict(id='S03', prop='C05', edits=[(B+'vmec/ideal_mhd_model/metric_kernel.h','''                               (rve_i * ruo_i + zve_i * zuo_i) +
                               (rve_o * ruo_o + zve_o * zuo_o)));''','''                               (rve_i * ruo_i + zve_i * zuo_i) +
                               (rve_o * ruo_o + zve_i * zuo_o)));''')],
 needs='3-D geometry whose Z toroidal derivative varies radially', breaks='g_uv mixes inner and outer surface values',
 demo='''#include "vmecpp/vmec/ideal_mhd_model/metric_kernel.h"
#include <cstdio>
#include <cmath>
#include <vector>
using V=std::vector<double>;
int main(){ // dZ/dv and odd dZ/du on the outer surface only: g_uv = 1/2 sH zve_o zuo_o
 V z(2,0.0); V zve={0,2.0}, zuo={0,3.0}, sF={0.1,0.9}, sH={0.7}, tau={1},r12={1}; V gs(1),guu(1),guv(1),gvv(1);
 vmecpp::ComputeMetricElements(z.data(),z.data(),z.data(),z.data(),z.data(),zuo.data(),z.data(),z.data(),zve.data(),z.data(),tau.data(),r12.data(),sF.data(),sH.data(),true,1,0,0,1,gs.data(),guu.data(),guv.data(),gvv.data());
 double e=0.5*0.7*2.0*3.0; printf("guv %g expected %g\\n",guv[0],e); return std::fabs(guv[0]-e)>1e-12; }
'''))
SEEDS.append(dict(id='S04', prop='C07', edits=[(B+'vmec/ideal_mhd_model/lambda_force_kernel.h','''      bsubv_i[kl] = bsubv[iHalf];
      gvv_gsqrt_i[kl] = gvv[iHalf] / gsqrt[iHalf];
      if (lthreed) {''','''      bsubv_i[kl] = bsubv[iHalf];
      gvv_gsqrt_i[kl] = gvv[iHalf] / gsqrt[iHalf];
      if (lthreed && nsMinH == 0) {''')],
 needs='3-D run with three or more radial partitions, lambda blending active', breaks='lambda force on the first surface of the third and later partitions reuses stale g_uv*B^u scratch',
 demo='''#include "vmecpp/vmec/ideal_mhd_model/lambda_force_kernel.h"
#include <cstdio>
#include <cmath>
#include <vector>
using V=std::vector<double>;
int main(){ // one surface jF=3, half points 2 and 3, full points 2..4
 V bu={1,1},bv={1,1},gvv={1,1},gs={1,1},guv={2,4},bsupu={3,5},lue={0,0,0},luo={0,0,0},sH={.6,.8},sF={.5,.7,.9},bl={1,1,1}; V a(1,0.),b(1,0.),c(1,0.),d(1,0.),o1(1),o2(1),o3(1),o4(1);
 vmecpp::ComputeHybridLambdaForce(bu.data(),bv.data(),gvv.data(),gs.data(),guv.data(),bsupu.data(),lue.data(),luo.data(),sH.data(),sF.data(),bl.data(),2.0,true,1,3,2,2,4,4,a.data(),b.data(),c.data(),d.data(),o1.data(),o2.data(),o3.data(),o4.data());
 double e=-2.0*0.5*(2*3+4*5); printf("blmn_e %g expected %g\\n",o1[0],e); return std::fabs(o1[0]-e)>1e-12; }
'''))
