import sys
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True
B='src/vmecpp/cpp/vmecpp/'
VM=B+'vmec/vmec/vmec.cc'
SEEDS=[]
SRCS=['vmecpp/vmec/vmec/vmec.cc','vmecpp/vmec/fourier_geometry/fourier_geometry.cc','vmecpp/vmec/fourier_velocity/fourier_velocity.cc','vmecpp/vmec/fourier_coefficients/fourier_coefficients.cc','vmecpp/vmec/fourier_forces/fourier_forces.cc','vmecpp/common/sizes/sizes.cc','vmecpp/vmec/radial_partitioning/radial_partitioning.cc','vmecpp/common/flow_control/flow_control.cc','vmecpp/common/vmec_indata/vmec_indata.cc','vmecpp/common/util/util.cc','vmecpp/vmec/handover_storage/handover_storage.cc']
LD='-Wl,--unresolved-symbols=ignore-all -Wl,--allow-multiple-definition'
RIG='''
#include <sstream>
#include <functional>
#include <map>
#define private public
#define protected public
#include "vmecpp/vmec/vmec/vmec.h"
#undef private
#undef protected
#include <limits>
#include <cstdio>
#include <cmath>
using namespace vmecpp;
static std::function<absl::StatusOr<bool>(FlowControl&)> gStep;
static int gCalls = 0;
namespace vmecpp {
absl::StatusOr<bool> IdealMhdModel::update(FourierGeometry&, FourierGeometry&, FourierForces&, FourierForces&, bool& nr, int&, int&, FlowControl& fc, const int, const int, const VmecCheckpoint&, const int, bool, bool) { ++gCalls; nr = false; return gStep(fc); }
double IdealMhdModel::get_delbsq() const { return 0; }
void RadialProfiles::AccumulateVolumeAveragedSpectralWidth() const {}
void FourierGeometry::interpFromBoundaryAndAxis(const FourierBasisFastPoloidal&, const Boundaries&, const RadialProfiles&) {}
void FourierGeometry::ComputeSpectralWidth(const FourierBasisFastPoloidal&, RadialProfiles&, int, int) const {}
void Boundaries::RecomputeMagneticAxisToFixJacobianSign(int, int) {}
void IterationLogger::LogIteration(int, double, double, double, double, double, double, double, double, double, double, double, double) {}
}
static Vmec* Rig(bool lasym, bool lthreed, int ns, int nsMinF, int nsMaxF, int tid, int nth) {
  auto* v = static_cast<Vmec*>(calloc(1, sizeof(Vmec) + 64));
  new (&v->s_) Sizes(lasym, 1, 3, lthreed ? 2 : 0, 20, 8);
  new (&v->fc_) FlowControl(false, 1.0, 1);
  v->fc_.ns = v->fc_.nsval = ns;
  new (&v->h_) HandoverStorage(&v->s_);
  new (&v->indata_) VmecINDATA();
  v->num_threads_ = nth;
  for (int t = 0; t < nth; ++t) {
    auto r = std::make_unique<RadialPartitioning>();
    r->thread_id_ = tid; r->num_threads_ = nth; r->nsMinF = nsMinF; r->nsMaxF = nsMaxF; r->nsMinF1 = std::max(nsMinF - 1, 0); r->nsMaxF1 = std::min(nsMaxF + 1, ns);
    r->nsMaxFIncludingLcfs = r->nsMaxF1 == ns ? ns : nsMaxF;
    v->decomposed_x_.push_back(std::make_unique<FourierGeometry>(&v->s_, r.get(), ns)); v->physical_x_.push_back(std::make_unique<FourierGeometry>(&v->s_, r.get(), ns));
    v->physical_x_backup_.push_back(std::make_unique<FourierGeometry>(&v->s_, r.get(), ns)); v->decomposed_f_.push_back(std::make_unique<FourierForces>(&v->s_, r.get(), ns));
    v->physical_f_.push_back(std::make_unique<FourierForces>(&v->s_, r.get(), ns)); v->decomposed_v_.push_back(std::make_unique<FourierVelocity>(&v->s_, r.get(), ns));
    v->r_.push_back(std::move(r));
    v->p_.push_back(std::unique_ptr<RadialProfiles>(static_cast<RadialProfiles*>(calloc(1, sizeof(RadialProfiles)))));
    v->m_.push_back(std::unique_ptr<IdealMhdModel>(static_cast<IdealMhdModel*>(calloc(1, sizeof(IdealMhdModel)))));
  }
  const int mn = v->s_.mnsize;
  auto& h = v->h_;
  for (auto* a : {&h.rmncc_i, &h.rmnss_i, &h.rmnsc_i, &h.rmncs_i, &h.zmnsc_i, &h.zmncs_i, &h.zmncc_i, &h.zmnss_i, &h.lmnsc_i, &h.lmncs_i, &h.lmncc_i, &h.lmnss_i, &h.rmncc_o, &h.rmnss_o, &h.rmnsc_o, &h.rmncs_o,
                  &h.zmnsc_o, &h.zmncs_o, &h.zmncc_o, &h.zmnss_o, &h.lmnsc_o, &h.lmncs_o, &h.lmncc_o, &h.lmnss_o}) a->setZero(nth, mn);
  v->invTau_ = Eigen::VectorXd::Zero(10);
  v->iter1_ = v->iter2_ = 1;
  v->indata_.nstep = 1000; v->indata_.delt = 1;
  v->status_ = VmecStatus::NORMAL_TERMINATION;
  return v;
}
'''
SEEDS.append(dict(id='S10', prop='C10', edits=[(VM,'''        int idx_mn = (r.nsMinF - r.nsMinF1) * s_.mnsize + mn;
        m_h_.rmnsc_o(prev_thread, mn)''','''        int idx_mn = (r.nsMinF1 == 0 ? r.nsMinF : 0) * s_.mnsize + mn;
        m_h_.rmnsc_o(prev_thread, mn)''')],
 needs='a non-symmetric run on at least three threads (a thread that does not start next to the axis)', breaks='the asymmetric coefficients handed to the inner neighbour are the stale ghost surface instead of the first owned surface',
 sources=SRCS, ldflags=LD, demo=RIG+'''
int main() {
  auto* v = Rig(true, false, 9, 3, 6, 1, 3);
  auto& x = *v->decomposed_x_[1];
  for (int k = 0; k < (int)x.rcc.size(); ++k) x.rcc[k] = x.zsc[k] = x.lsc[k] = x.rsc[k] = x.zcc[k] = x.lcc[k] = 1 + k;
  v->performTimeStep(v->s_, v->fc_, *v->r_[1], 1.0, 1.0, 1.0, x, *v->decomposed_v_[1], *v->decomposed_f_[1], v->h_);
  int bad = 0; const int mn = v->s_.mnsize;
  for (int k = 0; k < mn; ++k) { double e = 1 + mn + k; if (v->h_.rmncc_o(0, k) != e || v->h_.rmnsc_o(0, k) != e || v->h_.zmncc_o(0, k) != e || v->h_.lmncc_o(0, k) != e) bad = 1; }
  printf("bad %d\\n", bad);
  return bad;
}
'''))
SEEDS.append(dict(id='S11', prop='C11', edits=[(VM,'''       (force_iteration <= fc_.niterv) && m_liter_flag; force_iteration++) {''','''       (force_iteration - bad_resets <= fc_.niterv) && m_liter_flag;
       force_iteration++) {''')],
 needs='a residual history that keeps triggering resets', breaks='iterations spent on rejected steps no longer count against the iteration budget, so a run may never end',
 sources=SRCS, ldflags=LD, demo=RIG+'''
int main() {
  auto* v = Rig(false, false, 5, 0, 5, 0, 1);
  v->fc_.ftolv = 1e-10; v->fc_.niterv = 30; v->fc_.ijacob = 1; v->fc_.delt0r = 1; v->fc_.res0 = v->fc_.res1 = -1; v->fc_.restart_reason = RestartReason::NO_RESTART; v->fc_.fsq = 1;
  gStep = [](FlowControl& fc) -> absl::StatusOr<bool> { if (gCalls > 500) return absl::InternalError("stop"); fc.fsqr = fc.fsqz = fc.fsql = 1; fc.fsqr1 = gCalls % 2 ? 1.0 : 1000.0; fc.fsqz1 = fc.fsql1 = 0; return false; };
  bool a = false, b = true;
  auto s = v->SolveEquilibriumLoop(0, 1000000, VmecCheckpoint::NONE, a, b);
  printf("force evaluations %d, budget 30\\n", gCalls);
  return gCalls > 30;
}
'''))
SEEDS.append(dict(id='S12', prop='C11', edits=[(VM,'''    bool all_residuals_finite = std::isfinite(fc_.fsqr) &&
                                std::isfinite(fc_.fsqz) &&
                                std::isfinite(fc_.fsql);
    if ((iter2_ == 1 && fc_.restart_reason == RestartReason::BAD_JACOBIAN) ||
        !all_residuals_finite) {''','''    const bool any_residual_infinite =
        std::isinf(fc_.fsqr) || std::isinf(fc_.fsqz) || std::isinf(fc_.fsql);
    if ((iter2_ == 1 && fc_.restart_reason == RestartReason::BAD_JACOBIAN) ||
        any_residual_infinite) {'''),(VM,'''    } else if (fc_.fsqr <= fc_.ftolv && fc_.fsqz <= fc_.ftolv &&
               fc_.fsql <= fc_.ftolv) {''','''    } else if (std::max({fc_.ftolv, fc_.fsqr, fc_.fsqz, fc_.fsql}) <=
               fc_.ftolv) {''')],
 needs='a residual that becomes NaN while the others are within the tolerance', breaks='a NaN residual no longer stops the run as failed and counts as converged',
 sources=SRCS, ldflags=LD, demo=RIG+'''
int main() {
  int bad = 0;
  for (int k = 0; k < 3; ++k) {
    auto* v = Rig(false, false, 5, 0, 5, 0, 1);
    v->fc_.ftolv = 1e-3; v->fc_.fsq = 1; v->iter2_ = 4; v->iter1_ = 2; gCalls = 0;
    gStep = [k](FlowControl& fc) -> absl::StatusOr<bool> { double q[3] = {1e-4, 1e-4, 1e-4}; q[k] = std::nan(""); fc.fsqr = q[0]; fc.fsqz = q[1]; fc.fsql = q[2]; fc.fsqr1 = fc.fsqz1 = fc.fsql1 = 1; return false; };
    bool lit = true;
    auto s = v->Evolve(VmecCheckpoint::NONE, 1000000, 1.0, 0, lit);
    if (v->status_ != VmecStatus::BAD_JACOBIAN) bad = 1;
  }
  printf("bad %d\\n", bad);
  return bad;
}
'''))
