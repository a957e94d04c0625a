"""evolution of the spectral state: time step, exchange with neighbours, restart, convergence decision"""
from vc.contract import *
from vc import terms as _T
from contracts.c09 import ALL, BASE, T3, AS, A3, on

T_fresh = _T._fresh
V = 'vmecpp/vmec/'
SRC = V + 'vmec/vmec.cc'
CONTRACTS = []
CHUNK = 1


def part(K):
    K.ints.update(nsMinF=(0, 3), nsMaxF=(1, 6), ns=(2, 8), nsMinF1=(0, 3), nsMaxF1=(1, 8), lcfs=(1, 8), mpol=(2, 3), ntor=(0, 2), tid=(0, 3), nth=(1, 4))
    K.bools = ['lthreed', 'lasym']
    K.pre = lambda E, v: [v.nsMinF >= 0, v.nsMinF < v.nsMaxF, v.nsMaxF <= v.ns, v.ns >= 2, v.mpol >= 2, v.ntor >= 0, v.tid >= 0, v.tid < v.nth,
                          E.eq(v.nsMinF1, E.max(v.nsMinF - 1, 0)), E.eq(v.nsMaxF1, E.min(v.nsMaxF + 1, v.ns)),
                          E.eq(v.lcfs, E.ite(E.eq(v.nsMaxF1, v.ns), v.ns, v.nsMaxF)),
                          E.implies(v.nsMinF1 > 0, v.tid > 0), E.implies(v.nsMaxF1 < v.ns, v.tid < v.nth - 1)]
    return K


def gen(r, v):
    v.ns = r.randint(2, 8)
    v.nsMinF = r.randint(0, v.ns - 1) if r.random() < .6 else 0
    v.nsMaxF = r.randint(v.nsMinF + 1, v.ns)
    v.nsMinF1 = max(v.nsMinF - 1, 0)
    v.nsMaxF1 = min(v.nsMaxF + 1, v.ns)
    v.lcfs = v.ns if v.nsMaxF1 == v.ns else v.nsMaxF
    v.nth = r.randint(3, 5)
    v.tid = r.randint(1, v.nth - 2)


K = part(Contract('perform_time_step', SRC, 'performTimeStep', 'Vmec'))
K.gen = gen
K.reals = dict(fac=(0.5, 1), b1=(0.5, 1), dt=(0.1, 1))
for n in ALL:
    K.arrays['x_' + n] = lambda v: (v.nsMaxF1 - v.nsMinF1, v.mpol, v.ntor + 1)
    K.arrays['v_' + n] = lambda v: (v.lcfs - v.nsMinF, v.mpol, v.ntor + 1)
    K.arrays['f_' + n] = lambda v: (v.lcfs - v.nsMinF, v.mpol, v.ntor + 1)
    K.arrays['o_' + n] = lambda v: (v.nth, v.mpol, v.ntor + 1)
    K.arrays['i_' + n] = lambda v: (v.nth, v.mpol, v.ntor + 1)


def args(K, M):
    v = K.v
    s = Obj('s', 'Sizes', fields=dict(lthreed=v.lthreed, lasym=v.lasym, mpol=v.mpol, ntor=v.ntor, mnsize=v.mpol * (v.ntor + 1)))
    fc = Obj('fc', 'FlowControl', fields=dict(ns=v.ns))
    r = Obj('r', 'RadialPartitioning', fields=dict(nsMinF=v.nsMinF, nsMaxF=v.nsMaxF, nsMinF1=v.nsMinF1, nsMaxF1=v.nsMaxF1, nsMaxFIncludingLcfs=v.lcfs, thread_id_=v.tid))
    x = Obj('x', 'FourierGeometry', fields={'%smn%s' % (n[0], n[1:]): K.ref('x_' + n) for n in ALL})
    vv = Obj('v', 'FourierVelocity', fields={'v' + n: K.ref('v_' + n) for n in ALL})
    f = Obj('f', 'FourierForces', fields={'f' + n: K.ref('f_' + n) for n in ALL})
    h = Obj('h', 'HandoverStorage', fields={'%smn%s_%s' % (n[0], n[1:], q): ArrRef(K.ref(q + '_' + n).block, dims=(v.nth, v.mpol * (v.ntor + 1))) for n in ALL for q in 'io'})
    return [s, fc, r, v.fac, v.b1, v.dt, x, vv, f, h], Obj('this', 'Vmec', fields={'s_': s})


K.args = args
K.split = lambda v: [(v.mpol, v.ntor + 1)]
K.contracts = {'get_thread_id': lambda M, st, this, args: P(this.fields['thread_id_'])}


def vnew(E, v, o, n, j, m, k):
    return v.fac * (v.b1 * o('v_' + n, j, m, k) + v.dt * o('f_' + n, j, m, k))


def xown(E, v, o, n, g, m, k):
    """new position on a surface g owned by this thread"""
    return o('x_' + n, g - v.nsMinF1, m, k) + v.dt * vnew(E, v, o, n, g - v.nsMinF, m, k)


def vpost(n):
    return lambda E, v, o, j, m, k: lazy_branch(E, on(E, v, n), lambda: vnew(E, v, o, n, j, m, k), lambda: o('v_' + n, j, m, k))


def xpost(n):
    def f(E, v, o, j, m, k):
        g = j + v.nsMinF1
        return lazy_branch(E, on(E, v, n),
                           lambda: lazy_branch(E, E.and_(v.nsMinF1 > 0, E.eq(g, v.nsMinF1)), lambda: o('i_' + n, v.tid, m, k),
                                               lambda: lazy_branch(E, E.and_(v.nsMaxF1 < v.ns, E.eq(g, v.nsMaxF1 - 1)), lambda: o('o_' + n, v.tid, m, k),
                                                                   lambda: lazy_branch(E, E.and_(g >= v.nsMinF, g < v.lcfs), lambda: xown(E, v, o, n, g, m, k), lambda: o('x_' + n, j, m, k)))),
                           lambda: o('x_' + n, j, m, k))
    return f


def opost(n):
    return lambda E, v, o, t, m, k: lazy_branch(E, E.and_(on(E, v, n), v.nsMinF1 > 0, E.eq(t, v.tid - 1)), lambda: xown(E, v, o, n, v.nsMinF, m, k), lambda: o('o_' + n, t, m, k))


def ipost(n):
    return lambda E, v, o, t, m, k: lazy_branch(E, E.and_(on(E, v, n), v.nsMaxF1 < v.ns, E.eq(t, v.tid + 1)), lambda: xown(E, v, o, n, v.nsMaxF - 1, m, k), lambda: o('i_' + n, t, m, k))


for n in ALL:
    K.post['v_' + n] = vpost(n)
    K.post['x_' + n] = xpost(n)
    K.post['o_' + n] = opost(n)
    K.post['i_' + n] = ipost(n)
X, VV, F, B = '(*v->decomposed_x_[C.i("tid")])', '(*v->decomposed_v_[C.i("tid")])', '(*v->decomposed_f_[C.i("tid")])', '(*v->physical_x_backup_[C.i("tid")])'


def put(tag, obj, names='%s'):
    return ''.join('Put(C, "%s_%s", %s.%s);' % (tag, n, obj, names % n) for n in ALL)


def get(tag, obj, names='%s'):
    return ''.join('Get(C, "%s_%s", %s.%s);' % (tag, n, obj, names % n) for n in ALL)


def hand(f):
    return ''.join('%s(C, "%s_%s", v->h_.%smn%s_%s);' % (f, q, n, n[0], n[1:], q) for n in ALL for q in 'io')


K.glue = 'auto* v = Rig(C);' + put('x', X) + put('v', VV) + put('f', F) + hand('Put') + \
    'v->performTimeStep(v->s_, v->fc_, *v->r_[C.i("tid")], C.r("fac"), C.r("b1"), C.r("dt"), %s, %s, %s, v->h_);' % (X, VV, F) + \
    get('x', X) + get('v', VV) + get('f', F) + hand('Get') + 'free(v);'
CONTRACTS.append(K)
SOURCES = [SRC, V + 'fourier_geometry/fourier_geometry.cc', V + 'fourier_velocity/fourier_velocity.cc', V + 'fourier_coefficients/fourier_coefficients.cc',
           V + 'fourier_forces/fourier_forces.cc', 'vmecpp/common/sizes/sizes.cc', V + 'radial_partitioning/radial_partitioning.cc',
           'vmecpp/common/flow_control/flow_control.cc', 'vmecpp/common/vmec_indata/vmec_indata.cc', 'vmecpp/common/util/util.cc', V + 'handover_storage/handover_storage.cc']
LINKFLAGS = ['-Wl,--unresolved-symbols=ignore-all', '-Wl,--allow-multiple-definition']
PREAMBLE = r'''
#define private public
#define protected public
#include "vmecpp/vmec/vmec/vmec.h"
#undef private
#undef protected
#include <limits>
static vd::Case* gC = nullptr;
static int gUpdates = 0;
static bool gFailed = false;
// the force evaluation is a callee under its own contracts: here it only delivers the residuals of the case
namespace vmecpp {
absl::StatusOr<bool> IdealMhdModel::update(FourierGeometry& x, FourierGeometry&, FourierForces&, FourierForces&, bool& m_need_restart, int&, int&,
    FlowControl& m_fc, const int, const int, const VmecCheckpoint&, const int, bool, bool) {
  vd::Case& C = *gC;
  ++gUpdates;
  if (C.ints.count("seed")) {
    // scripted residuals: a decaying sequence with occasional bad states
    unsigned long z = C.i("seed") * 2654435761UL + gUpdates * 40503UL;
    auto rnd = [&]() { z = z * 6364136223846793005UL + 1442695040888963407UL; return (double)(z >> 40) / (double)(1UL << 24); };
    rnd();
    const double tol = m_fc.ftolv, nan = std::numeric_limits<double>::quiet_NaN();
    const int mode = C.i("seed") % 8;
    const double lvl[] = {tol, 0.5 * tol, 1.01 * tol, 3 * tol, 300 * tol, 0.9 * tol, 20.0};
    auto pick = [&]() { return lvl[(int)(rnd() * (mode < 4 ? 7 : 3.2))]; };
    m_fc.fsqr = pick(); m_fc.fsqz = pick(); m_fc.fsql = pick();
    if (rnd() < 0.02) { double* q[] = {&m_fc.fsqr, &m_fc.fsqz, &m_fc.fsql}; *q[(int)(rnd() * 3)] = nan; }
    m_fc.fsqr1 = pick(); m_fc.fsqz1 = pick(); m_fc.fsql1 = pick();
    m_need_restart = false;
    if (gUpdates == 1 && mode == 1) m_fc.restart_reason = RestartReason::BAD_JACOBIAN;
    if (rnd() < 0.05) m_fc.restart_reason = RestartReason::HUGE_INITIAL_FORCES;
    if (rnd() < 0.03) { gFailed = true; return absl::InternalError("x"); }
    return false;
  }
  m_fc.fsqr = C.r("fsqr"); m_fc.fsqz = C.r("fsqz"); m_fc.fsql = C.r("fsql");
  m_fc.fsqr1 = C.r("fsqr1"); m_fc.fsqz1 = C.r("fsqz1"); m_fc.fsql1 = C.r("fsql1");
  m_fc.restart_reason = static_cast<RestartReason>(C.i("reason"));
  m_need_restart = C.b("need");
  if (!C.b("okf")) return absl::InternalError("x");
  return C.b("reached");
}
// callees without influence on the decisions of the loop
void RadialProfiles::AccumulateVolumeAveragedSpectralWidth() const {}
void FourierGeometry::interpFromBoundaryAndAxis(const FourierBasisFastPoloidal&, const Boundaries&, const RadialProfiles&) {}
void FourierGeometry::ComputeSpectralWidth(const FourierBasisFastPoloidal&, RadialProfiles&, int, int) const {}
void Boundaries::RecomputeMagneticAxisToFixJacobianSign(int, int) {}
void IterationLogger::LogIteration(int, double, double, double, double, double, double, double, double, double, double, double, double) {}
double IdealMhdModel::get_delbsq() const { return gC->reals.count("delbsq") ? gC->r("delbsq") : 0.0; }
}
static int gInit = 0, gSolve = 0, gOut = 0;
static unsigned long gZ = 0;
static double Rnd() { gZ = gZ * 6364136223846793005UL + 1442695040888963407UL; return (double)(gZ >> 40) / (double)(1UL << 24); }
namespace vmecpp {
bool Vmec::InitializeRadial(VmecCheckpoint, int, int, int, double&, const std::optional<HotRestartState>&, std::optional<MultigridInterpolationScheme>) { ++gInit; return Rnd() < 0.02; }
absl::StatusOr<bool> Vmec::SolveEquilibrium(VmecCheckpoint, int) {
  ++gSolve;
  const VmecStatus all[] = {VmecStatus::SUCCESSFUL_TERMINATION, VmecStatus::NORMAL_TERMINATION, VmecStatus::SUCCESSFUL_TERMINATION, VmecStatus::BAD_JACOBIAN, VmecStatus::JACOBIAN_75_TIMES_BAD, VmecStatus::UNRECOVERABLE_ERROR, VmecStatus::SUCCESSFUL_TERMINATION};
  status_ = all[(int)(Rnd() * 7)];
  if (Rnd() < 0.1) { gFailed = true; return absl::InternalError("x"); }
  return Rnd() < 0.05;
}
OutputQuantities ComputeOutputQuantities(int, const VmecINDATA&, const Sizes&, const FlowControl&, const VmecConstants&, const FourierBasisFastPoloidal&, const HandoverStorage&, const std::string&,
    const std::vector<std::unique_ptr<RadialPartitioning> >&, const std::vector<std::unique_ptr<FourierGeometry> >&, const std::vector<std::unique_ptr<IdealMhdModel> >&, const std::vector<std::unique_ptr<RadialProfiles> >&,
    const VmecCheckpoint&, VacuumPressureState, VmecStatus, int) { ++gOut; return {}; }
absl::Status IsConsistent(const VmecINDATA&, bool) { return gC->b("consistent") ? absl::OkStatus() : absl::InvalidArgumentError("x"); }
absl::StatusOr<std::string> VmecINDATA::ToJson() const { return std::string("{}"); }
void IterationLogger::BeginStage(int, int, int, int, double, int, bool) {}
void IterationLogger::EndRun(const RunSummary&) {}
void IterationLogger::EndStage(double) {}
void VmecConstants::reset() {}
void Vmec::SetupVacuumSolvers() {}
}
static vmecpp::Vmec* Rig(vd::Case& C) {
  auto* v = static_cast<vmecpp::Vmec*>(calloc(1, sizeof(vmecpp::Vmec) + 64));
  new (&v->s_) vmecpp::Sizes(C.b("lasym"), 1, C.i("mpol"), C.i("ntor"), 20, 8);
  v->s_.lthreed = C.b("lthreed");
  new (&v->fc_) vmecpp::FlowControl(C.ints.count("lfreeb") && C.b("lfreeb"), 1.0, 1);
  v->fc_.ns = C.i("ns");
  new (&v->h_) vmecpp::HandoverStorage(&v->s_);
  const int nth = C.i("nth"), tid = C.i("tid");
  v->num_threads_ = nth;
  for (int t = 0; t < nth; ++t) {
    auto r = std::make_unique<vmecpp::RadialPartitioning>();
    if (t == tid) {
      r->thread_id_ = tid; r->num_threads_ = nth;
      r->nsMinF = C.i("nsMinF"); r->nsMaxF = C.i("nsMaxF"); r->nsMinF1 = C.i("nsMinF1"); r->nsMaxF1 = C.i("nsMaxF1"); r->nsMaxFIncludingLcfs = C.i("lcfs");
      v->decomposed_x_.push_back(std::make_unique<vmecpp::FourierGeometry>(&v->s_, r.get(), C.i("ns")));
      v->physical_x_.push_back(std::make_unique<vmecpp::FourierGeometry>(&v->s_, r.get(), C.i("ns")));
      v->physical_x_backup_.push_back(std::make_unique<vmecpp::FourierGeometry>(&v->s_, r.get(), C.i("ns")));
      v->decomposed_f_.push_back(std::make_unique<vmecpp::FourierForces>(&v->s_, r.get(), C.i("ns")));
      v->physical_f_.push_back(std::make_unique<vmecpp::FourierForces>(&v->s_, r.get(), C.i("ns")));
      v->decomposed_v_.push_back(std::make_unique<vmecpp::FourierVelocity>(&v->s_, r.get(), C.i("ns")));
    } else {
      v->decomposed_x_.push_back(nullptr); v->physical_x_.push_back(nullptr); v->physical_x_backup_.push_back(nullptr);
      v->decomposed_f_.push_back(nullptr); v->physical_f_.push_back(nullptr); v->decomposed_v_.push_back(nullptr);
    }
    v->r_.push_back(std::move(r));
    v->p_.push_back(std::unique_ptr<vmecpp::RadialProfiles>(static_cast<vmecpp::RadialProfiles*>(calloc(1, sizeof(vmecpp::RadialProfiles)))));
    v->m_.push_back(std::unique_ptr<vmecpp::IdealMhdModel>(static_cast<vmecpp::IdealMhdModel*>(calloc(1, sizeof(vmecpp::IdealMhdModel)))));
  }
  v->h_.num_threads_ = nth;
  const int mn = C.i("mpol") * (C.i("ntor") + 1);
  for (auto* a : {&v->h_.rmncc_i, &v->h_.rmnss_i, &v->h_.rmnsc_i, &v->h_.rmncs_i, &v->h_.zmnsc_i, &v->h_.zmncs_i, &v->h_.zmncc_i, &v->h_.zmnss_i,
                  &v->h_.lmnsc_i, &v->h_.lmncs_i, &v->h_.lmncc_i, &v->h_.lmnss_i, &v->h_.rmncc_o, &v->h_.rmnss_o, &v->h_.rmnsc_o, &v->h_.rmncs_o,
                  &v->h_.zmnsc_o, &v->h_.zmncs_o, &v->h_.zmncc_o, &v->h_.zmnss_o, &v->h_.lmnsc_o, &v->h_.lmncs_o, &v->h_.lmncc_o, &v->h_.lmnss_o}) a->setZero(nth, mn);
  gC = &C;
  gUpdates = 0;
  gFailed = false;
  return v;
}
template <class S> static void Put(vd::Case& C, const std::string& n, S& a) {
  if (a.size() == 0) return;
  std::vector<double>& v = C.v(n);
  if ((size_t)a.size() != v.size()) { fprintf(stderr, "size of %s: %zu, contract %zu\n", n.c_str(), (size_t)a.size(), v.size()); abort(); }
  for (size_t k = 0; k < v.size(); ++k) a.data()[k] = v[k];
}
template <class S> static void Get(vd::Case& C, const std::string& n, S& a) { if (a.size() != 0) { std::vector<double> t(a.data(), a.data() + a.size()); C.arr[n] = t; } }
'''

# ---------------------------------------------------------------- restart / backup
BADJ, NONE, BADP, HUGE_F = 2, 1, 3, 4


def set_zero(M, st, this, args):
    """contract of FourierCoeffs::setZero (proved under C09)"""
    v = M.K.v
    for n in ALL:
        ref = this.fields[n]
        c = on(SymE(), v, n)
        M.assign_array(st, ref, M.vecmap(ref, lambda x, c=c: ite(c if not isinstance(c, bool) else TRUE, ZERO, x), st))


def copy_state(M, st, this, args):
    """contract of FourierCoeffs::operator= (proved under C09)"""
    v = M.K.v
    for n in ALL:
        c = on(SymE(), v, n)
        cf = TRUE if isinstance(c, bool) else c
        u, w = M.asvec(this.fields[n], st), M.asvec(args[0].fields[n], st)
        M.assign_array(st, this.fields[n], VecExpr(u.len, lambda s_, *i, u=u, w=w, cf=cf: ite(cf, w.f(s_, *i), u.f(s_, *i)), u.dims))


def state_obj(K, tag, cls):
    return Obj(tag, cls, fields={n: K.ref(tag + '_' + n) for n in ALL})


K = part(Contract('restart_iteration', SRC, 'RestartIteration', 'Vmec'))
K.gen = lambda r, v: (gen(r, v), setattr(v, 'reason', r.choice([1, 2, 3, 4])))
K.ints.update(reason=(1, 4), ijacob=(0, 80), iter1=(1, 50), iter2=(1, 50))
K.reals = dict(delt=(0.1, 1))
pre2 = K.pre
K.pre = lambda E, v: pre2(E, v) + [v.reason >= 1, v.reason <= 4]
for n in ALL:
    K.arrays['x_' + n] = lambda v: (v.nsMaxF1 - v.nsMinF1, v.mpol, v.ntor + 1)
    K.arrays['b_' + n] = lambda v: (v.nsMaxF1 - v.nsMinF1, v.mpol, v.ntor + 1)
    K.arrays['v_' + n] = lambda v: (v.lcfs - v.nsMinF, v.mpol, v.ntor + 1)


def rargs(K, M):
    v = K.v
    K.fc = Obj('fc', 'FlowControl', fields=dict(restart_reason=v.reason, ijacob=v.ijacob))
    K.cells = Obj('cells', fields=dict(delt=v.delt))
    x, b, w = state_obj(K, 'x', 'FourierGeometry'), state_obj(K, 'b', 'FourierGeometry'), state_obj(K, 'v', 'FourierVelocity')
    K.vm = Obj('this', 'Vmec', fields=dict(fc_=K.fc, iter1_=v.iter1, iter2_=v.iter2, decomposed_x_=ObjVec(lambda i: x, v.nth),
                                           physical_x_backup_=ObjVec(lambda i: b, v.nth), decomposed_v_=ObjVec(lambda i: w, v.nth)))
    return [RefVal(('heap', (K.cells, 'delt'))), v.tid], K.vm


K.args = rargs
K.contracts = {'setZero': set_zero, 'operator=': copy_state}


def fld(o, f):
    return lambda K, M, st, val: M.get_field(st, getattr(K, o), f)


def rr(E, v, a, b, c):
    return E.ite(E.eq(v.reason, 2), a, E.ite(E.eq(v.reason, 3), b, c))


K.outs = {'delt': (fld('cells', 'delt'), lambda E, v, o: rr(E, v, v.delt * 0.9, v.delt / 1.03, v.delt)),
          'reason': (fld('fc', 'restart_reason'), lambda E, v, o: rr(E, v, 1, 1, v.reason)),
          'ijacob': (fld('fc', 'ijacob'), lambda E, v, o: rr(E, v, v.ijacob + 1, v.ijacob, v.ijacob)),
          'iter1': (fld('vm', 'iter1_'), lambda E, v, o: rr(E, v, v.iter2, v.iter1, v.iter1)),
          'iter2': (fld('vm', 'iter2_'), lambda E, v, o: v.iter2)}


def back_to(E, v):
    return E.or_(E.eq(v.reason, 2), E.eq(v.reason, 3))


for n in ALL:
    K.post['x_' + n] = lambda E, v, o, j, m, k, n=n: lazy_branch(E, E.and_(back_to(E, v), on(E, v, n)), lambda: o('b_' + n, j, m, k), lambda: o('x_' + n, j, m, k))
    K.post['b_' + n] = lambda E, v, o, j, m, k, n=n: lazy_branch(E, E.or_(back_to(E, v), E.not_(on(E, v, n))), lambda: o('b_' + n, j, m, k), lambda: o('x_' + n, j, m, k))
    K.post['v_' + n] = lambda E, v, o, j, m, k, n=n: lazy_branch(E, E.and_(back_to(E, v), on(E, v, n)), lambda: 0, lambda: o('v_' + n, j, m, k))
K.glue = 'auto* v = Rig(C); v->fc_.restart_reason = static_cast<vmecpp::RestartReason>(C.i("reason")); v->fc_.ijacob = C.i("ijacob"); v->iter1_ = C.i("iter1"); v->iter2_ = C.i("iter2"); double d = C.r("delt");' + \
    put('x', X) + put('b', B) + put('v', VV) + 'v->RestartIteration(d, C.i("tid"));' + get('x', X) + get('b', B) + get('v', VV) + \
    'C.out("delt", d); C.out("reason", (int)v->fc_.restart_reason); C.out("ijacob", v->fc_.ijacob); C.out("iter1", v->iter1_); C.out("iter2", v->iter2_); free(v);'
CONTRACTS.append(K)

# ---------------------------------------------------------------- one iteration: stopping decision, damping, history
STATUS = dict(NORMAL=0, BADJ=1, SUCC=11)
K = part(Contract('evolve', SRC, 'Evolve', 'Vmec'))
RES = ('fsqr', 'fsqz', 'fsql', 'fsqr1', 'fsqz1', 'fsql1')
K.ints.update(reason=(1, 4), iter1=(1, 4), iter2=(1, 6), status=(0, 0))
K.bools = K.bools + ['okf', 'reached', 'need', 'lfreeb']
K.reals = dict(dt=(0.1, 1), fsq=(0.1, 2), ftolv=(0.2, 1), delbsq=(0, 1), energy=(0, 1), indelt=(0.1, 1), **{n: (0, 1.2) for n in RES})
K.arrays['invTau'] = lambda v: (P(10) if not isinstance(v.ns, int) else 10,)
pre3 = K.pre
K.pre = lambda E, v: pre3(E, v) + [v.reason >= 1, v.reason <= 4, v.dt > 0, E.or_(E.eq(v.status, 0), E.eq(v.status, 5)), v.fsq > 0]


def gen_e(r, v):
    gen(r, v)
    v.status = r.choice([0, 0, 0, 0, 5])
    v.okf, v.reached, v.need, v.liter = r.random() < .9, r.random() < .15, r.random() < .3, r.random() < .9
    v.iter2 = r.choice([v.iter1, v.iter1 + 1, 1, v.iter1 + 5])
    v.iter1 = min(v.iter1, v.iter2)
    for n in RES[:3]:
        v[n] = r.choice([0.0, 0.05, 0.1, v.ftolv, 0.3, 1.5, 0.05, 0.1, float('nan'), float('inf')]) if r.random() < .8 else r.uniform(0, .2)
    if r.random() < .35:
        k = r.choice(RES[:3])
        for n in RES[:3]:
            v[n] = v[n] if n == k else r.choice([0.05, v.ftolv])
    if r.random() < .1:
        v.fsqr1 = v.fsqz1 = v.fsql1 = 0.0


K.gen = gen_e
K.bools = K.bools + ['liter']
K.cases = 60


def update(M, st, this, args):
    """the force evaluation: any residuals, any restart reason, may fail or report a checkpoint"""
    K = M.K
    v = K.v
    for n in RES:
        M.set_field(st, K.fc, n, v[n])
    M.set_field(st, K.fc, 'restart_reason', v.reason)
    M.store(st, args[4].loc, v.need)
    return StatusVal(v.okf, v.reached)


update.refs, update.raw = (4,), True


def restart(M, st, this, args):
    """contract of RestartIteration (proved above), seen from the caller"""
    K = M.K
    v = K.v
    rs = M.get_field(st, K.fc, 'restart_reason')
    b, p = eq(rs, P(2)), eq(rs, P(3))
    d = M.load(st, args[0].loc)
    M.store(st, args[0].loc, ite(b, d * P(0.9), ite(p, d / P(1.03), d)))
    M.set_field(st, K.fc, 'ijacob', M.get_field(st, K.fc, 'ijacob') + ite(b, P(1), ZERO))
    M.set_field(st, K.vm, 'iter1_', ite(b, M.get_field(st, K.vm, 'iter2_'), M.get_field(st, K.vm, 'iter1_')))
    M.set_field(st, K.fc, 'restart_reason', ite(f_or(b, p), P(1), rs))


def push(M, st, this, args):
    M.set_field(st, this, 'n', M.get_field(st, this, 'n') + 1)
    M.set_field(st, this, 'last', args[0])


def tstep(M, st, this, args):
    K = M.K
    for n, x in zip(('fac', 'b1', 'dt'), args[3:6]):
        M.set_field(st, K.ghost, n, M.num(x))
    M.set_field(st, K.ghost, 'n', M.get_field(st, K.ghost, 'n') + 1)


LOGS = dict(force_residual_r='fsqr', force_residual_z='fsqz', force_residual_lambda='fsql', delbsq='delbsq', restart_reasons='reason', mhd_energy='energy')


def eargs(K, M):
    v = K.v
    K.logs = Obj('logs', fields={})
    K.log = {n: Obj('log_' + n, 'Log', fields=dict(n=ZERO, last=ZERO)) for n in LOGS}
    K.fc = Obj('fc', 'FlowControl', fields=dict(restart_reason=P(1), ijacob=ZERO, ns=v.ns, ftolv=v.ftolv, fsq=v.fsq, lfreeb=v.lfreeb, **{n: ZERO for n in RES}, **K.log))
    K.cells = Obj('cells', fields=dict(liter=v.liter))
    K.ghost = Obj('ghost', fields=dict(fac=ZERO, b1=ZERO, dt=ZERO, n=ZERO))
    o = {n: Obj(n, 'Opaque') for n in ('x', 'px', 'f', 'pf', 'w', 's')}
    m = Obj('m', 'IdealMhdModel')
    r = Obj('r', 'RadialPartitioning', fields=dict(nsMinF=v.nsMinF, nsMaxF=v.nsMaxF, nsMinF1=v.nsMinF1, nsMaxF1=v.nsMaxF1, nsMaxFIncludingLcfs=v.lcfs, thread_id_=v.tid))
    vec = lambda q: ObjVec(lambda i: q, v.nth)
    K.vm = Obj('this', 'Vmec', fields=dict(fc_=K.fc, iter1_=v.iter1, iter2_=v.iter2, status_=v.status, s_=o['s'], m_=vec(m), r_=vec(r), decomposed_x_=vec(o['x']), physical_x_=vec(o['px']),
                                           decomposed_f_=vec(o['f']), physical_f_=vec(o['pf']), decomposed_v_=vec(o['w']), invTau_=K.ref('invTau'), last_preconditioner_update_=ZERO, last_full_update_nestor_=ZERO,
                                           verbose_=FALSE, indata_=Obj('ind', 'VmecINDATA', fields=dict(delt=v.indelt)), h_=Obj('h', 'HandoverStorage', fields=dict(mhdEnergy=v.energy))))
    return [P(0), P(5), v.dt, v.tid, RefVal(('heap', (K.cells, 'liter')))], K.vm


K.args = eargs
K.contracts = {'update': update, 'RestartIteration': restart, 'push_back': push, 'performTimeStep': tstep, 'get_delbsq': lambda M, st, this, a: P(M.K.v.delbsq)}


def after(E, v):
    """state after the force evaluation"""
    r = lambda: None
    early = E.or_(E.not_(v.okf), v.reached)
    need = E.and_(v.okf, v.need)
    r.reason = E.ite(need, 1, v.reason)
    r.iter1 = E.ite(E.and_(need, E.eq(v.reason, 2)), v.iter2, v.iter1)
    fin = E.and_(*[E.isfinite(v[n]) for n in RES[:3]])
    bad = E.or_(E.and_(E.eq(v.iter2, 1), E.eq(r.reason, 2)), E.not_(fin))
    conv = E.and_(E.not_(bad), v.fsqr <= v.ftolv, v.fsqz <= v.ftolv, v.fsql <= v.ftolv)
    r.status = E.ite(early, v.status, E.ite(bad, 1, E.ite(conv, 11, v.status)))
    r.liter = E.and_(v.liter, E.or_(early, E.not_(conv)))
    r.go = E.and_(E.not_(early), E.eq(r.status, 0), r.liter)
    r.early = early
    r.fsq1 = v.fsqr1 + v.fsqz1 + v.fsql1
    r.log = E.and_(r.go, E.eq(v.nsMaxF1, v.ns))
    r.fresh = E.eq(v.iter2, r.iter1)
    return r


def tau(E, v, o, i):
    """history of 1/tau after the iteration (when it goes on)"""
    a = after(E, v)
    init = E.frac(0, 1) + 0.15 / v.dt
    old = lambda q: E.ite(a.fresh, init, o('invTau', q))
    num = lazy_branch(E, E.eq(a.fsq1, 0), lambda: 0, lambda: E.min(E.abs(E.fn('log', a.fsq1 / v.fsq)), 0.15))
    return lazy_branch(E, E.eq(i, 9), lambda: lazy_branch(E, v.iter2 > a.iter1, lambda: num / v.dt, lambda: old(9)), lambda: old(i + 1))


def dtau(E, v, o):
    return v.dt * E.sum(0, 10, lambda i: tau(E, v, o, i)) / 10 / 2


K.post['invTau'] = lambda E, v, o, i: lazy_branch(E, after(E, v).go, lambda: tau(E, v, o, i), lambda: o('invTau', i))


def go(spec, els=lambda E, v: 0):
    return lambda E, v, o: lazy_branch(E, after(E, v).go, lambda: spec(E, v, o), lambda: els(E, v))


K.outs = {'status': (fld('vm', 'status_'), lambda E, v, o: after(E, v).status),
          'liter': (fld('cells', 'liter'), lambda E, v, o: after(E, v).liter),
          'reason': (fld('fc', 'restart_reason'), lambda E, v, o: after(E, v).reason),
          'iter1': (fld('vm', 'iter1_'), lambda E, v, o: after(E, v).iter1),
          'iter2': (fld('vm', 'iter2_'), lambda E, v, o: v.iter2),
          'ret_ok': (lambda K, M, st, val: val.ok, lambda E, v, o: v.okf),
          'fsq': (fld('fc', 'fsq'), go(lambda E, v, o: after(E, v).fsq1, lambda E, v: v.fsq)),
          'steps': (fld('ghost', 'n'), go(lambda E, v, o: 1)),
          'g_vb': (lambda K, M, st, val: M.get_field(st, K.ghost, 'fac') * M.get_field(st, K.ghost, 'b1'), go(lambda E, v, o: None if E.num and v.need and v.reason in (2, 3) else (1 - dtau(E, v, o)) / (1 + dtau(E, v, o)))),
          'g_fd': (lambda K, M, st, val: M.get_field(st, K.ghost, 'fac') * M.get_field(st, K.ghost, 'dt'), go(lambda E, v, o: v.dt / (1 + dtau(E, v, o)))),
          'g_dt': (fld('ghost', 'dt'), go(lambda E, v, o: v.dt))}
for n, src in LOGS.items():
    K.outs['n_' + n] = ((lambda n: lambda K, M, st, val: M.get_field(st, K.log[n], 'n'))(n), lambda E, v, o: E.ite(after(E, v).log, 1, 0))
    K.outs['l_' + n] = ((lambda n: lambda K, M, st, val: M.get_field(st, K.log[n], 'last'))(n),
                        (lambda src: lambda E, v, o: lazy_branch(E, after(E, v).log, lambda: after(E, v).reason if src == 'reason' else (E.ite(v.lfreeb, v.delbsq, 0) if src == 'delbsq' else v[src]), lambda: 0))(src))
K.glue = '''auto* v = Rig(C); v->iter1_ = C.i("iter1"); v->iter2_ = C.i("iter2"); v->status_ = static_cast<vmecpp::VmecStatus>(C.i("status"));
v->fc_.fsq = C.r("fsq"); v->fc_.ftolv = C.r("ftolv"); v->invTau_ = C.e("invTau"); v->h_.mhdEnergy = C.r("energy"); v->indata_.delt = C.r("indelt");
bool liter = C.b("liter");
const int tid = C.i("tid");
const int o = 0, p = v->decomposed_x_[tid]->rmncc.size() ? (C.i("nsMinF") - C.i("nsMinF1")) * C.i("mpol") * (C.i("ntor") + 1) : 0;
v->decomposed_v_[tid]->rcc[o] = 1; v->decomposed_f_[tid]->rcc[o + 1] = 1;
auto st = v->Evolve(vmecpp::VmecCheckpoint::NONE, 5, C.r("dt"), tid, liter);
const double v0 = v->decomposed_v_[tid]->rcc[o], v1 = v->decomposed_v_[tid]->rcc[o + 1], x1 = v->decomposed_x_[tid]->rcc[p + 1];
const bool moved = v1 != 0.0;
C.out("status", (int)v->status_); C.out("liter", liter); C.out("reason", (int)v->fc_.restart_reason); C.out("iter1", v->iter1_); C.out("iter2", v->iter2_); C.out("ret_ok", st.ok());
C.out("fsq", v->fc_.fsq); C.out("steps", moved ? 1 : 0); C.out("g_vb", moved ? v0 : 0.0); C.out("g_fd", v1); C.out("g_dt", moved ? x1 / v1 : 0.0);
C.set("invTau", v->invTau_);
auto lg = [&](const char* n, auto& w) { C.out(std::string("n_") + n, w.size()); C.out(std::string("l_") + n, w.empty() ? 0.0 : (double)(int)0 + (double)w.back()); };
lg("force_residual_r", v->fc_.force_residual_r); lg("force_residual_z", v->fc_.force_residual_z); lg("force_residual_lambda", v->fc_.force_residual_lambda); lg("delbsq", v->fc_.delbsq); lg("mhd_energy", v->fc_.mhd_energy);
C.out("n_restart_reasons", v->fc_.restart_reasons.size()); C.out("l_restart_reasons", v->fc_.restart_reasons.empty() ? 0 : (int)v->fc_.restart_reasons.back());
free(v);'''
CONTRACTS.append(K)

# ---------------------------------------------------------------- the iteration loop of one stage
K = Contract('iteration_loop', SRC, 'SolveEquilibriumLoop', 'Vmec')
K.ints.update(niterv=(1, 40), it0=(1, 3), ijacob=(0, 3), ns=(2, 5), nstep=(1, 5), reason0=(1, 3), tid=(0, 0), nth=(1, 1), vac=(-1, 2), style=(0, 1), seed=(0, 10**6), mpol=(2, 2), ntor=(0, 0),
              nsMinF=(0, 0), nsMaxF=(2, 5), nsMinF1=(0, 0), nsMaxF1=(2, 5), lcfs=(2, 5))
K.bools = ['liter', 'lreset', 'retout', 'lthreed', 'lasym', 'lfreeb', 'verbose']
K.reals = dict(ftolv=(0.05, .4), delt=(0.3, 1), delt0=(0.1, 1), f0=(0, 1), res0=(-1, -1), res1=(-1, -1), fsq0=(.5, 1))
K.pre = lambda E, v: [v.niterv >= 1, v.it0 >= 1, v.nstep >= 1, v.ns >= 2, v.reason0 >= 1, v.reason0 <= 4, v.tid >= 0, v.tid < v.nth, v.ijacob >= 0]


def gen_l(r, v):
    v.nsMaxF = v.nsMaxF1 = v.lcfs = v.ns
    v.res0 = v.res1 = -1.0
    v.lthreed = v.lasym = v.verbose = v.lfreeb = False
    v.it0 = 1
    v.reason0 = r.choice([1, 1, 2])


K.gen = gen_l
K.cases = 150
RS = ('fsqr', 'fsqz', 'fsql')


def evolve_contract(M, st, this, args):
    """contract of Evolve (proved above), as seen by the iteration loop"""
    K = M.K
    g = lambda n: M.get_field(st, K.vm, n)
    okE, reached, stop = [('bs', 'ev_%s_%d' % (n, next(T_fresh))) for n in ('ok', 'ckpt', 'x')]
    res = {n: fresh(n, 'r') for n in RS}
    rs = fresh('reason', 'i')
    for n in RS:
        M.set_field(st, K.fc, n, res[n])
    M.set_field(st, K.fc, 'fsq', fresh('fsq', 'r'))
    M.set_field(st, K.fc, 'restart_reason', rs)
    it1, ij = fresh('iter1', 'i'), fresh('ijacob', 'i')
    st.pc = st.pc + (le(P(1), rs), le(rs, P(4)), le(M.get_field(st, K.fc, 'ijacob'), ij), le(ij, M.get_field(st, K.fc, 'ijacob') + 1), f_or(eq(it1, g('iter1_')), eq(it1, g('iter2_'))))
    M.set_field(st, K.fc, 'ijacob', ij)
    M.set_field(st, K.vm, 'iter1_', it1)
    E = SymE()
    fin = f_and(*[E.isfinite(res[n]) for n in RS])
    bad = f_or(f_and(eq(g('iter2_'), P(1)), eq(rs, P(2))), fnot(fin))
    tol = P(K.v.ftolv)
    conv = f_and(fnot(bad), *[le(res[n], tol) for n in RS])
    early = f_or(fnot(okE), reached)
    M.set_field(st, K.vm, 'status_', ite(early, g('status_'), ite(bad, P(1), ite(conv, P(11), g('status_')))))
    loc = args[4].loc
    M.store(st, loc, f_and(M.load(st, loc), f_or(early, fnot(conv))))
    M.set_field(st, K.ghost, 'calls', M.get_field(st, K.ghost, 'calls') + 1)
    M.set_field(st, K.ghost, 'failed', f_or(M.get_field(st, K.ghost, 'failed'), fnot(okE)))
    return StatusVal(okE, reached)


def nothing(M, st, this, args):
    return None


nothing.raw = True


def axis(M, st, this, args):
    M.set_field(st, M.K.ghost, 'axis', M.get_field(st, M.K.ghost, 'axis') + 1)


def largs(K, M):
    v = K.v
    K.fc = Obj('fc', 'FlowControl', fields=dict(restart_reason=v.reason0, ijacob=v.ijacob, ns=v.ns, nsval=v.ns, niterv=v.niterv, ftolv=v.ftolv, fsq=v.fsq0, delt0r=v.delt0, res0=v.res0, res1=v.res1,
                                                kPreconditionerUpdateInterval=P(25), lfreeb=v.lfreeb, **{n: v.f0 for n in RS}))
    K.cells = Obj('cells', fields=dict(liter=v.liter, lreset=v.lreset))
    K.ghost = Obj('ghost', fields=dict(calls=ZERO, failed=FALSE, axis=ZERO))
    o = {n: Obj(n, 'Opaque') for n in ('x', 't', 'b', 'p', 'bk')}
    vec = lambda q: ObjVec(lambda i: q, v.nth)
    K.vm = Obj('this', 'Vmec', fields=dict(fc_=K.fc, iter1_=v.it0, iter2_=v.it0, status_=ZERO, t_=o['t'], b_=o['b'], p_=vec(o['p']), decomposed_x_=vec(o['x']), physical_x_backup_=vec(o['bk']),
                                           verbose_=v.verbose, interrupted_=FALSE, vacuum_pressure_state_=v.vac, interrupt_callback_=Obj('cb', 'Callback'),
                                           indata_=Obj('ind', 'VmecINDATA', fields=dict(delt=v.delt, nstep=v.nstep, return_outputs_even_if_not_converged=v.retout, iteration_style=v.style))))
    return [v.tid, P(10**6), P(0), RefVal(('heap', (K.cells, 'lreset'))), RefVal(('heap', (K.cells, 'liter')))], K.vm


K.args = largs
K.contracts = {'Evolve': evolve_contract, 'RestartIteration': restart, 'setZero': nothing, 'interpFromBoundaryAndAxis': nothing, 'RecomputeMagneticAxisToFixJacobianSign': axis,
               'ComputeSpectralWidth': nothing, 'Printout': nothing, 'operator()': lambda M, st, this, a: ('bs', 'irq_%d' % next(T_fresh)), 'operator bool': lambda M, st, this, a: ('bs', 'cb_%d' % next(T_fresh))}


def converged_ok(K, M, st):
    """successful termination is only ever recorded with all residuals finite and within the tolerance"""
    E = SymE()
    res = [M.get_field(st, K.fc, n) for n in RS]
    return implies(eq(M.get_field(st, K.vm, 'status_'), P(11)), f_and(*[E.isfinite(x) for x in res], *[le(x, P(K.v.ftolv)) for x in res]))


def linv(M, st, st0):
    K = M.K
    s = M.get_field(st, K.vm, 'status_')
    liter = M.get_field(st, K.cells, 'liter')
    irq = M.get_field(st, K.vm, 'interrupted_')
    calls = M.get_field(st, K.ghost, 'calls')
    it = st.env[M.loop_var] if M.loop_var is not None else None
    out = [converged_ok(K, M, st), f_or(eq(s, ZERO), f_and(f_or(eq(s, P(11)), eq(s, P(4))), fnot(liter))), f_or(liter, irq, fnot(eq(s, ZERO))), fnot(M.get_field(st, K.ghost, 'failed'))]
    if it is not None:
        out += [eq(it, P(K.v.it0) + calls), f_or(eq(calls, ZERO), le(P(K.v.it0) + calls, P(K.v.niterv) + 1)), le(ZERO, calls)]
    rs = M.get_field(st, K.fc, 'restart_reason')
    return out + [le(P(1), rs), le(rs, P(4))]


K.loop_inv = linv


def prop(f):
    def get(K, M, st, val):
        val = StatusVal(val.ok, val.value if isinstance(val.value, Poly) else P(9))
        return f(K, M, st, val, M.get_field(st, K.vm, 'status_'))
    return (get, lambda E, v, o: True if E.num else TRUE)


K.outs = {'tolerance_met': prop(lambda K, M, st, val, s: f_or(fnot(val.ok), converged_ok(K, M, st))),
          'budget_kept': prop(lambda K, M, st, val, s: f_or(eq(M.get_field(st, K.ghost, 'calls'), ZERO), le(M.get_field(st, K.ghost, 'calls'), P(K.v.niterv) - P(K.v.it0) + 1))),
          'error_reported': prop(lambda K, M, st, val, s: f_or(fnot(M.get_field(st, K.ghost, 'failed')), fnot(val.ok))),
          'outcome_justified': prop(lambda K, M, st, val, s: f_or(fnot(val.ok), eq(val.value, P(2)), eq(val.value, P(1)), eq(s, P(11)), eq(s, P(4)), f_and(eq(s, P(1)), K.v.retout),
                                                                  f_and(eq(s, ZERO), f_or(M.get_field(st, K.vm, 'interrupted_'), lt(P(K.v.niterv), P(K.v.it0) + M.get_field(st, K.ghost, 'calls')))))),
          'bad_state_not_ok': prop(lambda K, M, st, val, s: f_or(fnot(val.ok), eq(val.value, P(2)), eq(val.value, P(1)), fnot(eq(s, P(1))), K.v.retout))}
K.glue = '''auto* v = Rig(C); v->iter1_ = v->iter2_ = C.i("it0"); v->status_ = vmecpp::VmecStatus::NORMAL_TERMINATION;
v->fc_.fsq = C.r("fsq0"); v->fc_.ftolv = C.r("ftolv"); v->fc_.niterv = C.i("niterv"); v->fc_.ijacob = C.i("ijacob"); v->fc_.nsval = C.i("ns"); v->fc_.delt0r = C.r("delt0"); v->fc_.res0 = C.r("res0"); v->fc_.res1 = C.r("res1");
v->fc_.restart_reason = static_cast<vmecpp::RestartReason>(C.i("reason0")); v->fc_.fsqr = v->fc_.fsqz = v->fc_.fsql = C.r("f0");
v->invTau_ = Eigen::VectorXd::Zero(10); v->indata_.delt = C.r("delt"); v->indata_.nstep = C.i("nstep"); v->indata_.return_outputs_even_if_not_converged = C.b("retout");
v->indata_.iteration_style = static_cast<vmecpp::IterationStyle>(C.i("style")); v->vacuum_pressure_state_ = static_cast<vmecpp::VacuumPressureState>(C.i("vac"));
bool liter = C.b("liter"), lreset = C.b("lreset");
auto st = v->SolveEquilibriumLoop(0, 1000000, vmecpp::VmecCheckpoint::NONE, lreset, liter);
const int s = (int)v->status_;
const bool ok = st.ok();
const int val = ok ? (int)*st : 9;
const double t = C.r("ftolv");
auto good = [&](double x) { return std::isfinite(x) && x <= t; };
C.out("tolerance_met", !ok || s != 11 || (good(v->fc_.fsqr) && good(v->fc_.fsqz) && good(v->fc_.fsql)));
C.out("budget_kept", gUpdates == 0 || gUpdates <= C.i("niterv") - C.i("it0") + 1);
C.out("error_reported", !gFailed || !ok);
C.out("outcome_justified", !ok || val == 1 || val == 2 || s == 11 || s == 4 || (s == 1 && C.b("retout")) || (s == 0 && (v->interrupted_ || C.i("niterv") < C.i("it0") + gUpdates)));
C.out("bad_state_not_ok", !ok || val == 1 || val == 2 || s != 1 || C.b("retout"));
free(v);'''
CONTRACTS.append(K)

# ---------------------------------------------------------------- the whole run: what an OK result means
K = Contract('run', SRC, 'run', 'Vmec', 4)
K.ints.update(grids=(1, 3), maxgrids=(1, 4), ns=(3, 5), nzeta=(1, 3), numPhi=(1, 3), seed=(0, 10**6), lns=(3, 7), rns=(3, 5), pmpol=(2, 3), mpol=(2, 2), pntor=(0, 1), ntor=(0, 0), rlen=(1, 3),
              nsMinF=(0, 0), nsMaxF=(2, 5), nsMinF1=(0, 0), nsMaxF1=(2, 5), lcfs=(2, 5), tid=(0, 0), nth=(1, 1))
K.bools = ['lfreeb', 'loaded', 'loadok', 'consistent', 'hot', 'plasym', 'lasym', 'retout', 'verbose', 'lthreed']
K.reals = dict(delt=(.3, 1), dt=(.1, 1))
K.pre = lambda E, v: [v.grids >= 1, v.maxgrids >= 1, v.rlen >= 1]
K.arrays = {'ns_array': lambda v: (v.grids,), 'ftol_array': lambda v: (v.grids,), 'niter_array': lambda v: (v.grids,), 'hot_ns': lambda v: (v.rlen,)}
K.sorts = {'ns_array': 'i', 'niter_array': 'i', 'hot_ns': 'i'}
K.rng = {'ns_array': (3, 7), 'niter_array': (1, 20), 'hot_ns': (3, 7), 'ftol_array': (0.1, 1.)}


def gen_r(r, v):
    v.nsMaxF = v.nsMaxF1 = v.lcfs = v.ns
    v.lthreed = v.verbose = False
    v.loaded = True
    v.numPhi = v.nzeta if r.random() < .8 else v.numPhi
    v.plasym = v.lasym if r.random() < .9 else not v.lasym
    v.pmpol = v.mpol if r.random() < .9 else v.mpol + 1
    v.pntor = v.ntor if r.random() < .9 else v.ntor + 1
    v.consistent = r.random() < .9


K.gen = gen_r
K.cases = 120


def solve_contract(M, st, this, args):
    """contract of SolveEquilibrium: any status, but success only within the tolerance"""
    K = M.K
    ok, reached = [('bs', 'se_%s_%d' % (n, next(T_fresh))) for n in ('ok', 'ckpt')]
    s = fresh('status', 'i')
    res = {n: fresh(n, 'r') for n in RS}
    for n in RS:
        M.set_field(st, K.fc, n, res[n])
    tol = M.get_field(st, K.fc, 'ftolv')
    st.pc = st.pc + (f_or(*[eq(s, P(c)) for c in (0, 1, 4, 5, 11)]), implies(f_and(ok, eq(s, P(11))), f_and(*[f_and(SymE.isfinite(x), le(x, tol)) for x in res.values()])))
    M.set_field(st, K.vm, 'status_', s)
    M.set_field(st, K.fc, 'ijacob', fresh('ij', 'i'))
    M.set_field(st, K.ghost, 'failed', f_or(M.get_field(st, K.ghost, 'failed'), fnot(ok)))
    M.set_field(st, K.ghost, 'calls', M.get_field(st, K.ghost, 'calls') + 1)
    M.set_field(st, K.ghost, 'early', f_or(M.get_field(st, K.ghost, 'early'), M.get_field(st, K.ghost, 'fatal')))
    M.set_field(st, K.ghost, 'fatal', f_and(ne(s, ZERO), ne(s, P(11))))
    return StatusVal(ok, reached)


solve_contract.raw = True


def init_contract(M, st, this, args):
    M.set_field(st, M.K.ghost, 'init', M.get_field(st, M.K.ghost, 'init') + 1)
    return ('bs', 'ir_ckpt_%d' % next(T_fresh))


init_contract.raw = True


def outq(M, st, this, args):
    M.set_field(st, M.K.ghost, 'outputs', M.get_field(st, M.K.ghost, 'outputs') + 1)
    return Obj('oq', 'OutputQuantities', fields={})


def uargs(K, M):
    v = K.v
    K.fc = Obj('fc', 'FlowControl', fields=dict(ijacob=ZERO, ns=v.ns, nsval=v.ns, niterv=ZERO, ftolv=ZERO, fsq=ZERO, delt0r=ZERO, ns_old=ZERO, ns_min=ZERO, multi_ns_grid=v.grids, lfreeb=v.lfreeb, **{n: ZERO for n in RS},
                                                **{n: Obj(n, 'Log') for n in LOGS}))
    K.ghost = Obj('ghost', fields=dict(calls=ZERO, failed=FALSE, init=ZERO, outputs=ZERO, fatal=FALSE, early=FALSE))
    names = 'itfsq fsqr fsqz fsql betatotal betapol betator Rmajor_p Aminor_p b0'.split()
    oq = Obj('oq', 'OutputQuantities', fields=dict(wout=Obj('wout', 'WOut', fields={n: ZERO for n in names})))
    ind = Obj('ind', 'VmecINDATA', fields=dict(lfreeb=v.lfreeb, nzeta=v.nzeta, delt=v.delt, return_outputs_even_if_not_converged=v.retout, ns_array=K.ref('ns_array'), ftol_array=K.ref('ftol_array'), niter_array=K.ref('niter_array'),
                                               lasym=v.lasym, mpol=v.mpol, ntor=v.ntor, mgrid_file=StrVal('x'), extcur=Obj('ec', 'Opaque')))
    hot = Obj('hot', 'HotRestartState', fields=dict(indata=Obj('hind', 'VmecINDATA', fields=dict(lasym=v.plasym, mpol=v.pmpol, ntor=v.pntor, ns_array=K.ref('hot_ns')))))
    K.vm = Obj('this', 'Vmec', fields=dict(fc_=K.fc, indata_=ind, s_=Obj('s', 'Sizes', fields=dict(mnmax=P(1))), mgrid_=Obj('mg', 'MGridProvider', fields=dict(numPhi=v.numPhi, mgrid_mode=StrVal('S'))), verbose_=v.verbose, status_=ZERO, iter2_=P(1), iter1_=P(1),
                                           jacob_off_=ZERO, num_eqsolve_retries_=ZERO, vacuum_pressure_state_=P(-1), constants_=Obj('c', 'VmecConstants'), logger_=Obj('lg', 'IterationLogger'),
                                           h_=Obj('h', 'HandoverStorage', fields=dict(mhdEnergy=ZERO)), output_quantities_=oq, **{n: Obj(n, 'Opaque') for n in ('t_', 'r_', 'decomposed_x_', 'm_', 'p_')}))
    return [P(0), P(10**6), v.maxgrids, StatusVal(v.hot, hot)], K.vm


K.args = uargs
K.contracts = {'SolveEquilibrium': solve_contract, 'InitializeRadial': init_contract, 'ComputeOutputQuantities': outq, 'IsLoaded': lambda M, st, this, a: M.K.v.loaded,
               'LoadFile': lambda M, st, this, a: StatusVal(M.K.v.loadok), 'IsConsistent': lambda M, st, this, a: StatusVal(M.K.v.consistent), 'reset': nothing, 'reserve': nothing, 'size': lambda M, st, this, a: ZERO,
               'BeginStage': nothing, 'EndRun': nothing, 'SetupVacuumSolvers': nothing, 'operator=': lambda M, st, this, a: None, 'VmecStatusAsString': lambda M, st, this, a: StrVal('s'), 'ToJson': lambda M, st, this, a: StatusVal(TRUE, StrVal('j'))}
K.contracts['IsLoaded'].raw = K.contracts['LoadFile'].raw = True
K.nested_inv = True


def rinv(M, st, st0):
    K = M.K
    g = lambda n: M.get_field(st, K.ghost, n)
    E = SymE()
    s = M.get_field(st, K.vm, 'status_')
    res = [M.get_field(st, K.fc, n) for n in RS]
    return [fnot(g('failed')), le(ZERO, g('calls')), eq(g('outputs'), ZERO)]


K.loop_inv = rinv


def hot_bad(E, v, o):
    return E.and_(v.hot, E.or_(E.ne(E.ite(v.plasym, 1, 0), E.ite(v.lasym, 1, 0)), E.ne(v.pmpol, v.mpol), E.ne(v.pntor, v.ntor), E.ne(o('hot_ns', v.rlen - 1), o('ns_array', 0))))


def rejected(E, v, o):
    """inputs that must be refused before anything is computed"""
    return E.or_(E.and_(v.lfreeb, E.or_(E.and_(E.not_(v.loaded), E.not_(v.loadok)), E.ne(v.numPhi, v.nzeta))), E.not_(v.consistent), hot_bad(E, v, o))


def bval(val):
    x = val.value
    return ne(x, ZERO) if isinstance(x, Poly) else (FALSE if x is None else x)


K.outs = {'ok_means_converged': (lambda K, M, st, val: f_or(fnot(val.ok), bval(val), K.v.retout, eq(M.get_field(st, K.vm, 'status_'), P(11))), lambda E, v, o: True if E.num else TRUE),
          'ok_has_outputs': (lambda K, M, st, val: f_or(fnot(val.ok), bval(val), eq(M.get_field(st, K.ghost, 'outputs'), P(1))), lambda E, v, o: True if E.num else TRUE),
          'error_reported': (lambda K, M, st, val: f_or(fnot(val.ok), fnot(M.get_field(st, K.ghost, 'failed'))), lambda E, v, o: True if E.num else TRUE),
          'refused': (lambda K, M, st, val: f_or(fnot(rejected(SymE(), K.v, K.old)), f_and(fnot(val.ok), eq(M.get_field(st, K.ghost, 'init'), ZERO))), lambda E, v, o: True if E.num else TRUE)}
K.contracts['CheckInitialState'] = lambda M, st, this, a: StatusVal(f_or(fnot(hot_bad(SymE(), M.K.v, M.K.old)), fnot(M.K.v.hot)))
K.glue = '''auto* v = Rig(C); gInit = gSolve = gOut = 0; gZ = C.i("seed") * 7919UL + 17; Rnd(); Rnd();
new (&v->indata_) vmecpp::VmecINDATA(); new (&v->output_quantities_) vmecpp::OutputQuantities(); new (&v->mgrid_.mgrid_mode) std::string("S");
auto fill = [](vmecpp::VmecINDATA& d, std::vector<int> ns) { d.ns_array.resize(ns.size()); for (size_t k = 0; k < ns.size(); ++k) d.ns_array[k] = ns[k]; };
auto& d = v->indata_; fill(d, C.iv("ns_array")); d.ftol_array = C.e("ftol_array"); d.niter_array = C.ei("niter_array"); d.lfreeb = C.b("lfreeb"); d.nzeta = C.i("nzeta"); d.delt = C.r("delt");
d.return_outputs_even_if_not_converged = C.b("retout"); d.lasym = C.b("lasym"); d.mpol = C.i("mpol"); d.ntor = C.i("ntor"); v->mgrid_.has_mgrid_loaded_ = true; v->mgrid_.numPhi = C.i("numPhi"); v->fc_.multi_ns_grid = C.i("grids"); v->status_ = vmecpp::VmecStatus::NORMAL_TERMINATION;
std::optional<vmecpp::HotRestartState> hot;
if (C.b("hot")) { vmecpp::VmecINDATA q; fill(q, C.iv("hot_ns")); q.lasym = C.b("plasym"); q.mpol = C.i("pmpol"); q.ntor = C.i("pntor"); hot.emplace(vmecpp::WOutFileContents{}, q); }
auto st = v->run(vmecpp::VmecCheckpoint::NONE, 1000000, C.i("maxgrids"), hot);
const bool ok = st.ok(), val = ok && *st;
const bool hotbad = C.b("hot") && (C.b("plasym") != C.b("lasym") || C.i("pmpol") != C.i("mpol") || C.i("pntor") != C.i("ntor") || C.iv("hot_ns").back() != C.iv("ns_array")[0]);
const bool rej = (C.b("lfreeb") && C.i("numPhi") != C.i("nzeta")) || !C.b("consistent") || hotbad;
C.out("ok_means_converged", !ok || val || C.b("retout") || (int)v->status_ == 11); C.out("ok_has_outputs", !ok || val || gOut == 1); C.out("error_reported", !ok || !gFailed); C.out("refused", !rej || (!ok && gInit == 0));
free(v);'''
CONTRACTS.append(K)

# ---------------------------------------------------------------- hot restart is refused on a mismatch
K = Contract('check_initial_state', SRC, 'CheckInitialState', None, filt='CheckInitialState')
K.ints = dict(pmpol=(2, 3), mpol=(2, 3), pntor=(0, 1), ntor=(0, 1), rlen=(1, 3), grids=(1, 3))
K.bools = ['plasym', 'lasym', 'hot']
K.arrays = {'ns_array': lambda v: (v.grids,), 'hot_ns': lambda v: (v.rlen,)}
K.sorts = {'ns_array': 'i', 'hot_ns': 'i'}
K.pre = lambda E, v: [v.grids >= 1, v.rlen >= 1, v.hot]


def cargs(K, M):
    v = K.v
    ind = lambda n, a, b, c, q: Obj(n, 'VmecINDATA', fields=dict(lasym=a, mpol=b, ntor=c, ns_array=K.ref(q)))
    return [Obj('hot', 'HotRestartState', fields=dict(indata=ind('i1', v.plasym, v.pmpol, v.pntor, 'hot_ns'))), ind('i2', v.lasym, v.mpol, v.ntor, 'ns_array')]


K.args = cargs
K.outs = {'ok': (lambda K, M, st, val: val.ok, lambda E, v, o: E.not_(hot_bad(E, v, o)))}
CONTRACTS.append(K)

EVERY = CONTRACTS
CONTRACTS = [k for k in EVERY if k.name in ('perform_time_step', 'restart_iteration', 'evolve')]
