exec(open('/verif/tools/seedspecs/s4.py').read().split('SEEDS = []')[0])
SEEDS = []
SEEDS.append(dict(id='S16', prop='C15', edits=[(MM, '''    mnmin += thread_id;
    mnmax += thread_id + 1;''', '''    mnmin += thread_id;
    mnmax = mnmin + mnstep;
    if (thread_id + 1 == remainder || remainder == 0) mnmax += 1;''')],
 needs='a thread count whose remainder in the number of modes is at least two', breaks='the last mode of a thread\'s share is never solved: its force stays unpreconditioned',
 sources=SRCS + [V + 'radial_partitioning/radial_partitioning.cc'], ldflags=LD, demo=RIG + '''
int main() {
  int bad = 0;
  for (int nt = 1; nt <= 4; ++nt) {
    std::vector<int> hit(4, 0);
    for (int t = 0; t < nt; ++t) {
      Rig R(false, 6, 0, 5); auto& m = *R.m;
      R.s.mpol = 3; R.s.ntor = 1; R.s.mnsize = 6; hit.resize(6);
      R.r.num_threads_ = nt; R.r.thread_id_ = t;
      m.ar = m.az = m.br = m.bz = Eigen::VectorXd::Zero(30); m.dr = m.dz = Eigen::VectorXd::Constant(30, 2.0);
      m.jMin = Eigen::VectorXi::Zero(6);
      for (auto* a : {&R.h.all_ar, &R.h.all_az, &R.h.all_dr, &R.h.all_dz, &R.h.all_br, &R.h.all_bz}) *a = RowMatrixXd::Zero(6, 6);
      R.h.all_cr.assign(6, RowMatrixXd::Zero(2, 6)); R.h.all_cz.assign(6, RowMatrixXd::Zero(2, 6));
      FourierForces f(&R.s, &R.r, 6);
      for (auto* p : {&f.frcc, &f.frss, &f.fzsc, &f.fzcs}) for (size_t i = 0; i < p->size(); ++i) (*p)[i] = 1.0;
      if (!m.applyRZPreconditioner(f).ok()) return 3;
      for (int mn = 0; mn < 6; ++mn) hit[mn] += std::abs(f.frcc[2 * 6 + mn] - 0.5) < 1e-12;
    }
    for (int x : hit) if (x != 1) bad = 1;
  }
  printf("bad %d\\n", bad);
  return bad;
}
'''))
