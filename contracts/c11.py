"""what a reported success means: stopping decision, iteration loop, run"""
from contracts import c10 as base
from contracts.c10 import SOURCES, PREAMBLE, LINKFLAGS, CHUNK

CONTRACTS = [k for k in base.EVERY if k.name in ('evolve', 'iteration_loop', 'run', 'check_initial_state')]
ASSUME = ['Vmec::SolveEquilibrium (thread fan-out and status merging) is assumed to hand on the outcome of SolveEquilibriumLoop: success only within the tolerance',
          'the force evaluation (IdealMhdModel::update) is arbitrary: any residuals, restart reason, failure or checkpoint']
