prop('C01', 'Work partitioning covers every surface and grid point exactly once',
     'For every number of flux surfaces, boundary mode and admissible thread count, the flux surfaces assigned to the threads are consecutive, disjoint and cover all force-evaluation surfaces exactly once, with share sizes differing by at most one (larger shares first); each thread also gets exactly the neighbouring surfaces and half-grid points its own surfaces need, and the last closed surface belongs to exactly the thread holding it. The same exact-cover guarantee holds for the tangential grid points of the vacuum solve, and the number of threads used never exceeds one per two distributed surfaces (plasma) or one per grid point (vacuum).',
     ['configurations', 'schedules'], 'all ns >= 2, fixed/free boundary, all thread counts <= ns/2 and thread ids; all nZnT >= 0',
     'The tests in the repository try a few (ns, threads) pairs and need a Bazel build; an off-by-one that only shows for remainders or the last thread leaves a surface unowned or owned twice, a data race or a silently wrong force.',
     [CPP + 'vmec/radial_partitioning/radial_partitioning.cc', CPP + 'free_boundary/tangential_partitioning/tangential_partitioning.cc', CPP + 'common/util/util.cc'],
     [('RadialPartitioning::adjustRadialPartitioning', CPP + 'vmec/radial_partitioning/radial_partitioning.cc'), ('TangentialPartitioning::adjustPartitioning', CPP + 'free_boundary/tangential_partitioning/tangential_partitioning.cc'), ('vmec_adjust_num_threads', CPP + 'common/util/util.cc')],
     'The exact-cover statement over all threads is a lemma over the per-thread contract.')

prop('C02', 'Derived resolution and symmetry quantities are consistent for every input',
     'For every combination of lasym, nfp, mpol, ntor, ntheta, nzeta and geometry mode limits, the derived sizes satisfy their definitions: ntheta and nzeta are raised to at least the Nyquist-safe minimum, the poloidal grid is even, the reduced grid covers the half period (or the full one when non-symmetric), lthreed is on exactly when ntor > 0, all mode counts, grid counts, Nyquist limits and array sizes follow from these, and the surface-integration weights are non-negative and give 1 when summed over a flux surface.',
     ['inputs', 'configurations'], 'all lasym, nfp >= 1, mpol >= 1, ntor >= 0, any requested ntheta, nzeta and geometry limits',
     'The defaults and clamps only differ from naive code for unusual requests (odd ntheta, zero nzeta, lasym).',
     [CPP + 'common/sizes/sizes.cc'], [('Sizes::Sizes / Sizes::computeDerivedSizes', CPP + 'common/sizes/sizes.cc')],
     'Postconditions on every derived field plus lemmas on the weights.')

prop('C03', 'Fourier basis tables and mode numbering are exact in both memory layouts',
     'For every resolution, each entry of the cosine and sine tables (plain, derivative-weighted and integration-weighted) equals its trigonometric definition times the normalisation factors, derivative tables carry the factors m and -m, n*nfp and -n*nfp, the integration tables carry the endpoint weights, and the enumeration of (m, n) modes lists every mode of the combined basis exactly once (n from 0 for m = 0, from -ntor otherwise, n in units of nfp), consistently with the mode-to-index function and the mode count.',
     ['inputs', 'configurations'], 'all mpol, ntor, nfp, angular grid sizes, both layouts',
     'Tests compare a few tables; an error for one parity, one end point or one layout survives.',
     [CPP + 'common/fourier_basis/fourier_basis.cc'], [('FourierBasis::computeFourierBasis', CPP + 'common/fourier_basis/fourier_basis.cc'), ('FourierBasis::computeConversionIndices', CPP + 'common/fourier_basis/fourier_basis.cc'), ('FourierBasis::mnIdx / mnMax', CPP + 'common/fourier_basis/fourier_basis.cc')],
     'cos and sin are uninterpreted functions with parity and addition lemmas where used.')

prop('C04', 'Converting Fourier coefficients between bases preserves the represented function',
     'For all coefficients, the conversions between the combined basis cos/sin(m theta - n zeta) and the product basis represent the same function of (theta, zeta), for both symmetries and both memory layouts; converting to the product basis and back returns the original coefficients, and every output coefficient not belonging to the mode set is zero.',
     ['inputs', 'configurations'], 'all coefficient values, all mpol, ntor, both layouts, cosine and sine series',
     'Round trips on a few stored equilibria do not separate sign or scale errors of negative-n or n = 0 modes.',
     [CPP + 'common/fourier_basis/fourier_basis.cc', CPP + 'common/util/util.cc'], [('FourierBasis::cos_to_cc_ss, sin_to_sc_cs, cc_ss_to_cos, sc_cs_to_sin', CPP + 'common/fourier_basis/fourier_basis.cc')],
     'Same-function and round-trip statements are lemmas over the element-wise postconditions.')

prop('C05', 'Half-grid Jacobian and metric elements match their definitions',
     'For every geometry, radial partition and angular grid, each half-grid value of R, dR/du, dZ/du, dR/ds, dZ/ds, the Jacobian tau, sqrt(g) = tau*R and the metric elements g_uu, g_uv, g_vv equals its defining formula from the even and odd-m geometry on the two adjacent full-grid surfaces, with no other location written. In axisymmetric mode g_uv is untouched and g_vv contains only R squared. Whenever the Jacobian is negative at one half-grid point and positive at another, the step is marked as a bad-Jacobian step, and it is not when the Jacobian has one sign everywhere.',
     ['inputs', 'configurations'], 'all geometry values, all partition bounds, all angular grid sizes, 2-D and 3-D',
     'Existing regression tests compare a few converged equilibria to stored references; they cannot separate a wrong stencil or parity factor that cancels or is small for those cases.',
     [CPP + 'vmec/ideal_mhd_model/jacobian_kernel.h', CPP + 'vmec/ideal_mhd_model/metric_kernel.h', CPP + 'vmec/ideal_mhd_model/ideal_mhd_model.cc'],
     [('ComputeHalfGridJacobian', CPP + 'vmec/ideal_mhd_model/jacobian_kernel.h'), ('ComputeMetricElements', CPP + 'vmec/ideal_mhd_model/metric_kernel.h'), ('IdealMhdModel::computeJacobian', CPP + 'vmec/ideal_mhd_model/ideal_mhd_model.cc'), ('IdealMhdModel::computeMetricElements', CPP + 'vmec/ideal_mhd_model/ideal_mhd_model.cc')],
     'Postcondition: exact value of every output element and frame for everything else.')

prop('C06', 'Magnetic field components and magnetic pressure match their definitions',
     'For every input and partition, the contravariant field on the half grid is the averaged normalised lambda derivative divided by sqrt(g), the covariant field is the metric applied to the contravariant field (g_uv only in 3-D), and the magnetic pressure is half the scalar product of the two; nothing else is written.',
     ['inputs', 'configurations'], 'all field, metric and lambda values, all partitions, 2-D and 3-D',
     'Regression tests only sample a few equilibria.',
     [CPP + 'vmec/ideal_mhd_model/bcontra_kernel.h', CPP + 'vmec/ideal_mhd_model/bco_kernel.h', CPP + 'vmec/ideal_mhd_model/pressure_kernel.h', CPP + 'vmec/ideal_mhd_model/ideal_mhd_model.cc'],
     [('ComputeBsupContra', CPP + 'vmec/ideal_mhd_model/bcontra_kernel.h'), ('ComputeBCo', CPP + 'vmec/ideal_mhd_model/bco_kernel.h'), ('ComputeMagneticPressure', CPP + 'vmec/ideal_mhd_model/pressure_kernel.h'), ('IdealMhdModel::computeBCo', CPP + 'vmec/ideal_mhd_model/ideal_mhd_model.cc')],
     'Postcondition: exact value of every output element and frame for everything else.')

prop('C07', 'Force densities match their definitions on every radial partition',
     'For every input, the real-space MHD force density, the hybrid lambda force and the spectral-condensation constraint force on each full-grid surface equal their defining formulas from that surface and its two half-grid neighbours (contributions from inside the axis and outside the boundary vanish). The result on a surface does not depend on which thread or radial partition computes it, and no other surface is written.',
     ['inputs', 'configurations', 'schedules'], 'all field/geometry values, all partitions produced by the work distribution, 2-D and 3-D',
     'The sweep carries the inside half-grid point from surface to surface; an error that only appears at the first surface of a later partition is invisible to single-thread tests.',
     [CPP + 'vmec/ideal_mhd_model/mhdforce_kernel.h', CPP + 'vmec/ideal_mhd_model/lambda_force_kernel.h', CPP + 'vmec/ideal_mhd_model/constraint_force_kernel.h', CPP + 'vmec/ideal_mhd_model/ideal_mhd_model.cc'],
     [('ComputeMHDForceDensity', CPP + 'vmec/ideal_mhd_model/mhdforce_kernel.h'), ('ComputeHybridLambdaForce', CPP + 'vmec/ideal_mhd_model/lambda_force_kernel.h'), ('AddConstraintForces', CPP + 'vmec/ideal_mhd_model/constraint_force_kernel.h'), ('IdealMhdModel::computeMHDForces', CPP + 'vmec/ideal_mhd_model/ideal_mhd_model.cc'), ('IdealMhdModel::hybridLambdaForce', CPP + 'vmec/ideal_mhd_model/ideal_mhd_model.cc'), ('IdealMhdModel::effectiveConstraintForce', CPP + 'vmec/ideal_mhd_model/ideal_mhd_model.cc'), ('IdealMhdModel::assembleTotalForces', CPP + 'vmec/ideal_mhd_model/ideal_mhd_model.cc')],
     'The specification of a surface mentions only global surface indices, so partition independence follows from the postcondition.')

prop('C08', 'The radial tridiagonal solver returns the exact solution',
     'For all coefficients (with non-vanishing pivots), all mode counts and right-hand sides, and any row range per mode, the tridiagonal solver used by the preconditioner overwrites the right-hand side with values satisfying every equation of the system on the rows from the first active row to the last, leaves rows outside that range at zero (below) or untouched, and the distributed multi-thread variant gives the same solution for every split of the rows over threads.',
     ['inputs', 'configurations', 'schedules'], 'all diagonals, all right-hand sides, all jMin/jMax, all thread counts',
     'The existing test compares one system; a wrong hand-over for a mode starting at a thread boundary only shows for particular splits (one such defect was found and fixed).',
     [CPP + 'common/util/util.cc'], [('TridiagonalSolveSerial', CPP + 'common/util/util.cc'), ('TridiagonalSolveOpenMP', CPP + 'common/util/util.cc')],
     'Serial variant proved by recurrence invariants and a residual lemma per row; the OpenMP variant is a bounded check with real threads (labelled bounded).')

prop('C09', 'Operations on the spectral state touch exactly the intended coefficients',
     'For all coefficient values, symmetries and radial partitions: scaling into the decomposed state multiplies each coefficient by the radial factor of its m-parity; the m = 1 constraint mixes exactly the m = 1 pairs as specified; geometry masking zeroes exactly the R and Z modes above the geometry limits and leaves lambda alone; zeroing the Z force acts on the m = 1 rows only; residuals and norms are the sums of squares over exactly the surfaces and blocks they name; axis extrapolation copies exactly the m = 1 (and lambda m = 0) rows of the innermost surface; the initial guess is the specified interpolation between axis and boundary. No other coefficient changes.',
     ['inputs', 'configurations'], 'all coefficients, mpol, ntor, partitions, 2-D/3-D, symmetric and asymmetric',
     'Regression runs rarely exercise asymmetric or partition-edge blocks; a wrong block or an off-by-one row is invisible in converged symmetric cases.',
     [CPP + 'vmec/fourier_coefficients/fourier_coefficients.cc', CPP + 'vmec/fourier_forces/fourier_forces.cc', CPP + 'vmec/fourier_geometry/fourier_geometry.cc'],
     [('FourierCoeffs::decomposeInto, m1Constraint, maskGeometryAbove, setZero, rzNorm', CPP + 'vmec/fourier_coefficients/fourier_coefficients.cc'), ('FourierForces::zeroZForceForM1, residuals', CPP + 'vmec/fourier_forces/fourier_forces.cc'), ('FourierGeometry::interpFromBoundaryAndAxis, extrapolateTowardsAxis', CPP + 'vmec/fourier_geometry/fourier_geometry.cc')],
     'Element-wise postconditions and frames.')

prop('C10', 'The iteration advances and restores the spectral state exactly as specified',
     'In every iteration that goes on, each coefficient block in use is advanced by v := fac*(b1*v + dt*f), x := x + dt*v on exactly the surfaces owned by the thread (including the boundary where it is owned), with fac = 1/(1+dtau), b1 = 1-dtau and dtau from the ten-entry history of 1/tau, which is re-initialised at the start of a branch and shifted by one entry per iteration; the outermost surfaces of a partition are handed to, and ghost surfaces taken from, exactly the neighbouring threads. A restart after a bad Jacobian or bad progress restores the whole backup state, zeroes all velocities and reduces the time step by the specified factor (0.9, 1/1.03); otherwise the backup becomes a copy of the whole current state. No other coefficient changes.',
     ['inputs', 'configurations', 'schedules'], 'all coefficient, velocity and force values, all partitions, 2-D/3-D, symmetric and asymmetric, all restart reasons',
     'Only restarts and asymmetric or partition-edge blocks expose a wrong block, factor or hand-over; regression runs converge regardless of such an error.',
     [CPP + 'vmec/vmec/vmec.cc'], [('Vmec::performTimeStep', CPP + 'vmec/vmec/vmec.cc'), ('Vmec::RestartIteration', CPP + 'vmec/vmec/vmec.cc'), ('Vmec::Evolve', CPP + 'vmec/vmec/vmec.cc')],
     'Callee contracts setZero and copy assignment of the state; OpenMP single/barrier treated as sequential.')

prop('C11', 'A run is reported successful only when it converged',
     'Whatever the force evaluation delivers: an iteration records successful termination exactly when all three residuals are finite and within the tolerance (and it is not a bad first Jacobian), and a non-finite residual or a bad first Jacobian is recorded as a failure; after convergence no further step is taken. The iteration loop of a stage never exceeds the iteration budget, returns an error whenever a force evaluation failed, reports a failed state as an error unless best-effort output was requested, and ends normally only when converged, out of budget, interrupted or after too many bad Jacobians. A run returns OK with outputs only if the last stage ended in successful termination or best-effort output was requested, passes on every stage error, and refuses inconsistent input, a mismatching mgrid or a mismatching hot-restart state before computing anything. The residual, energy and restart histories get exactly one entry per continued iteration, from the thread owning the boundary.',
     ['inputs', 'histories', 'faults'], 'all residual sequences including NaN and infinity, all failures and checkpoints of callees, all iteration budgets and multigrid sequences',
     'Tests only see converging runs; the verdict for NaN residuals, exhausted budgets and failures half-way needs particular residual histories.',
     [CPP + 'vmec/vmec/vmec.cc'], [('Vmec::Evolve', CPP + 'vmec/vmec/vmec.cc'), ('Vmec::SolveEquilibriumLoop', CPP + 'vmec/vmec/vmec.cc'), ('Vmec::run', CPP + 'vmec/vmec/vmec.cc'), ('CheckInitialState', CPP + 'vmec/vmec/vmec.cc')],
     'The iteration loop and the multigrid loops are verified with loop invariants; callees enter by contract.')

prop('C12', 'The Fourier transforms evaluate exactly the represented series',
     'For all coefficients, mode counts, angular grids and radial partitions, in 2-D and 3-D, symmetric and asymmetric: the inverse transforms produce, at every grid point of every surface of the partition, the defining Fourier sums of R, Z, lambda, their poloidal and toroidal derivatives and the constraint contributions, separated by parity of m (with the lambda and m = 1 radial weights as specified); extending to the full poloidal range adds the symmetric and antisymmetric parts and reflects the second half; the force transforms are the projections of the force densities onto each basis function with the specified weights, on exactly the surfaces a partition owns, after splitting them into their two parity halves; the model entry points hand exactly these arrays over, in that order, and derive the full-surface derivatives and extents from the result.',
     ['inputs', 'configurations'], 'all coefficients and force values, all mpol, ntor, nZeta, nTheta, all partitions, 2-D/3-D, symmetric/asymmetric',
     'Asymmetric, fixed-point (theta = 0, pi) and partition-edge terms are not or barely exercised by the stored equilibria.',
     [CPP + 'vmec/ideal_mhd_model/dft_toroidal.cc', CPP + 'vmec/ideal_mhd_model/ideal_mhd_model.cc'],
     [('FourierToReal3DSymmFastPoloidal, ForcesToFourier3DSymmFastPoloidal and the asymmetric variants', CPP + 'vmec/ideal_mhd_model/dft_toroidal.cc'), ('IdealMhdModel::dft_FourierToReal_2d_symm, symrzl, symforce, geometryFromFourier, forcesToFourier', CPP + 'vmec/ideal_mhd_model/ideal_mhd_model.cc')],
     'Loops proved with sum invariants; entry points use the transforms by contract.')

prop('C13', 'The FFT-accelerated transforms give the same result as the direct sums',
     'With FFT acceleration compiled in, for all coefficients, mode counts, even toroidal grids with nZeta >= 2*ntor+4, and radial partitions, the FFT inverse and forward transforms produce exactly the values specified for the direct transforms, and write nothing else; nothing left over in the reused thread-local work buffers influences the result.',
     ['inputs', 'configurations', 'histories'], 'all coefficients, sizes, partitions and all earlier contents of the reused buffers',
     'Comparisons of both paths for a few resolutions do not see stale buffer contents, padding or Nyquist handling at other resolutions.',
     [CPP + 'vmec/ideal_mhd_model/fft_toroidal.cc', CPP + 'vmec/ideal_mhd_model/fft_toroidal.h'],
     [('FourierToReal3DSymmFastPoloidalFft', CPP + 'vmec/ideal_mhd_model/fft_toroidal.cc'), ('ForcesToFourier3DSymmFastPoloidalFft', CPP + 'vmec/ideal_mhd_model/fft_toroidal.cc')],
     'The generated batched FFT kernels are assumed by contract (real inverse DFT / scaled forward DFT).')

prop('C14', 'Volume, energy, flux, current and force-norm integrals count every point exactly once',
     'For every geometry, field, profile and radial partition: the differential volume per surface, initial and current plasma volume, thermal and magnetic energy, toroidal/poloidal current profiles, radial force balance, force-residual normalisation factors, invariant and preconditioned residuals, constraint reference values and the pressure mismatch at the boundary equal their defining surface or volume integrals; the partition-local contributions of all threads add up with each half-grid point counted exactly once (interior ghost points never twice), and each scalar is accumulated onto its reset value.',
     ['inputs', 'configurations', 'schedules'], 'all fields, profiles, partition bounds, angular grids, symmetric or not, fixed or free boundary',
     'A half-grid point shared by two neighbouring partitions is counted twice or dropped only for multi-thread runs of particular sizes; single-thread regression values never show it.',
     [CPP + 'vmec/ideal_mhd_model/ideal_mhd_model.cc'],
     [('IdealMhdModel::' + f, CPP + 'vmec/ideal_mhd_model/ideal_mhd_model.cc') for f in 'updateDifferentialVolume computeInitialVolume updateVolume pressureAndEnergies radialForceBalance computeForceNorms rzConIntoVolume computeBContra evalFResInvar evalFResPrecd'.split()],
     'The contribution of one thread and its accumulation are proved from the real method; the total over threads is proved as a lemma over the partition contract (C01) for the volume; the OpenMP barriers themselves are not modelled.')

IMM = CPP + 'vmec/ideal_mhd_model/ideal_mhd_model.cc'
prop('C15', 'Preconditioner and constraint-force coefficients equal their definitions on every partition',
     'For every geometry, field, resolution and radial partition: the lambda preconditioner, the radial R/Z preconditioner elements, the assembled tridiagonal matrix per Fourier mode (including the axis row, the m=1 coupling and the free-boundary edge pedestal), the m=1 preconditioner, the constraint-force multiplier and the de-aliased constraint force equal their defining formulas in terms of the surface integrals; applying the preconditioner gathers every surface of a partition into the shared per-mode system, assigns every mode to exactly one thread, solves each system with the rows and right-hand sides of that mode, and returns every component of the solution to the surface and basis block it belongs to, modifying nothing else.',
     ['inputs', 'configurations', 'schedules'], 'all fields, mode counts, partition bounds, thread counts, symmetric or not, two- or three-dimensional, fixed or free boundary',
     'A wrong preconditioner usually still converges (more slowly) to the same equilibrium, so end-to-end comparisons do not see it; mode-to-thread splits and asymmetric blocks fail only for particular sizes.',
     [IMM],
     [('IdealMhdModel::' + f, IMM) for f in 'updateLambdaPreconditioner applyLambdaPreconditioner applyM1Preconditioner computePreconditioningMatrix assembleRZPreconditioner applyRZPreconditioner constraintForceMultiplier'.split()] + [('deAliasConstraintForce', IMM)],
     'The tridiagonal solver is used by its contract (C08); one thread between the barriers is proved, the barriers themselves are not modelled.')

RP = CPP + 'vmec/radial_profiles/radial_profiles.cc'
prop('C16', 'Input profiles evaluate exactly the parameterization the user specified',
     'For every input: each profile name is accepted for exactly the profiles (pressure, current, iota) it is documented for and selects its own parameterization; at every position the profile equals the documented formula of that parameterization (power series, Gaussian, sum of arctangents, Lorentzians, two-power with and without peaks, pedestal, rational, quadratic, Akima and cubic splines, line segments), with I-prime current profiles integrated from the axis; the toroidal flux function, its derivative and the poloidal flux follow from the flux polynomial and iota; the profiles on the half and full grid of every radial partition take those functions at the grid positions with the pressure pedestal position, bloating, current normalisation, mass scaling and poloidal-angle flip applied as specified; partition sums count every half-grid point once. No array is read outside its bounds.',
     ['inputs', 'configurations'], 'all coefficients and knots (sorted), all evaluation positions, all radial partitions, all names',
     'Each parameterization has many branches (knot positions, missing coefficients, edge values) of which tests sample a few; three of them were wrong (fixed).',
     [RP], [('RadialProfiles::' + f, RP) for f in 'evalPowerSeries evalGaussTrunc evalSumAtan evalTwoLorentz evalTwoPower evalTwoPowerGs evalPedestal evalRational evalNiceQuadratic evalLineSegment evalLineSegmentIntegrated evalAkima evalCubic evalProfileFunction computeMagneticFluxes evalRadialProfiles AccumulateVolumeAveragedSpectralWidth findParameterization'.split()],
     'The construction of the spline coefficients and the name table are decided by concrete runs (bounded, the table exhaustively); everything else is proved.')

BD = CPP + 'vmec/boundaries/boundaries.cc'
prop('C17', 'The boundary the solver works with is the boundary the user gave',
     'For all boundary and axis coefficients, mode counts, 2-D and 3-D, symmetric and asymmetric: the internal product-basis coefficients represent the same surface as the input series in cos(m theta - n zeta) and sin(m theta - n zeta), up to the documented shift of the poloidal angle (applied to all modes, chosen so that the m = 1, n = 0 asymmetric terms agree) and, exactly when the input runs in the wrong direction, the reflection theta -> pi - theta; the m = 1 constraint mixes exactly the m = 1 pairs with the given factor; the axis coefficients are copied unchanged; unused blocks are not touched.',
     ['inputs', 'configurations'], 'all coefficients, mpol, ntor, symmetric or not, 2-D or 3-D, both orientations',
     'Inputs with negative-n modes, m = 0 sine terms or clockwise boundaries are rare in tests; a sign error there silently solves for a different boundary.',
     [BD], [('Boundaries::' + f, BD) for f in 'setupFromIndata parseToInternalArrays checkSignOfJacobian flipTheta ensureM1Constrained'.split()],
     'Coefficient-wise postconditions; sin, cos and atan2 uninterpreted.')

FB = CPP + 'free_boundary/'
prop('C18', 'Free-boundary surface geometry and external field match their definitions',
     'For every plasma boundary, coil field table, axis current, angular grid, point partition, symmetric or not: the boundary shape and its first and second derivatives at every grid point equal the Fourier series (mirrored by symmetry into the second half), the normal vector, metric and curvature elements and Cartesian coordinates follow from them; the tabulated coil field is the superposition of the coil fields weighted with the coil currents of this load only, a wrong number of currents is refused, its value on the boundary is the bilinear interpolation in the R-Z cell of the point (clamped to the table), the axis current contributes the Biot-Savart field of the closed polygon over all field periods, and the covariant and normal components of the total field are its projections onto the tangent and normal vectors. Every thread computes exactly its own points.',
     ['inputs', 'configurations', 'histories'], 'all coefficients, tables, currents, grids, point partitions, symmetric or not, and all earlier contents of the table',
     'Free-boundary tests need stored coil fields of one geometry; grid-edge cells, second loads, odd toroidal grids and partitions other than the tested ones are never run.',
     [FB + 'surface_geometry/surface_geometry.cc', FB + 'external_magnetic_field/external_magnetic_field.cc', FB + 'mgrid_provider/mgrid_provider.cc'],
     [('SurfaceGeometry::' + f, FB + 'surface_geometry/surface_geometry.cc') for f in 'computeConstants inverseDFT derivedSurfaceQuantities'.split()] + [('ExternalMagneticField::' + f, FB + 'external_magnetic_field/external_magnetic_field.cc') for f in 'covariantAndNormalComponents AddAxisCurrentFieldSimple'.split()] + [('MGridProvider::' + f, FB + 'mgrid_provider/mgrid_provider.cc') for f in ('interpolate', 'LoadFields')],
     'Sum and range invariants over the flattened point index; sine, cosine and square root uninterpreted. Reading the table from a NetCDF file is not covered.')

FL = FB + 'laplace_solver/laplace_solver.cc'
prop('C19', 'The vacuum potential solves the boundary integral equation as discretised',
     'For every boundary surface, normal field, mode and grid size, point partition, symmetric or not: the regularized Green function and its normal derivative are summed over all field periods (or toroidal images) with their singular part removed and the singular point left out; the singular part is the exact integral of the analytic approximation, expanded in the Fourier modes with the proper coefficients; the source and the kernel are split by symmetry and projected onto exactly the sine and cosine modes with positive and negative toroidal mode numbers; the linear system has these projections in the right blocks, redundant modes switched off and the identity part on the diagonal, is solved with the right-hand side belonging to it, once, and with the factors of this matrix. Every thread contributes exactly its own points.',
     ['inputs', 'configurations'], 'all surfaces and fields, all mf, nf, nZeta, nTheta, all partitions, symmetric and asymmetric, all field-period numbers',
     'A wrong block, sign or period in the vacuum solve shifts a free-boundary equilibrium slightly and only for asymmetric or strongly shaped cases; the stored free-boundary cases are few and loose.',
     [FL, FB + 'regularized_integrals/regularized_integrals.cc', FB + 'singular_integrals/singular_integrals.cc'],
     [('LaplaceSolver::' + f, FL) for f in 'LaplaceSolver TransformGreensFunctionDerivative SymmetriseSourceTerm AccumulateFullGrpmn PerformToroidalFourierTransforms PerformPoloidalFourierTransforms BuildMatrix SolveForPotential'.split()] + [('RegularizedIntegrals::' + f, FB + 'regularized_integrals/regularized_integrals.cc') for f in 'computeConstants updateAxisymmetric update'.split()] + [('SingularIntegrals::' + f, FB + 'singular_integrals/singular_integrals.cc') for f in 'computeCoefficients update'.split()],
     'Transforms, system assembly, solve hand-over, tables and the axisymmetric Green function are proved; the three-dimensional Green function and the singular integrals are bounded comparisons with their definition (the latter with numerical quadrature). LAPACK is assumed; barriers and critical sections are treated as sequential.')

OQ = CPP + 'vmec/output_quantities/output_quantities.cc'
prop('C20', 'Field components, current density and force balance in the output belong to the computed equilibrium',
     'For every converged state, every number of surfaces, grid size, mode number, symmetric or not: the output takes the enclosed poloidal and toroidal current, the metric elements, the cylindrical field components, the covariant field components (radial one included, on both grids and with its edge extrapolation), their split by stellarator symmetry and their low-pass filtered form and tangential derivatives at each grid point from the values of that very grid point and its reflection; the parallel and poloidal/toroidal current density, the divergence-free blend of B_v, and the surface averages of J·B, B·grad v and the force balance are the discrete forms of their definitions; no surface, axis or edge value is left out, doubled or taken from a neighbouring surface.',
     ['inputs', 'configurations'], 'all fields, all ns, nZeta, nTheta, mpol, ntor, symmetric and asymmetric',
     'The jxbout quantities are checked only against a few stored reference runs; asymmetric, many-plane outputs are never sampled, where two defects were found (and repaired).',
     [OQ],
     [(f, OQ) for f in 'ComputePoloidalCurrent FixupPoloidalCurrent ComputeRemainingMetric ComputeBCylindrical ComputeBSubSOnHalfGrid PutBSubSOnFullGrid DecomposeCovariantBBySymmetry LowPassFilterCovariantB ExtrapolateBSubS ComputeJxBOutputFileContents'.split()],
     'Real arithmetic; Eigen storage by its row-major contract.')
prop('C21', 'Stability and equilibrium tables follow from the computed equilibrium',
     'For every converged state, every number of surfaces and grid size, symmetric or not: the Mercier terms and their sum (shear, well, current, geodesic), the flux-surface averages and derivatives they use, the profile table (pressure, rotational transform, currents, average force balance, specific volume, beta) and its full/half-grid interpolations, the geometric and magnetic summary numbers (volume, areas, radii, elongation, field averages and their ratios, betas, inductance and Shafranov integrals) are the stated averages and integrals over exactly the surfaces and grid points they name; the axis and edge values are set as documented.',
     ['inputs', 'configurations'], 'all fields and profiles, all ns, nZeta, nTheta, symmetric and asymmetric',
     'Summary numbers are compared with stored files for a few symmetric cases to loose tolerances; a wrong weight, stride or missing surface changes them by a few percent and only for some grids.',
     [OQ],
     [(f, OQ) for f in 'ComputeIntermediateMercierQuantities ComputeMercierStability ComputeIntermediateThreed1FirstTableQuantities ComputeThreed1FirstTable ComputeIntermediateThreed1GeometricMagneticQuantities ComputeThreed1GeometricMagneticQuantities ComputeThreed1Volumetrics ComputeThreed1AxisGeometry ComputeThreed1Betas ComputeThreed1ShafranovIntegrals'.split()],
     'Real arithmetic; Eigen storage by its row-major contract. The extremes (largest/smallest radius, height, |B| extremes, waist with several planes) are compared in concrete runs only; shape numbers of single cross sections (indentation, ellipticity, triangularity, shift) are not specified.')
