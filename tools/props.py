"""Single source of properties.jsonl and MANIFEST.json (tools/gen.py)."""
T_SAMPLES = 'The unit tests evaluate a handful of fixed or random inputs of small helper types; '
T_SMOKE = 'The integrator regressions only run without asserting anything about the trajectories; '
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, na=na))


IN = ['inputs']
CFG = ['inputs', 'configurations']
HIST = ['inputs', 'histories']

P('P01', 'Newtonian gravity is the exact pairwise inverse-square law',
  'For any number of particles with any masses and positions, the Newtonian interaction adds to each particle exactly the sum over all other particles of m_j (x_j - x_i)/|x_j - x_i|^3 (G = 1), using Cartesian differences or chain-relative vectors as the particles provide them. Every pair contributes once to each partner with equal and opposite force, no particle acts on itself, and the previous contents of the acceleration array are added to, not replaced.',
  CFG, 'all particle numbers N (N>=2 with chain coordinates), all masses, positions and chain orders',
  T_SAMPLES + 'no test evaluates the force of an N-body configuration, let alone for every N and chain order.',
  ['src/interaction/newtonian.hpp', 'src/vector/vector3.hpp'],
  [('pair kernel and pair loop', 'src/interaction/newtonian.hpp eval_acc')])
P('P02', 'Post-Newtonian, tidal and drag terms follow their published pair laws',
  'The first-order, second-order and 2.5-order post-Newtonian, static tidal and gas-drag interactions add to each particle the documented closed-form acceleration of every pair (or of the background), for chain and Cartesian particles alike. Contributions are added once per pair to both partners with the signs their formula requires, and nothing but the acceleration array is modified.',
  CFG, 'all particle numbers, states, tidal parameters and drag coefficients',
  T_SAMPLES + 'no test evaluates any non-Newtonian force.',
  ['src/interaction/post-newtonian.hpp', 'src/interaction/tidal.hpp', 'src/interaction/static-gas-drag.hpp'],
  [('pair kernels', 'src/interaction/post-newtonian.hpp, tidal.hpp'), ('background drag', 'src/interaction/static-gas-drag.hpp')])
P('P03', 'Energies and angular momentum equal their N-body definitions',
  'Kinetic energy, pairwise potential energy, total energy and total angular momentum reported for a particle set equal 1/2 sum m v^2, -sum_{i<j} m_i m_j / r_ij, their sum, and sum m (x cross v), for containers of particles and for structure-of-arrays particle systems, with or without chain coordinates. Energy error and similar derived quantities are computed from these values.',
  CFG, 'all particle numbers, masses, positions and velocities',
  T_SAMPLES + 'energies of N-body sets are never compared with their definition.',
  ['src/core-computation.hpp', 'src/orbits/particle-manip.hpp'],
  [('energy reductions', 'src/core-computation.hpp calc_kinetic_energy, calc_potential_energy, calc_angular_momentum')])
P('P04', 'Chain construction visits every particle once along nearest links',
  'Building the chain order from positions returns a permutation of all particle indices, whose links are chosen by repeatedly taking the shortest remaining particle distance that can start the chain or extend one of its ends. The order handed out is that of the chain built, whatever the index array held before.',
  CFG, 'all particle numbers, all positions',
  'Chain tests use a few random configurations and compare against a stored order only for fixed sizes.',
  ['src/particle-system/chain.hpp'],
  [('sorted distance list and greedy insertion', 'src/particle-system/chain.hpp calc_chain_index')])
P('P05', 'Chain and Cartesian coordinates are exact inverses of each other',
  'Converting Cartesian vectors to chain vectors along any chain order yields the difference of consecutive members, with the vector of the first member stored last, and converting back yields the original vectors exactly: every member is the first member plus the links before it. Velocity, position and acceleration conversions all follow the same rule and leave the array they read untouched.',
  CFG, 'all particle numbers, all chain orders (any permutation), all vectors and masses',
  'Tests round-trip random vectors of fixed size in one order.',
  ['src/particle-system/chain.hpp'],
  [('calc_chain / calc_cartesian', 'src/particle-system/chain.hpp')])
P('P06', 'Re-linking the chain preserves the physical configuration',
  'When the chain order changes, the updated chain vectors describe exactly the same relative positions as before for every pair of particles. No accumulated quantity other than the chain coordinates and the order changes.',
  HIST, 'all pairs of old and new orders, all chain vectors',
  'A test compares one random update for small sizes.',
  ['src/particle-system/chain.hpp'],
  [('update_chain', 'src/particle-system/chain.hpp')])
P('P07', 'Symplectic integrators apply a consistent, time-symmetric drift/kick sequence',
  'Each symplectic integrator of order 2 to 10 splits a step into drifts and kicks whose coefficients each sum to the whole step, read the same forwards and backwards, and satisfy the order conditions of the claimed order. The sequence does not depend on the state of the system.',
  CFG, 'all step sizes and every integrator order offered',
  T_SMOKE + 'no test looks at the coefficients or their sums.',
  ['src/integrator/symplectic/symplectic-integrator.hpp'],
  [('integrate_impl of Symplectic2nd..10th', 'src/integrator/symplectic/symplectic-integrator.hpp')])
P('P08', 'Drift, kick and time transformation update the state by the stated rule',
  'In every particle-system variant a drift advances positions by velocity times the (regularised) step and the time by the same step, and a kick advances velocities by acceleration times the step, leaving everything else unchanged; velocity-dependent forces are integrated with a symmetric auxiliary-velocity scheme. Chain systems apply the same update to chain coordinates and refresh Cartesian ones accordingly.',
  CFG, 'all particle numbers, states and step sizes, for any force',
  T_SMOKE + 'no test isolates a drift or a kick.',
  ['src/particle-system/base-system.hpp', 'src/particle-system/chain-system.hpp', 'src/particle-system/archain.hpp', 'src/particle-system/regu-system.hpp'],
  [('drift, kick, advance', 'src/particle-system/*.hpp')])
P('P09', 'Flattened state round-trips and has the documented layout',
  'Writing a particle system to a flat array and reading it back reproduces time, positions, velocities and any regularisation variables exactly, and reading then writing reproduces the array. The flattened length equals the number of scalars written, and flattened increments equal the derivative of the same layout.',
  CFG, 'all particle numbers and states of every system variant',
  T_SMOKE + 'no test round-trips the state.',
  ['src/particle-system/base-system.hpp', 'src/particle-system/chain-system.hpp', 'src/particle-system/archain.hpp', 'src/particle-system/regu-system.hpp'],
  [('write_to_scalar_array / read_from_scalar_array', 'src/particle-system/*.hpp')])
P('P10', 'Regularisation functions equal their physical definitions and stay consistent',
  'The time-transformation factors are 1/(binding energy + kinetic energy) or 1/|potential| for the logarithmic-Hamiltonian form and 1/Omega with Omega the pair-weighted inverse-distance sum for the transformed-leapfrog form; the auxiliary variables start at the physical value and advance by the power of velocity-independent and external forces as the equations of motion require. Choosing no regularisation gives factor one.',
  CFG, 'all particle numbers, states and regularisation choices',
  T_SMOKE + 'the regularised equations are never compared with their definitions.',
  ['src/particle-system/regu-system.hpp', 'src/particle-system/archain.hpp'],
  [('Regularization', 'src/particle-system/regu-system.hpp')])
P('P11', 'Bulirsch-Stoer extrapolation is exact polynomial extrapolation to zero step',
  'The extrapolation table of the Bulirsch-Stoer iterators combines sub-step results so that, for results depending polynomially on the squared sub-step size up to the table order, the extrapolated value is the exact limit. Sub-step sequences and work coefficients follow their definitions, the sub-steps of a trial (kick-drift, drift-kick or modified midpoint) cover the step exactly, and the order selected for the next step stays within the tables (2 to 6) and moves by at most one column, down when one column less is clearly cheaper per unit step and up when the last one was.',
  HIST, 'all sub-step results, all table orders up to the configured maximum',
  T_SMOKE + 'the extrapolation table is never checked.',
  ['src/ode-iterator/Bulirsch-Stoer.hpp', 'src/ode-iterator/sequent-iterator.hpp'],
  [('extrapolate and BS constants', 'src/ode-iterator/Bulirsch-Stoer.hpp')])
P('P12', 'Adaptive iterators accept a step only with error below tolerance',
  'The Bulirsch-Stoer iterators return only after a trial whose estimated error is within tolerance (at most 1), the IAS15 iterator only after a converged trial whose proposed step ratio is above the lower limit, and the sequence iterator at the first refinement within tolerance or, failing that, with its finest one. Every trial starts from the saved initial state with the step of that trial, the error is estimated from the last two results, and the system (and, in the ODE form, the caller\'s data and time) is advanced by the accepted trial exactly once. The suggested next step is the controller result for the accepted error; the fixed-step iterator makes one step of the given size and keeps it.',
  HIST, 'all error sequences and step sizes',
  T_SMOKE + 'no test observes retries or rejected steps.',
  ['src/ode-iterator/Bulirsch-Stoer.hpp', 'src/ode-iterator/IAS15.hpp', 'src/ode-iterator/sequent-iterator.hpp', 'src/ode-iterator/const-iterator.hpp'],
  [('iterate loops', 'src/ode-iterator/*.hpp')])
P('P13', 'Step controllers keep step changes within the configured limits',
  'Step-size controllers scale the step by a safety-weighted power of the normalised error (and error history), clamp the factor to the configured minimum and maximum for the order, and return a finite positive factor for every non-negative error. A zero error gives the largest allowed growth.',
  CFG, 'all errors, orders, step sizes and controller parameters',
  T_SAMPLES + 'no test exercises a controller.',
  ['src/ode-iterator/step-controller/PID-controller.hpp', 'src/ode-iterator/step-controller/const-controller.hpp'],
  [('next_with_limiter', 'src/ode-iterator/step-controller/PID-controller.hpp')])
P('P14', 'Error estimators compute the documented tolerance-scaled norm',
  'Each error estimator returns its documented norm (root mean square or maximum) of component differences scaled by absolute plus relative tolerance, is zero exactly when the two results agree, and never decreases when a component difference grows. Every component of the arrays takes part exactly once.',
  CFG, 'all array lengths, values and tolerances',
  T_SAMPLES + 'no test exercises an estimator.',
  ['src/ode-iterator/error-checker/RMS.hpp', 'src/ode-iterator/error-checker/worst-offender.hpp', 'src/ode-iterator/error-checker/max-ratio-error.hpp'],
  [('error', 'src/ode-iterator/error-checker/*.hpp')])
P('P15', 'The Gauss-Radau predictor and corrector are consistent to 15th order',
  'The Radau integrator predicts positions, velocities and substep values by the exact integral of its acceleration polynomial, converts between the divided-difference and power coefficients exactly, and reproduces any acceleration polynomial of its degree without error. Step-to-step prediction rescales the coefficients exactly.',
  CFG, 'all polynomial coefficients, all particle numbers and step ratios',
  T_SMOKE + 'coefficients are never checked.',
  ['src/integrator/Gauss-Radau.hpp', 'src/ode-iterator/IAS15.hpp'],
  [('predict, calc_B_table, G-B conversion', 'src/integrator/Gauss-Radau.hpp')])
P('P16', 'Kepler anomaly conversions are exact inverses on their domains',
  'Conversions among true, eccentric and mean anomaly follow the elliptic, parabolic and hyperbolic Kepler relations and invert each other, and the orbital period and the times to periapsis follow from the same two-body problem. The iterative conversion from mean anomaly brackets a solution of Kepler\'s equation for every mean anomaly of every orbit type.',
  IN, 'all eccentricities and anomalies in the domain of each formula',
  T_SAMPLES + 'orbit conversions are not tested.',
  ['src/orbits/orbits.hpp'],
  [('anomaly functions', 'src/orbits/orbits.hpp')])
P('P17', 'Orbital elements and Cartesian states describe the same two-body orbit',
  'The state generated from orbital elements has the specific angular momentum, energy and distance that the elements define, and elements computed from a state follow the two-body definitions (vis-viva semi-major axis, eccentricity vector, semi-latus rectum from angular momentum, angles from node and periapsis vectors). Orbit-type classification depends only on eccentricity.',
  IN, 'all masses, elements and relative states away from the documented singular cases',
  T_SAMPLES + 'element conversion is not tested.',
  ['src/orbits/orbits.hpp'],
  [('coord_to_orbit, orbit_to_coord, calc_*', 'src/orbits/orbits.hpp')])
P('P18', 'Centre-of-mass and cluster operations move groups rigidly',
  'Total mass, centre-of-mass position and velocity equal the mass-weighted sums; moving a group (to a given centre, by a displacement, or to the centre of mass) shifts all members by one common vector and changes neither masses nor relative coordinates. Quantities defined between two clusters (reduced mass, tidal factors and energies, relative orbit) are computed from their total masses, centres and sizes.',
  CFG, 'all group sizes and particle states',
  T_SAMPLES + 'group operations are not tested for every size.',
  ['src/orbits/particle-manip.hpp', 'src/core-computation.hpp'],
  [('M_tot, COM_p, COM_v, move_particles, E_tid, tidal_factor', 'src/orbits/particle-manip.hpp')])
P('P19', 'Particle containers keep all attributes of each particle together',
  'Constructing, appending, reading back or resizing any structure-of-arrays particle type keeps every attribute (position, velocity, mass, radius, tidal and drag parameters, index) of each particle at the same slot, assigns consecutive identifiers, and leaves all other particles unchanged. The reported size always equals the length of every attribute array.',
  HIST, 'all particle numbers and attribute values',
  'Tests build small random particle sets for two of the four types.',
  ['src/particles/point-particles.hpp', 'src/particles/finite-size.hpp', 'src/particles/tide-particles.hpp', 'src/particles/drag-particles.hpp'],
  [('constructors, emplace_back, resize', 'src/particles/*.hpp')])
P('P20', 'Compensated summation carries the exact rounding error',
  'The compensated number types behave as their real value under arithmetic and comparison, and each compensated addition stores in its error term exactly what the compensated-summation recurrence prescribes, whatever rounding the machine applies. Conversions to the plain scalar return the principal value.',
  HIST, 'all operand values and addition histories, with addition and subtraction as arbitrary functions',
  'Tests sum fixed random sequences.',
  ['src/kahan-number.hpp'],
  [('Kahan, Neumaier, Klein operators', 'src/kahan-number.hpp')])
P('P21', 'A simulation runs until its stop condition and calls back in order',
  'Running a simulation calls the start operations once before the first step, each registered step operation in registration order once before every step and once more at the end, and the stop operations once at the end. Before every step the end time and the stop conditions are looked at; the run goes on exactly while the end time is not reached within the relative time tolerance and no stop condition holds. Every step is the size the iterator proposed last, cut so that it does not pass the end time, and the requested tolerances reach the iterator.',
  ['inputs', 'histories', 'configurations'], 'all step sequences, stop conditions and callback registrations',
  T_SMOKE + 'callback order and final time are not asserted.',
  ['src/simulator.hpp'],
  [('run', 'src/simulator.hpp')])
P('P22', 'Callback slicing fires on the configured schedule',
  'Step slices fire on every n-th call, time slices fire when time has reached the next scheduled instant and then schedule the following one, and logarithmic slices space instants geometrically; outside the configured interval they do nothing. The wrapped operation receives the particle data unchanged.',
  HIST, 'all call sequences and schedule parameters',
  'No test exercises callbacks.',
  ['src/args-callback/callbacks.hpp'],
  [('TimeSlice, LogTimeSlice, StepSlice', 'src/args-callback/callbacks.hpp')])
P('P23', 'Three-vector algebra equals component-wise real algebra',
  'Vector addition, subtraction, scaling, dot, cross, norms, distances and comparison equal their component definitions for every vector and scalar, and compound assignment equals the corresponding binary operation.',
  IN, 'all component values',
  'Tests use random samples.',
  ['src/vector/vector3.hpp'],
  [('operators', 'src/vector/vector3.hpp')])
P('P24', 'Array kernels apply their operation to every element exactly once',
  'The array kernels (fill, scale, add, advance, copy, dot and dot-norm reductions, flatten and restore) equal their element-wise definition for every array length, including zero, and change no other array.',
  IN, 'all lengths and contents',
  T_SAMPLES + 'array kernels are not tested.',
  ['src/core-computation.hpp'],
  [('array_*, coord_*', 'src/core-computation.hpp')])
P('P25', 'Numeric helpers are exact on their whole domain',
  'Minimum, maximum, absolute value, in-range and step functions equal their mathematical definition for every argument list, polynomial and power helpers equal repeated multiplication, and the bisection root finder returns a point inside the given interval next to which the function changes sign within its stated tolerance.',
  IN, 'all arguments',
  'Tests sample a few random arguments.',
  ['src/math.hpp'],
  [('math helpers', 'src/math.hpp')])
P('P26', 'Scattering set-up places the incoming particle on the stated orbit',
  'The critical velocity cancels the inner energies of the two clusters, the largest impact parameter belongs to the orbit whose pericentre is the given distance, and the tidal radius is the distance at which one body has the requested tidal factor. A hyperbolic or randomly generated incident orbit has exactly the requested velocity at infinity, impact parameter, starting distance and side of the pericentre, also after conversion to positions and velocities, and random impact parameters are uniform in the area of the circle of the largest impact parameter.',
  IN, 'all masses, velocities, sizes, distances and random draws in the documented domain, and clusters of any size',
  'No test covers the scattering module.',
  ['src/scattering/cross-section.hpp', 'src/orbits/orbits.hpp', 'src/orbits/particle-manip.hpp'],
  [('critical_vel, b_max, hard_radius, incident_orbit', 'src/scattering/cross-section.hpp'), ('Hyperbolic, Elliptic, tidal_radius, tidal_factor', 'src/orbits/orbits.hpp')])
P('P27', 'Physical constants and units are mutually consistent',
  'All unit constants are positive and mutually consistent: G = 1 in code units, derived units equal the products of their base units, and the speed of light and composite constants agree with their SI definitions to the stated precision.',
  ['configurations'], 'all constants',
  'No test covers units.',
  ['src/macros.hpp'],
  [('unit and consts namespaces', 'src/macros.hpp')])
P('P28', 'Parallel scheduling never changes results',
  'Work submitted to the thread pool and multi-thread helpers runs exactly once and its results do not depend on scheduling.',
  ['schedules'], 'all schedules',
  'Tests run on whatever schedule occurs.',
  ['src/multi-thread/multi-thread.hpp', 'src/multi-thread/thread-pool.hpp'],
  [('thread pool', 'src/multi-thread/')],
  na='needs concurrent separation logic for std::thread, mutexes and condition variables; no deductive verifier for concurrent C++ is installed and our VC generator is sequential')
P('P29', 'Random samplers map their draws to the named distribution',
  'Given ideal uniform and standard normal draws, every sampler returns the value of the distribution it is named after: uniform, logarithmic and power-law values are the inverse of their cumulative distribution inside the given range, normal values are mean plus sigma times the draw, Maxwellian values the norm of three normal components. Truncated and bounded samplers return the first draw of the untruncated distribution that lies inside the range, never a clamped or shifted value.',
  ['inputs', 'histories'], 'all parameters, all sequences of draws and any number of rejections',
  'Tests cannot settle a distribution from samples, and rejection loops depend on the whole draw history.',
  ['src/rand-generator.hpp'],
  [('Uniform, Logarithm, PowerLaw, Normal, Maxwellian, TruncatedNormal, TruncatedMaxwellian, Normal2, Parameter', 'src/rand-generator.hpp')],
  note='The standard library engines and distributions are assumed (arbitrary draws in their range).')
