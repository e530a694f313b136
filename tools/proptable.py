"""The properties: source of properties.jsonl and MANIFEST.json"""
SUITE = ('The runnable tests look only at how unit systems and logarithmic grids scale with the momentum cutoff, on a few '
         'sampled sizes; ')
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, forall, why, files, mech, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=SUITE + why,
                      files=files, mech=mech, observe=list(observe)))


DS = 'interactions/four_particle/cpp/Ds.cpp'
I4 = 'interactions/four_particle/cpp/integral.cpp'
I3 = 'interactions/three_particle/cpp/integral.cpp'

prop('P01', 'Analytic angular integrals equal the integrals that define them',
     'The closed forms D1, D2 and D3 that replace the integral over all directions of four momenta equal their defining integrals '
     '(4/pi times the integral over x of 1/x^2 times products of sin(q x) and q cos(q x) - sin(q x)/x) for every four '
     'momenta, in any order and whichever of them is largest. This includes the surfaces where one momentum equals the sum of others, '
     'and combinations forbidden by momentum conservation, for which the result is zero.',
     ['inputs'], 'all momenta q1..q4 >= 0', 'the case analysis over momentum orderings has many branches, each a set of measure '
     'zero to a hand-picked sample; the D-function tests need compiled modules and compare single points.',
     [DS], [('D1, D2, D3: sorting and piecewise polynomials', DS)], ['interactions.four_particle.cpp.integral.D1/D2/D3'])
prop('P02', 'Four-particle kernel is the direction-integrated squared amplitude',
     'The four-particle kernel is K1 (pi.pj)(pk.pl) + K2 mi mj (pk.pl) integrated over directions, for every order (i,j,k,l) of '
     'the particles, every assignment of particles to the two sides and every coupling, and does not depend on how '
     'the particles are listed. For a particle at rest the dedicated kernel equals the limit of the general one divided by momentum and energy.',
     ['inputs', 'configurations'], 'all momenta, energies, masses, couplings, orders and side assignments',
     'no test evaluates the kernel for more than one momentum set or order.',
     [DS], [('D, Db', DS)], ['interactions.four_particle.cpp.integral.D/Db'])
prop('P03', 'Collision terms have quantum gain and loss factors and vanish in equilibrium',
     'The integrand of a three- or four-particle collision integral is the kernel times gain minus loss: f for every particle that '
     'is consumed and 1 - eta f (Pauli blocking, Bose enhancement) for every particle that is produced. The parts of it selected by the '
     'kind of integral (constant and linear part in f of the first particle, gain only, loss only, vacuum decay) recombine to the full '
     'term, and for species in equilibrium at one temperature the full term is zero.',
     ['inputs', 'configurations'], 'all occupation numbers, statistics, side assignments, kinds of integral, temperatures',
     'no test evaluates the integrand for any kind but the default.',
     [I4, I3], [('integrand_full, F_A, F_B, F_1, F_f, F_creation, F_decay, vacuum decay', I4), ('integrand_full, F_A, F_B, F_1, F_f, F_creation, F_decay, vacuum decay', I3)])
prop('P07', 'Distribution functions are interpolated exactly and within bounds',
     'Between grid momenta an occupation number is interpolated so that thermal distributions are reproduced exactly, grid '
     'values are returned unchanged, and every value lies between its two neighbouring grid values; above the grid the last value falls with the '
     'Boltzmann factor and next to an empty grid point the result is zero. The four-particle, three-particle and Python '
     'implementations return the same value, and a particle in equilibrium always returns its thermal occupation.',
     ['inputs'], 'all increasing grids, tables of occupation numbers, momenta, masses, temperatures, both statistics',
     'an interpolation error shows only between grid points or at an end; the interpolation test needs compiled modules.',
     [I4, I3, 'common/__init__.py', 'particles/__init__.py'],
     [('binary_find, distribution_interpolation', I4), ('binary_find, distribution_interpolation', I3),
      ('interp, binary_find', 'common/__init__.py'), ('DistributionParticle.distribution', 'particles/__init__.py')])
prop('P08', 'Tabulated functions are interpolated between neighbouring points',
     'Linear and cubic interpolation of a table return the table values at the table points, lie on the straight line '
     '(or the Catmull-Rom cubic for inner intervals) through the neighbouring points between them, and use the last value beyond the table.',
     ['inputs'], 'all strictly increasing tables of 2..6 points (12 in the thorough tier), all values, all arguments',
     'no test calls these interpolators.',
     ['common/__init__.py'], [('linear_interpolation, cubic_interpolation', 'common/__init__.py')])
prop('P09', 'Time-stepping schemes are exact to their order',
     'With a history of k derivatives the Adams-Bashforth and Adams-Moulton steps advance every polynomial solution of their order '
     'exactly (up to order 5, using only the latest entries), Euler, Heun and implicit Euler are the textbook steps, and '
     'implicit steps solve y1 = y + h(... + A + B y1) and leave stationary states alone. Arrays are stepped element by element.',
     ['inputs', 'histories'], 'all histories of 0..8 derivatives, step sizes, right-hand sides A + B y, arrays',
     'no test calls an integrator with more than a fixed right-hand side.',
     ['common/integrators/__init__.py'], [('euler_correction, heun_correction, implicit_euler, adams_bashforth_correction, adams_moulton_solver', 'common/integrators/__init__.py')])
prop('P12', 'Expansion follows the Friedmann equation consistently',
     'After every update of the cosmological state the Hubble rate satisfies the Friedmann equation for the given density, the '
     'scale factor follows the integration variable, temperature is aT / a, and time advances by da/(aH) and never runs '
     'backwards; N_eff is the non-photon density in units of one neutrino species. Logarithmic and linear stepping keep their step constant, '
     'and the entropic degrees of freedom count exactly the relativistic equilibrium species (7/8 for fermions).',
     ['histories', 'inputs', 'configurations'], 'all initial conditions, densities, temperature histories, both stepping modes',
     'no test evolves the cosmological state.',
     ['common/__init__.py'], [('Params', 'common/__init__.py')])
prop('P13', 'Momentum grids cover zero to the cutoff in increasing order',
     'A momentum grid has the requested (or configured) number of points, starts at zero, ends at the cutoff and increases strictly; the linear grid is '
     'equally spaced, the spacings of the logarithmic grid grow by a constant factor above one, and a heuristic grid ends at the final scale factor times mass plus thermal spread.',
     ['inputs', 'configurations'], 'all cutoffs; grid sizes 2..12, 51 and 401; masses and lifetimes of the heuristic grid',
     'they never check monotonicity or the ends for other cutoffs, sizes or grid types.',
     ['common/__init__.py'], [('LinearSpacedGrid, LogSpacedGrid, HeuristicGrid', 'common/__init__.py')])
prop('P04', 'Four-particle integrals cover all momenta that conserve energy and momentum',
     'For decays 1 -> 3, scatterings 2 -> 2 and inverse decays 3 -> 1 the integration bounds of a four-particle collision integral contain every pair '
     'of momenta of the second and third particle for which energy and momentum can be conserved (up to the cutoff of the grids), whatever the masses and '
     'the momentum of the first particle, also when it is at rest; and the bounds are non-negative momenta.',
     ['inputs', 'configurations'], 'all masses and momenta (particles at rest: listed mass patterns), all three kinds of reaction',
     'a bound that is too tight for some masses only lowers a rate slightly; no test evaluates an integral.',
     [I4], [('p2_max_dec, p2_min_scat, p2_max_scat, integrand_2nd_integration, integration', I4)])
prop('P05', 'Three-particle integrals cover exactly the momenta two-body kinematics allows',
     'For a decay a -> b c the integration range of a three-particle collision integral contains the momentum of b for every decay angle, for an inverse decay '
     'b c -> a it contains every momentum of c with which some direction conserves energy and momentum (a being below its cutoff); for a at rest '
     'the products have the two-body momentum. The ranges of decays, and the lower limits of inverse decays, are exact: their ends are reached by an angle.',
     ['inputs', 'configurations'], 'all momenta, angles, cutoffs; all masses for decays, listed mass ratios for inverse decays with massive products',
     'a wrong bound shows for some mass ratios or boosts only.',
     [I3], [('p1_bounds_1..4, integration_3', I3)])
prop('P06', 'The collision integral of a momentum does not depend on the other momenta',
     'The value a three- or four-particle collision integral returns for a momentum is the same whether it is asked for alone or in a list with others, in any order, '
     'with zero and repeated momenta: integration bounds and results are not carried from one momentum to another.',
     ['inputs', 'configurations'], 'all lists of up to three momenta, all cutoffs and temperatures, decays, scatterings and inverse decays',
     'state carried over shows only for particular sequences of momenta.',
     [I4, I3], [('integration', I4), ('integration_3', I3)])
prop('P10', 'Momentum quadratures integrate to their order on any interval',
     'Gauss-Legendre quadrature of the configured order integrates every polynomial up to its degree exactly on any finite interval (empty and reversed intervals included) '
     'and in two dimensions with inner bounds that depend on the outer variable; the paired variants agree with the single ones; Gauss-Laguerre does the same for '
     'polynomials times exp(-x) and the paired Simpson rule for cubics.',
     ['inputs', 'configurations'], 'all coefficients and bounds, orders 2..5, 12 and 100',
     'no test integrates a polynomial on a shifted interval.',
     ['common/integrators/__init__.py', 'common/integrators/gauss_legendre.py', 'common/integrators/gauss_laguerre.py', 'common/integrators/paired.py'],
     [('integrate_1D, integrate_2D, gaussian, double_gaussian, remap_interval', 'common/integrators/__init__.py'), ('paired integrals', 'common/integrators/paired.py')])
prop('P11', 'Distribution functions follow the collision terms',
     'For a decoupled particle the distribution changes by step times collision term and never becomes negative, undefined terms count as zero, and both are recorded once '
     'per step; in equilibrium nothing changes. The collision term solves the implicit Adams-Moulton relation with the sum of all active integrals (slope plus damping), of the order the '
     'history allows; pure gain terms add to the slope and pure loss terms never gain. A massive particle diluted below the threshold counts as decayed, is emptied and does not collide.',
     ['inputs', 'histories', 'configurations'], 'all occupation numbers, collision terms, steps, histories of 0..6 steps, 1..3 integrals of every kind',
     'no test evolves a distribution.',
     ['particles/__init__.py', 'common/integrators/__init__.py', 'common/kinematics.py'],
     [('update_distribution, calculate_collision_integral, integrate_collisions', 'particles/__init__.py'), ('adams_moulton_solver', 'common/integrators/__init__.py'),
      ('has_decayed', 'common/kinematics.py')])
prop('P14', 'Species switch regime and decouple at the right temperatures',
     'A thermal species is in equilibrium exactly while its temperature exceeds its decoupling temperature, and then counts as radiation (T > mass times the switching factor), '
     'dust (T times the factor < mass) or intermediate; a decoupled or never-thermal one uses its own distribution. In equilibrium the distribution at every momentum is '
     'Fermi-Dirac or Bose-Einstein at the plasma temperature; at decoupling the last thermal distribution and aT are frozen, and a species that never was thermal starts empty.',
     ['histories', 'inputs', 'configurations'], 'all temperatures, masses, decoupling temperatures, scale factors; sequences of three updates',
     'the two tests never update a particle.',
     ['particles/__init__.py', 'common/statistics.py', 'common/kinematics.py'],
     [('regime, in_equilibrium, update, init_distribution', 'particles/__init__.py'), ('equilibrium distributions', 'common/statistics.py')])
prop('P15', 'Thermodynamics follows from the distribution in every regime',
     'Number density, energy density, pressure and entropy of a species, and its terms of the temperature equation, are those of its distribution: Stefan-Boltzmann laws for radiation, '
     'the non-relativistic formulas for dust, the integrals of the Bose or Fermi distribution in between, and the integrals of the stored distribution when decoupled. Every variant '
     'is proportional to the degrees of freedom, scales with the right power of the scale factor, and an empty species contributes nothing.',
     ['inputs', 'configurations'], 'all masses, temperatures, scale factors, degrees of freedom, occupation numbers and collision terms, every regime and quadrature variant',
     'no test computes a density.',
     ['particles/RadiationParticle.py', 'particles/DustParticle.py', 'particles/IntermediateParticle.py', 'particles/NonEqParticle.py', 'particles/__init__.py'],
     [('density, energy_density, pressure, entropy, numerator, denominator', 'particles/*.py')])
prop('P16', 'Each step advances the temperature by the energy balance of all species',
     'The derivative of aT in a step is the sum of the heating terms of all species over the sum of their heat capacities; aT advances by the Adams-Bashforth (or Euler) formula of the known '
     'derivatives, the integration variable by one step, and totals are sums over species. Within a step all species are updated, then interactions initialised, then all collision '
     'terms computed before any distribution changes. Evolution stops at the final temperature with one record per step.',
     ['histories', 'inputs', 'configurations'], 'all heating terms and heat capacities of 1..3 species, histories of 1..7 records, every subset of colliding species, both stepping modes',
     'no test makes a step.',
     ['evolution.py'], [('make_step, integrand, update_particles, calculate_collisions, update_distributions, calculate_temperature_terms, evolve', 'evolution.py')])
prop('P17', 'Oscillations redistribute neutrinos without creating any',
     'The oscillation probabilities of the flavours form a symmetric doubly stochastic matrix for every matter potential, reduce to the vacuum ones without matter and to no mixing in dense matter. '
     'The matter potentials grow as momentum squared times T^4 at every momentum, with the sign of the hierarchy. Once a flavour has decoupled, and only then, the collision terms of the flavours are '
     'mixed with them, momentum by momentum, so that their sum is conserved and other species are unaffected.',
     ['inputs', 'configurations'], 'all matter potentials, temperatures, scale factors and collision terms; both hierarchies',
     'no test uses oscillations; a wrong entry of the matrix shows only in the details of the spectra.',
     ['library/SM.py', 'evolution.py'], [('oscillations_map', 'library/SM.py'), ('oscillation_parameters, init_oscillations, update_distributions', 'evolution.py')])
prop('P18', 'An interaction contributes every possible crossing exactly once',
     'From one reaction the program generates, for every particle that can evolve, each way to place the other particles on either side: particles that change sides become antiparticles '
     '(Majorana ones do not), every conserved charge stays conserved, the first particle is never an antiparticle, decays and creations that masses forbid are left out and no others, and nothing is '
     'counted twice. There is then one integral for each particle and set of species, of the requested kind.',
     ['inputs', 'configurations'], 'all masses, charges and particle/antiparticle assignments; 2->2, 1->3, 3->1, 1->2, 2->1 with distinct, repeated and Majorana species',
     'no test builds an interaction; a missing or doubled crossing changes rates by a factor only.',
     ['interactions/__init__.py'], [('CrossGeneratingInteraction', 'interactions/__init__.py'), ('IntegralDeduplicator', 'interactions/__init__.py')])
prop('P19', 'Matrix elements obey crossing symmetry and no term is lost in merging',
     'The squared amplitude of an integral, as a function of masses and scalar products of momenta, is the sum over the crossings it stands for of the amplitude with crossed momenta: scalar products follow the '
     'particles to their new places, mass terms change sign if exactly one of their particles crossed, and merging integrals or elements of the same species keeps every term. Elements add and scale term by term; '
     'weak and sterile ones carry 32 G_F^2 (theta^2).',
     ['inputs', 'configurations'], 'all coefficients, masses and scalar products; one to six elements of any order of momenta; all particle patterns',
     'no test evaluates a matrix element.',
     ['interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py', 'interactions/__init__.py', 'library/SM.py', 'library/NuMSM.py'],
     [('FourParticleM.apply_order, stackable', 'interactions/four_particle/__init__.py'), ('IntegralDeduplicator.append', 'interactions/__init__.py')])
prop('P20', 'Kinematic cutoffs keep every momentum that can react',
     'Momenta left out of a collision term because kinematics is said to forbid them really cannot react: the bounds on the products of (boosted) two-body decays and on the particles that can create a heavier one enclose '
     'every kinematically allowed momentum, and the parts set to zero and the part computed make up the grid. The estimate of decoupling temperatures balances interaction and expansion rates. '
     'Thinning out fine grids keeps the ends and an increasing selection of the grid momenta, and leaves coarse grids alone.',
     ['inputs', 'configurations'], 'all momenta, decay angles, cutoffs, scale factors; grids of 2..6 momenta of any spacing',
     'no test calls a cutoff; a wrong one drops part of the spectrum silently.',
     ['common/kinematics.py'],
     [('cm_momentum, three_particle_bounds_creation, grid_cutoff_3p, four_particle_bounds_creation, grid_cutoff_4p, interpolation_4p, decoupling_temperature', 'common/kinematics.py')])
prop('P29', 'Collision terms are the Boltzmann integrals in physical units',
     'The collision term at every momentum of the grid is the integral of the C++ module, evaluated with the species, sides, temperatures (in units of aT) and matrix elements of the reaction, times '
     '(aT/a)^5 / (64 pi^3 H g) for four particles and |M|^2 a / (32 pi aT H g) for three (at rest |M|^2 aT / (8 pi a m^2 H g), zero for massless ones), g being the spin degrees of freedom (dof for Majorana, dof/2 otherwise), '
     'and divided by x in linear stepping. Loss-only terms are multiplied by the occupation number; full ones give slope = gain + f times damping and damping. Creations (other than those of '
     'heavy Dirac neutrinos) count every evolving particle consumed. Only decoupled particles get the integral.',
     ['inputs', 'configurations'], 'all scale factors, temperatures, expansion rates, couplings and degrees of freedom; every kind of integral, decays, creations, scatterings',
     'no test computes a collision integral.',
     ['interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py', 'common/kinematics.py'],
     [('FourParticleIntegral.integrate', 'interactions/four_particle/__init__.py'), ('ThreeParticleIntegral.integrate', 'interactions/three_particle/__init__.py')])
prop('P21', 'Only reactions without effect are left out',
     'A collision term is skipped (and is then zero, in the shape its kind asks for) only where it cannot matter: scatterings when a species on each side has diluted below 1e-10 (a_ini/10)^3 of its initial density, creations whose parent has '
     'decayed, reactions of short-lived particles none of which were created yet, scatterings of heavy Dirac sterile neutrinos below 1 MeV (or, if they decouple relativistically, below m/(15 a_ini)) and their decays while T exceeds their mass, and two-body decays '
     'of massless particles. Everything else is computed. Particles that are gone or do not react have a zero collision term.',
     ['inputs', 'configurations'], 'all densities, temperatures, masses and scale factors; decays, creations, scatterings; every kind of integral; with and without heavy neutrinos and short-lived particles',
     'no test reaches these shortcuts; one that is too greedy silently removes physics from a narrow range of temperatures.',
     ['common/kinematics.py', 'interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py', 'particles/__init__.py'],
     [('Neglect3pInteraction, Neglect4pInteraction, return_function', 'common/kinematics.py'), ('calculate_collision_integral', 'particles/__init__.py')])
prop('P22', 'Neutron-proton conversion rates follow the evolved spectra',
     'Each of the six weak rates handed to nucleosynthesis is the phase-space integral of its process over the neutrino momenta it can have, with the occupation of every incoming light particle and the blocking factor of every outgoing one taken from '
     'the evolved spectra at the momenta of energy conservation, in units that make a free neutron decay at rate one. Without phase space or particles the rate is zero; at a common temperature inverse rates differ by exp(-Q/T).',
     ['inputs'], 'all scale factors, grid ranges, electron and neutrino spectra', 'no test calls the rates; an exchanged blocking factor changes helium by percents only.',
     ['kawano.py'], [('baryonic_rates, init_kawano', 'kawano.py')])
prop('P23', 'Records for nucleosynthesis describe the state of the Universe',
     'Every step appends one record that holds the state after the step (aT, T, a, x, t, rho, N_eff, S, fraction); below 10 MeV, and only then, a row with t, x, T, dT/dt, rho, H and the six rates is appended and written in the units of the '
     'heading, with or without an output folder and in both stepping modes. The semi-analytic estimates remember the first state in which neutrons decouple and the first below 0.065 MeV and combine them into time, n/p ratio and helium fraction.',
     ['inputs', 'histories'], 'all states, rates and derivatives; logarithmic and linear stepping; one to three records', 'no test runs an evolution.',
     ['evolution.py', 'common/utils.py', 'kawano.py', 'semianalytic.py'],
     [('save, save_params', 'evolution.py'), ('DynamicRecArray.append, row_repr', 'common/utils.py'), ('step_monitor', 'semianalytic.py')])
prop('P27', 'Short-lived particles decay into as many products as were created',
     'A particle that decays faster than a time step loses, through each channel, its branching ratio of the particles created in the step, with the momentum dependence of the decay rate; if the ratios add up to one nothing is left. Its products appear '
     'in the number given by the branching ratio (all of several identical ones, none for antiparticles, which are accounted for by the conjugate decay), with the spectrum of the creation integral. Thermalised ones have the Maxwell-Boltzmann distribution of their number before they decay; thermal relics '
     'decay exponentially with their lifetime; others do not outlive the step.',
     ['inputs', 'configurations'], 'all creation and decay terms, branching ratios, steps, degrees of freedom, masses; one to three channels; two- and three-body decays',
     'no test contains a short-lived particle; lost products change energy densities slightly.',
     ['common/kinematics.py', 'particles/__init__.py', 'interactions/three_particle/__init__.py', 'interactions/four_particle/__init__.py'],
     [('Icoll_fast_decay, scaling', 'common/kinematics.py'), ('integrate_collisions, update_distribution', 'particles/__init__.py')])
prop('P30', 'Reactions of the library have the rates of the weak interactions',
     'Given lists of neutrinos, charged leptons, quarks and mesons, the library lists every reaction of theirs that is kinematically possible, once for each species whose particles take part, and none other. The squared matrix elements of '
     'a listed reaction (with the multiplier of its collision term) add up to those of the Fermi theory, summed over spins, colours, particles and antiparticles, with 1/n! for identical particles: couplings of left- and right-handed currents by flavour and charge, '
     'CKM elements, mixing angles of the sterile neutrino by flavour, 32 G_F^2; two-body decays into mesons have the rate given by the decay constant, masses and mixing. Exceptions: scatterings of muons and taus, and charged '
     'currents with the sterile neutrino and the lepton that does not mix on one side, are left out; photons are always in equilibrium.',
     ['inputs', 'configurations'], 'all mixing angles (zero or not), masses of a Dirac sterile neutrino, decay constants, momenta on the mass shell; one to three flavours, pairs of quarks, all mesons',
     'no test compares a library reaction with theory; a wrong coupling or a missing reaction changes abundances by some per cent.',
     ['library/SM.py', 'library/NuMSM.py', 'interactions/__init__.py', 'common/kinematics.py'],
     [('interactions (Standard Model)', 'library/SM.py'), ('interactions (sterile neutrinos)', 'library/NuMSM.py')])
prop('P31', 'Chains of decays are complete and conserve charge and numbers of particles',
     'For any mesons created directly, listed in any order, the library lists the decays of these and of all unstable products, each exactly once for every charge state, for every product a creation term; each decay has one branching ratio, '
     'each branching ratio a decay, and those of a meson add up to at most one. Charge is conserved. As many particles of each species are created as the branching ratios say for the parents that decay. Creations and decays in chains are '
     'pure gains and losses (of the requested kind); muons decay unless their decay is given otherwise.',
     ['inputs', 'configurations'], 'all branching ratios; one to three mesons in any order; all mesons of the library',
     'no test contains a decay chain; a lost or doubled product changes neutrino spectra slightly.',
     ['library/SM.py', 'library/NuMSM.py'],
     [('meson_interactions', 'library/SM.py'), ('interactions_decay_products', 'library/NuMSM.py')])
prop('P24', 'Tables keep every record that was added, in order, as it was',
     'The tables of the evolution, of nuclear data, of densities, distributions and collision terms of the species behave like lists of rows: after any sequence of additions (one or many, as names with values or as tuples) '
     'and removals of the last record, they have as many records as are left, columns and rows contain exactly the values that were added, in order, records are found by index from both ends, tables do not share storage, '
     'and the text and the files written from them have a heading and every record in the units of the columns.',
     ['inputs', 'histories'], 'arbitrary values; up to 40 records (several enlargements of the storage) with removals between; one to three columns',
     'no test uses a table; a slip at an enlargement shows only in runs longer than the first block.',
     ['common/utils.py'], [('DynamicRecArray, Dynamic2DArray', 'common/utils.py')])
prop('P25', 'Settings mean what their text says, and missing steps are refused',
     'Settings that are on or off are switched off by an empty text, false, f, 0 or -1 in any capitalisation, and on by any other text of the environment variable of their name; numeric settings take the number that was given, with the type '
     'of their default; without a variable they have the documented default. Initial conditions are inferred from the temperature, the reference mass and the step of the kind of stepping in use; without such a step they are refused.',
     ['inputs', 'configurations'], 'all texts of up to 6 printable ASCII characters; listed numbers; all temperatures, masses and steps',
     'no test overrides a setting; an inverted one changes every result.',
     ['environment.py', 'common/__init__.py'], [('get', 'environment.py'), ('Params.__init__, infer', 'common/__init__.py')])
prop('P28', 'Universes are independent and made of the species and reactions they were given',
     'The history of a Universe does not depend on other Universes evolved in the same process, and a new one is empty. Species added to a Universe follow its state, are all there once, ordered from the heaviest to the lightest; they share neither records nor '
     'distributions nor collision terms, and records do not change afterwards. Filters remove the species and reactions asked for and nothing else. At the QCD transition quarks and gluons and their reactions are replaced by hadrons and theirs, the expansion '
     'does not jump, and the relativistic degrees of freedom in equilibrium (fermions with 7/8) times (aT)^3 of the last record kept is conserved.',
     ['inputs', 'histories', 'configurations'], 'arbitrary heating terms, densities, masses, degrees of freedom; two Universes advanced in any order; up to four species and seven reactions',
     'no test makes two Universes or a transition; shared state shows up only with a second one.',
     ['evolution.py', 'common/utils.py', 'common/__init__.py', 'particles/__init__.py'],
     [('Universe.__init__, add_particles, QCD_transition', 'evolution.py'), ('particle_orderer, particle_filter, interaction_filter', 'common/utils.py'), ('Params.entropic_dof_eq', 'common/__init__.py')])
PROPS.sort(key=lambda p: p['id'])
