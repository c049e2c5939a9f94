# Properties, checks and manifest data.  tools/gen.py writes properties.jsonl and MANIFEST.json from here.
COMMON_ASSUMPTIONS = [
    'every random answer of the standard library (uniform/normal/integer draws, shuffles, raw engine output) is replaced by an enumerated menu; values between menu entries are not explored',
    'HeuristicFlow headers are compiled unmodified from the working tree of /repo with assertions on',
]
G = 'HeuristicFlow/src/Genetic/'
def mech(*a): return [{'name': n, 'where': w} for n, w in a]
PROPS = []
CHECKS = {}
def prop(id, title, statement, over, quant, why, files, mechanism, units, technique, note, bounds, level='model_checking', assumptions=(), observe=(), known=None):
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant},
                  'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': mechanism, 'observe_at': list(observe), 'hook_needed': None}})
    CHECKS[id] = {'units': units, 'technique': technique, 'note': note, 'bounds': bounds, 'level': level, 'assumptions': list(assumptions)}

def soga(ranks=4):
    return [{'name': 'soga_min', 'src': 'soga.cpp', 'flags': ['-DFOPT=FITNESS_LESS_BETTER'], 'ranks': ranks},
            {'name': 'soga_max', 'src': 'soga.cpp', 'flags': ['-DFOPT=FITNESS_GREATER_BETTER'], 'ranks': ranks}]

prop('A01', 'Single-objective selection keeps exactly populationSize unmodified members',
     'Whenever a single-objective genetic solver selects from a population larger than the configured size, exactly populationSize individuals remain, each an unmodified member (variable and fitness) of the population before selection, and none is duplicated unless the method is tournament selection. Selection terminates and touches no erased individual, for every one of the ten methods, compile-time or run-time selected, both optimisation directions, and every finite fitness assignment including ties and widely different magnitudes.',
     ['inputs', 'histories', 'configurations'],
     'all ten methods x min/max x compile-/run-time method x every fitness table over 3 levels (5 magnitude scales) x every sequence of random answers (5 quantiles incl. both ends, all permutations) within the deviation bound, populations 2..10, 1-3 successive selections',
     'The tests run each problem once with one random stream and check nothing; ties, rounding at the end of the wheel and rejected draws are never reached on purpose.',
     [G + 'SOGASelecters.hpp', G + 'SOGA.hpp', G + 'GABase.hpp'], mech(('selection operators', G + 'SOGASelecters.hpp')),
     soga(), 'stateless exhaustive exploration of the real solver over all random answers (deviation bounded)',
     'Exhaustive within the stated bounds on the real code under ASan/UBSan; random answers are quantile menus.',
     'N<=8 (thorough 10), K<=4 (5), 3 fitness levels, <=4 deviations from the default answer per selection (wheel methods complete), <=2 (3) for tournament')
prop('A02', 'Each selection method selects as documented',
     'Truncation keeps the populationSize best; elite-reserved keeps its configured number of best; every tournament survivor is at least as good as tournamentSize-1 other members; Monte Carlo keeps every subset with equal probability. Roulette wheel, linear rank, exponential rank, Boltzmann, probability and stochastic universal selection keep an individual with exactly the documented probability, and tournament selection wins as often as uniformly drawn tournaments give. Choosing a method at run time behaves like choosing it at compile time.',
     ['inputs', 'configurations'],
     'all methods and their parameters, both directions, all fitness tables over 3 levels, all answers; the probabilities are computed by enumerating all equally likely answer sequences (up to 400 quantiles per draw)',
     'A wrong sign, an off-by-one in the elite count or an unnormalised wheel still converges on the easy test problems; the tests check no result at all.',
     [G + 'SOGASelecters.hpp', 'HeuristicFlow/src/Global/Enumerations.hpp'], mech(('selection operators', G + 'SOGASelecters.hpp'), ('documented laws', 'HeuristicFlow/src/Global/Enumerations.hpp')),
     soga(), 'stateless exhaustive exploration; exact outcome distribution from enumerated equiprobable draws',
     'Selection guarantees checked on every enumerated execution; probabilities exact up to the quantile resolution (tolerance stated per law).',
     'K<=2 (3) picks with 64-400 quantiles each for the probability laws; N<=5; deterministic guarantees as A01')
prop('A03', 'Single-objective solvers track the best individual and the fail counter exactly',
     'After every selection the reported best fitness and result are those of a best member of the surviving population and equal the newest record entry. The fail counter is the number of consecutive generations whose best was not strictly better than the previous one, the run stops in the first generation in which that exceeds a nonzero limit (or at the generation limit), and with truncation or elite-reserved selection the recorded best never worsens.',
     ['inputs', 'histories', 'configurations'],
     'all methods, both directions, every history of offspring fitness values over 3 levels (deviation bounded) for up to 10 generations, plus every selection outcome of the A01 space',
     'No test looks at record(), failTimes() or result(); the interesting histories (best individual lost by a stochastic method, ties with the previous best) need a particular order of fitness values.',
     [G + 'SOGA.hpp', G + 'SOGASelecters.hpp', G + 'GABase.hpp'], mech(('best tracking', G + 'SOGA.hpp'), ('termination loop', G + 'GABase.hpp')),
     soga(), 'stateless exhaustive exploration of fitness histories and selection answers on the real solver',
     'Exhaustive within bounds on the real code; reference recomputed from the recorded history.',
     'K<=4, <=10 generations, <=3..5 individuals deviating from the middle fitness level (complete for the smallest), 3 (5) answer quantiles')

def moga(parts, serial):
    u = [{'name': 'moga_%d' % p, 'src': 'moga.cpp', 'flags': ['-fopenmp', '-DPART=%d' % p], 'ranks': 4} for p in parts]
    return u + [{'name': 'moga_serial_%d' % p, 'src': 'moga.cpp', 'flags': ['-DPART=%d' % p, '-DSMALL'], 'ranks': 2} for p in serial]
MO = [G + 'MOGABase.hpp', G + 'MOGAAbstract.hpp', G + 'NSGABase.hpp', G + 'NSGA2.hpp']
prop('B01', 'The reported Pareto front is exactly the non-dominated part of the population',
     'After every generation of NSGA2 and NSGA3 the reported Pareto front consists of live members of the current population and contains exactly those that no other member dominates, whatever ties, duplicates or constant objectives occur. paretoFront() returns exactly their objective vectors and decision variables, and bestFitness() and the newest record entry are the component-wise best of the population.',
     ['inputs', 'histories', 'configurations'],
     'every objective table over 2-3 levels and every ordering of distinct values for populations of 2-8, fixed 2/3 and run-time number of objectives, minimising and maximising NSGA2, single/double layer NSGA3, every random answer within the deviation bound, compiled with and without OpenMP',
     'The tests print front sizes at most; a front with a dominated, missing or stale member is still drawn as a plausible curve.',
     MO + [G + 'NSGA3.hpp', G + 'NSGA3Abstract.hpp'], mech(('non-dominated sorting', G + 'NSGABase.hpp'), ('front accessors', G + 'MOGAAbstract.hpp')),
     moga([1, 2, 4, 8, 32], [2, 8]), 'stateless exhaustive exploration of the real solvers over objective tables and random answers',
     'Front recomputed from the definition on every explored execution of the real code under ASan/UBSan.',
     'N<=7 (8), 2-4 objectives, tables over 2-3 levels or all orders of distinct values, <=2 (4) deviations for NSGA3 draws')
prop('B02', 'NSGA2 survival selection follows non-dominated sorting and crowding',
     'NSGA2 reduces a larger population to exactly populationSize unaltered, distinct members: an individual is never preferred to one that fewer members dominate, and among equals in the last admitted layer the members with the largest crowding distance survive, extremes of every objective first. This holds for every finite objective assignment, with ties resolved in any order, minimising or maximising, for any compile-time or run-time number of objectives.',
     ['inputs', 'histories', 'configurations'],
     'every objective table over 2-3 levels and every ordering of distinct values for populations of 2-8 (2-4 objectives); survivor set must be one that some order of tied members allows; runs of 2-3 generations (one or two calls of run) in which every selection is judged from the members it started from',
     'One random problem per test; a wrong crowding neighbour or a swapped comparison still gives a front that looks right.',
     MO, mech(('NSGA2 selection', G + 'NSGA2.hpp'), ('non-dominated sorting', G + 'NSGABase.hpp')),
     moga([1, 2, 32], [2]), 'exhaustive enumeration of bounded objective tables executed on the real solver, against an independent reference that enumerates all tie orders',
     'Real code on every table; reference recomputed from the definition.',
     'N<=7 (8), K<N, 2-4 objectives; tables over 2-3 levels (complete) and all orders of distinct values; with more than 3000 tie orders only the layer rule is checked')
prop('B04', 'NSGA3 survival selection follows reference-point niching',
     'NSGA3 reduces a larger population to exactly populationSize unaltered, distinct members: whole layers of least-dominated members first, then members of the boundary layer chosen by niche: after normalising with the ideal point and the hyperplane intercepts each member belongs to its nearest reference line, a reference point with the smallest niche count is picked at random, an empty niche takes its closest member and others a random one. It holds for every finite objective assignment, including constant objectives and degenerate extreme points, and every sequence of random answers.',
     ['inputs', 'configurations', 'histories'],
     'every objective table over 2-3 levels and all orders of distinct values for populations of 2-8 with 2-3 objectives, single and double layer reference points, every random answer within the deviation bound; exact survivor probabilities for tie-free tables; runs of 2 (3) generations in which every selection is judged',
     'The tests run DTLZ problems and check nothing; degenerate extreme points and shared niches need particular tables, and the random choice among niches particular draws.',
     MO + [G + 'NSGA3.hpp', G + 'NSGA3Abstract.hpp'], mech(('niching', G + 'NSGA3Abstract.hpp'), ('non-dominated sorting', G + 'NSGABase.hpp')),
     moga([4, 8, 32], [8]), 'stateless exhaustive exploration of the real solver over objective tables and random answers against an independent reference',
     'Set of allowed survivor sets recomputed by an independent implementation; probabilities exact for tie-free tables.',
     'N<=7 (8), 2-3 objectives, <=2 (4) deviating draws of 4 quantiles; law mode: all draws of 6 quantiles; tables where a decision lies within 1e-9 of a tie accept every resolution')
prop('B05', 'NSGA3 reference points are the complete simplex lattice',
     'For every number of objectives and precision NSGA3 builds each reference point of the Das-Dennis simplex lattice exactly once: (M+p-1 choose p) points with non-negative coordinates that are multiples of 1/p and sum to one. With two layers the outer lattice lies on the unit simplex and the inner one on one parallel plane strictly inside it, and the accessors report counts and precisions of what was built.',
     ['inputs', 'configurations'],
     'every (objectives, precision) pair with 2..7 (8) objectives and precision 1..10 (14) up to 8000 points, all double layer pairs 2..6, fixed and run-time number of objectives, all point orders up to 2 deviations for small lattices',
     'The tests use one precision each and never look at the points.',
     [G + 'NSGA3Abstract.hpp', G + 'NSGA3Base.hpp'], mech(('reference point generation', G + 'NSGA3Abstract.hpp')),
     [{'name': 'moga_rp', 'src': 'moga.cpp', 'flags': ['-DPART=16'], 'ranks': 8}], 'exhaustive enumeration of configurations executed on the real code, against the lattice definition',
     'Complete over the bounded configuration space.', 'M<=7 (8), p<=10 (14), at most 8000 points and M+p-1<=20; double layer precisions 2..6')

LIFE = [{'name': 'galife_soga', 'src': 'galife.cpp', 'flags': ['-fopenmp', '-DPART=0'], 'ranks': 8}, {'name': 'galife_nsga2', 'src': 'galife.cpp', 'flags': ['-fopenmp', '-DPART=1'], 'ranks': 8},
        {'name': 'galife_nsga3', 'src': 'galife.cpp', 'flags': ['-fopenmp', '-DPART=2'], 'ranks': 8}, {'name': 'galife_serial', 'src': 'galife.cpp', 'flags': ['-DPART=3'], 'ranks': 4}]
prop('A04', 'A genetic generation is evaluate, select, record, cross over, mutate',
     'Every genetic solver initialises exactly populationSize individuals, and in each generation evaluates all new ones, selects, then crosses over and mutates: each survivor joins crossover independently with crossoverProb, joiners are paired uniformly at random (an odd one is left out) and each pair adds two children, then each member including the children is mutated with mutateProb into one added individual; parents stay unmodified. run() executes maxGenerations rounds of variation (fewer only if a single-objective run exceeds maxFailTimes), reports that number in generation(), records generation()+1 values, and starts counting anew on every call. All callbacks receive the solver\'s own arguments, whether functions are given at compile time or run time.',
     ['histories', 'configurations', 'inputs'],
     'SOGA (truncation, elite, tournament, roulette), NSGA2, NSGA3; void and non-void arguments; compile- and run-time functions; populations 2-4 (5), 0-4 generations, reruns; every draw and pairing for the probability laws, deviation-bounded answers for whole runs',
     'The tests only look at printed results; which individuals mate, how often, and how many rounds are executed is never observed.',
     [G + 'GABase.hpp', G + 'GAAbstract.hpp', 'HeuristicFlow/src/Global/FunBody.hpp', G + 'SOGA.hpp', G + 'MOGAAbstract.hpp'], mech(('generation loop, crossover, mutation', G + 'GABase.hpp'), ('callback dispatch', G + 'GAAbstract.hpp')),
     LIFE, 'stateless exhaustive exploration of the real solvers over all random answers, monitored through logging callbacks; exact probability of every pairing/mutation outcome',
     'Crossover and mutation laws are exact (complete enumeration of equiprobable draws and permutations) for n<=4 (5); run histories are deviation bounded.',
     'n<=4 (5), <=4 generations, up to 3 consecutive runs, <=1..3 (+1) deviating answers per run (within the first 64 answers for solvers whose selection draws); law mode complete')
prop('A05', 'Every individual is evaluated exactly once and keeps its own fitness',
     'In every genetic solver each individual is handed to the fitness function exactly once, after its variable is final and before it takes part in selection or variation; survivors are never re-evaluated, not even by another run(), and re-initialised individuals always are. The fitness a member of the population carries is what the fitness function computed for its present decision variable.',
     ['histories', 'configurations', 'inputs'],
     'SOGA (truncation, elite, tournament, roulette), NSGA2, NSGA3 with and without OpenMP; void and non-void arguments; compile- and run-time functions; populations 2-4, 0-4 generations, continuation and re-initialisation; deviation-bounded random answers',
     'A stale or doubly computed fitness does not show in any test: results stay plausible. It needs a particular order of crossover, mutation and survival.',
     [G + 'GABase.hpp', G + 'DefaultGeneType.hpp', G + 'SOGASelecters.hpp'], mech(('fitness evaluation', G + 'GABase.hpp'), ('computed flag', G + 'DefaultGeneType.hpp')),
     LIFE, 'stateless exhaustive exploration of the real solvers over random answers with an evaluation-counting monitor',
     'Exhaustive within the deviation bound on the real code, in the OpenMP and the serial branch.',
     'n<=4, <=4 generations, up to 3 consecutive runs, <=1..3 (+1) deviating answers per run (within the first 64 answers for solvers whose selection draws)')

E_ = 'HeuristicFlow/src/EAGlobal/'
prop('C01', 'Default crossovers and initialisers produce exactly the documented children',
     'For every pair of equally long parents in any supported container the default crossovers leave the parents unchanged and fill both children to the same length: the arithmetic one with r*p1+(1-r)*p2 and its mirror image, the swap one with the two parents exchanged from one uniformly drawn cut point on, the random one with every element of child one independently taken from parent one with probability p (child two from parent two). The default initialiser fills every element uniformly within its range.',
     ['inputs', 'configurations'],
     'std::array, std::vector and Eigen vectors, fixed and run-time length 1-6, with and without solver arguments, all parents over 2-4 value levels, every random answer of 2-12 quantiles; exact probabilities of cut points and source patterns',
     'No test calls most of these functions; a biased cut point or an ignored probability still optimises the easy test problems.',
     [G + 'Miscellaneous4GA.hpp'], mech(('default operators', G + 'Miscellaneous4GA.hpp')),
     [{'name': 'cross', 'src': 'boxes.cpp', 'flags': ['-DPART=3'], 'ranks': 8}], 'exhaustive enumeration of parents and random answers on the real operators, exact outcome probabilities',
     'Complete over the stated parents and quantiles.', 'length <=4 (6 for one parent pair), 2-4 levels, 2-12 quantiles per draw')
prop('C02', 'Default mutations change one coordinate and stay inside the box',
     'For every individual inside its box the default mutations copy the source, never modify it, and change at most one coordinate of the copy, staying inside the box. The symbolic mutation always changes exactly one coordinate, each equally often, to any other value of its range with equal probability.',
     ['inputs', 'configurations'],
     'square, rectangle and fixed boxes over std::array, std::vector and Eigen vectors of int, unsigned, bool and floating point elements; every starting point of small integer boxes, every answer of 5 edge and 12 equiprobable quantiles',
     'Boundary values and the extreme random answers are hit with probability close to zero by the random tests.',
     [G + 'Miscellaneous4GA.hpp', E_ + 'BoxConstraint.hpp'], mech(('default mutations', G + 'Miscellaneous4GA.hpp'), ('boxes', E_ + 'BoxConstraint.hpp')),
     [{'name': 'mutate', 'src': 'boxes.cpp', 'flags': ['-DPART=4'], 'ranks': 8}], 'exhaustive enumeration of starting points and random answers on the real operators',
     'Complete over the stated boxes and quantiles.', '2-4 dimensions, <=6 values per coordinate, 5-12 quantiles per draw')
prop('D01', 'Box constraints keep variables inside their box',
     'For every box type (discrete, boolean, continuous, Gaussian, with compile-time or run-time range, square or rectangle, over any supported container) a fresh variable has the box\'s shape and is uniformly distributed inside it, and applyConstraint moves exactly the coordinates outside the box to the nearest boundary, idempotently. applyDelta changes one uniformly drawn coordinate by a uniformly drawn step of at most delta (one for integers, a flip for booleans) and never leaves the box, up to the full range of the element type.',
     ['inputs', 'configurations'],
     '29 box types; all vectors over up to 8 values per coordinate in, on and beyond the boundaries (including infinities and the limits of the element type); every answer of 5 edge and 4-12 equiprobable quantiles; exact distribution of initial values and steps',
     'The test prints a few random vectors; boundary values, unsigned underflow and the extreme random answers are not reached.',
     [E_ + 'BoxConstraint.hpp', E_ + 'SizeBody4BoxConstraint.hpp', 'HeuristicFlow/src/Global/Randoms.hpp', 'HeuristicFlow/src/Global/Types.hpp'], mech(('boxes', E_ + 'BoxConstraint.hpp')),
     [{'name': 'boxes_discrete', 'src': 'boxes.cpp', 'flags': ['-DPART=1'], 'ranks': 4}, {'name': 'boxes_continuous', 'src': 'boxes.cpp', 'flags': ['-DPART=2'], 'ranks': 4}],
     'exhaustive enumeration of bounded inputs and random answers on the real boxes', 'Complete over the stated boxes, points and quantiles; exact probabilities from equiprobable draws.',
     '2-6 dimensions, <=8 values per coordinate, 4-12 quantiles per draw')

P_ = 'HeuristicFlow/src/PSO/'; O_ = 'HeuristicFlow/src/AOS/'
NN = ['-fno-sanitize=null,nonnull-attribute,returns-nonnull-attribute', '-fdelete-null-pointer-checks']  # template function pointers are compared in constant expressions
def pso(): return [{'name': 'pso%d' % i, 'src': 'pso.cpp', 'flags': ['-DPART=%d' % i] + ([] if i == 3 else ['-fopenmp']) + NN, 'ranks': 8} for i in range(4)]
def aos(): return [{'name': 'aos%d' % i, 'src': 'aos.cpp', 'flags': ['-DPART=%d' % i] + ([] if i == 2 else ['-fopenmp']) + NN, 'ranks': 8} for i in range(3)]
prop('E01', 'PSO particles start and move inside their box by the documented rule',
     'From initialisation on every particle position lies inside the configured box and every velocity component is at most the velocity limit in absolute value. Each generation a particle\'s velocity becomes inertia*v + c1*r1*(pBest-x) + c2*r2*(gBest-x), clamped to the limit, with two independent uniform factors per particle, and its position moves by exactly that velocity, clamped to the box. The default initialiser places particles uniformly in the box with zero velocity.',
     ['inputs', 'histories', 'configurations'],
     'std::vector, std::array and Eigen vectors and matrices of fixed and run-time size, square and rectangle boxes, both directions, compile- and run-time functions, with and without arguments, OpenMP and serial branch; every fitness answer of 3 levels and every random answer of a quantile menu within the deviation bound; exact joint distribution of the children of a generation',
     'The tests only look at a printed optimum; a velocity that is not clamped or factors shared by all particles still converge on smooth problems.',
     [P_ + 'PSO.hpp', P_ + 'PSO4std.hpp', P_ + 'PSO4Eigen.hpp', P_ + 'PSOAbstrcat.hpp', P_ + 'BoxWithVelocity.hpp'], mech(('particle update', P_ + 'PSO4std.hpp'), ('particle update (Eigen)', P_ + 'PSO4Eigen.hpp')),
     pso(), 'stateless exhaustive exploration of the real solver over fitness and random answers (deviation bounded); exact distribution of one generation',
     'Exhaustive within the deviation bound on the real code under ASan/UBSan, in the OpenMP and the serial branch.',
     'n<=4 particles, 1-4 dimensions, <=4 generations, <=3 consecutive runs, <=1..4 (+1) deviating answers; law: 2-6 equiprobable quantiles per factor')
prop('E02', 'PSO personal and global best, record and stop criterion are exact',
     'After every generation each particle\'s personal best is the best (position, fitness) it has visited and the global best the best of all, the reported result and fitness are the global best\'s, and the record holds one entry per evaluation round and never worsens. The fail counter counts consecutive generations without strict improvement; run() stops at the generation limit or in the first generation in which a nonzero limit is exceeded. Each particle is evaluated exactly once per round at its own position, with the solver\'s own arguments.',
     ['inputs', 'histories', 'configurations'],
     'same solver variants as E01; every fitness history over 3 levels with ties, and all-different fitness, within the deviation bound; several runs on one solver',
     'Ties, stagnation and repeated runs are not produced on purpose by any test, and nothing compares pBest/gBest with the history.',
     [P_ + 'PSO.hpp', P_ + 'PSOAbstrcat.hpp', P_ + 'PSO4std.hpp', P_ + 'PSO4Eigen.hpp', P_ + 'PSOOption.hpp'], mech(('best tracking', P_ + 'PSO4std.hpp'), ('best tracking (Eigen)', P_ + 'PSO4Eigen.hpp'), ('life cycle', P_ + 'PSOAbstrcat.hpp')),
     pso(), 'stateless exhaustive exploration of the real solver against a history monitor (deviation bounded)',
     'Exhaustive within the deviation bound on the real code, in the OpenMP and the serial branch.',
     'n<=4 particles, <=4 generations, <=3 consecutive runs, <=1..5 (+1) deviating answers')
prop('F01', 'AOS keeps the best electrons, layers them by energy and moves them by its rule',
     'Each generation keeps exactly the electronNum best electrons and splits all of them, sorted by energy, into at most maxLayerNum non-empty layers whose number is uniform and whose sizes follow the Gaussian distribution. Every electron emits one child: under photon interaction, x + a*(b*best - g*mean) with its own layer\'s best and mean if it is better than its layer\'s mean energy, otherwise with the atom\'s best and mean divided by the layer number; without photon, x plus a uniform step of at most delta. Every evaluated state lies inside the box.',
     ['inputs', 'histories', 'configurations'],
     'std::vector, std::array and Eigen arrays, square, rectangle, fixed and unbounded boxes, both directions, compile-/run-time functions, with and without arguments, OpenMP and serial branch; every fitness answer over 3 levels and every random answer of a menu within the deviation bound; exact distribution of layer sizes and of the children of a generation',
     'The test prints one optimum; electrons placed in the wrong layer or moved towards the wrong best still converge on Rastrigin.',
     [O_ + 'AOS.hpp', O_ + 'AOSBase.hpp', O_ + 'AOS4EigenAndStd.hpp', O_ + 'AOSBoxed.hpp', O_ + 'AOSOption.hpp'], mech(('selection and layers', O_ + 'AOS.hpp'), ('electron moves', O_ + 'AOS4EigenAndStd.hpp')),
     aos(), 'stateless exhaustive exploration of the real solver over fitness and random answers (deviation bounded); exact distribution of layers and children',
     'Exhaustive within the deviation bound on the real code under ASan/UBSan. float elements do not compile and are outside the claim.',
     'n<=6 electrons, 1-4 dimensions, <=3 generations, <=3 runs, deviation bound chosen so that a configuration costs <=2500 (40000) executions; layer law N<=24 (40), every maxLayerNum')
prop('F02', 'AOS best electron, binding state, record and counters are exact',
     'Every electron is evaluated exactly once, with the solver\'s own arguments, and the best electron is a living electron with the best energy ever found. Binding state and energy are the means over the whole generation before selection; the record holds one best energy per generation. The early-stop counter is the number of consecutive generations with unchanged best energy, and run() stops at the generation limit or when the counter reaches maxEarlyStop.',
     ['inputs', 'histories', 'configurations'],
     'same solver variants as F01; every energy history over 3 levels with ties, and all-different energies, within the deviation bound; up to three runs on one solver (continuing and re-initialised)',
     'Ties that remove the previous best electron, stagnation and continued runs are not produced on purpose by the test.',
     [O_ + 'AOSBase.hpp', O_ + 'AOS.hpp', O_ + 'AOSBoxed.hpp', O_ + 'AOS4EigenAndStd.hpp'], mech(('life cycle', O_ + 'AOSBase.hpp')),
     aos(), 'stateless exhaustive exploration of the real solver against a history monitor (deviation bounded)',
     'Exhaustive within the deviation bound on the real code, in the OpenMP and the serial branch.',
     'n<=6 electrons, <=3 generations, <=3 runs, deviation bound chosen so that a configuration costs <=2500 (40000) executions')
WRAP = ['-Wl,--wrap=' + f for f in 'memcpy memmove memset malloc calloc realloc aligned_alloc posix_memalign pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock'.split()]
prop('H01', 'Multithreaded runs are race-free and equal to serial runs',
     'With OpenMP enabled every parallel loop of the solvers (fitness evaluation, domination counting, particle update) gives the result of the serial branch for the same random answers, whatever the number of threads, the chunk size and the schedule. Every individual is evaluated exactly once with the solver\'s own arguments, no two threads access the same data without synchronisation, and no random number is drawn inside a parallel loop.',
     ['schedules', 'inputs', 'configurations'],
     'SOGA, NSGA2, NSGA3, PSO and AOS, std and Eigen variables, with and without arguments, teams of 1-4 threads, every chunk setting of 1, 2, 3 and 64 threads; all schedules of chunks and user-function calls up to a preemption bound chosen per configuration, happens-before race detection on every memory access of the loops',
     'The tests run with whatever interleaving the machine produces, usually one, and compare nothing; a lost update or shared scratch variable needs two iterations to overlap.',
     [G + 'GABase.hpp', G + 'NSGABase.hpp', P_ + 'PSOAbstrcat.hpp', P_ + 'PSO4std.hpp', P_ + 'PSO4Eigen.hpp', O_ + 'AOSBoxed.hpp', 'HeuristicFlow/src/Global/Threading.hpp'],
     mech(('parallel evaluation', G + 'GABase.hpp'), ('parallel domination count', G + 'NSGABase.hpp'), ('parallel particle update', P_ + 'PSO4std.hpp')),
     [{'name': 'omp', 'src': 'omp.cpp', 'asan': False, 'ranks': 8, 'libs': WRAP + ['-lpthread'],
       'objs': [('harness/omp_runs.cpp', ['-fopenmp', '-fsanitize=thread', '-fdelete-null-pointer-checks']), ('harness/omp_runs.cpp', ['-DSERIAL', '-Dheu=heu_serial', '-fdelete-null-pointer-checks']), ('mc/omp_sched.cpp', ['@noenv'])]}],
     'stateless exploration of all schedules of the real parallel loops under a controlled OpenMP runtime (preemption bounded), with vector-clock race detection on the instrumented accesses',
     'All schedules within the preemption bound on the real code; race-freedom of the explored executions implies the same result for every finer interleaving of the same chunks.',
     'n<=17 individuals, <=3 generations, teams of 1-4, preemption bound chosen so that a configuration costs <=2500 (200000) schedules; scheduling points at chunk requests, user-function entry and exit and synchronisation operations')

M_ = 'HeuristicFlow/src/SimpleMatrix/'
prop('J01', 'multiBitSet behaves like a vector of fixed-width unsigned integers',
     'A multiBitSet of any element width and block type behaves under every sequence of operations like a vector of eleBits-wide unsigned integers: a value read is the last value written to that position (excess bits removed), and no operation changes another element. Growing, shrinking, reserving, shrink_to_fit, copying and assigning keep the elements; a copy is independent, a moved-from or cleared set is empty and usable, and a sized set starts with zeros. Iteration, constant or not, visits every element once in order, and all storage is returned.',
     ['inputs', 'histories', 'configurations'],
     'every element width 1-64 in every block type that can hold it; all operation sequences up to the depth bound from empty, zero-sized, single-element and multi-block sets, with a second set as copy source and target; sizes around 2^24 and 2^25 bits',
     'The test uses 7-bit elements in 64-bit blocks, one size, and checks nothing; lost neighbours and reallocation faults need particular widths, positions and sequences.',
     [M_ + 'MultiBitSet.hpp', 'HeuristicFlow/src/Global/Types.hpp'], mech(('bit-packed storage', M_ + 'MultiBitSet.hpp')),
     [{'name': 'bits_ops', 'src': 'bits.cpp', 'flags': ['-DPART=1'], 'ranks': 8}, {'name': 'bits_element', 'src': 'bits.cpp', 'flags': ['-DPART=2'], 'ranks': 1}, {'name': 'bits_element64', 'src': 'bits.cpp', 'flags': ['-DPART=3'], 'ranks': 1}],
     'exhaustive exploration of all operation sequences on the real container against a reference vector (depth bounded)',
     'Real code under ASan/UBSan with an allocation-counting allocator; every element and accessor compared after every operation.',
     '19 operations, depth 4 (5), 4 start states, 11 width/block pairs; write-one-element for all 120 width/block pairs and every position of up to 5 blocks with 6 values over 6 backgrounds')
prop('J02', 'Matrices hold, copy, move and convert their elements exactly',
     'MatrixDynamicSize, MatrixFixedSize and MatrixMap address element (r,c) in column-major order through every accessor and hold exactly what was last written, under every sequence of fill, resize, reserve, copy, move, self-assignment and conversion between the three. Resizing gives the requested shape and keeps the elements in storage order if their number does not change; reserve keeps shape and elements. Copies are independent (a map shares its memory), every reachable element is a constructed object, and every element is destroyed and its memory freed exactly once.',
     ['inputs', 'histories', 'configurations'],
     'int, double, struct, std::string and a life-checking class as elements; all operation sequences up to the depth bound from default-constructed, empty, 1x1, 2x3, 3x3 and 4x0 matrices together with a second dynamic matrix, a fixed matrix and a map',
     'The test copies one 3x4 string matrix once; constructing, reallocating and moving is never combined.',
     [M_ + 'MatrixDynamicSize.hpp', M_ + 'MatrixFixedSize.hpp', M_ + 'MatrixMap.hpp', M_ + 'MatrixBase.hpp'], mech(('dynamic storage', M_ + 'MatrixDynamicSize.hpp'), ('conversion', M_ + 'MatrixBase.hpp')),
     [{'name': 'matrix', 'src': 'matrix.cpp', 'flags': ['-fno-sanitize=nonnull-attribute'], 'ranks': 8}],
     'exhaustive exploration of all operation sequences on the real classes against a reference matrix (depth bounded)',
     'Real code under ASan/UBSan; element type that detects use of dead or unconstructed objects; every element compared after every operation.',
     '18-21 operations, depth 4 (5), 6 start states, 5 element types; fixed-size section: 7 shapes x 4 element types')

L_ = 'HeuristicFlow/src/Global/'
prop('I01', 'Numbers pass through template codes unchanged',
     'encode() gives the IEEE-754 bit pattern of every double and float, decode() gives the number of every bit pattern, and a number passed through a template parameter comes back equal: zero, subnormals, the largest numbers and infinities included, NaN as NaN, negative zero as zero. A DivCode decodes to exactly the numerator and denominator it was made from, and every predefined constant to the number it is named after. A PowCode decodes to the number its coefficient (at most 16 digits) and power denote, up to accumulated rounding, and coefficients that differ by trailing zeros have the same code.',
     ['inputs'],
     'doubles: all 2048 exponents x both signs x all mantissas with at most 2 (3) bits set or cleared, runs and alternating patterns; floats: all 2^23 mantissas for 4 exponents and the structured set for all others (thorough: all 2^32 floats); grids of numerators, denominators, coefficients and powers',
     'The test prints a few codes; carries out of an all-ones mantissa, infinities and coefficients starting above 1.8 are never tried.',
     [L_ + 'ConvertDoubleAndBinCode.hpp', L_ + 'TemplateFloat.hpp'], mech(('bit codes', L_ + 'ConvertDoubleAndBinCode.hpp'), ('fraction and power codes', L_ + 'TemplateFloat.hpp')),
     [{'name': 'codes', 'src': 'numeric.cpp', 'flags': ['-DPART=1', '-O2'], 'asan': False, 'ranks': 8}],
     'exhaustive enumeration of a bounded input space (thorough: the whole 32-bit space) executed on the real functions',
     'Real constexpr functions run at run time over the space and evaluated by the compiler for the boundary values; the reference is the hardware representation.',
     'doubles: <=2 (3) mantissa bits from all-zeros/all-ones; floats complete in thorough; 165 fractions, 53 coefficients x 11 powers')
prop('I02', 'Random helpers and the chaos device stay in range and follow their law',
     'randIdx gives every index of [0,size) or [min,max) the same share of the random answers and never one outside, for every integer type and size up to 2^52; randD(min,max) maps the answer linearly, monotonically and never leaves [min,max]; the array versions write exactly num entries, one draw each; normD scales and shifts the draw. LogisticChaos iterates x <- 4x(1-x): operator(), iterate(n) and makeSequence(dst,n) advance the same sequence by 1, n and n steps in every combination, write exactly n values and stay in [0,1].',
     ['inputs', 'histories'],
     'all sizes 1-300 and around every power of two up to 2^52, six integer types, extreme and 4096 (65536) evenly spread answers; all pairs of 18 bounds; all sequences of 8 chaos operations up to the depth bound from 10 seeds',
     'The tests use whatever number the engine gives; the last representable answer and index sizes beyond single precision do not occur.',
     [L_ + 'Randoms.hpp', L_ + 'LogisticChaos.hpp'], mech(('random helpers', L_ + 'Randoms.hpp'), ('chaos', L_ + 'LogisticChaos.hpp')),
     [{'name': 'random', 'src': 'numeric.cpp', 'flags': ['-DPART=2'], 'ranks': 4}],
     'exhaustive enumeration of random answers and operation sequences on the real functions',
     'Real code under ASan/UBSan with every random answer supplied by the explorer.',
     'chaos: depth 5 (6); index law for sizes 1-64')
prop('I03', 'Numeric helpers equal their definitions',
     'NchooseK is the exact binomial coefficient and fractorial the exact factorial whenever the result (times the smaller of K and N-K) fits the type; min, max, min_v and max_v give the extreme of any number of arguments in any order; sign and square equal their definitions, and gaussianCurve is the normal density, for every argument type.',
     ['inputs'],
     'all N <= 66 and K <= N for five integer types; all argument tuples of length 2-5 over 5-8 values including the extremes of int, unsigned, int64, float and double; all template argument lists of length 1-5 over 4 values; a grid of curve arguments',
     'The helpers are only used indirectly with small numbers; NSGA3 sizes its reference set with binomials whose factorials overflow.',
     [L_ + 'HeuMaths.hpp'], mech(('maths helpers', L_ + 'HeuMaths.hpp')),
     [{'name': 'maths', 'src': 'numeric.cpp', 'flags': ['-DPART=2'], 'ranks': 4}],
     'exhaustive enumeration of a bounded input space executed on the real functions',
     'Real code under ASan/UBSan against independent definitions (Pascal triangle in 128 bits).',
     'N<=66; tuples of length <=5')

prop('K01', 'Benchmark functions equal their definitions in every container',
     'Every function of testFunctions<Var_t, Fitness_t, Arg_t> gives, at every point of its domain and up to rounding, the value of the published function it is named after: ackley, beale, GoldsteinPrice, booth, bukin (N.6), matyas, levy (N.13), himmelblau, threeHumpCamel, easom, crossInTray, eggHolder, holderTable, McCormick, schaffer2, schaffer4, rastrigin, sphere, rosenbrock and styblinskiTang with one objective; Schaffer1, Schaffer2, BinhKorn, ChangkongHaimes, Poloni (minimised), viennet, FonsecaFleming, Kursawe and DTLZ1 to DTLZ9 with several. The values are the same for std::array, std::vector, fixed and dynamic Eigen arrays as variable and fitness in any combination, with and without an argument type. Schaffer1 to viennet give a dynamic fitness its size; the others use the size it has as the number of objectives. Constrained functions add 1e5 (BinhKorn, ChangkongHaimes: first constraint to the first, second to the second objective) or 1e3 (DTLZ8, DTLZ9: constraint j to objective j) plus the amount of the violation, and nothing where the constraint holds. DTLZ8 and DTLZ9 group variables floor(jN/M) to min(N-1, floor((j+1)N/M)), both included, into objective j (from 0).',
     ['inputs', 'configurations'],
     'all points of grids: 41x41 (81x81) points of [-5,5]^2, 33x33 (129x129) of [-512,512]^2 and all pairs of the coordinates of known minima for functions of two variables; 641 points for one variable; 2-4 (5) variables for the others; DTLZ for 11 combinations of 2-7 variables and 2-5 objectives over grids of [0,1]; six variable types, 16 pairs of container kinds, with and without arguments',
     'No test compares a benchmark value with anything: the demonstrations only print where a solver ended.',
     [E_ + 'SOFunctions.hpp', E_ + 'MOFunctions.hpp', E_ + 'TestFunctions.hpp'], mech(('single objective', E_ + 'SOFunctions.hpp'), ('multi objective', E_ + 'MOFunctions.hpp')),
     [{'name': 'functions', 'src': 'bench.cpp', 'flags': ['-DPART=0'], 'ranks': 8}, {'name': 'dtlz', 'src': 'bench.cpp', 'flags': ['-DPART=1'], 'ranks': 8}],
     'exhaustive enumeration of a bounded input space executed on the real functions',
     'Real code under ASan/UBSan against definitions written down independently in long double.',
     '1-7 variables, 2-5 objectives, grid steps 1/16 to 32')

prop('L01', 'A used, assigned or neighboured solver behaves like a new one',
     'The run of a genetic, particle swarm or AOS solver depends only on its configuration and the random answers. Whatever initialisations, runs and changes of options, functions, arguments, dimensions or reference points a solver object has been through, once it is configured and initialised again its next run and the run after that make the same evaluations and end with the same population, best solution or front, reference points, counters and record as those of a newly constructed solver with that configuration under the same random answers. The same holds for an object assigned from a configured solver that was not yet initialised, and other solvers of the same type that are built, run and destroyed beside it change nothing.',
     ['histories', 'configurations'],
     'every sequence of up to 3 (4) calls out of initialise with configuration A, initialise with configuration B, run, run on with another limit; followed by each of the configurations A and B; three situations (same object, assigned object, neighbour working in between); 15 solver types; every single (pair of) deviation of the random answers after shorter histories, the default answers (single deviations) after the longest',
     'The tests build a solver, run it once and throw it away; state that survives an initialisation shows only in the second use.',
     [G + 'GABase.hpp', G + 'SOGA.hpp', G + 'NSGABase.hpp', G + 'NSGA3Abstract.hpp', P_ + 'PSOAbstrcat.hpp', O_ + 'AOSBase.hpp'], mech(('initialisation of genetic solvers', G + 'GABase.hpp'), ('initialisation of PSO', P_ + 'PSOAbstrcat.hpp'), ('initialisation of AOS', O_ + 'AOSBase.hpp')),
     [{'name': 'reuse%d' % i, 'src': 'reuse.cpp', 'flags': ['-fopenmp', '-DPART=%d' % i] + (NN if i >= 3 else []), 'ranks': 8} for i in range(5)],
     'exhaustive enumeration of call histories on the real solvers, paired runs under the same random answers',
     'Real code under ASan/UBSan; the reference is a newly constructed solver of the same type in the same execution.',
     'histories of at most 3 (4) calls, populations of 2-4, 1-3 generations, 1 (2) deviations; NSGA3 breaks niching ties by addresses (tournament selection orders its winners by them and is left out), so of its runs only initialisation, reference points and population size are compared')
