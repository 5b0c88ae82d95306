NA = ('Every check is ./check <id> [--tier thorough]; exit 2 means the check could not give an answer (see ERROR lines). '
      'No hooks are used: the checks read the sources in /repo as they are.')
B = ' Trusted: z3, the symbolic numpy/scipy stand-ins (each harness is also run once on the real compiled code), exact ' \
    'real arithmetic instead of float64.'
CXX = 'symbolic execution of the LLVM IR compiled from the current C++ + SMT (z3) verdict over all inputs within bounds; replay ' \
      'on the compiled code'
PROPS = [
 dict(id='C01', title='Exact Ising equations are the Boltzmann distribution of the stated model',
      statement='Every shipped or generated Ising equation module, in either spin convention and for pairwise, triplet and '
      'caller-chosen correlation sets, returns the exact Boltzmann probabilities of all states (in enumeration order) and the '
      'exact averages of the constrained products, for all real parameters. A custom log-sum-exp agrees with the '
      'logarithm of the signed sum of exponentials, magnitude and sign.',
      over=['inputs'], text='All real parameter vectors, for each shipped module and for systems generated within the bounds.',
      why='Tests compare two implementations at a few random parameter values; the identity must hold for every value and '
      'for every one of the generated terms.', files=['coniii/enumerate.py', 'coniii/ising_eqn'],
      mech=[('write_eqns', 'coniii/enumerate.py'), ('pairwise', 'coniii/enumerate.py'), ('triplet', 'coniii/enumerate.py'),
            ('get_terms11 / get_terms01', 'coniii/enumerate.py'), ('fast_logsumexp', 'coniii/enumerate.py'),
            ('calc_observables, p', 'coniii/ising_eqn')],
      note='Equality of the executed program with the Boltzmann sums, for symbolic real parameters.' + B),
 dict(id='C02', title='Exact Potts equations are the Boltzmann distribution of the stated model',
      statement='Generated Potts equation modules for k states return the exact Boltzmann probabilities of all k^n states '
      'in enumeration order, the exact occupation of every state by every spin and the exact agreement of every pair of '
      'spins, for all real parameters.',
      over=['inputs'], text='All real fields and couplings, n up to 4 spins, k up to 12 states within the listed sizes.',
      why='Tests evaluate one or two sizes at one parameter value.', files=['coniii/enumerate_potts.py'],
      mech=[('write_eqns', 'coniii/enumerate_potts.py'), ('potts', 'coniii/enumerate_potts.py'),
            ('get_terms', 'coniii/enumerate_potts.py')],
      note='As C01; the writer runs concretely, the program it writes is executed symbolically.' + B),
 dict(id='C03', title='Basis conversion of parameters preserves the model',
      statement='Converting Ising parameters between the {0,1} and {-1,1} conventions, including triplet and higher-order '
      'interactions, changes the energy of every state only by one additive constant, so the distribution is the same. '
      'Converting there and back returns the original parameters, and the inputs are not modified.',
      over=['inputs'], text='All real parameter vectors for up to 4 (thorough 6) spins, all states, both directions.',
      why='Tests convert a few random parameter vectors and compare a round trip; the property is about every real '
      'vector and every state.', files=['coniii/utils.py'],
      mech=[('convert_params', 'coniii/utils.py'), ('ising_convert_params', 'coniii/utils.py'),
            ('_expand_binomial', 'coniii/utils.py')],
      note='Decided for all real parameters at each system size within the bound (energies are compared symbolically '
      'state by state).' + B),
 dict(id='C04', title='Basis conversion of correlations agrees with converted spins',
      statement='The conversion of means and pairwise correlations between {0,1} and {-1,1} maps the moments of any '
      'distribution over states to the moments of the same distribution with relabelled spins. It is exactly invertible '
      'and leaves its inputs unmodified.',
      over=['inputs'], text='All distributions over the states of up to 4 (thorough 5) spins; all real moment vectors.',
      why='Tests check a round trip on sampled moments, which two compensating errors pass.', files=['coniii/utils.py'],
      mech=[('convert_corr', 'coniii/utils.py')],
      note='Decided for symbolic state weights, i.e. for every distribution at each size within the bound.' + B),
 dict(id='C05', title='Flattened-index maps are the row-major upper-triangle bijection',
      statement='The maps between a pair or tuple of spin indices and its position in a flattened vector are mutually '
      'inverse, follow the row-major (lexicographic) order of distinct pairs, and do not depend on the order in which '
      'the two spins of a pair are given. Equal coordinates are rejected.',
      over=['inputs'], text='All system sizes (symbolic up to 10^6 for the pair map) and all valid coordinates/indices within bounds.',
      why='Tests try a few sizes; the arithmetic formula must hold for every size and index.', files=['coniii/utils.py'],
      mech=[('sub_to_ind', 'coniii/utils.py'), ('ind_to_sub', 'coniii/utils.py'),
            ('unravel_index', 'coniii/utils.py'), ('multinomial', 'coniii/utils.py')],
      note='Integer-symbolic verdicts; loops unrolled to the first coordinate bound.' + B),
 dict(id='C06', title='Vector and matrix forms of the parameters agree',
      statement='Packing fields and couplings from a vector into a symmetric matrix and back loses and permutes nothing, '
      'fields sit on the diagonal, and the diagonal helpers change only the diagonal. Inputs are not modified.',
      over=['inputs'], text='All real vectors and square matrices for up to 5 (thorough 8) spins.',
      why='Tests use single sizes and fixed values.', files=['coniii/utils.py'],
      mech=[('vec2mat', 'coniii/utils.py'), ('mat2vec', 'coniii/utils.py'), ('replace_diag', 'coniii/utils.py'),
            ('zero_diag', 'coniii/utils.py')],
      note='Decided for symbolic entries at each size within the bound.' + B),
 dict(id='C07', title='State enumerators list every state once in ascending order',
      statement='Enumerating the states of n binary or k-state spins yields each of the k^n states exactly once, in '
      'ascending order of the number its digits spell, in the requested basis; the positional representation of an '
      'integer has no leading zero, only valid digits, and spells that integer. Unsupported sizes are rejected. The subsets of k '
      'of n spins are listed once each, in order, and multinomial coefficients count the states with given occupations.',
      over=['inputs'], text='All states for n up to 6 (thorough 9) binary spins, k up to 36; integers in stated intervals.',
      why='Tests compare a few sizes; completeness and order are statements about every state, and digit extraction '
      'can fail only at particular integers.', files=['coniii/utils.py'],
      mech=[('bin_states', 'coniii/utils.py'), ('xbin_states', 'coniii/utils.py'), ('xpotts_states', 'coniii/utils.py'),
            ('base_repr, multinomial', 'coniii/utils.py'), ('get_nidx', 'coniii/enumerate.py')],
      note='The solver shows row i equals a symbolic state iff its rank is i; integers symbolic within intervals.' + B),
 dict(id='C08', title='Energy and observable helpers describe one model',
      statement='For the Ising, symmetric Ising, triplet and Potts helper functions, the observables of a state are '
      'the products or indicators documented, in the documented order, and the energy is minus the dot product of '
      'parameters and observables, for every state and every parameter vector; the energy derivative helper returns '
      'minus the observable that a parameter multiplies. States are not modified.',
      over=['inputs'], text='All states and all real parameters within the listed sizes, several states at a time.',
      why='Tests look at a few states and parameters; index orders must agree for every one of them.',
      files=['coniii/utils.py'], mech=[('define_ising_helper_functions', 'coniii/utils.py'),
        ('define_ising_helper_functions_sym', 'coniii/utils.py'), ('define_triplet_helper_functions', 'coniii/utils.py'),
        ('define_potts_helper_functions', 'coniii/utils.py'), ('calc_de', 'coniii/utils.py')],
      note='Decided for symbolic states and parameters at each size within the bound.' + B),
 dict(id='C09', title='Sample statistics are the weighted averages they claim to be',
      statement='Means, pairwise and k-th order correlations, covariances, overlaps and state frequencies computed from a '
      'sample equal the (weighted) averages of the corresponding products over the sample, with missing entries (zeros) '
      'left out of the average when asked, whatever the integer type of the sample, and inputs outside {-1,0,1} are rejected. Samples are not modified.',
      over=['inputs'], text='All samples within the listed sizes, all real weights.',
      why='Tests use a few random samples, mostly without weights or missing values.', files=['coniii/utils.py'],
      mech=[('pair_corr', 'coniii/utils.py'), ('k_corr', 'coniii/utils.py'), ('calc_overlap', 'coniii/utils.py'),
            ('state_probs', 'coniii/utils.py')],
      note='Decided for symbolic samples and weights at each size within the bound.' + B),
 dict(id='C10', title='The histogram step predicts exactly the reweighted averages',
      statement='The Monte Carlo histogram approximation of the Ising, symmetric Ising and Potts models predicts, for a '
      'sample and a change of parameters, the averages of the observables over the sample reweighted by the exponential of '
      'minus the energy change, and leaves sample and step unchanged.',
      over=['inputs'], text='All samples and all real parameter changes within the listed sizes.',
      why='Tests only run the full MCH solver and look at convergence.', files=['coniii/utils.py'],
      mech=[('mch_approximation', 'coniii/utils.py')],
      note='Decided for symbolic samples and steps at each size within the bound.' + B),
 dict(id='C11', title='A Metropolis step follows the acceptance rule',
      statement='One step of the Python Metropolis and Potts samplers proposes one spin (any site, any other state) and accepts '
      'exactly when the energy does not increase or a uniform draw is below exp(-dE). It returns the energy change applied, '
      'restores the state on rejection, touches no other spin, and honours the flip site, generator and energy given.',
      over=['inputs', 'histories'], text='All energy functions, states, sites, proposals and uniform draws within the listed sizes.',
      why='Tests only check that samples have the right shape or roughly the right moments.', files=['coniii/samplers.py'],
      mech=[('sample_metropolis', 'coniii/samplers.py'), ('_jit_sample_metropolis', 'coniii/samplers.py')],
      note='Random draws are symbolic variables, the energy is an arbitrary table over states.' + B),
 dict(id='C12', title='Samplers record the chain they were asked for',
      statement='The sequential, parallel and conditional Metropolis and Potts samplers start from the given (unmodified) or a '
      'random state, discard burn_in steps, record a sample every n_iters steps, choose sites at random or in the systematic '
      'order, keep the fixed spins of conditional samples at their given values and store sample and energies; a history of energies has '
      'one entry per step. The boost '
      'route passes the same sizes and parameters to the compiled sampler.',
      over=['histories', 'inputs'], text='All random draws (accept/reject histories) within the listed numbers of steps and samples.',
      why='Tests look at the shape of the result; a chain with a wrong step count or initial state looks the same.',
      files=['coniii/samplers.py'],
      mech=[('generate_sample_py / generate_sample_boost', 'coniii/samplers.py'),
            ('generate_sample_parallel_py / _boost', 'coniii/samplers.py'),
            ('generate_cond_sample_py / _boost', 'coniii/samplers.py'), ('random_sample', 'coniii/samplers.py')],
      note='Compared with a reference chain driven by the same symbolic draws; workers run one after the other.' + B),
 dict(id='C13', title='The compiled Ising sampler computes the energy and steps by the Metropolis rule',
      statement='The C++ Ising class computes the energy of a state from the fields and couplings it was given last (in upper '
      'triangular order). A single-spin step flips exactly the given spin, always if the energy does not increase, otherwise if '
      'a uniform draw is below exp(-dE), and returns the energy change of the move made, else leaves the state with change 0. '
      'Draws come from its own generator, seeded as asked.',
      over=['inputs'], text='All real parameters, states, sites and draws within the listed sizes.',
      why='Tests only run the compiled sampler and look at statistics of its samples.', files=['cpp/samplers.cpp', 'cpp/samplers.hpp'],
      mech=[('Ising::calc_e, sample_metropolis, readin_multipliers', 'cpp/samplers.cpp')], technique=CXX,
      note='clang compiles the current C++ with stand-in Boost.Python headers; its LLVM IR is executed symbolically; random '
      'distributions return arbitrary values of their range. Trusted: z3, the IR interpreter (each harness is also run once on the '
      'compiled code), exact real arithmetic instead of float64.'),
 dict(id='C14', title='The compiled Potts sampler computes the energy and steps by the Metropolis rule',
      statement='The C++ Potts3 class computes the energy of a three-state configuration from its fields (grouped by state) and '
      'agreement couplings. A step proposes for the given spin one of the two other states with equal chance, accepts by the '
      'Metropolis rule, and returns the energy change of the move made, else leaves the state with change 0.',
      over=['inputs'], text='All real parameters, states, sites and draws within the listed sizes.',
      why='Tests only run the compiled sampler and look at statistics of its samples.', files=['cpp/samplers.cpp', 'cpp/samplers.hpp'],
      mech=[('Potts3::calc_e, sample_metropolis, readin_multipliers, multipliers2ndarray', 'cpp/samplers.cpp')], technique=CXX,
      note='As C13.'),
 dict(id='C15', title='The compiled samplers run the chain they are asked for',
      statement='The C++ samplers start from uniformly drawn states, make burn_in steps and then n_iters steps before each recorded '
      'sample, at uniformly drawn sites or cyclically through all sites in order without restarting, each step continuing from '
      'the last state. Conditional sampling sets and never touches the fixed spins and visits only the others. All samples and the '
      'means over them are returned.',
      over=['histories', 'inputs'], text='All draws and step outcomes, every set of fixed spins, within the listed lengths.',
      why='Tests look at statistics of the samples.', files=['cpp/samplers.cpp', 'cpp/samplers.hpp'],
      mech=[('Sampler::generate_sample, generate_cond_sample, fetch_sample, means', 'cpp/samplers.cpp'),
            ('Ising::init_sample, Potts3::init_sample', 'cpp/samplers.cpp')], technique=CXX,
      note='As C13. Long chains are decided for arbitrary outcomes of the single steps.'),
 dict(id='C16', title='Parallel tempering exchanges replicas correctly',
      statement='Every replica runs at its own inverse temperature, from the lowest to the highest of the given range. After the '
      'prescribed steps, neighbouring replicas exchange states exactly when a uniform draw is below '
      'min(1, exp((b_i-b_j)(E_i-E_j))) of the unscaled energies, energies being rescaled. One state per temperature is '
      'recorded per round, with its trajectory. The temperature optimisation scales spacings by their measured acceptance.',
      over=['histories', 'inputs'], text='All energies, states, uniform draws, temperatures and acceptance ratios within the listed '
      'numbers of replicas and rounds.',
      why='No test looks at the exchanges; a wrong rule still yields plausible samples.', files=['coniii/samplers.py'],
      mech=[('ParallelTempering.burn_and_exchange, _acceptance_ratio', 'coniii/samplers.py'),
            ('ParallelTempering.generate_sample', 'coniii/samplers.py'),
            ('ParallelTempering.optimize_beta, iterate_beta', 'coniii/samplers.py')],
      note='Replicas are stand-ins whose runs end in arbitrary states and energies.' + B),
 dict(id='C17', title='Minimum probability flow minimises the flow of the data',
      statement='The MPF solver hands the optimiser the (log of the) average over the sample of the sum over neighbouring states '
      'of exp((E(s)-E(s\'))/2) in the {0,1} basis, with its exact gradient when energy derivatives are given, the given limits '
      'and the converted initial guess, and returns the solution converted to {-1,1}. Only neighbours outside the data count '
      'if all_connected is off. Neighbour functions return all one-flip states and random states differing from the given one.',
      over=['inputs'], text='All data sets, parameters and limits within the listed sizes.',
      why='Tests fit one random data set and compare loosely; a wrong weight or gradient still converges near by.',
      files=['coniii/solvers.py', 'coniii/utils.py'],
      mech=[('MPF.solve, logK, K, list_adjacent_states', 'coniii/solvers.py'), ('adj, adj_sym, calc_de', 'coniii/utils.py'),
            ('split_concat_params', 'coniii/utils.py')],
      note='The optimiser is replaced by a stand-in returning arbitrary values; the objective it receives is compared with the '
      'definition for all real trial points.' + B),
 dict(id='C18', title='Pseudolikelihood (Ising) poses the exact conditional likelihoods',
      statement='For every spin the Ising pseudolikelihood solver minimises the negative log conditional likelihood of the data '
      'with its exact gradient, starting from the given guess, and combines the solutions: each field from its own spin, each '
      'coupling the average of both estimates, for a guess of any number type. The general route minimises the sum over spins, for any interactions described '
      'by the helper functions.',
      over=['inputs'], text='All data sets and real parameters within the listed sizes, arbitrary per-spin solutions.',
      why='Tests fit one data set with a loose tolerance, where a wrong gradient or symmetrisation goes unnoticed.',
      files=['coniii/solvers.py', 'coniii/utils.py'],
      mech=[('Pseudo._solve_ising, _solve_general', 'coniii/solvers.py'),
            ('define_pseudo_ising_helper_functions', 'coniii/utils.py')],
      note='As C17.' + B),
 dict(id='C19', title='Pseudolikelihood (Potts) poses the exact conditional likelihoods',
      statement='The Potts pseudolikelihood solver minimises the sum over spins of the negative log conditional likelihood of the '
      'three-state data, plus an optional cost, with its exact gradient, for a guess of any number type. The helper functions list the parameters and '
      'observables of each spin, for its state and every other state.',
      over=['inputs'], text='All data sets and real parameters within the listed sizes.',
      why='Tests fit one data set with a loose tolerance.', files=['coniii/solvers.py', 'coniii/utils.py'],
      mech=[('Pseudo._solve_potts', 'coniii/solvers.py'), ('define_pseudo_potts_helper_functions', 'coniii/utils.py')],
      note='As C17.' + B),
 dict(id='C20', title='The exact solvers solve the constraint equations',
      statement='Enumerate and SparseEnumerate hand the root finder or minimiser equations that are satisfied exactly where the '
      'model averages of the fitted observables equal the constraints, with unfitted parameters zero and no solution outside '
      'the parameter limit, and return its solution. The solver base class computes the constraints, default model and the log '
      'frequencies of states as documented.',
      over=['inputs'], text='Every subset of parameters, all real constraints, limits and trial points, an arbitrary model.',
      why='Tests solve a few random instances that converge anyway.', files=['coniii/solvers.py'],
      mech=[('Enumerate.solve', 'coniii/solvers.py'), ('SparseEnumerate.solve', 'coniii/solvers.py'),
            ('Solver.basic_setup, fill_in, set_insertion_ix, logp', 'coniii/solvers.py')],
      note='scipy routines are replaced by a stand-in returning arbitrary vectors.' + B),
 dict(id='C21', title='The Monte Carlo histogram solvers iterate as specified',
      statement='MCH and SparseMCH sample the current parameters before every learning round and after the last one, move the fitted '
      'parameters against the error scaled by eta and min(1, error norm) until a step limit is crossed, stop once all '
      'constraints are matched within the tolerances or the rounds are used up, report that in flag and error log, and return '
      'the parameters last tested, which are also those of the final model sample, for a guess of any number type.',
      over=['histories', 'inputs'], text='All sampling and prediction outcomes, constraints, guesses, tolerances and limits '
      'within the listed numbers of rounds and steps.',
      why='Tests run one noisy instance and look at the final error.', files=['coniii/solvers.py'],
      mech=[('MCH.solve, learn_parameters_mch, estimate_jac', 'coniii/solvers.py'),
            ('SparseMCH.solve, learn_parameters_mch', 'coniii/solvers.py')],
      note='Sampler and histogram prediction are replaced by stand-ins returning arbitrary values.' + B),
 dict(id='C22', title='Models use the parameters they were given',
      statement='Ising, Triplet and Potts models built from any accepted form (size, vector, matrix, lists of fields and couplings, '
      'real or whole numbers) hold the parameters of that form, reject inconsistent sizes, and use their current parameters (after any update) in '
      'energy, exact probabilities and averages, and for the sampler, which gets the requested sample size and iterations and the '
      'generator of the model.',
      over=['inputs', 'histories'], text='All real parameters before and after an update for each form and size within the bounds.',
      why='Tests build a few models and compare one energy.', files=['coniii/models.py'],
      mech=[('Ising, Triplet, Potts3: __init__, set_multipliers', 'coniii/models.py'),
            ('Model.generate_sample, setup_sampler, set_rng', 'coniii/models.py')],
      note='The samplers are replaced by stand-ins recording what they are asked for.' + B),
 dict(id='C23', title='The cluster expansion sums exactly the clusters above the threshold',
      statement='ClusterExpansion.solve keeps all single spins and every union of two kept clusters differing in one spin whose entropy '
      'difference (inclusion-exclusion over its subsets, relative to the reference) exceeds the threshold, each once. The entropy '
      'and the parameters returned in the {-1,1} basis are those of the reference plus the differences of the kept clusters; with all '
      'clusters kept they are exact. Known differences are reused. Cluster entropies fit the cooccurrences of the cluster, whatever '
      'the order of its indices.',
      over=['inputs', 'histories'], text='All data sets, thresholds, cluster entropies and couplings within the listed sizes.',
      why='Tests only construct the solver.', files=['coniii/solvers.py', 'coniii/mean_field_ising.py'],
      mech=[('ClusterExpansion.solve, deltaS, S, Sindependent, subsets', 'coniii/solvers.py'),
            ('findJmatrixAnalytic_CoocMat, coocExpectations, analyticEntropy, unsummedLogZ', 'coniii/mean_field_ising.py'),
            ('cooccurrence_matrix, coocCluster, JfullFromCluster, unflatten', 'coniii/mean_field_ising.py')],
      note='Cluster entropies are replaced by arbitrary values in the expansion and checked by themselves with a stand-in for the root '
      'finder.' + B),
 dict(id='C24', title='Regularised mean field compares the model with the data in one basis',
      statement='RegularizedMeanField.solve samples, for every strength tried, the model in the {-1,1} basis that is described by the '
      'mean-field matrix at that strength, scores it by the squared z-scores of the cooccurrences of the sample against those '
      'of the data, and returns the parameters of the best strength found. With reset_rng every trial samples with the same random '
      'numbers. The mean-field matrix and entropy follow from the eigendecomposition of the correlation matrix of the data, also if '
      'eigenvalues repeat and for every option of the prior and of the fields.',
      over=['inputs', 'histories'], text='All mean-field matrices, samples, strengths and eigendecompositions within the listed sizes.',
      why='Tests only construct the solver.', files=['coniii/solvers.py', 'coniii/mean_field_ising.py'],
      mech=[('RegularizedMeanField.solve, bracket1d', 'coniii/solvers.py'), ('SmeanField, JmeanField, isingDeltaCooc, coocStdevsFlat',
                                                                            'coniii/mean_field_ising.py')],
      note='Sampler, minimiser and eigendecomposition are replaced by stand-ins returning arbitrary values.' + B),
 dict(id='C25', title='Coarse graining combines the most similar columns and whole blocks',
      statement='coarse_grain_with_func combines, in every round, the most similar pair of the columns that are left until none or '
      'one is left, each column once; the coarse columns are those of the coarse-graining function and the returned lists hold the '
      'original columns of each. coarse_grain replaces every block of a lattice by the majority of its spins (ties independently and fairly at random), '
      'dropping what does not fill a block. The inputs are unchanged.',
      over=['inputs', 'schedules'], text='All real similarities of up to 5 columns in two rounds (thorough 7); all configurations and random '
      'choices of the lattices listed.', why='Tests coarse grain one sample with positive correlations.',
      files=['coniii/utils.py', 'coniii/ising/automaton.py'],
      mech=[('coarse_grain_with_func', 'coniii/utils.py'), ('coarse_grain', 'coniii/ising/automaton.py')],
      note='Similarity and coarse-graining functions are stand-ins; labels stand for the data, which are only passed on.' + B),
 dict(id='C26', title='Cluster and lattice Monte Carlo leave the Boltzmann distribution invariant',
      statement='One WolffIsing step, from a given or a random site, satisfies detailed balance for the model with the given fields and '
      'couplings (as vector or matrix), can flip single spins, and always contains the initial site in its cluster; generate_sample '
      'runs the requested number of steps, records them and leaves given initial states unchanged. Ising2D.flip_metropolis flips a site of the periodic lattice with the '
      'Metropolis probability of its energy. A systematic iteration visits each site once per sweep with its own field, a random '
      'one visits the requested number of uniformly chosen sites. Connected components of an adjacency matrix are its clusters.',
      over=['inputs', 'schedules'], text='All fields and couplings, all pairs of states and all outcomes of the random decisions within the '
      'listed sizes (lattices at least two sites wide where couplings matter).',
      why='No test runs these samplers; detailed balance is a statement about probabilities of all transitions.',
      files=['coniii/samplers.py', 'coniii/ising/automaton.py'],
      mech=[('WolffIsing.one_step, build_cluster, find_neighbors, generate_sample', 'coniii/samplers.py'),
            ('iterate_neighbors, iter_cluster', 'coniii/samplers.py'), ('Ising2D: __init__, iterate, flip_metropolis', 'coniii/ising/automaton.py')],
      note='Transition probabilities are summed over all outcomes of the random decisions as formulas of the parameters.' + B),
 dict(id='C27', title='The Ising front end describes one model in both bases',
      statement='ising.utils.Ising accepts fields and couplings as nothing, numbers, lists, tuples or arrays, rejects wrong numbers of them, and '
      'returns fields, couplings and exact averages of the same model in the {-1,1} and the {0,1} basis. neighbor_dE gives the energy '
      'differences of all single flips; find_basin follows the steepest flips from the given state, which it leaves unchanged, to a '
      'local minimum.',
      over=['inputs'], text='All real parameters and all states for the listed sizes (states with ties between flips excluded).',
      why='One test looks at shapes and a ferromagnet.', files=['coniii/ising/utils.py'],
      mech=[('Ising.__init__, correlations, fields, couplings, find_basin, neighbor_dE', 'coniii/ising/utils.py')],
      note='Averages are compared with Boltzmann sums written by the harness.' + B),
 dict(id='C28', title='Conditional likelihoods of pseudo_inverse_ising match their derivatives',
      statement='conditionalLogLikelihood is the sum over samples of the log probability of spin r given the others under the weight '
      'exp(-fJf), restricted to states of at least minSize spins; conditionalJacobian and conditionalHessian are the first and second '
      'derivatives of its negative, also with given cooccurrences. pseudoInverseIsing minimises these for each spin over the samples of '
      'at least minSize spins and returns the symmetric part of the minima. pseudoLogLikelihood sums over the spins. The same holds '
      'for the deprecated conditional methods of Pseudo, whose solution is converted to the {-1,1} basis.',
      over=['inputs'], text='All samples, couplings and minima within the listed sizes; derivatives are exact, not numerical.',
      why='Nothing tests this module.', files=['coniii/pseudo_inverse_ising.py', 'coniii/solvers.py'],
      mech=[('conditionalLogLikelihood, conditionalJacobian, conditionalHessian, pairCoocMat', 'coniii/pseudo_inverse_ising.py'),
            ('pseudoInverseIsing, pseudoLogLikelihood', 'coniii/pseudo_inverse_ising.py'),
            ('Pseudo.cond_log_likelihood, cond_jac, cond_hess, _solve_ising_deprecated', 'coniii/solvers.py')],
      note='The minimiser is a stand-in that examines objective, gradient and Hessian at arbitrary points.' + B),
 dict(id='C29', title='Helpers of the samplers agree with the model they describe',
      statement='The Heisenberg energy is minus the sum of couplings times scalar products of the spins, and grad_e and grad_e_theta are its '
      'derivatives by angles and couplings. check_e_logp returns every state of a sample once with its energy and log frequency. '
      'sample_ising samples the Ising model with the given parameters (vector, list or pair), seed, size and options, and rejects '
      'vectors of impossible length.',
      over=['inputs'], text='All angles, couplings, samples, energies and parameters within the listed sizes.',
      why='Tests only look at the shape of one sample.', files=['coniii/samplers.py', 'coniii/utils.py'],
      mech=[('calc_e, grad_e, grad_e_theta', 'coniii/samplers.py'), ('check_e_logp, sample_ising', 'coniii/samplers.py'),
            ('unique_rows', 'coniii/utils.py')],
      note='sin and cos are uninterpreted functions with their derivatives; the Metropolis sampler is a stand-in in sample_ising.' + B),
 dict(id='C30', title='Sampling is a function of the random generator given',
      statement='Two runs with generators in the same state give the same samples, whatever the state of any other generator: Metropolis '
      '(serial, parallel, conditional, Python and compiled), Potts3 and WolffIsing samplers, ParallelTempering with all its replicas, the models and '
      'the models made by solvers, also after set_rng, and the initial lattice of Ising2D. Successive calls use different draws, and '
      'replicas draw independently of each other.',
      over=['inputs', 'histories'], text='Every value of every draw of the given generator and of all others, all energies and parameters '
      'within the listed sizes.', why='Tests use one seed and do not repeat a run.', files=['coniii/samplers.py', 'coniii/models.py'],
      mech=[('Metropolis, Potts3, WolffIsing, ParallelTempering', 'coniii/samplers.py'), ('Model.setup_sampler, set_rng', 'coniii/models.py'),
            ('Ising2D.__init__', 'coniii/ising/automaton.py')],
      note='Self-composition: a generator is a function of its seed, unseeded ones are arbitrary. The compiled samplers are stand-ins '
      'determined by their seed in the symbolic run.' + B),
 dict(id='C31', title='Long chains and stochastic solvers converge',
      statement='Averages over ever longer samples of the Monte Carlo samplers approach the averages of the model, and the stochastic '
      'solvers (MCH, regularised mean field) approach parameters that reproduce the constraints.',
      over=['histories'], text='All seeds, in the limit of long chains.', why='Any finite run is one sample of a random variable.',
      files=['coniii/samplers.py', 'coniii/solvers.py'], mech=[('generate_sample', 'coniii/samplers.py'), ('MCH.solve', 'coniii/solvers.py')],
      note='', na='A limit statement about probabilities of unbounded histories: no bound on the steps makes it a solver query. Its '
      'ingredients (acceptance rule, detailed balance, the iteration) are C11, C13-C16, C21, C26.'),
 dict(id='C32', title='Floating-point results are accurate',
      statement='Energies, exact averages and likelihoods computed in float64 or high precision differ from the exact values by a bounded '
      'relative error, without overflow, for parameters of any magnitude.',
      over=['inputs'], text='All float64 parameters.', why='Tests use parameters of order one.',
      files=['coniii/enumerate.py', 'coniii/utils.py'], mech=[('fast_logsumexp', 'coniii/enumerate.py')],
      note='', na='exp and log in float64 have no theory in the available SMT solvers (their results depend on libm); all checks use exact '
      'real arithmetic.'),
 dict(id='C33', title='Parallel sampling does not depend on process scheduling',
      statement='The results of parallel sampling (Metropolis in Python and compiled, conditional sampling, Potts3, ParallelTempering, '
      'WolffIsing) are the same whatever the order in which the tasks run and however they are distributed over worker processes, each '
      'of which works on its own copy of the state of the parent. No two tasks use the same random draw.',
      over=['schedules', 'inputs'], text='Every order of 2 or 3 tasks, all tasks in one process or one process each, every value of every draw, '
      'within the listed sizes.', why='Tests see one schedule per run.',
      files=['coniii/samplers.py'], mech=[('generate_sample_parallel_py, generate_sample_parallel_boost, generate_cond_sample_boost', 'coniii/samplers.py'),
                                          ('ParallelTempering.burn_in_replicas, burn_and_exchange', 'coniii/samplers.py'),
                                          ('WolffIsing.generate_sample_parallel', 'coniii/samplers.py')],
      note='The pool is a stand-in that runs tasks in an order chosen by the schedule on copies of closures and arguments; preemption inside '
      'a task cannot matter because processes share no memory.' + B),
 dict(id='C34', title='Mean-field functions of homogeneous systems belong to one model',
      statement='For N equal spins with field h and pairwise interaction J > 0, exp(-FHomogeneous) is the integrand over the auxiliary field whose '
      'integral is the partition function of all 2^N states, dFdT is its derivative by temperature at T = 1, and avgmHomogeneous, '
      'avgxHomogeneous, SHomogeneous, independentEntropyHomogeneous and multiInfoHomogeneous are the averages, entropies and their '
      'difference under that integrand. logCosh is log(cosh(x)) for every x. m returns a fixed point of the mean-field equation, '
      'meanFieldStability the largest eigenvalue (in magnitude) of the linearised map.',
      over=['inputs'], text='All fields, positive couplings, auxiliary fields, frequencies and temperatures within the listed sizes.',
      why='Nothing tests these functions.', files=['coniii/mean_field_ising.py'],
      mech=[('FHomogeneous, dFdT, logCosh', 'coniii/mean_field_ising.py'),
            ('SHomogeneous, avgmHomogeneous, avgxHomogeneous, multiInfoHomogeneous, independentEntropyHomogeneous', 'coniii/mean_field_ising.py'),
            ('m, meanFieldStability', 'coniii/mean_field_ising.py')],
      note='Numerical integration is a stand-in: an arbitrary positive combination of values of the integrand.' + B),
]
