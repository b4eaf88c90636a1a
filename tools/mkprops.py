#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
B = 'PyCTBN/PyCTBN/'
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': [B + f for f in files], 'mechanism': [{'name': n, 'where': B + w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': B + w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why, anchors=a))
NOTEST = 'The tests that exercise this code need a data set that is not in the repository and fail, and even with it they look at one binary/ternary data set.'

prop('C01', 'Residence times are exact for every parent configuration',
 'For every data set, node and parent set, whatever the mix of cardinalities, the estimated intensity matrix of a parent configuration carries, for every state of the node, a residence time equal to the sum of the time deltas of exactly those rows in which the node is in that state and the parents are in that configuration. Every row is counted once, so the residence times of a node sum to the total observed time.',
 ['inputs'], 'all trajectories, all nodes, all parent sets and all cardinality vectors (including mixed ones)',
 NOTEST, ['estimators/parameters_estimator.py', 'structure_graph/network_graph.py', 'structure_graph/set_of_cims.py'],
 [('compute_state_res_time_for_node', 'estimators/parameters_estimator.py'), ('build_time_scalar_indexing_structure_for_a_node', 'structure_graph/network_graph.py'), ('build_times_and_transitions_structures', 'structure_graph/set_of_cims.py')],
 observe=['the residence times of the SetOfCims returned for a node'])
prop('C02', 'Transition counts are exact for every parent configuration',
 'For every data set, node and parent set, the off-diagonal entry (x, y) of the transition matrix of a parent configuration is the number of rows in which the node is in x, its next recorded state is y, and the parents are in that configuration; rows whose next state is the end marker -1 count nowhere. The diagonal entry x is the number of transitions that leave x, that is the sum of the other entries of its row.',
 ['inputs'], 'all trajectories with or without end-of-trajectory markers, all nodes, parent sets and cardinality vectors',
 NOTEST, ['estimators/parameters_estimator.py', 'structure_graph/network_graph.py'],
 [('compute_state_transitions_for_a_node', 'estimators/parameters_estimator.py'), ('build_transition_scalar_indexing_structure_for_a_node', 'structure_graph/network_graph.py')],
 observe=['the transition matrices of the SetOfCims returned for a node'])
prop('C03', 'The parent-configuration table is complete, ordered and aligned',
 'For every list of parent cardinalities the configuration table has exactly one row per combination of parent states, with every entry below the cardinality of its own parent. Rows are in mixed-radix order with the first parent varying fastest, which is the order in which the estimated intensity matrices of the node are stored, so row i of the table describes matrix i.',
 ['inputs'], 'all lists of cardinalities, of any length',
 'The repository checks the table for a few equal-cardinality lists only, where a permutation of the columns cannot be seen.',
 ['structure_graph/network_graph.py'], [('build_p_comb_structure_for_a_node', 'structure_graph/network_graph.py')],
 observe=['the configuration table of a node', 'p_combs / actual_cims of a SetOfCims'])
prop('C04', 'Intensities are computed from the counts as specified, counts untouched',
 'An intensity matrix built from residence times T and transition counts M has off-diagonal entries (M[x,y]+1)/(T[x]+1) and diagonal entries (1-M[x,x])/(T[x]+1) for every matrix and vector of the same size. Building the matrices leaves the residence times and the transition counts as they were, and yields exactly one matrix per parent configuration, in the order of the configurations.',
 ['inputs'], 'all residence time vectors and transition matrices, of any size and any number of configurations',
 'One 3-state example is tested, with a comparison that does not cover the diagonal convention for other sizes nor the aliasing between counts and intensities.',
 ['structure_graph/conditional_intensity_matrix.py', 'structure_graph/set_of_cims.py'],
 [('compute_cim_coefficients', 'structure_graph/conditional_intensity_matrix.py'), ('build_cims', 'structure_graph/set_of_cims.py')])
prop('C05', 'Filtering intensity matrices by parent states returns exactly the matches',
 'Selecting the intensity matrices of a node with a mask of two or more parents and a combination of states returns exactly the matrices whose configuration agrees with the combination on every masked parent, in configuration order. With a mask of at most one parent all the matrices are returned, in order.',
 ['inputs'], 'all configuration tables, masks and combinations',
 'Only a handful of masks over one small table are tested.',
 ['structure_graph/set_of_cims.py'], [('filter_cims_with_mask', 'structure_graph/set_of_cims.py')])
prop('C06', 'Importing turns each trajectory into deltas and next states, none straddling',
 'For every list of trajectories, of any lengths and with any row labels and any time-column name, the imported data holds, trajectory after trajectory, one row per pair of consecutive rows: the elapsed time, the states before and the states after, columns in the order of the variables. No row combines two different trajectories, and the frames passed in are not modified.',
 ['inputs'], 'all lists of trajectories: lengths (one row included), index labels, column names, numbers of variables',
 'The importer tests need a missing data set; they compare one data set with its own processing.',
 ['utility/abstract_importer.py', 'utility/sample_importer.py', 'utility/json_importer.py'],
 [('compute_row_delta_sigle_samples_frame', 'utility/abstract_importer.py'), ('compute_row_delta_in_all_samples_frames', 'utility/abstract_importer.py'), ('build_list_of_samples_array', 'utility/abstract_importer.py')],
 observe=['times and complete_trajectory of the trajectories of a sample path'])
prop('C07', 'A sample path aligns labels, indexes, cardinalities and columns or refuses',
 'Whenever a sample path is built, the i-th label of its structure names the i-th variable column of the trajectories, has column index i and the cardinality declared for that label, and the edges are the declared ones. If the order of the data columns differs from the order of the declared variables, building the structure raises instead of mislabelling.',
 ['inputs'], 'all importers: labels, orders, index labels of the frames, present or absent prior structure',
 NOTEST, ['structure_graph/sample_path.py', 'structure_graph/trajectory.py', 'structure_graph/structure.py'],
 [('build_structure', 'structure_graph/sample_path.py'), ('build_trajectories', 'structure_graph/sample_path.py'), ('trajectory', 'structure_graph/trajectory.py')])
prop('C08', 'The family score is the Bayesian score of the counts',
 'For every list of intensity matrices and every pair of hyperparameters the family score equals the closed form of the CTBN Bayesian score: the sum over configurations and states of the marginal log-likelihood of the sojourn times and, over the states other than the current one, of that of the transitions. The transition hyperparameter is split evenly over the other states.',
 ['inputs'], 'all counts, residence times, cardinalities, numbers of configurations and hyperparameters',
 'No test in the repository checks a score value.',
 ['estimators/fam_score_calculator.py'], [('get_fam_score', 'estimators/fam_score_calculator.py'), ('single_cim_xu_marginal_likelihood_q', 'estimators/fam_score_calculator.py'), ('single_cim_xu_marginal_likelihood_theta', 'estimators/fam_score_calculator.py')])
prop('C09', 'The cache returns what was stored for the same parent set, and nothing else',
 'After any sequence of insertions, look-ups and clears, looking up a parent set returns the object inserted for an equal set since the last clear (the first one if it was inserted more than once), and nothing if there is none. Look-ups change nothing.',
 ['histories', 'inputs'], 'all sequences of operations on the cache and all parent sets',
 'The tests insert one or two entries.',
 ['utility/cache.py'], [('find', 'utility/cache.py'), ('put', 'utility/cache.py'), ('clear', 'utility/cache.py')])
prop('C10', 'The pairwise independence test follows its decision rule',
 'For a child with more than two states, when the observed transitions divided by the degrees of freedom of the comparison fall below the threshold the test answers dependent and the edge becomes non-removable; otherwise it answers independent exactly when, for every state, the ratio of the exit intensities lies within the two-sided F quantiles for the two exit counts and the chi-square statistic over all the other states does not exceed its quantile. In that case nothing else changes, and the degrees of freedom are (child states - 1)^2 times the product of the cardinalities of the tested parent and of the separating set.',
 ['inputs'], 'all pairs of count matrices, cardinalities, significance levels and thresholds (a ratio or statistic that is undefined, 0/0, counts as not exceeding its quantile)',
 NOTEST, ['estimators/structure_constraint_based_estimator.py'],
 [('independence_test', 'estimators/structure_constraint_based_estimator.py'), ('compute_thumb_value', 'estimators/structure_constraint_based_estimator.py')])
prop('C11', 'A conditional independence test compares every matching configuration',
 'Testing whether a parent can be dropped given a separating set answers independent if and only if the pairwise test accepts every pair made of a configuration of the separating set and a configuration of the separating set plus the tested parent that agree on the separating set. The answer uses the statistics of exactly those two parent sets of the child and does not depend on what is already cached for it.',
 ['inputs', 'histories'], 'all nodes, tested parents, separating sets (in any order), data sets, and contents of the cache left by earlier tests of the same child',
 NOTEST, ['estimators/structure_constraint_based_estimator.py'], [('complete_test', 'estimators/structure_constraint_based_estimator.py')])
prop('C12', 'The constraint-based search removes exactly the parents it has a test for',
 'For every child the search starts from all the other nodes and drops a candidate only after a conditional independence test on it, given a subset of the candidates still present, answered independent. When it stops, every remaining candidate either may not be removed or was tested, and found dependent, given every subset of the remaining candidates of every smaller size.',
 ['inputs', 'histories'], 'all outcomes of the independence tests, numbers of nodes and sets of non-removable edges',
 NOTEST, ['optimizers/constraint_based_optimizer.py', 'estimators/structure_estimator.py'],
 [('optimize_structure', 'optimizers/constraint_based_optimizer.py'), ('generate_possible_sub_sets_of_size', 'estimators/structure_estimator.py')])
prop('C13', 'Hill climbing never worsens the score and respects its limits',
 'For every data set, every random choice and every setting, hill climbing returns only edges from other nodes into the searched node, and the family score of the returned parent set is at least that of the prior parents alone. If the prior parents do not exceed the maximum number of parents, neither does the result; the search ends after the iteration limit or as soon as the non-improving iterations in a row exceed the patience.',
 ['inputs', 'schedules'], 'all score functions (data sets), sequences of random choices, prior edges and limits',
 NOTEST, ['optimizers/hill_climbing_search.py'], [('optimize_structure', 'optimizers/hill_climbing_search.py')])
prop('C14', 'Tabu search never blocks, never worsens the score and respects its limits',
 'For every data set, random choice and setting with positive tabu lengths, tabu search terminates without waiting on its tabu list, returns only edges from other nodes into the searched node, and the family score of the returned parent set is at least that of the prior parents alone. If the prior parents do not exceed the maximum number of parents, neither does the result; a node on the tabu list is not proposed again while another candidate is available.',
 ['inputs', 'schedules'], 'all score functions (data sets), sequences of random choices, prior edges, limits and tabu settings',
 NOTEST, ['optimizers/tabu_search.py'], [('optimize_structure', 'optimizers/tabu_search.py')])
prop('C15', 'Known edges are always part of the estimated structure',
 'Every edge given as prior knowledge to a structure estimator is in the estimated edge set, whatever the algorithm (constraint-based, hill climbing, tabu), the data and the limits. An edge that was not given as prior knowledge is never treated as known.',
 ['inputs', 'schedules'], 'all data sets, known edges, algorithms, limits and random choices',
 NOTEST, ['estimators/structure_estimator.py', 'optimizers/constraint_based_optimizer.py', 'optimizers/hill_climbing_search.py', 'optimizers/tabu_search.py'],
 [('build_removable_edges_matrix', 'estimators/structure_estimator.py')])
prop('C16', 'Structure estimation assembles per-node results into one complete graph',
 'Estimating a structure returns exactly the union of the edges found for every node, with the same limits for every node and for one process or several. The estimated graph has exactly the nodes of the data set, with or without edges, and exactly these edges, and its adjacency matrix is indexed in the order of the variables; the data and the prior structure are left as they were.',
 ['inputs', 'schedules'], 'all data sets, optimizers, limits, and numbers of processes',
 NOTEST, ['estimators/structure_score_based_estimator.py', 'estimators/structure_constraint_based_estimator.py', 'estimators/structure_estimator.py'],
 [('estimate_structure', 'estimators/structure_score_based_estimator.py'), ('ctpc_algorithm', 'estimators/structure_constraint_based_estimator.py'), ('adjacency_matrix', 'estimators/structure_estimator.py')])
prop('C17', 'Spurious edges are the estimated edges missing from the prior structure',
 'After an estimation with a declared prior structure, the spurious edges are exactly the estimated edges that are not in the prior structure. Without a prior structure there are none.',
 ['inputs'], 'all estimated graphs and prior structures over the same nodes',
 NOTEST, ['estimators/structure_estimator.py'], [('spurious_edges', 'estimators/structure_estimator.py')])
prop('C18', 'The score used in the search is the score of the current parents',
 'The score a search compares for a candidate parent set is the family score of the statistics of the node under exactly that parent set, computed from all the trajectories with the hyperparameters of the estimator. It depends on the parent set and not on the order in which parents were added.',
 ['inputs', 'histories'], 'all data sets, nodes, parent sets and histories of added and removed parents',
 NOTEST, ['estimators/structure_score_based_estimator.py', 'structure_graph/network_graph.py', 'estimators/parameters_estimator.py'],
 [('get_score_from_graph', 'estimators/structure_score_based_estimator.py'), ('fast_init', 'structure_graph/network_graph.py'), ('compute_parameters_for_node', 'estimators/parameters_estimator.py')])
prop('C19', 'Removing a node keeps the rest of the structure aligned',
 'Removing a node from a structure or a network removes its label, index, cardinality and every edge that touches it, and nothing else: the other nodes keep their label, index, cardinality, relative order and edges, and the number of columns of the data set stays the same. Look-ups by label keep agreeing with the labels, positions, indexes and cardinalities after any sequence of removals and edge changes.',
 ['inputs', 'histories'], 'all structures and all sequences of removals and edge additions and removals',
 'The tests remove one node from one three-node structure.',
 ['structure_graph/structure.py', 'structure_graph/network_graph.py'],
 [('remove_node', 'structure_graph/structure.py'), ('remove_node', 'structure_graph/network_graph.py'), ('get_node_indx', 'structure_graph/structure.py'), ('get_states_number', 'structure_graph/structure.py')])
prop('C20', 'Parents are reported in variable order with matching indexes and cardinalities',
 'For every network and node the reported parents are exactly the tails of the edges into the node, in the order of the variables, each with its own column index and cardinality. The column filters and index strides prepared for the estimation name the node first and then these parents, in the same order.',
 ['inputs', 'histories'], 'all networks, orders of edge insertion, nodes and cardinalities',
 NOTEST, ['structure_graph/network_graph.py'],
 [('get_ordered_by_indx_set_of_parents', 'structure_graph/network_graph.py'), ('fast_init', 'structure_graph/network_graph.py'), ('build_time_columns_filtering_for_a_node', 'structure_graph/network_graph.py'), ('build_transition_filtering_for_a_node', 'structure_graph/network_graph.py')])
prop('C21', 'Random graphs are simple and honour the requested density',
 'Every generated random graph has exactly the given nodes, with their cardinalities, and no self loop and no duplicate edge. With a fixed density the number of edges is exactly the density times n(n-1), and if that is not an integer generation raises; otherwise every ordered pair of distinct nodes is an edge exactly when its own draw with the given probability says so.',
 ['inputs', 'schedules'], 'all label lists, cardinalities, densities and random draws',
 'The tests draw a few graphs of one size.',
 ['structure_graph/network_generator.py'], [('generate_graph', 'structure_graph/network_generator.py')])
prop('C22', 'Random intensity matrices are valid and cover every parent configuration',
 'Every generated intensity matrix is square with the size of the cardinality of its node, has non-negative off-diagonal entries, a diagonal between -max and -min (to the 4 decimals kept), and rows that sum to zero up to the rounding of the entries. Every node gets exactly one matrix per configuration of its parents, stored in the order of the configuration table.',
 ['inputs', 'schedules'], 'all networks, cardinalities, ranges and random draws',
 'The tests sample a few matrices with loose bounds.',
 ['structure_graph/network_generator.py'], [('generate_cims', 'structure_graph/network_generator.py'), ('__generate_cim', 'structure_graph/network_generator.py')])
prop('C23', 'Sampling uses the rates and jump probabilities of the current parent states',
 'While a trajectory is sampled, the waiting time of a variable is exponential with rate minus the diagonal intensity of its current state given the current states of its parents, and the state after a jump is drawn from the off-diagonal row normalised to one. After a jump the waiting times of that variable and of its children are redrawn under the new states, the others are kept, and the variable with the smallest time jumps.',
 ['inputs', 'schedules', 'histories'], 'all networks, intensity matrices, current states and random draws',
 'The tests sample trajectories and look at lengths and at the order of times only.',
 ['structure_graph/trajectory_generator.py'], [('CTBN_Sample', 'structure_graph/trajectory_generator.py')])
prop('C24', 'Sampled trajectories are well formed and stop where asked',
 'A sampled trajectory starts with all variables in state 0 at time 0, every later row differs from the previous one in exactly one variable, with a valid state, at a time that does not decrease, and the last row is the end marker -1 for every variable. With a maximum number of transitions there are exactly that many jumps (unless an end time comes first); with an end time no jump happens at or after it (recorded times are kept to 4 decimals).',
 ['inputs', 'schedules', 'histories'], 'all networks, limits and random draws',
 'The tests check lengths and order of times for one network.',
 ['structure_graph/trajectory_generator.py'], [('CTBN_Sample', 'structure_graph/trajectory_generator.py')])
prop('C25', 'An exported network is read back as the same network',
 'Exporting variables, edges, intensity matrices and trajectories to JSON and importing the file again yields the same variables, edges and trajectories, and a trajectory generator built on the import uses, for every configuration of the parents of every node, the very matrix that was exported for it. This holds for any number of parents and any number of states.',
 ['inputs'], 'all networks, cardinalities (ten states and more included) and trajectories',
 'The tests only check that the exporter writes a file with the right number of trajectories.',
 ['utility/json_exporter.py', 'utility/json_importer.py', 'structure_graph/trajectory_generator.py'],
 [('cims_to_json', 'utility/json_exporter.py'), ('out_file', 'utility/json_exporter.py'), ('__init__', 'structure_graph/trajectory_generator.py'), ('import_data', 'utility/json_importer.py')])
prop('C26', 'Parallel trajectory generation yields one independent trajectory per request',
 'Generating several trajectories in parallel returns exactly one trajectory for every requested end time, or for every requested number of transitions when no end times are given, each sampled with its own limit. Different workers do not share the random state they start from.',
 ['inputs', 'schedules'], 'all lists of limits and all interleavings of the workers',
 'The tests count the trajectories and never compare them.',
 ['structure_graph/trajectory_generator.py'], [('multi_trajectory', 'structure_graph/trajectory_generator.py'), ('worker', 'structure_graph/trajectory_generator.py')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
