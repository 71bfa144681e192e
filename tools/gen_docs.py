#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here, in one place)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'bet/sample.py'
PROPS = []


def prop(id_, title, statement, over, text, why, files, mech, state=()):
    PROPS.append({'id': id_, 'title': title, 'statement': statement,
                  'quantifier': {'over': over.split(), 'text': text}, 'why_tests_cant': why,
                  'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                              'state': [{'name': a, 'meaning': b} for a, b in state]}})


NPROC = 'The suite runs under one MPI rank; every multi-rank branch (uneven blocks, empty blocks, collectives) is never taken. '

prop('P01', 'Localizing and globalizing distributed sample data loses nothing',
     'Splitting the data of a sample set or discretization over the processes gives every process a contiguous block and globalizing it again '
     'gives every process the identical whole arrays, in the original order, with the original number types. This holds for every array a sample set carries '
     'and for every sample set of a discretization, for any number of processes (also more processes than samples, and blocks of unequal or zero length), '
     'and edits made to local blocks before globalizing appear exactly at their place in the global arrays. When samples are appended or replaced on any process, '
     'counts, bounds and nearest-sample lookups are those of the new samples on every process.',
     'schedules inputs histories configurations', 'all process counts, block layouts, array shapes and types, sequences of localize/globalize/edit/copy, and rank interleavings',
     NPROC + 'With one rank localize and globalize are identities.',
     ['bet/util.py', S], [('gather of uneven blocks', 'bet/util.py:get_global_values'), ('per-field localize and globalize', S + ':sample_set_base.global_to_local/local_to_global'),
                          ('discretization-wide versions', S + ':discretization.local_to_global/global_to_local')],
     [('X and X_local arrays', 'the same data globally and as this process\'s block')])

prop('P02', 'Saving globalized and loading anywhere reproduces the object',
     'An object (sample set of any kind or discretization) saved globalized by any number of processes, and loaded by any number of processes, has the same class, the same '
     'arrays, domain and settings in every sample set it holds, and the same pointers. When localization is requested at load each process gets exactly its own block; '
     'a later save under the same name replaces the earlier one completely.',
     'schedules inputs histories configurations', 'all object kinds and contents, saving and loading process counts, name forms, repeated saves, rank interleavings at every file operation',
     NPROC + 'Save and load are tested with one rank, one layout, one name and no concurrent writer.',
     ['bet/util.py', S], [('save/load of sample sets and discretizations', 'bet/util.py:save_object/load_object'), ('pickled writer', 'bet/util.py:save_object')],
     [('<name>.p', 'the globalized pickle')])

prop('P03', 'Per-process saves give each process its own part back, or refuse',
     'An object saved per process gives each process of a job of the same size exactly the part it saved. A job of another size never gets wrong data: the load is refused '
     'on every process or returns the correct whole. Files of other objects in the same directory, and parts left by an earlier save with more processes, are never mixed in.',
     'schedules inputs histories configurations', 'all object kinds, contents, process counts at save and load, directory contents, repeated saves, rank interleavings at every file operation',
     NPROC + 'Per-process files of more than one process, leftover parts and look-alike names never occur in the tests.',
     ['bet/util.py'], [('per-process writer', 'bet/util.py:save_object (globalize=False)'), ('finding the parts', 'bet/util.py:load_object_parallel')], [('proc<N>_<name>.p', 'one process\'s part')])

prop('P04', 'An interrupted or failing save never yields silently wrong data',
     'If a save is hit by a crash, power loss, full disk, I/O error or short write, or a load by a read error or damaged file, then a later load returns one complete '
     'generation of the object (old or new, the same on all processes) or fails with an error; it never returns a mixture or a fragment. A save that failed on one process is not reported successful on another, '
     'and a save that reported success is complete on disk and is what later loads return.',
     'schedules crash_points fault_sequences histories', 'every disk operation as crash or error point, torn and lost writes, short reads and writes, every rank interleaving, any process counts before and after',
     'The tests never inject a disk fault, a crash or a concurrent process.',
     ['bet/util.py'], [('write, flush and close order', 'bet/util.py:save_object'), ('replacement of an earlier save', 'bet/util.py:save_object'), ('reading', 'bet/util.py:load_object')], [('<name>.p', 'durable pickle')])

prop('P05', 'The inverse solution is the defined measure, however work is split',
     'The inverse probability of each input cell is the probability of its output region shared over the input samples mapping into that region in proportion to their '
     'volumes (equally when volumes are equal), or the summed shares of emulated points. Results are identical on all processes and independent of the number of processes and data layout; the probability of every region hit '
     'is conserved, and local and global results agree.',
     'schedules inputs configurations', 'all discretizations, output probability sets, volumes, emulation sets, metrics, layouts, process counts and rank interleavings',
     NPROC + 'The tests check a few fixed one-rank discretizations.',
     ['bet/calculateP/calculateP.py', S], [('probabilities of samples', 'bet/calculateP/calculateP.py:prob'), ('probabilities on emulated points', 'bet/calculateP/calculateP.py:prob_on_emulated_samples'),
                                           ('with estimated volumes', 'bet/calculateP/calculateP.py:prob_with_emulated_volumes'), ('nearest-cell pointers', S + ':discretization.set_io_ptr')],
     [('io_ptr, emulated_ii_ptr, emulated_oo_ptr', 'which cell each sample lies in')])

prop('P06', 'Transferring probability to another sample set conserves it correctly',
     'Transferring the probabilities of one sample set to another through emulated points gives each new cell the sum of the shares of the points that lie in it, '
     'identically on all processes and independent of the number of processes and of how any of the sets is distributed. Total probability of cells that contain points is conserved; neither source set is changed.',
     'schedules inputs configurations', 'all sample sets (Voronoi, rectangles, balls, grids), emulated sets, layouts, process counts and interleavings',
     NPROC + 'Three fixed one-rank cases are tested.',
     ['bet/calculateP/calculateP.py', S], [('transfer through samples', 'bet/calculateP/calculateP.py:prob_from_sample_set'), ('through emulated points', 'bet/calculateP/calculateP.py:prob_from_sample_set_with_emulated_volumes'),
                                           ('of a discretization input', 'bet/calculateP/calculateP.py:prob_from_discretization_input')])

prop('P07', 'Cell volumes and radii use every emulated point exactly once',
     'Estimated cell volumes are the exact fraction of all emulated points that fall in each cell (each point counted once however many processes share the work), they sum to one over a partition, and '
     'exact 1D and 2D, Lebesgue, Monte Carlo-assumption and local volumes equal the geometric definition. Radii are the largest distance of an emulated point in the cell to its sample. All results are identical on every process, '
     'and local and global arrays agree.',
     'schedules inputs configurations', 'all sample sets, emulation counts (also fewer points than processes), metrics, process counts, random streams per process and interleavings',
     NPROC + 'Tested on one rank with loose statistical bounds.',
     [S, 'bet/util.py'], [('volume estimation', S + ':sample_set_base.estimate_volume/estimate_radii/estimate_radii_and_volume'), ('from an emulated set', S + ':sample_set_base.estimate_volume_emulated'),
                          ('exact', S + ':sample_set_base.exact_volume_1D/exact_volume_2D/exact_volume_lebesgue'), ('local', S + ':sample_set_base.estimate_local_volume')])

prop('P08', 'The approximated output distribution is one distribution on all processes',
     'Every simple-function approximation of the output distribution yields, on all processes, the same cells and the same probabilities, which are nonnegative and sum to one and equal the definition: '
     'uniform over the requested box, grid or count, or the share of all emulated draws nearest to each cell, each draw counted once. Using it in the inverse problem afterwards never relies on pointers computed for an earlier distribution.',
     'schedules inputs histories configurations', 'all constructors and argument kinds, emulation counts, process counts, random streams per process, rank interleavings',
     NPROC + 'Random draws per rank are never combined in the tests.',
     ['bet/calculateP/simpleFunP.py'], [('uniform partition constructors', 'bet/calculateP/simpleFunP.py:uniform_partition_*'), ('regular partition constructors', 'bet/calculateP/simpleFunP.py:regular_partition_*'),
                                        ('normal partition constructors', 'bet/calculateP/simpleFunP.py:normal_partition_normal_distribution/uniform_partition_normal_distribution'),
                                        ('user partition', 'bet/calculateP/simpleFunP.py:user_partition_user_distribution')])

prop('P09', 'A drawn sample set is the same single sample set on all processes',
     'Drawing samples (random, Latin hypercube, regular grid, from a distribution name or list) yields exactly the requested number of samples inside the requested domain; the blocks of the processes are together exactly the '
     'global set, which is identical everywhere. Latin hypercube and grid designs have their defining structure as one design over all processes, and random blocks of different processes are independent draws.',
     'schedules inputs configurations', 'all sampling kinds, numbers, dimensions, domains, process counts, random streams per process, interleavings',
     NPROC, ['bet/sampling/basicSampling.py', S], [('random draws', 'bet/sampling/basicSampling.py:random_sample_set'), ('Latin hypercube', 'bet/sampling/basicSampling.py:lhs_sample_set'), ('grid', 'bet/sampling/basicSampling.py:regular_sample_set')])

prop('P10', 'Every sample is sent to the model once and keeps its own output',
     'Evaluating the model over a sample set calls it with every sample exactly once over all processes, and each output, error estimate and Jacobian returned stays at the index of the input that produced it, in the '
     'global and the local arrays of every process. The saved discretization, if requested, is the returned one.',
     'schedules inputs configurations', 'all sample sources, numbers, model return forms, process counts, layouts, interleavings',
     NPROC, ['bet/sampling/basicSampling.py'], [('model evaluation', 'bet/sampling/basicSampling.py:sampler.compute_qoi_and_create_discretization'), ('samples then evaluation', 'bet/sampling/basicSampling.py:sampler.create_random_discretization')])

prop('P11', 'The QoI sets chosen in parallel are the globally optimal ones',
     'Choosing optimal sets of quantities of interest returns, on every process, exactly the best sets over all admissible combinations in order of average skewness or measure, without repetition, each with its own value and its own '
     'per-center values. The answer does not depend on the number of processes, also when there are more processes than combinations.',
     'schedules inputs configurations', 'all Jacobians, index subsets, tolerances, sizes, process counts and interleavings',
     NPROC, ['bet/sensitivity/chooseQoIs.py'], [('all combinations', 'bet/sensitivity/chooseQoIs.py:chooseOptQoIs_verbose'), ('incremental search', 'bet/sensitivity/chooseQoIs.py:chooseOptQoIs_large_verbose/find_good_sets'),
                                                ('redundant QoIs', 'bet/sensitivity/chooseQoIs.py:find_unique_vecs')])

prop('P12', 'Error estimates equal their definition and are the same on all processes',
     'Sampling error bounds of an event and model error estimates equal the defined sums over cells (neighbouring cells for sampling error, shifted outputs for model error), for events given as regions or sets, by sample volumes or emulated points. '
     'Every process gets the same number, for any process count and layout, and computing an estimate leaves the discretization\'s own outputs and probabilities unchanged.',
     'schedules inputs configurations', 'all discretizations, events, error sizes, emulation sets, layouts, process counts, interleavings',
     NPROC, ['bet/calculateP/calculateError.py'], [('cell neighbours', 'bet/calculateP/calculateError.py:cell_connectivity_exact/boundary_sets'), ('sampling error', 'bet/calculateP/calculateError.py:sampling_error'),
                                                   ('model error', 'bet/calculateP/calculateError.py:model_error')])

prop('P13', 'A surrogate evaluates each point from its nearest sample, on all processes',
     'A piecewise constant or linear surrogate built on any points takes value, error estimate and Jacobian of the nearest original sample (plus the first order term for linear), and event probabilities and errors computed with it are those of the surrogate. '
     'Results are identical for any process count and layout, and the original discretization is not changed.',
     'schedules inputs configurations', 'all discretizations, surrogate points, orders, events, layouts, process counts, interleavings',
     NPROC, ['bet/surrogates.py'], [('piecewise polynomial surrogate', 'bet/surrogates.py:piecewise_polynomial_surrogate.generate_for_input_set'), ('probability with error', 'bet/surrogates.py:piecewise_polynomial_surrogate.calculate_prob_for_sample_set_region')])

prop('P18', 'Density-based inversion gives one updated measure on all processes',
     'The weights of the updated measure are the ratios of observed to predicted density at each predicted output, cluster by cluster, identical on all processes for any data layout; the updated marginals, mixtures, fitted variables and cluster '
     'weights follow from them. Rejection sampling accepts the same samples on every process, each at most once and always the most likely one of a cluster; inputs, outputs and observations are unchanged. '
     'A discretization made from quantities learned from time series carries every sample\'s own cluster label and maps, on any number of processes and also after saving and loading.',
     'schedules inputs configurations', 'all data, clusters, bandwidths, initial weights, layouts, process counts, random streams per process, interleavings',
     NPROC, ['bet/calculateP/calculateR.py', 'bet/sampling/useLUQ.py'], [('density ratio', 'bet/calculateP/calculateR.py:invert'), ('learned quantities', 'bet/sampling/useLUQ.py:useLUQ.make_disc'), ('rejection', 'bet/calculateP/calculateR.py:invert_rejection_sampling'), ('marginals and mixtures', 'bet/calculateP/calculateR.py:invert_to_*')])

prop('P19', 'Resampling the updated measure gives exactly the requested samples',
     'Sampling from an updated measure yields exactly the requested number of samples over all processes, distributed over the clusters by their weights, each coordinate from its own distribution; the global set is identical on all processes and is the '
     'concatenation of the process blocks.',
     'schedules inputs configurations', 'all stored measures (parametric, kernel, mixture), numbers, dimensions, clusters, process counts, random streams, interleavings',
     NPROC, ['bet/sampling/basicSampling.py'], [('resampling', 'bet/sampling/basicSampling.py:sample_from_updated')])

EXTRA = os.path.join(HERE, 'tools', 'props_extra.py')
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

NA = globals().get('NA', [])
NOTE = ('Seeded search, not proof: holds on every simulated run explored. Trusts the simulated communicator (documented MPI semantics: rendezvous or buffered '
        'collectives, matching checked), the simulated raw file layer and the small reference model; all bet code, numpy and scipy run for real.')
NOTES = {
    'P04': 'Seeded search over fault kind x fault position x schedule, not proof. Trusts the simulated raw file layer (durability at flush+fsync or clean exit; crash keeps a prefix of unsynced writes) and the communicator.',
}
PROPS.sort(key=lambda d: d['id'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d in PROPS:
        f.write(json.dumps(d) + '\n')
na = {x['property'] for x in NA}
man = {'version': 1, 'setup_cmd': 'bash ./setup.sh',
       'checks': [{'property': d['id'], 'quick_cmd': './check %s quick' % d['id'], 'thorough_cmd': './check %s thorough' % d['id'],
                   'technique': 'deterministic simulation with fault injection: seeded search over rank schedules, faults and workloads against a reference model',
                   'level': 'exploration', 'level_note': NOTES.get(d['id'], NOTE)} for d in PROPS if d['id'] not in na],
       'not_applicable': NA,
       'notes': 'No hooks are needed in /repo: the seams are the import of mpi4py, the process-wide file API and numpy.random, replaced per simulated rank. '
                './check replay FILE re-runs a recorded violation; VERIF_RUNS=N changes the number of runs.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
