prop('P14', 'Marginals and selections of a distributed result are those of the whole',
     'One and two dimensional marginals of a probability computed on distributed samples, their smoothed versions, and selections of the most or least likely samples or of samples in a region are those of the whole result: every sample counts exactly once '
     'with its own probability, volume and output, on any number of processes and for any distribution of the data. All processes get the same answer, the analysed object is unchanged, and each plot file is written by one process and complete when the call returns.',
     'schedules inputs configurations', 'all results, bin numbers, selections, data layouts (also results only held locally), process counts, interleavings at every file operation',
     NPROC + 'Histograms of one process are the whole histogram.',
     ['bet/postProcess/plotP.py', 'bet/postProcess/postTools.py'], [('marginals', 'bet/postProcess/plotP.py:calculate_1D_marginal_probs/calculate_2D_marginal_probs'), ('smoothing', 'bet/postProcess/plotP.py:smooth_marginals_1D/smooth_marginals_2D'),
                                                                  ('selections', 'bet/postProcess/postTools.py:sample_prob/sort_by_rho/sample_highest_prob/sample_lowest_prob/in_range/out_of_range')])

prop('P15', 'Clipping, merging, slicing, copying and normalizing keep samples whole',
     'Clipping a distributed set or discretization keeps the first samples, merging keeps every sample of both exactly once, choosing inputs and outputs keeps exactly the chosen components, copying gives an independent equal object, and normalizing a domain can be undone exactly. Two objects of the same kind compare equal exactly when all their contents are equal. '
     'In every result inputs and outputs stay in step, the parts on the processes are together the global arrays, all processes agree, the sets attached to the discretization are kept and the source object is unchanged.',
     'schedules inputs configurations histories', 'all sets and discretizations, fields present, data layouts, process counts, interleavings',
     NPROC + 'Local and global arrays are the same array in the tests.',
     [S], [('clip', S + ':sample_set_base.clip/discretization.clip'), ('merge', S + ':voronoi_sample_set.merge/discretization.merge'), ('slice', S + ':discretization.choose_inputs_outputs'),
           ('copy', S + ':sample_set_base.copy'), ('normalize', S + ':sample_set_base.normalize_domain/undo_normalize_domain')])

prop('P16', 'Results always follow from the current contents of a discretization',
     'In any history of operations on one discretization (replacing or reweighting the output distribution, replacing input, output or emulated samples, new volumes, localizing, globalizing, copying, clipping, saving and loading, and probability computations by any method in between) '
     'every probability, pointer, volume and nearest-sample lookup is the one that follows from the contents at that moment; nothing computed for earlier contents is ever used, and unrelated contents do not change.',
     'histories schedules inputs configurations', 'all sequences of the listed operations, contents, data layouts, process counts and interleavings',
     'The tests build a fresh object per case and call one operation; a cached pointer or search tree never meets changed contents.',
     [S, 'bet/calculateP/calculateP.py'], [('pointers', S + ':discretization.set_io_ptr/set_emulated_ii_ptr/globalize_ptrs'), ('setters', S + ':discretization.set_output_probability_set/set_input_sample_set/set_emulated_input_sample_set'),
                                           ('search tree', S + ':sample_set_base.set_kdtree/query')],
     [('_io_ptr, _emulated_ii_ptr, _kdtree', 'cached results that must match the contents')])

prop('P17', 'Without mpi4py everything works as a job of one process',
     'When mpi4py cannot be imported, sampling, model evaluation, volumes, probabilities, error estimates, surrogates, QoI selection, density inversion, post-processing, saving and loading work, and give exactly the results of a job of one process with mpi4py.',
     'inputs histories configurations fault_sequences', 'all workloads of the other properties run on one process, also under disk faults',
     'The suite runs in one environment, with mpi4py; the replacement communicator is never used.',
     ['bet/Comm.py'], [('replacement communicator', 'bet/Comm.py:comm_for_no_mpi4py'), ('selection', 'bet/Comm.py:module')])

prop('P20', 'An analysis spread over jobs and restarts gives the uninterrupted answer',
     'Sampling and evaluating a model in one job, computing output distribution, volumes and probabilities in a second, and marginals, selections and transferred probabilities in a third, with different numbers of processes and any stage interrupted by a crash or disk error and run again, gives the results '
     'that follow from the samples drawn: every stage sees exactly what the previous one saved, finishes, and all processes agree.',
     'histories schedules crash_points fault_sequences configurations', 'all stage process counts, sampling kinds, distributions, volume methods, save forms, faults at any disk operation of any stage, interleavings',
     'No test crosses stages, jobs or process counts, or restarts after a fault.',
     ['bet/sampling/basicSampling.py', 'bet/util.py', 'bet/calculateP/calculateP.py', 'bet/calculateP/simpleFunP.py', 'bet/postProcess/plotP.py'],
     [('stage 1', 'bet/sampling/basicSampling.py:sampler.compute_qoi_and_create_discretization'), ('stage 2', 'bet/calculateP/calculateP.py:prob/prob_on_emulated_samples'), ('stage 3', 'bet/postProcess/plotP.py:calculate_1D_marginal_probs'),
      ('between stages', 'bet/util.py:save_object/load_object/load_object_parallel')])

prop('P21', 'Gradients at the centers come from each center\'s own cluster, on all processes',
     'The points placed around given centers for gradient estimation (forward and centered difference stencils, random clusters spread evenly over a ball cut by the domain) are the requested number, in the documented order, within the requested radius and domain, and the same on all processes. '
     'After the model has been evaluated at them by any number of processes, the gradients computed by forward differences, centered differences or radial basis interpolation are those defined by each center\'s own cluster (exact for linear maps, non-numbers treated as documented), '
     'each center keeps its own input and output, all processes agree, and the cluster data are unchanged.',
     'schedules inputs configurations', 'all center sets, radii, norms, domains, kernels and shape parameters, models (also ones returning non-numbers), process counts, interleavings, data layouts',
     NPROC + 'The tests check shapes and norms of gradients, not their values, on one process.',
     ['bet/sensitivity/gradients.py', 'bet/util.py'], [('clusters', 'bet/sensitivity/gradients.py:sample_lp_ball/pick_ffd_points/pick_cfd_points'),
                                                      ('gradients', 'bet/sensitivity/gradients.py:calculate_gradients_ffd/calculate_gradients_cfd/calculate_gradients_rbf'),
                                                      ('cleaning', 'bet/util.py:clean_data')])

prop('P22', 'Densities and distances of measures follow from their current definitions',
     'The density of a measure (per Voronoi cell, random variable, Gaussian mixture, kernel estimate) and its marginals at given points are those of its current samples, probabilities and volumes, however these are spread over the processes and whatever was evaluated before. '
     'The distance between two measures is the chosen functional of their two densities at the current comparison points, or of their marginals over the range covering both; comparison points drawn at random fill the box around both sets. '
     'Results are the same on all processes, do not depend on earlier comparisons made with the same object, and comparing does not change the measures.',
     'histories schedules inputs configurations', 'all pairs of measures, data layouts (also local only), sequences of comparison point changes, distances, normalizations and measure updates, process counts, interleavings',
     NPROC + 'The tests compare a set with itself or check symmetry, with one comparison per object.',
     ['bet/postProcess/compareP.py', S], [('comparison', 'bet/postProcess/compareP.py:compare.set_compare_set/distance/distance_marginal/distance_marginal_quad'),
                                          ('densities', S + ':sample_set_base.pdf/marginal_pdf/evaluate_pdf/evaluate_pdf_marginal')],
     [('pdfs1, pdfs2', 'densities at the current comparison points')])

prop('P23', 'Plots show each sample\'s own data, one complete file per plot',
     'A plot of samples, of the data domain, of Voronoi cells, of marginal probabilities or of marginal densities draws exactly the data of the whole result: every requested sample or cell once, at its own coordinates, with its own colour value, probability or density, '
     'the requested coordinates against each other, and the reference value where it is. This does not depend on the number of processes, on how the data are spread over them, or on plots made before. '
     'Each plot file is written by one process under the requested name and is complete when the call returns on any process; the plotted object is unchanged.',
     'schedules inputs histories configurations', 'all sets and dimensions, colourings, projections, references, layouts, process counts, sequences of plots, and interleavings of file operations and collectives',
     'The tests only check that plotting calls do not raise, on one process, and look at no figure.',
     ['bet/postProcess/plotDomains.py', 'bet/postProcess/plotVoronoi.py', 'bet/postProcess/plotP.py'],
     [('scatter plots', 'bet/postProcess/plotDomains.py:scatter_2D/scatter_3D/scatter_rhoD/scatter_2D_multi'), ('data domain', 'bet/postProcess/plotDomains.py:show_data_domain_2D/show_data_domain_multi'),
      ('Voronoi cells', 'bet/postProcess/plotVoronoi.py:plot_1D_voronoi/plot_2D_voronoi'), ('marginals', 'bet/postProcess/plotP.py:plot_1D_marginal_probs/plot_2D_marginal_probs/plot_2D_marginal_contours/plot_1d_marginal_densities')])

prop('P24', 'Requests that do not fit are refused everywhere and leave all data as they were',
     'A request that does not fit is refused with an error on every process of the job: values, domains, reference values, evaluation points or emulated sets of the wrong dimension, arrays whose lengths disagree, objects of the wrong type, missing parts (probabilities, Jacobians, reference values, '
     'error estimates, emulated samples, regions, comparison points), unsupported orders, kernels, norms, measures or sizes. No process is left waiting, the objects involved keep their contents, and later valid requests on the same objects give the same results as if the refused request had never been made.',
     'inputs histories schedules configurations', 'all kinds of ill-fitting request made by every process alike, in any sequence, on sets and discretizations of any size, dimension and layout, for any number of processes and interleavings',
     'The tests try a few refusals on one process and never look at the object afterwards; a process that refuses alone leaves the others waiting.',
     [S, 'bet/calculateP/calculateP.py', 'bet/calculateP/calculateError.py', 'bet/calculateP/simpleFunP.py', 'bet/surrogates.py', 'bet/sampling/basicSampling.py', 'bet/postProcess/compareP.py', 'bet/sensitivity/chooseQoIs.py'],
     [('sets', S + ':sample_set_base.check_num/set_values/set_domain/set_reference_value'), ('discretizations', S + ':discretization.check_nums/set_*_set'), ('distributions', 'bet/calculateP/simpleFunP.py:check_inputs'),
      ('error estimates', 'bet/calculateP/calculateError.py:sampling_error/model_error'), ('surrogates', 'bet/surrogates.py:piecewise_polynomial_surrogate')])

prop('P25', 'The form in which data are handed over does not matter, and they are never changed',
     'The same numbers handed over in another form give the same results on every process: whole numbers as integers or as floats, arrays in row or column order, views with strides or reversed, read-only arrays, sample tables as nested lists, transposed or (in one dimension) flat, sizes and cell counts as lists. '
     'What the caller hands over - values, domains, probabilities, volumes, Jacobians, regions, reference values, error estimates, evaluation points, sizes, index lists, parameters of random variables - is never changed, whatever is computed with it.',
     'inputs schedules configurations', 'all operations on sample sets and discretizations (volumes, inverse problems, error estimates, surrogates, marginals, selections, densities, gradients, comparisons, sampling, saving), all forms of each argument, layouts, process counts and interleavings',
     'The tests hand over fresh contiguous float arrays and do not look at them again; integer truncation, transposed tables and in-place work on borrowed arrays show only in other forms.',
     [S, 'bet/util.py', 'bet/calculateP/calculateP.py', 'bet/calculateP/simpleFunP.py', 'bet/calculateP/calculateR.py', 'bet/calculateP/calculateError.py', 'bet/surrogates.py', 'bet/sampling/basicSampling.py', 'bet/sensitivity/gradients.py', 'bet/postProcess/plotP.py'],
     [('tables of samples', 'bet/util.py:fix_dimensions_data'), ('sets', S + ':sample_set_base.set_values/normalize_domain/append_values'), ('distributions', 'bet/calculateP/simpleFunP.py:*_rectangle_size/*_normal_distribution'), ('surrogates', 'bet/surrogates.py:generate_for_input_set')])
