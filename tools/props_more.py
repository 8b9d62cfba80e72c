STATS = "pibronic/stats/stats.py"
JACK = "pibronic/stats/jackknife.py"
POST = "pibronic/data/postprocessing.py"
JULIA = "pibronic/julia_wrapper.py"
FSPY = "pibronic/data/file_structure.py"

prop("C06", "Z, E and Cv are the right functions of all stored samples",
     "For every set of stored samples the reported Z, E and Cv are the mean of g/rho and its first and second (central) finite "
     "difference estimates in beta, converted to energy and heat capacity, plus the analytic contribution of the sampling model. Both the "
     "plain and the ratio-of-partition-functions variant are covered, and every sample counts exactly once. The Boltzmann constant behind beta is that of CODATA in eV/K, and beta and T are each other's inverse.",
     ["inputs"], "all real sample values, temperatures, steps and analytic values for the bounded numbers of samples",
     "the tests check that the functions run on a sample file; a wrong factor of beta changes numbers nobody compares",
     [STATS], [("basic_statistical_analysis / alpha_statistical_analysis", STATS), ("statistical_analysis", STATS)],
     "bounded: <=5 samples (9 thorough); real arithmetic", ["dictionary of results / thermo file"])

prop("C07", "Jackknife means and errors are those of the leave-one-out estimates",
     "The jackknife estimate of E and Cv equals X times the full-sample estimate minus X-1 times the mean of the leave-one-out estimates, "
     "and the jackknife error is the standard deviation of exactly these leave-one-out estimates scaled to X samples.",
     ["inputs"], "all real sample values, temperatures and steps for the bounded numbers of samples",
     "the tests compare nothing: an index shifted by one or a stale partial sum gives plausible numbers",
     [JACK, STATS], [("calculate_jackknife_term / calculate_alpha_jackknife_term", JACK), ("jackknife functions", STATS)],
     "bounded: <=3 samples with all values arbitrary, <=5 (9 thorough) with some of them; real arithmetic", ["dictionary of results / jackknife file"])

prop("C08", "Loading results uses every stored sample once, paired, and never too many",
     "Reading back the samples of several jobs gives each stored sample at most once with its g, rho, g+ and g- kept together, and as many "
     "as are available up to the requested number. Files that lack one of the arrays are left out, zero weights are refused, and so is a single "
     "file with another number of samples than the receiving object was made for.",
     ["inputs", "configurations"], "all sample values, file sizes up to the bound, requested numbers and file orders",
     "the tests load one file with its own size", [PIMC],
     [("BoxResult.load_results / load_multiple_results", PIMC), ("BoxResultPM", PIMC)],
     "bounded: <=3 files, <=3 samples each; real arithmetic")

prop("C09", "Results of another model never enter an analysis",
     "Whatever files lie in the results directory, only samples whose recorded model and sampling-model hashes equal the current ones and "
     "whose beads and temperature are the requested ones contribute to a reported property. If there are none, or the analytic values of the "
     "sampling model are stale or absent at that temperature, nothing is reported.",
     ["configurations", "histories"], "every combination of matching, different and missing hashes over the bounded number of files, all sample values",
     "the tests have one set of consistent files", [STATS, POST, PIMC],
     [("prune_results_using_hashes / load_pimc_data", POST), ("starmap_wrapper / load_analytic_data", STATS)],
     "bounded: <=3 files; real arithmetic", ["thermo / jackknife files"])

prop("C10", "Externally computed reference values are stored for the right model and T",
     "The external program is asked for exactly the model, inverse temperature, basis size and bead number of the caller, and its answer is stored "
     "under the caller's temperature with the hashes of the models. Values already stored are kept if and only if they belong to the same "
     "models, and a failed run raises and leaves the stored file alone.",
     ["inputs", "histories", "fault_sequences"], "all temperatures and returned values in the bounds, every combination of hashes and of the outcome of the run",
     "the tests need a Julia installation and are skipped", [JULIA],
     [("prepare_sos_results / prepare_trotter_results / analytic", JULIA)],
     "bounded: one call on a file with <=2 stored temperatures; the external program is a stub returning arbitrary values")

VIOPY = "pibronic/vibronic/vibronic_model_io.py"
VKEYS = "pibronic/vibronic/vibronic_model_keys.py"
ORTHO = "pibronic/vibronic/orthonormal/create.py"
SEQ = "pibronic/vibronic/orthonormal/sequences.py"

prop("C11", "Model files keep every parameter",
     "Saving a coupled or diagonal model and loading it gives back every number of every order; left out orders are zeros. Loading into arrays of "
     "the caller fills these, and refuses a model of other dimensions. Two models compare equal exactly if no parameter differs by more than "
     "rounding (1e-8 plus 1e-5 of its value), absent orders counting as zeros, and a changed parameter changes the hash.",
     ["inputs", "configurations"], "all parameter values, every choice of which orders vanish or are absent, sizes up to the bound",
     "the tests use a few random models with all orders present", [VIOPY, PIMC],
     [("save_model_to_JSON / load_model_from_JSON / diagonal versions", VIOPY), ("_same_model / _same_diagonal_model", VIOPY),
      ("create_model_hash", VIOPY), ("ModelClass.load_model", PIMC)],
     "bounded: A<=2 (3 in the size harness), N<=3, orders up to quartic; numbers are exact", ["model files"])

prop("C12", "Derived diagonal models hold exactly the diagonal of the coupled model",
     "The harmonic and the sampling model made from a coupled model contain exactly the diagonal-in-surface parameters and the frequencies, and "
     "the coupled model stays as it was. Recalculated energies put every surface minimum on the lowest adiabatic surface of the coupled model; "
     "unsupported quadratic models are refused. The symmetry predicates are true exactly for symmetric parameters.",
     ["inputs", "configurations"], "all parameter values and choices of vanishing orders, sizes up to the bound",
     "the tests check that files appear, or one random model", [VIOPY],
     [("remove_coupling_from_model / create_harmonic_model / create_basic_diagonal_model", VIOPY),
      ("recalculate_energy_values_of_diagonal_model", VIOPY), ("model_parameters_are_symmetric_in_surfaces / _in_modes", VIOPY)],
     "bounded: A<=3, N<=2, orders up to quartic; real arithmetic", ["model files"])

prop("C13", "Artificial coupling is U M U^T of the saved original",
     "Whatever the source of the transformation matrix (given, re-used, newly created), the new coupled model is U M U^T of the model before the "
     "call for every parameter, frequencies unchanged. The backup holds the model before the call and the stored matrix is U. A matrix "
     "that is not orthonormal or a model that is not symmetric is refused, and nothing is overwritten.",
     ["inputs", "histories"], "all parameter values and matrices, sequences of up to two calls",
     "the tests check one random model and one source", [VIOPY],
     [("create_fake_coupled_model / create_coupling_from_diagonal_model", VIOPY)],
     "bounded: A<=3, N<=2, orders up to quartic; real arithmetic", ["coupled model, original model and orthonormal matrix files"])

prop("C14", "The tuning parameter selects the coupling strength monotonically",
     "For every strength in [0, 1] the transformation is the exponential of x times the fixed skew symmetric matrix of that order, where x "
     "belongs to the strongest table entry not above the requested fraction of the strongest; 0 gives the identity, 1 the last entry. Strengths "
     "outside are refused, and a larger strength never gives a weaker transformation.",
     ["inputs"], "all strengths and all increasing tables up to the bounded length",
     "the tests sample a few strengths of the shipped tables", [SEQ, ORTHO],
     [("select_pair / load_sequence / save_sequence", SEQ), ("create_orthonormal_matrix_lambda_close_to_identity", ORTHO)],
     "bounded: tables of <=5 entries (12 thorough), orders 2, 3, 5; real arithmetic")

FNAME = "pibronic/data/file_name.py"

prop("C15", "Parameters in result file names survive the way back",
     "The beads, temperature, job, sample count and basis size read from the path of a result file are those the file was named with, wherever "
     "the file lies and whatever its directories are called. Parameter lists hold every value once in increasing order, the lists of files "
     "exactly the files of their kind, and different parameters never give the same name.",
     ["inputs"], "all values and directory names within the bounded numbers of digits and characters",
     "no test reads a parameter from a path", [POST, FNAME],
     [("extract_*_from_*_file_path / extract_*_list", POST), ("retrive_*_file_list", POST), ("pimc / jackknife / sos / trotter", FNAME)],
     "bounded: numbers of <=4 digits, 1-3 arbitrary directory characters, <=2 files per list")

prop("C16", "Paths and hashes always belong to the current model and sampling model",
     "After any sequence of change_rho and hash generation a FileStructure has exactly the paths, templates and ids of a fresh one, and any hash it "
     "holds is that of the current sampling model. Different ids never share a directory or file of the sampling model, all paths are "
     "absolute, and directories_exist is true exactly if every directory exists.",
     ["histories", "inputs"], "all ids in the bounds and every sequence of up to three operations",
     "the tests create one object", [FSPY],
     [("FileStructure.__init__ / change_rho / make_rho_directories", FSPY), ("generate_model_hashes / valid_*_hash", FSPY)],
     "bounded: histories of 3 operations (5 thorough), ids of <=2 digits", ["paths of the object, directories on disk"])

JBOSS = "pibronic/server/job_boss.py"

prop("C17", "Submitted jobs together draw all requested samples",
     "The jobs of a submission consist of complete blocks of the requested size, none has more samples than allowed, together they draw at least "
     "the requested samples with no job more than needed. Every requested pair of temperature and beads is submitted with exactly the given "
     "parameters, one submission never affects another, and a failed submission or an unknown server raises.",
     ["inputs", "histories", "fault_sequences"], "all sample counts and block sizes in the bounds, ids, lists of temperatures and beads, which sbatch call fails",
     "the tests cannot reach a queueing system", [JBOSS],
     [("PimcSubmissionClass.setup_blocks_and_jobs / submit_jobs", JBOSS), ("SubmissionClass", JBOSS), ("extract_id_job_from_output", JBOSS)],
     "bounded: <=1e7 samples, <=1e5 block size, <=2 temperatures and bead counts, 2 submissions", ["the commands given to the queueing system"])

prop("C18", "Jobs compute with exactly the parameters they were given",
     "Every execution parameter written for a job is read back unchanged in the job, the string holds no comma or quote, beta and tau that are not "
     "given follow from temperature and beads, and model files and hashes are those of the given models at that time. The job scripts compute "
     "once with these parameters and write one result file named after beads, temperature and job id in the results of the scratch directory.",
     ["inputs", "configurations"], "all parameter values in the bounds, every choice of optional parameters and ways to read them",
     "no test reads the string of a job or starts a job script", [PIMC, "pibronic/server/nlogn_feynman/pimc.py", "pibronic/server/compute_canada/pimc.py"],
     [("BoxData.json_serialize / load_json_string / encode_self / from_json_*", PIMC), ("script", "pibronic/server/nlogn_feynman/pimc.py")],
     "bounded: numbers of <=6 digits, sampling itself stubbed (see C01, C02)", ["result files of the job"])

OPPY = "pibronic/vibronic/model_op.py"

prop("C19", "Models imported from .op files hold the numbers of the file",
     "Reading an MCTDH .op file gives, for every order and every pair of surfaces and modes, the number the file lists, the same one for the "
     "transposed surfaces (and modes of the quadratic terms), zero where the file lists none; the model file made from it holds the same "
     "numbers. Files read one after the other do not influence each other, incomplete files and frequencies or energies in other units than ev raise and leave the old model alone.",
     ["inputs", "configurations"], "all numbers, every choice of present sections, sizes up to the bound",
     "no test reads an .op file", [OPPY, VIOPY],
     [("read_model_op_file / extract_*", OPPY), ("create_coupling_from_op_file", VIOPY)],
     "bounded: A<=3, N<=3 with every pair of surfaces listed once, as VIBRON writes them", ["model file"])

prop("C20", "Every pair of beads and temperature with results is reported",
     "The analysis of a results directory writes exactly one report for every pair of bead count and temperature there are results for, and each "
     "one is computed by the requested method from the samples of exactly that pair and the analytic values of that temperature. Pairs "
     "without results are left out and do not keep the others from being reported; unknown methods or places are refused.",
     ["inputs", "configurations"], "every assignment of the bounded number of files to beads and temperatures, all sample values and analytic values, both methods",
     "the tests replace every function of the drivers", [STATS, POST],
     [("statistical_analysis_of_pimc / jackknife_analysis_of_pimc", STATS), ("extract_bead_paramater_list / extract_temperature_paramater_list", POST)],
     "bounded: <=3 files, 2 samples each; real arithmetic; process pool sequential, the jackknife itself is C07", ["thermo files"])

ES = "pibronic/vibronic/electronic_structure.py"

prop("C21", "An interrupted electronic structure workflow continues where it stopped",
     "The workflow runs its steps in order, each once, and records a step only after its calculation has completed; after a failure or kill at any "
     "point the next run does exactly the steps not recorded, with the geometry and number of states of the earlier ones. "
     "A finished workflow is not run again; calculations use the parameters of their own files and never share them, and unsupported ones are refused.",
     ["fault_sequences", "histories", "inputs"], "every place and kind of failure in up to two runs, every number of states and verdict in the bounds, every state file of the bounded length",
     "the tests need a queueing system and quantum chemistry programs and never interrupt a run", [ES],
     [("VibronExecutionClass.calculate_vibronic_model / advance / parse_input_parameters", ES), ("execute_* / parse_*", ES)],
     "bounded: one failing run with <=2 states or two with 1 state (thorough: three, or two with 3 states), state files of 2 lines (4)",
     ["state file, input files and jobs submitted"])

prop("C22", "Geometry, states and couplings are taken from the outputs as they are",
     "The optimised geometry replaces exactly the coordinates the output lists; the number of states is accepted exactly if every % singles value is above "
     "the cutoff; a calculation counts as complete exactly if one of the last ten complete lines says so. "
     "The input of VIBRON holds the couplings and states of the preparation, the orbitals dropped are those chosen, those suggested lie below the largest relative gap, output files are left alone.",
     ["inputs", "configurations"], "all numbers, all arrangements of lines within the bounds",
     "the tests have no outputs of the programs", [ES, "pibronic/helper.py"],
     [("parse_opt_output / parse_ip_output / parse_prepVibron_output / parse_vibron_output", ES), ("zmatClass", ES),
      ("verify_aces2_completed", ES), ("parse_hartree_fock_output (_estimate_dropmo / _estimate_NIP)", ES), ("skip_back_lines / skip_forward_lines", "pibronic/helper.py")],
     "bounded: <=3 coordinates or atoms, <=4 states, files of <=13 lines", ["VIBRON input files"])

prop("C23", "A job counts as finished only if the queueing system and its output say so",
     "Waiting for a job returns exactly when the queueing system reports it completed and its accounting record shows no failure; errors of "
     "the queueing system raise, a signal arriving early is not lost, the lock is always released and the state is asked for only with pauses. "
     "Memory errors and kills in the output file of exactly that job raise, missing outputs and unknown partitions too.",
     ["schedules", "fault_sequences", "inputs"], "every sequence of answers in the bounds, arrival of the signal, content of the output",
     "the tests cannot reach a queueing system", [JBOSS, ES],
     [("synchronize_with_job / SIGUSR1_handle / check_slurm_output / get_hostname / assert_partition_exists", JBOSS), ("wait_on_results", ES)],
     "bounded: <=4 answers of the queueing system (6 thorough), <=2 lines of accounting (4)")

HPY = "pibronic/vibronic/model_h.py"

prop("C24", "Generated models are valid, symmetric and inside the requested ranges",
     "A generated model has the requested surfaces and modes, equally spaced frequencies over the requested range, independently drawn energies inside the "
     "requested range and linear terms of at most the scaling over the frequency, all symmetric, and no other terms; the request is left alone. "
     "Templates are zero and independent of each other; parameters are accepted exactly if both dimensions are named and every shape fits them.",
     ["inputs", "configurations"], "all draws, ranges and scalings, every choice of defaults, sizes up to the bound",
     "the tests look at a few random models", [VIOPY],
     [("generate_vibronic_model_data / create_random_model / create_random_diagonal_model", VIOPY),
      ("verify_model_parameters / verify_diagonal_model_parameters", VIOPY), ("*_zeros_template_json_dict / *_shape_dict", VIOPY)],
     "bounded: A<=3, N<=3 (random sizes drawn <=4); real arithmetic", ["model dictionaries"])

prop("C25", "Models imported from .h files hold the numbers of the files",
     "Importing the .h and .in files of a VIBRON calculation gives the frequencies and energies they list and for every mode the linear couplings of its "
     "own block, whatever the other frequencies are and in whatever order the blocks come; the model file holds the same numbers. "
     "Files read one after the other are independent; incomplete or unsymmetric files raise and leave the old model alone.",
     ["inputs", "configurations"], "all energies and couplings, every choice of frequencies from the pool, arrangements of the blocks",
     "the test of the reader is commented out", [HPY, VIOPY],
     [("read_model_h_file / extract_energies / extract_linear_couplings / extract_normal_mode_frequencies", HPY), ("create_coupling_from_h_file", VIOPY)],
     "bounded: A<=3, N<=3, frequencies from a pool of 6 (equal ones, parts of each other, trailing zeros)", ["model file"])

PLT = "pibronic/plotting/plotting.py"

prop("C26", "Plots show the reported values at their own beads, temperature and samples",
     "Every point handed to the drawing library is the value and error of the report with exactly that number of beads, temperature and samples, or the deviation "
     "in percent of the value times the sampling partition function from the reference of the same model and temperature; combinations without a report have no point. "
     "Reports of other models are left out, and missing reference values raise instead of being taken from another model.",
     ["inputs", "configurations"], "every assignment of the bounded number of reports to beads, temperatures, samples and hashes, all values",
     "no test looks at the plotting classes", [PLT],
     [("plot_Z_test / plot_original_Z_test / plot_original_Z_vs_diagonal_test", PLT), ("load_analytical_original / load_analytical_sampling / load_sos / load_trotter_coupled", PLT)],
     "bounded: <=2 reports for each sampling model (3 thorough); real arithmetic; matplotlib replaced by a recorder", ["points given to the drawing library"])

AUTO = "pibronic/vibronic/model_auto.py"

prop("C27", "Models imported from cp.auto files hold the numbers of the files",
     "Reading a cp.auto file gives the reference Hamiltonian, the frequencies in eV and every linear, diagonal and off-diagonal quadratic coupling the file "
     "lists, each at its own mode or pair of modes and surfaces, symmetric in the modes, whatever the signs and with or without blank lines and rules. Files read one after the "
     "other are independent; files which end early or are not symmetric in the surfaces raise, and no file is changed.",
     ["inputs", "configurations"], "all energies, frequencies and couplings of the fixed size the reader is made for, every mode with an unsymmetric block",
     "no test reads a cp.auto file", [AUTO, VIOPY],
     [("read_model_auto_file and its fill_in_* / confirm_symmetry_* helpers", AUTO), ("read_model_auto_file (imported)", VIOPY)],
     "bounded: A=2, N=12 (the only sizes the reader knows)")

prop("C28", "The reported Z is the mean of the exact ratios of the samples of all jobs",
     "From the submission of a simulation to the report: the reported Z is the mean, over the samples of every job, of the exact g/rho of the stored models at the "
     "coordinates drawn in that job, and E and Cv are the finite differences of exactly those samples plus the analytic values of the sampling model. Jobs never overwrite or "
     "leave out each other's samples, and the report is named by beads, temperature and the samples of all jobs.",
     ["inputs", "configurations"], "all models, draws and steps of beta, every content of the result files, several jobs and blocks",
     "the tests look at single steps with fixed results", [PIMC, JBOSS, "pibronic/stats/stats.py", "pibronic/data/postprocessing.py"],
     [("PimcSubmissionClass.submit_jobs", JBOSS), ("job script", "pibronic/server/nlogn_feynman/pimc.py"), ("block_compute_pm", PIMC),
      ("statistical_analysis_of_pimc", "pibronic/stats/stats.py")],
     "bounded: A<=2, N<=2, P=3, <=4 jobs, <=8 samples, blocks of <=2; real arithmetic", ["result files and reports"])

SEQ = "pibronic/vibronic/orthonormal/sequences.py"
prop("C29", "Generated tables of orthonormal matrices list only new largest distances",
     "For every shape of the distance from the identity as a function of x (known at the points of the grid, and below its largest value at the end of it): the turning points and "
     "intervals found are exactly the ends of the stretches of grid points at which the distance is at least that of every earlier point. The generated table lists, "
     "at equally spaced ascending x inside these intervals, the distance at exactly that x, up to the last point before a quarter of the range 2*sqrt(order); a table that is too short is "
     "refused and the old one left alone. The tables for plotting give every value at its own x and mark exactly those intervals and turning points.",
     ["inputs", "configurations"], "all distances at the points of the grid, orders 2 to 4", "the tests read the stored tables and generate none",
     [SEQ], [("list_of_turning_points", SEQ), ("generate_full_monotonic_sequence", SEQ), ("find_first_turn_around_point", SEQ), ("*_for_plotting", SEQ)],
     "bounded: grids of <=8 points; real arithmetic; the matrix exponential is arbitrary at each x", ["sequence and x pair files"])

GRID = "pibronic/plotting/grid_plots.py"
prop("C30", "Grids of a model show the elements of that model",
     "For every original and coupled model of a data set the grids of energies, linear and quadratic terms show in the square of row a and column b the element of surfaces a and b of the "
     "stored model, marked '+', '-' or '0' by the sign of that element, one grid for every mode (pair of modes), each saved in the file named by model, data set and modes. "
     "Which sampling model is chosen, and whether it exists, makes no difference. An order which either model lacks is refused and nothing is drawn.",
     ["inputs", "configurations"], "all elements and signs, missing orders, data sets and sampling models", "no test draws a grid",
     [GRID, "pibronic/plotting/prepare.py"], [("plotGrids.annotate_intensity_grid", GRID), ("generate_sign_array", GRID), ("plot_*_grids", GRID)],
     "bounded: A<=3, N<=2; matplotlib replaced by a recorder", ["figures given to the drawing library"])

# ---- stated, but out of reach ---------------------------------------------------------------------------------------
prop("C91", "Electronic structure jobs are submitted to the partition of their host",
     "Every calculation of the electronic structure workflow is submitted to SLURM exactly once, on the partition of the host it runs on, and the id SLURM answers is the one waited for.",
     ["configurations"], "all hosts and partitions", "the tests have no queueing system", [ES], [("submit_job", ES), ("prepare_job_feynman", JBOSS)], "", claimed=False)
NA.append(("C91", "every step asks job_boss for partition and hostname, which do not exist, and submit_job calls decode on a str: on the pinned commit each submission fails, "
           "and which behaviour is meant cannot be read off the repository. What lies behind this call is decided by C21 with a stand-in for it."))
prop("C92", "A whole study runs every stage on the models of the stage before",
     "The driver of a whole study runs import, sampling, reference values and analysis one after the other on the same pair of models and stops at the first stage that fails.",
     ["histories"], "all sequences of stages", "there is no test of the driver", ["pibronic/everything.py"], [("execute", "pibronic/everything.py")], "", claimed=False)
NA.append(("C92", "execute always fails before its first stage (the input files are looked for below the path of a module file), and the later stages pass ids to functions which take a FileStructure: there is no execution to encode; the stages are decided by C10, C17-C20 and C28."))
prop("C93", "The external reference values are those of the model",
     "The sum-over-states and Trotter values which the Julia programs print are the partition function, energy and heat capacity of the model they are given.",
     ["inputs"], "all models and temperatures", "the tests use stored numbers", ["pibronic/julia_wrapper.py"], [("external programs", "pibronic/julia_wrapper.py")], "", claimed=False)
NA.append(("C93", "the Julia programs are not part of the repository: there is no code to encode. Arguments, parsing and storage of their output are decided by C10."))
