DD = T + "distributed/"
SIM = "stateless exploration of the real distributed code on a controlled process-grid runtime: every mesh, rank layout and configuration in the bound under several schedules and transport timings, compared with the serial component"

prop("C15", "Copies, checkpoints, mode switches and use never change a module's result",
     "After any sequence of train/eval switches, freezing, forward and backward passes with any batch size, deep copies, pickling, saving and loading of modules or state dicts and precision moves, a module computes the same outputs and gradients as a freshly built one with the same parameters. Using a module never modifies its parameters, constants or inputs, checkpoints hold exactly the parameters, and copies share no storage with their origin.",
     ["histories"], "every sequence of lifecycle operations up to the depth bound, for every public component",
     "Tests build a module, call it once and drop it; copies, checkpoints and sequences of uses are not exercised.",
     [T + "sht.py", T + "disco/convolution.py", T + "attention/attention.py", T + "spectral_convolution.py", T + "resample.py", T + "quadrature.py"],
     [("non-persistent constants, parameters in the state dict", T + "*/"), ("kernel selection", T + "attention/attention.py"), ("device/dtype moves", T + "disco/convolution.py _apply")],
     "explicit-state exploration of operation histories on the real modules, every history up to the depth bound", "All histories of depth 2 (quick) / 3 (thorough) over 22 operations and every component; CPU only.")
prop("C16", "Communication primitives deliver the right shards and exact adjoints",
     "On every process grid, rank layout, shard size (even or uneven), axis and dtype, each distributed primitive (copy, reduce, scatter, gather, reduce-scatter, transpose, halo exchange) returns on every rank exactly the mathematically defined shard and its backward is the documented adjoint. Splitting covers every index exactly once in balanced order, and the process-grid state follows every sequence of initialisation and finalisation.",
     ["inputs", "configurations", "schedules", "histories"], "all primitives x grids up to 4 ranks x layouts x shard sizes x axes x dtypes x schedules; all init/finalize sequences up to the depth bound",
     "The repository's distributed tests need several processes and are not part of the stable suite; they sample one grid shape and even sizes.",
     [DD + "primitives.py", DD + "utils.py", DD + "_amp_utils.py"], [("autograd communication functions", DD + "primitives.py"), ("process-grid state", DD + "utils.py")],
     SIM.replace("the serial component", "the mathematical definition"), "Complete within the bound; transport is simulated (unbuffered sends, in-order matching).")
prop("C17", "Distributed SHTs equal the serial transforms on every process grid",
     "For scalar and vector transforms in both directions, every process grid, rank layout, uneven split, truncation, grid, normalisation, number of leading dimensions (including fewer than ranks), dtype and memory layout, gathering the shards gives the serial transform. The same holds for input gradients, and inputs are not modified.",
     ["inputs", "configurations", "schedules"], "all transforms x grids up to 6 ranks x layouts x resolutions x truncations x norms x leading shapes x dtypes in the bound",
     "No stable test runs a distributed transform; uneven splits and leading dimensions smaller than the group are corner cases of the redistribution.",
     [DD + "distributed_sht.py", DD + "primitives.py"], [("transposes between space, order and degree sharding", DD + "distributed_sht.py"), ("padding of leading dims", DD + "primitives.py flatten_and_pad_leading_dims")],
     SIM, "Complete within the bound; simulated transport.")
prop("C18", "Distributed DISCO convolutions equal the serial layers on every grid",
     "For the convolution (reference, optimized and reordered/fused paths) and the transposed convolution, every process grid, uneven split, basis, cutoff, group and channel structure and local filter tensor (also empty or with one entry), the gathered output, input gradients and parameter gradients summed over ranks equal those of the serial layer. Shapes the serial layer refuses are refused on every rank.",
     ["inputs", "configurations", "schedules"], "both directions x paths x grids up to 6 ranks x layouts x geometries x channel/group structures x gradient subsets in the bound",
     "No stable test runs a distributed layer; group structures cut by the channel split, uneven shards and nearly empty local filters are rare corners.",
     [DD + "distributed_convolution.py", DD + "kernels/distributed_convolution_kernels.py", DD + "primitives.py"], [("filter tensor splitting", DD + "distributed_convolution.py _split_distributed_convolution_tensor_s2"), ("a2a orchestration", DD + "kernels/distributed_convolution_kernels.py")],
     SIM, "Complete within the bound; the fused path runs its CPU operators; simulated transport.")
prop("C19", "Distributed neighborhood attention equals the serial layer",
     "For self-, down- and up-sampling attention on every process grid, rank layout, uneven split, cutoff, head and channel count, option and gradient subset, the gathered output, input gradients and summed parameter gradients equal the serial layer's. Configurations whose halo is wider than a shard are refused on every rank instead of being computed wrongly.",
     ["inputs", "configurations", "schedules"], "process grids up to 6 ranks x layouts x geometries x options x aliasing x gradient subsets x schedules in the bound",
     "The ring kernels are CUDA-only, so no stable test runs the halo/ring orchestration at all.",
     [DD + "distributed_attention.py", DD + "primitives.py"], [("halo exchange", DD + "primitives.py polar_halo_exchange"), ("ring rotation and online softmax accumulation", DD + "distributed_attention.py")],
     SIM, "Complete within the bound; CUDA ring kernels replaced by CPU stand-ins of their documented contract.")
prop("C20", "Distributed resampling, quadrature and spectral conv equal the serial ones",
     "On every process grid, rank layout, shape pair, grid, mode, normalisation, group structure, bias and dtype, gathering the shards (or reading the replicated integral on any rank) gives the serial result, and input and documented parameter-gradient reductions give the serial gradients. A freshly built distributed layer starts with the weight scale of the serial one.",
     ["inputs", "configurations", "schedules"], "all three components x grids up to 6 ranks x layouts x shape/grid pairs x options x dtypes x gradient subsets in the bound",
     "No stable test runs these distributed components.",
     [DD + "distributed_resample.py", DD + "distributed_quadrature.py", DD + "distributed_spectral_convolution.py"], [("pole extension across ranks", DD + "distributed_resample.py _expand_poles"), ("sharded weights", DD + "distributed_spectral_convolution.py")],
     SIM, "Complete within the bound; simulated transport.")
prop("C21", "Distributed results are schedule-independent and deadlock-free",
     "For every interleaving of ranks at communication calls, every landing time of asynchronous data and every capture time of send buffers, each distributed component terminates, matches all its messages and returns bitwise the same outputs and gradients on every rank. No rank reads a buffer before its data arrived or overwrites one still being sent.",
     ["schedules"], "all rank schedules up to the stated number of reversed races x delivery x capture timings, for every distributed component on grids up to 4 (thorough 6) ranks",
     "A test runs one schedule on one transport; a missing wait or a reused buffer shows only under particular timings.",
     [DD + "primitives.py", DD + "distributed_attention.py", DD + "kernels/distributed_convolution_kernels.py"], [("asynchronous halo exchange", DD + "primitives.py"), ("prefetching ring exchange", DD + "distributed_attention.py")],
     "stateless model checking of the real code under a controlled scheduler with partial-order reduction (race reversal bound) and explicit delivery/capture nondeterminism", "Complete for one reversed race from every base schedule (quick: two-rank grids, elsewhere from one base schedule); thorough: two on up to three ranks.")
prop("C22", "An interrupted or concurrent elevation download never poisons the cache",
     "Whatever crash, torn write, network failure or concurrent process interrupts the elevation-map loader, every later call returns the complete map, downloads at most once more, and never again once a call succeeded. The returned values are the decoded, optionally resized map.",
     ["crash_points", "schedules", "histories", "fault_sequences"], "every event and every written byte as a crash point, every failing read, every two-process interleaving at event granularity, all histories up to depth 3",
     "The loader has no test; a crash between creating and completing the file is a timing accident.",
     [T + "utils.py"], [("download cache", T + "utils.py load_mola_elevation")],
     "exhaustive crash-point, torn-write, fault and two-process interleaving enumeration on the real function with stand-in network and decoder", "Complete for process crashes within the event bound; power loss (unsynced data) is outside.")

EX = T + "examples/"
prop("C23", "Dataset preparation survives interruption and never escapes or corrupts",
     "Whatever crash, torn write or dropped connection interrupts the 2D3DS dataset preparation, a later run produces the complete dataset with correct per-sample values and statistics, and a run on a complete dataset does not touch the network. Archives whose checksum is known are verified, extraction never writes outside the target directory, and the loaders return the stored samples.",
     ["crash_points", "fault_sequences", "inputs"], "every event and written-byte grid position as crash point, every dropped chunk, every archive of up to three members over an alphabet of entries, every pair of loader accesses",
     "The dataset code has no test; it depends on a network, on interruption points and on hostile archives.",
     [EX + "stanford_2d3ds_dataset.py"], [("download, verification, extraction, conversion", EX + "stanford_2d3ds_dataset.py Stanford2D3DSDownloader"), ("statistics and loaders", EX + "stanford_2d3ds_dataset.py")],
     "exhaustive crash-point, torn-write, network-fault and archive-content enumeration on the real downloader with stand-in network, image and HDF5 libraries", "Complete for process crashes within the event bound; one process at a time; power loss is outside.")
prop("C24", "The example PDE solvers integrate the equations they are named after",
     "The shallow water and reaction-diffusion solvers compute, for every spectral state, the Galerkin tendency of their equations on every supported grid, and advance it with the named multistep scheme for every number of steps. Wind/vorticity conversions, grid integrals, potential vorticity and initial conditions agree with their definitions, and the PDE dataset returns the solver's trajectory.",
     ["inputs", "configurations", "histories"], "grids x truncations x constants x a determining set of the polynomial tendency x step counts in the bound",
     "The solvers have no test; a wrong term, sign or scheme coefficient still gives plausible-looking fields.",
     [EX + "shallow_water_equations.py", EX + "pde_sphere.py", EX + "pde_dataset.py"], [("tendency", EX + "shallow_water_equations.py dudtspec"), ("time stepping", EX + "shallow_water_equations.py timestep")],
     "exhaustive exploration of a determining set of states of the polynomial tendency on the real solvers, compared with an independent evaluation of the equations", "Complete within the bound (the tendency is a polynomial of known degree, determined by the explored set).")
prop("C25", "Spherical losses, scores and statistics are exact area averages",
     "Segmentation scores and spherical losses equal the area-weighted quantities they are named after, computed over exactly the points that count (ignored labels and masked points contribute nothing), for every label map, class count, weighting and reduction. Running statistics equal the statistics of all samples seen, whatever their order.",
     ["inputs", "configurations", "histories"], "every pair of target and predicted label maps on small grids x classes x options; every mask x a determining set of fields; every ordered selection of samples",
     "Losses and metrics have no test; ignored points and rare classes change the result only slightly.",
     [EX + "losses.py", EX + "metrics.py"], [("losses", EX + "losses.py"), ("scores", EX + "metrics.py")],
     "exhaustive enumeration of label maps, masks and sample orders on the real losses and metrics against direct sums", "Complete on the small grids in the bound.")
prop("C26", "Example networks apply every layer on the grid its input lives on",
     "For every combination of options of the example networks (SFNO, LSNO, transformer, segformer, U-Net), each transform, convolution, attention and resampling layer is applied to a field on the grid it was built for. Evaluation does not depend on the other samples of the batch, commutes with admissible rotations about the axis when no position embedding breaks the symmetry, is repeatable, and survives copying and checkpointing; every parameter receives a gradient.",
     ["configurations", "inputs", "histories"], "networks x option products x batch splits x longitude shifts x lifecycle operations in the bound",
     "A layer built for another latitude grid of the same size runs without error; tests only smoke-test the networks.",
     [EX + "models/", EX + "models/_layers.py"], [("grid bookkeeping of encoder, blocks and decoder", EX + "models/"), ("shared layers", EX + "models/_layers.py")],
     "explicit exploration of the option space with a dataflow monitor on every executed operation of the real networks, plus exhaustive batch, shift and lifecycle operations", "Complete option product in the thorough tier; quick covers a third of the large products.")
prop("C27", "Ill-posed layers and misfitting inputs are refused, never computed on",
     "Every layer, serial or distributed, refuses constructor arguments that make no sense (longitude counts that are not multiples, groups or heads that do not divide the channels, non-positive cutoffs, unknown names) and accepts all others. Given a field that is not on its grid, has the wrong number of channels, or attention inputs whose batch sizes or dtypes differ, it raises or broadcasts exactly, never reads outside the input or returns a number, and works as before afterwards.",
     ["inputs", "configurations"], "every constructor argument tuple and every input shape, batch and dtype combination of the stated lattices, for every layer, also on simulated process grids",
     "Tests feed fitting inputs; kernels that index by precomputed tables return plausible numbers, or memory of other tensors, for inputs on another grid.",
     [T + "disco/convolution.py", T + "attention/attention.py", T + "attention/_attention_utils.py", T + "sht.py", T + "resample.py", T + "spectral_convolution.py", DD + "distributed_convolution.py", DD + "distributed_attention.py"],
     [("shape and dtype checks", T + "attention/_attention_utils.py"), ("constructor checks", T + "disco/convolution.py, attention/attention.py, spectral_convolution.py")],
     "explicit enumeration of the whole configuration and input-shape lattice on the real layers (and on simulated ranks) against a fits/does-not-fit oracle", "Complete on the stated lattices; exception types and messages are not judged.")
NOT_APPLICABLE = []
