"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))


PIPE = "caput/pipeline/_pipeline.py"
prop("C01", "Pipeline products reach every consumer exactly once, in order",
 "In any pipeline run, every product a task returns from setup, next or finish under an output key is handed to every unfinished task that names that key under `in` or `requires` exactly once per slot, paired positionally across `in` keys, in the order it was produced, and as the same object; nothing else is ever handed over. Products under a key that matches no allowed key pattern, and None returns, are delivered to nobody; several keys unpack the returned sequence position by position. A product that arrives for a `requires` slot already filled, or for a task past the stage that could take it, raises a pipeline error instead of being dropped or overwritten.",
 ["programs", "configurations", "histories"],
 "every task list (any wiring of in/out/requires keys, repeated keys, multi-key outputs, any order of producers and consumers in the list) and every history of values returned by the tasks",
 "The tests run three fixed egg pipelines and check the exit code; wirings with repeated keys, fan-out, joins, out-of-order lists, finish-time products and error cases are not exercised.",
 [PIPE, "caput/pipeline/extensions/_pytools.py"],
 [("output routing loop", PIPE + ": Manager.runner, Manager._check_task_output"), ("input queues and requires slots", PIPE + ": Task._pipeline_queue_product, Task._pipeline_next")],
 ["arguments seen by setup/next of instrumented tasks", "exceptions out of Manager.run"])

prop("C02", "Each task runs setup once, then next, then finish once; the run ends",
 "In any pipeline run every task gets at most one setup call, made only with all its required products; next calls only after setup and only with one product from each input; and exactly one finish call after which it gets no call; and the run returns once every task has finished. A task stops getting next calls exactly when it raises stop-iteration, has produced its configured maximum number of outputs, or is the first unfinished task in the list and has no input left; a first unfinished task whose required products never arrived goes straight to finish without setup or next. A task without inputs keeps being called until it stops itself.",
 ["programs", "configurations", "histories"],
 "every task list and every history of returned values, None outputs, stop-iterations and output limits",
 "Tests only run pipelines to completion on three configurations; they never look at call sequences, limits, or starvation.",
 [PIPE],
 [("task state machine", PIPE + ": Task._pipeline_next, Task._pipeline_advance_state"), ("head-of-list starvation rule", PIPE + ": Manager.runner")],
 ["order of setup/next/finish calls on instrumented tasks", "return of Manager.run"])

prop("C03", "The pipeline always runs the highest-priority task that can run",
 "At each step the pipeline runs, among the tasks able to do something (setup with all required products, next with an item on every input, or a task with only finish left), the one with the highest priority - base priority plus 1 for a runnable setup, plus (number of inputs minus number of outputs) times the number of runnable iterations for next, and above everything for finish - preferring the higher base priority and then list order starting from the current task on ties. When no task is able to do anything the first unfinished task of the list is run. The resulting call order is the same on every rank and every rerun.",
 ["programs", "configurations", "schedules"],
 "every task list, assignment of base priorities and history of queue lengths",
 "No test asserts an execution order; the documented order is only shown in a docstring.",
 [PIPE],
 [("task choice", PIPE + ": Manager._next_task, Task._pipeline_is_available, Task._pipeline_priority")],
 ["global order of setup/next/finish calls of instrumented tasks"])

prop("C04", "Invalid pipeline configurations are rejected before any task runs",
 "Building a pipeline from configuration fails with a configuration error, before any task's setup, next or finish runs, whenever: two tasks or positions name the same output key; an `in` or `requires` key is no task's output; there is no pipeline section or it is not a mapping; a task entry is not a mapping, has an unknown key or no type; the type cannot be found or is not a task class; a named parameter section is absent or not a mapping; a parameter is unknown or of an unacceptable value; a key is not a string; the number of in/requires keys does not fit the arguments next/setup accept; or the task's own validation refuses. Every configuration with none of these faults is accepted, with parameter sections merged in order (later ones win) and each task having its own copy of the values, even of a section that several tasks name.",
 ["configurations"],
 "every pipeline document assembled from valid and faulty task entries, key lists and parameter sections",
 "Tests cover two invalid lint configs; combinations of faults, optional arguments and varargs are not covered.",
 [PIPE, "caput/config.py", "caput/pipeline/runner/_core.py"],
 [("validation", PIPE + ": Manager._validate_task_inputs, Manager._get_task_from_spec, Task._setup_keys")],
 ["exception type from Manager.from_yaml_str", "calls seen by instrumented tasks", "attribute values of constructed tasks"])

CFG = "caput/config.py"
prop("C05", "Config values follow declared defaults, conversion, inheritance and keys",
 "For any hierarchy of classes with declared configuration properties and any configuration mapping, each property reads as the converted value of its configured key, or else its default (own copy per instance, never shared between instances, and keeping what is changed in it in place), the most derived declaration winning; instances never affect one another, the class or the mapping they were read from. Values the declared type or constraint (enum, list type and length, numeric range, UTC time, boolean truth, file format, log levels in any case) does not admit, keys without a value when defaults are not to be used, and - in strict reading - keys no property declares raise a configuration error, and every admissible value is accepted. A deprecated property warns when it is read, assigned or configured.",
 ["inputs", "configurations", "histories"],
 "every class hierarchy, configuration mapping, value and sequence of reads, assignments and re-reads",
 "Tests use two fixed classes and a handful of values.",
 [CFG, "caput/pipeline/extensions/_configtypes.py"],
 [("descriptor", CFG + ": Property, Reader"), ("typed properties", CFG + ": enum, list_type, logging_config, float_in_range, utc_time")],
 ["attribute reads on instances", "exceptions from read_config/from_config"])

TB = "caput/pipeline/tasklib/base.py"
prop("C06", "Container tasks tag, screen, save and pass on every output as configured",
 "For every sequence of process/process_finish results, a container task passes on each output once, in order, with the requested attributes and a tag set from the configured formats (where an output has no tag, the tag of the first input stands for it, and failing that the number of the result); when checking is on, outputs with NaN or Inf anywhere in their datasets on any rank are dumped to a file if nan_dump, and left out if nan_skip (a left-out output among several leaves its place empty), other outputs never are; and each output passed on is saved, under the path formatted from its attributes with the configured compression, versions and configuration, if and only if saving was requested for it. Process keeps being called per input (or until it stops the iteration when there are none), and outputs of process_finish are treated the same way.",
 ["programs", "configurations", "histories"],
 "every configuration of the options and every history of outputs (containers, tuples, None, NaN or Inf bearing)",
 "No test drives these tasks beyond a basic run.",
 [TB],
 [("output handling", TB + ": ContainerTask.next, finish, _process_output, _nan_process_output, _save_output")],
 ["emitted products and their attributes", "files written under the scratch output directory"])

FL = "caput/pipeline/tasklib/flow.py"
prop("C07", "Flow tasks gather, group, filter and delay without losing items",
 "For every stream of inputs: accumulation emits exactly one list holding all inputs in arrival order when the stream ends, or, with a group size, each time that many have arrived a list of exactly those (an incomplete last group is not emitted; with several output keys a group is spread over them); gathering emits one list of the inputs of each call; pass-on and wait tasks emit each input itself exactly once, in order, and waiting ones none before their prerequisite arrived; copy tasks emit an independent deep copy of each input; delete tasks emit nothing and keep no reference; input and output adaptors feed and collect all items in order.",
 ["histories", "programs"],
 "every input stream and pipeline wiring around the flow tasks",
 "Flow tasks have no tests.",
 [FL, "caput/pipeline/extensions/_pytools.py"],
 [("flow tasks", FL + ": AccumulateList, GatherInputs, PassOn, WaitUntil, ...")],
 ["products collected after the flow task"])

AT = "caput/util/arraytools.py"
MT = "caput/util/mpitools.py"
prop("C10", "Work splitting covers every item exactly once, in order, evenly",
 "For every number of items and processes, the per-process ranges (start, end, size) are consecutive, disjoint, cover all the items, agree on every rank and differ in size by at most one with the larger ones first; partitioning a list by any method gives every element to exactly one process in its original order, contiguously or in strides as asked. Distributed ranges and the local range of a distributed array follow the same split.",
 ["inputs", "configurations"],
 "every item count n >= 0, process count m >= 1, rank and partition method",
 "Tests check a handful of shapes on the rank counts they happen to run with.",
 [AT, MT],
 [("split_m / partition_list", AT), ("split_all, split_local, partition_list_mpi, mpirange", MT)],
 ["return values of the splitting functions on 1-4 real MPI ranks"])

MA = "caput/mpiarray.py"
prop("C11", "Redistributing or gathering a distributed array never changes its contents",
 "For every global shape, element type, memory layout, process count and sequence of distribution axes, wrapping local arrays, redistributing, gathering and all-gathering a distributed array yield exactly the elements of the global array, each at its global index, with the local shape, offset, axis and global shape on each rank matching the even split; redistributing there and back is the identity. Wrapping inconsistent local shapes is rejected on every rank.",
 ["inputs", "schedules", "programs"],
 "every global shape (including axes shorter than the process count), dtype, memory order, rank count 1-4, and sequence of axes",
 "Tests use a few fixed shapes, C-ordered, on 1-4 ranks, one redistribution each.",
 [MA, MT],
 [("redistribute / gather / allgather / wrap", MA), ("transpose_blocks", MT)],
 ["local arrays and metadata on each MPI rank, reassembled by offset"])

prop("C12", "Operations on distributed arrays equal the same numpy operation globally",
 "Every supported operation on distributed arrays - basic indexing that keeps the distributed axis, transposition, reshaping around it, elementwise functions of arrays and scalars with broadcasting, reductions and accumulations over other axes, copies - gives on every rank the local part of the numpy result on the global array, with axis, global shape and offset metadata of the result that match it. Operations that would need other ranks' data (reducing or accumulating over the distributed axis, mixing different distributions, reshaping across it) raise an error, never a silently wrong result; directly indexing into the distributed axis indexes the rank's own part as plain numpy does.",
 ["programs", "inputs"],
 "every program of such operations over every shape, distributed axis and rank count",
 "Tests try single operations on fixed shapes; compositions and metadata after them are not covered.",
 [MA],
 [("__getitem__, __array_ufunc__, transpose, reshape, copy", MA)],
 ["local arrays and metadata on each rank"])

prop("C13", "Global slices of a distributed array read and write as on the whole array",
 "Reading a distributed array through its global-slice view gives, for any slices of positive step, integers, ellipses and - off the distributed axis - index lists in global coordinates, data which assembled over ranks equals the slice of the global array (scalar indices on the distributed axis give data only on the rank that holds it), and assigning through it changes exactly the addressed global elements on whichever ranks hold them and no others.",
 ["inputs", "programs"],
 "every slice tuple (negative bounds, empty, out-of-range), shape, distributed axis and rank count",
 "Tests check a handful of slices on one shape.",
 [MA],
 [("_global_resolver", MA)],
 ["local arrays on each rank before and after"])

MH = "caput/memdata/_memh5.py"
prop("C14", "Distributed file I/O stores and loads the same global data on any rank count",
 "Writing a distributed dataset or container to disk and reading it back on any number of ranks, distributed over any axis, with any admissible per-axis selection, gives exactly the (selected) global data, and each rank holds exactly its even share; a file written distributed is identical in content to one written from a single process, and which datasets are distributed over which axis is restored.",
 ["inputs", "configurations", "schedules"],
 "every shape, distributed axis, rank count on write and on read, selection and file format",
 "Tests round-trip fixed shapes on the same rank count for write and read.",
 [MA, MH, "caput/memdata/_io.py"],
 [("MPIArray.from_file/to_file", MA), ("_distributed_group_to_file, _distributed_group_from_file", MH)],
 ["files opened independently with h5py/zarr", "local arrays on each rank"])

prop("C15", "MPI helpers move every item or block to the right place",
 "For every input, process count and distribution: parallel map returns func of each element in order on every rank; block transposition yields exactly the transposed split of the same global array; gathering local slices assembles each rank's part at its stated position; broadcasts and reductions agree on all ranks, and active-process selection runs only the listed ranks while the others wait until rank 0 closes. Buffers and rows written into a file land at the stated offset and nowhere else, and a buffer larger than its region is refused. Each process is told its share of the node's CPUs, memory requests are granted exactly when they fit the stated scope, and log records pass by the level set for the rank they are from.",
 ["inputs", "schedules"],
 "every list length, array shape, rank count 1-4, method and root",
 "Tests touch the transpose only through arrays of fixed shape, and most helpers not at all.",
 [MT],
 [("parallel_map, transpose_blocks, gather_local, allreduce, bcast, lock_and_write_buffer, parallel_rows_write_hdf5, active, close, cpu_count, can_allocate, MPILogFilter", MT)],
 ["return values on each MPI rank", "file bytes"])

prop("C20", "The in-memory group tree behaves like a filesystem-style hierarchy",
 "Under any sequence of group and dataset creation, require, lookup by relative or absolute path, deletion and attribute updates, lookup by any spelling of a path (extra slashes, through any group handle) gives the object created there last, iteration, membership and lengths list exactly the present children, names and parents are the absolute paths, and deleting removes exactly that subtree. Creating a dataset over an existing name replaces it; creating a group over an existing name, creating or looking up anything inside a dataset, looking up or deleting missing names, and requiring an object of the other kind raise an error and leave what exists as it was.",
 ["programs", "histories"],
 "every sequence of tree operations over nested names, through any group handle",
 "Tests check a few paths in one fixed tree.",
 [MH],
 [("storage root and groups", MH + ": _StorageRoot, _BaseGroup, MemGroup.create_group/create_dataset/require_*")],
 ["results and exceptions of the public group API"])

prop("C21", "Copies are independent; only explicitly shared datasets stay linked",
 "After copying a whole tree or a dataset (by copy, deep copy, from-group or group copy with shared or shallow options), the copy has equal structure, data, attributes and distribution, and any later write, attribute change, addition or deletion on one side is invisible on the other - except that datasets named as shared (or all, when shallow) are the same dataset on both sides, data and attributes. Group attributes are never shared and copying never modifies the source.",
 ["programs", "histories"],
 "every tree, choice of copy operation and shared set, and every sequence of later mutations on either side",
 "Tests check one mutation of one dataset for a few copy calls.",
 [MH, "caput/containers/_core.py", "caput/containers/_util.py"],
 [("deep_group_copy, MemDiskGroup.copy, MemDataset.copy/view", MH)],
 ["reads through the public API on both sides after each mutation"])

prop("C22", "Saving to disk and loading back restores the same container",
 "For any container tree of groups, datasets (numeric, boolean, byte- and unicode-string, structured), attributes (numbers, strings, arrays, nested dicts and lists, None, times) and history, saving to either file format and loading - to memory or on disk - gives an equal tree: same class, names, shapes, types, values, attributes, history in order, chunking hints and index maps; dataset strings come back as unicode or bytes exactly as the conversion options ask, byte-string and time attributes as text. Writing never changes the object in memory, and unsupported content raises an error rather than being stored wrongly.",
 ["inputs", "configurations"],
 "every container content, file format and combination of string-conversion options",
 "Tests round-trip fixed small trees.",
 [MH, "caput/memdata/fileformats.py", "caput/util/typeutils.py", "caput/containers/_core.py"],
 [("deep_group_copy, copyattrs, MemDiskGroup.save/from_file", MH), ("string conversions", "caput/util/typeutils.py")],
 ["loaded objects compared through the public API"])

IO = "caput/memdata/_io.py"
prop("C23", "Locked file output is published whole or not at all",
 "While a locked output file is being written the lock file exists and the final name never refers to the new content; the final name appears (replacing any old file, or an empty directory) in one step only when the block ends normally, with exactly the content written, and then no temporary or lock file remains. If the block fails at any point, the exception propagates unchanged, the final name still has whatever it had before, the lock is removed and the temporary file is removed too, or kept when asked to preserve it; only rank 0 of the communicator touches the files. If the process is killed at any point the final name refers to either the old or the complete new content. Files, HDF5 files and directory stores all obey this; an existing non-empty directory store is never silently replaced.",
 ["crash_points", "fault_sequences", "histories"],
 "every point at which the writer fails or is killed, every prior state of the directory, file and directory targets, preserve on/off, with and without communicator",
 "Tests cover one success and one failure case.",
 [IO],
 [("lock_file", IO)],
 ["directory contents at every step"])

prop("C24", "Selections on load equal slicing the fully loaded data",
 "Loading a file with any axis selections (slices or index lists per axis, by dataset path or by axis name) into any container gives exactly the container obtained by loading everything and slicing every dataset (or table) its class declares with that axis, and its index map, leaving all other datasets, maps and attributes whole; a selection given for a path applies to that entry alone. This holds for both file formats, with and without distribution, for several selections at once and in any order of axes, and an axis the class does not have raises an error.",
 ["inputs", "configurations"],
 "every combination of selections, dataset axis order, file format, distribution and container class",
 "Tests cover one slice and one index list per format.",
 ["caput/containers/_core.py", MH, MA, "caput/pipeline/tasklib/io.py"],
 [("_make_selections", "caput/containers/_core.py: ContainerPrototype._make_selections"), ("deep_group_copy selections", MH), ("selection parsing", "caput/pipeline/tasklib/io.py: SelectionsMixin")],
 ["loaded containers"])

CC = "caput/containers/_core.py"
prop("C30", "A container's datasets, axes and index maps always agree",
 "However a container is built - from axis lengths, axis values, another container's axes or attributes, skipping or adding datasets later - every dataset it holds has exactly the axes, shape, type, chunking, compression and distribution its specification (merged along the class hierarchy, most derived winning) declares, every axis of the specification has an index map, and creation copies attributes only as asked. Asking for a dataset the specification does not have, or leaving an axis without any definition, raises an error; axes given explicitly replace those of the source, whose datasets over them are then not copied; history keeps every added entry in order.",
 ["configurations", "programs"],
 "every class hierarchy of specifications, constructor arguments and sequence of dataset additions",
 "Tests use two fixed container classes.",
 [CC, "caput/containers/_basic.py", "caput/containers/_util.py"],
 [("ContainerPrototype.__init__, add_dataset, dataset_spec, axes", CC), ("empty_like", "caput/containers/_util.py")],
 ["public attributes of constructed containers"])

prop("C31", "Copying datasets between containers applies the selection and nothing else",
 "Copying datasets from one container to a compatible one with an axis selection (indices, ranges, masks-as-index-lists, per axis) fills each selected dataset of the destination with exactly the source data restricted along those axes in the given order, skipping datasets that have an excluded axis or (unless asked to copy them whole) none of the selected ones, and leaves the source's data and distribution, the other datasets of the destination and the caller's arguments unchanged. This holds for serial and distributed containers, the destination being distributed as the source is; what cannot be done (an axis without selection, a distributed dataset into a common one, or one whose distributed axis is filtered with no unfiltered axis left) raises an error.",
 ["inputs", "configurations"],
 "every selection, set of axes, exclusion list and distribution",
 "Tests cover a few selections on one container.",
 ["caput/containers/_util.py"],
 [("copy_datasets_filter", "caput/containers/_util.py")],
 ["destination and source containers afterwards"])

prop("C32", "Concatenated time-ordered data is a slice of the end-to-end data",
 "Concatenating any sequence of time-ordered containers or files (HDF5 or zarr) between any start and stop gives, for every dataset with a time axis and for the time axes themselves, exactly the corresponding slice of the end-to-end concatenation, sample for sample, where start and stop behave like those of a Python slice (negative, absent, beyond the data, empty), with everything without a time axis, the attributes and the history taken from the first container; reading files with any sample range, dataset choice, or time range (the samples whose times are in [start, stop)) gives the same. The inputs and the caller's arguments are left unchanged.",
 ["inputs", "histories"],
 "every list of segment lengths (including empty overlap), time-axis position, start and stop (negative, None, beyond the end), dataset choice",
 "Tests concatenate equal-length files with one start/stop.",
 ["caput/containers/tod.py"],
 [("concatenate, _start_stop_inds, _get_in_out_slice, TODReader", "caput/containers/tod.py")],
 ["datasets of the result"])

prop("C33", "Redistributing a container moves every dataset and changes no value",
 "Redistributing a container over an axis (or the first applicable of several, by name or index) leaves every dataset's global values, attributes and shape unchanged, distributes every distributed dataset that has that axis over it and leaves the others as they were; converting datasets between common and distributed preserves values and attributes, along the axis asked for. An axis that no dataset has changes nothing; a dataset of a container that is not distributed cannot be made distributed.",
 ["programs", "configurations"],
 "every sequence of redistributions and conversions over every container layout and rank count",
 "Tests redistribute one dataset once.",
 [CC, MH],
 [("Container.redistribute", CC), ("dataset_common_to_distributed / dataset_distributed_to_common", MH)],
 ["local arrays on each rank"])

TR = "caput/util/truncate.pyx"
prop("C40", "Precision truncation never errs by more than requested",
 "For every finite value and non-negative error bound in the supported range, truncation returns a value within the bound of the input, with as few significant bits as that allows (a multiple of the power of two just above the bound, in units of the value's last place, ties to even), exactly the input when the bound is zero, and keeps the sign; array forms apply this elementwise with the stated per-element bound (relative precision, inverse-variance weights, row maximum) in single and double precision (the bound is computed in the precision of the element; the complex form works in single precision). The truncation task applies this to exactly the configured datasets, weights matched by axis name.",
 ["inputs"],
 "every value and bound, both precisions, every array length, weights including zero",
 "Tests sample random arrays and check an error bound for one precision each.",
 [TR, "caput/util/truncate.hpp"],
 [("bit_truncate*", "caput/util/truncate.hpp")],
 ["returned values"])

WM = "caput/algorithms/median/weighted.pyx"
prop("C41", "Weighted quantiles and moving weighted medians match their definition",
 "For every data and weight array the weighted quantile or median is the element where the cumulative weight of the sorted data crosses the target (lower, higher or mean of the two when it falls exactly between, ignoring zero-weight elements), regardless of the order of the data; the moving weighted median equals the weighted median of each window clipped at the array edges, in one and two dimensions, and windows without weight give NaN (zero when the window is given as size 1); a mean of integer data rounds down; a quantile whose weights are all zero is the unweighted one. Inputs are not modified and inputs outside the domain raise an error.",
 ["inputs"],
 "every array shape, values with ties, zero weights, window sizes, methods and numeric types",
 "Tests compare against brute force on a handful of random arrays.",
 [WM, "caput/algorithms/median/MedianTree.hpp", "caput/algorithms/median/MedianTreeNode.hpp"],
 [("_quickselect_weight", WM), ("balanced tree with weights", "caput/algorithms/median/MedianTree.hpp")],
 ["returned arrays"])

TI = "caput/pipeline/tasklib/io.py"
prop("C42", "File-loading tasks load each listed file once, in order, as selected",
 "File lists, globs (sorted), nested lists and groups expand to exactly the matching existing files in the order given, without changing the lists given (a named file that does not exist raises a configuration error), and the load tasks emit one container per file in list order then stop, each with the requested selection applied and tagged from its file name when untagged; range and index selections parse to exactly the stated slices and lists, with ranges overriding indices and indices overriding map values, and malformed ones raise an error. Loading by attributes or key picks exactly the file whose name or key formats from the input's attributes; the saving tasks write each container once, to the file named by its tag or count, and pass it on.",
 ["inputs", "configurations", "histories"],
 "every file list, glob, group and selection configuration and every stream of inputs",
 "No tests exist for these tasks.",
 [TI],
 [("list_or_glob, list_of_filegroups, SelectionsMixin, LoadFiles*, Save", TI)],
 ["emitted containers, files written, exceptions"])

prop("C46", "Zipping zarr containers is complete and never loses data",
 "Each listed zarr container is zipped exactly once over all ranks and hosts (one working rank per host, the list shared between the hosts); a container's directory is removed only after its zip was written completely and only if removal is asked for; a failing compressor raises and leaves that directory and the ones not yet done in place. A saved-and-zipped container goes to a zip named from its tag or count that holds exactly the container's data, with nothing left of an earlier zip of that name; waiting for the jobs returns only when every job is done, and raises if one failed. File names with characters special to the shell are handled as plain names.",
 ["inputs", "fault_sequences", "schedules"],
 "every list of containers, number of ranks and hosts, history of saved containers, duration and failure of the compressor",
 "No tests exist for these tasks.",
 [TI],
 [("ZipZarrContainers, SaveZarrZip, WaitZarrZip", TI)],
 ["zips and directories left on disk and what the zips hold, exceptions, when waiting returns"])

SC = "caput/pipeline/runner/_scheduler/__init__.py"
prop("C43", "Queueing a job never disturbs an existing job it should not overwrite",
 "Queueing a pipeline creates the job directory (inside the temporary directory if one is given) with a copy of the configuration and a job script filled from the cluster section, and submits it in that directory with the mail options asked for, if submission is asked for. When the job directory already exists nothing is written or submitted under `never`, nor under `failed` when its status file says FINISHED; otherwise configuration and script are rewritten. A configuration that fails the lint, a missing cluster section or required key, an unknown system, a missing virtual environment and a bad mail type raise an error and leave no trace. The job script runs the configured command once in the job's directory with the configured environment, records RUNNING (where the system does), FINISHED or CRASHED, and moves the output to its final directory only after success. A template is queued or run once per combination of the variables' values, in order.",
 ["configurations", "histories"],
 "every cluster section, registered system, prior job-directory state, overwrite policy, job outcome and set of template variables",
 "No test covers queueing or templates.",
 [SC, "caput/pipeline/runner/_core.py", "caput/pipeline/runner/_cli.py"],
 [("queue, template_queue, register_system", SC), ("template_run, lint_config", "caput/pipeline/runner/_core.py")],
 ["files in the job directory", "commands received by stand-in schedulers and run commands", "status after running the script"])

prop("C44", "Seeded random generation is reproducible and fills every element",
 "The multithreaded generator draws as a numpy generator of the same seed, except that a supported method asked for 1000 or more numbers with scalar parameters splits the result (in C order) into one contiguous block per thread, of the rounded up even share, each filled from the thread's own stream (the i-th child spawned from the seed). So every element is set exactly once, no number is used twice, and the same seed, thread count and sequence of calls give the same values, type and shape whatever the thread timing, also into an output array given by the caller, whatever its memory layout; an output of the wrong shape or type is refused. Random tasks with the same seed, class and rank draw the same numbers, and tasks that differ in one of these (or are unseeded) different ones; the seed an unseeded task reports repeats its run.",
 ["schedules", "inputs", "histories"],
 "every thread interleaving, call sequence, method, output shape, layout and type, thread count and number of ranks",
 "No test covers the generator.",
 ["caput/algorithms/random.py", "caput/pipeline/tasklib/random.py"],
 [("MultithreadedRNG", "caput/algorithms/random.py"), ("RandomTask", "caput/pipeline/tasklib/random.py")],
 ["returned arrays under forced thread orders", "seeds and numbers of tasks on all ranks"])

prop("C45", "The array cache never exceeds its byte budget and evicts the oldest use",
 "After any sequence of insertions, lookups, replacements and deletions the array cache holds at most its byte budget, evicts only least recently used entries and only as many as needed to fit a new one, returns exactly the array last stored under a key, and rejects an array larger than the whole budget without losing what it holds.",
 ["histories"],
 "every sequence of cache operations with arrays of any size and type",
 "No test covers the cache.",
 [AT], [("LRUCache", AT)], ["cache contents after each operation"])

TM = "caput/astro/time.py"
prop("C47", "Times convert between forms exactly; stellar days keep count",
 "For every UTC instant, converting between unix seconds, datetimes (naive ones are UTC, others count with their zone), time strings and skyfield times keeps the instant (strings cut it to the second, skyfield is good to 0.1 ms), whatever the sequence of conversions, and the time of day is that of the UTC day; a single value gives a single value, lists, tuples and arrays give arrays of the same shape, also empty ones. The number of leap seconds between two times is exact, positive or negative. The Earth rotation angle follows its definition, the local angle adds the longitude, local stellar days count whole turns from the first zero of the local angle after the start day (their fraction being the local angle), and the inverse functions return the time, within 10 ms, also across leap seconds; a sought angle is found at its first occurrence after the given time.",
 ["inputs", "histories"],
 "every instant, form, zone, shape and sequence of conversions",
 "Tests check a handful of fixed dates and scalars.",
 [TM, "caput/astro/skyfield.py", "caput/astro/observer.py"],
 [("conversions", TM), ("stellar clock", "caput/astro/observer.py: unix_to_lsa, lsa_to_unix, unix_to_lsd, lsd_to_unix, lsd_zero")],
 ["values returned by the conversion functions"])

prop("C48", "Array helpers act on every element whatever form the input has",
 "Functions adapted by vectorize act on each element of the broadcast of their arguments, those adapted by scalarize are given arrays for numbers, lists and tuples, those adapted by listize arrays for lists and tuples; in each case as functions and as methods (of the instance they are called on), numbers alone giving a single number, empty inputs alone an empty array of the stated type, with name, documentation and arguments left as they are. The reciprocal that leaves zeros alone is the correctly rounded 1/x for every nonzero element and 0 for zeros and values too small to have one, for real, complex and integer numbers, lists and arrays of any memory layout, also into a given output of any layout (or the input itself), one of another shape being refused. The distinct items of a sequence come in the order of their first occurrence.",
 ["inputs", "configurations"],
 "every combination of argument forms, shapes, types, layouts and values",
 "Tests cover reciprocals of three contiguous random arrays and no adapted function directly.",
 [AT, "caput/algorithms/_invert_no_zero/__init__.py", "caput/algorithms/_invert_no_zero/_invert_no_zero.pyx"],
 [("decorators", AT + ": vectorize, scalarize, listize"), ("invert_no_zero", "caput/algorithms/_invert_no_zero")],
 ["returned values and the arguments the adapted function sees"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
