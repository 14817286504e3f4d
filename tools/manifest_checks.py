ARR_NOTE = ("TLC checks on all small global arrays (up to 3 axes, lengths up to 3, 1-3 ranks, 2 operations) that the block-level "
            "algorithms compute the global operation; seeded programs run on 1, 3 and 4 real MPI ranks (sub-communicators of "
            "1-4) are compared per rank with the spec's expected blocks and metadata. Trusts TLC, mpi4py, the driver.")
check("C10", "all item/process counts up to a bound enumerated by TLC and the real functions compared with the spec's split", 
      "Exhaustive for the small counts listed in the evidence, sampled for large ones; real MPI ranks 1-4. Trusts TLC and the driver.")
check("C11", "spec-evaluated programs replayed on real MPI ranks, blocks and metadata compared after each step", ARR_NOTE)
check("C12", "spec-evaluated programs replayed on real MPI ranks, blocks and metadata compared after each step", ARR_NOTE)
check("C13", "spec-evaluated global reads and writes replayed on real MPI ranks, blocks compared after each step", ARR_NOTE)

TREE_NOTE = ("TLC explores every history of up to 4 operations over a small name universe and checks the tree invariants; those "
             "histories and seeded longer ones run against the real MemGroup API and every result and the whole observable "
             "tree are compared with the spec after each step. Trusts TLC and the driver.")
check("C20", "model histories replayed on the real group tree, full observable state compared with the spec after each step", TREE_NOTE)
check("C21", "copy/mutate histories replayed on real groups, both sides compared with the spec's sharing relation after each step", TREE_NOTE)
check("C23", "directory snapshots recorded at every file-system call, failures and kills at each point judged by the spec (trace validation)",
      "TLC exhausts the writer's state machine with failures and crashes; every combination of target kind, prior state, failing "
      "piece, preserve and rank runs for real and is additionally killed at recorded file-system events. Assumes atomic rename.")
check("C14", "spec-evaluated write/read histories of distributed and common data replayed on real MPI ranks and files",
      "TLC checks that any partition of the writers and readers gives the same file and blocks; seeded histories run on 1 and 3 real "
      "ranks for HDF5 and zarr with selections, strings and hints. HDF5 is written without parallel HDF5 (not installed).")
check("C22", "random save/load/modify histories evaluated by the specification and replayed on real files, every object compared after each step",
      "TLC exhausts short histories over a small value universe (round trip, idempotence, no sharing); 700 seeded histories per run over "
      "five classes, both formats, all conversion options, structured types, nested attributes and refused content. Values HDF5 coerces are excluded.")

CONT_NOTE = ("TLC exhausts short histories of containers of a diamond-shaped class hierarchy with a table (shape agreement, inheritance, "
             "independence of other containers, and the property's own invariant); seeded programs over random class hierarchies run on "
             "1, 2 and 3-4 real MPI ranks and every container involved is compared with the spec after each step. Trusts TLC, mpi4py, the driver.")
check("C24", "spec-evaluated save/load-with-selection histories replayed on real MPI ranks and files, loaded containers compared in full", CONT_NOTE)
check("C30", "spec-evaluated construction programs over random class hierarchies replayed on real containers, compared after each step", CONT_NOTE)
check("C31", "spec-evaluated filtered copies replayed on real MPI ranks, source, destination and arguments compared after each step", CONT_NOTE)
check("C33", "spec-evaluated redistribution and conversion programs replayed on real MPI ranks, compared after each step", CONT_NOTE)

check("C32", "spec-evaluated concatenations and reader selections replayed on real containers and files, results and inputs compared in full",
      "TLC exhausts short lists of pieces with all ranges and time-axis positions (the piecewise copy equals the slice of the whole); seeded "
      "cases on 1 and 3 ranks, HDF5 and zarr, in memory and into files. Attributes of time-ordered datasets are assumed alike in all pieces.")
check("C15", "message-level model of the helpers' protocols checked over all schedules; spec-evaluated programs of collective calls replayed on real MPI ranks",
      "TLC exhausts all message deliveries of transposition, gathering, closing and row writes (and pairs of them) on 1-3 ranks without "
      "buffering: no deadlock, right outcome; seeded programs run on 1, 3 and 4 real ranks with delays injected into the communicator. One node only.")

check("C04", "spec-evaluated pipeline documents with and without faults built by the real manager, outcome and every task parameter compared",
      "TLC steps a reader through 2400 documents (accepted exactly when without fault, nothing runs before); 900 seeded documents per run over random "
      "class hierarchies combine every kind of fault; calls of setup/next/finish are counted. Values of properties as decided under C05.")
check("C05", "spec-evaluated histories of reads, assignments and in-place changes replayed on real classes, every instance compared after each step",
      "TLC exhausts short histories on two instances of a small hierarchy (typed, independent, fresh defaults, repeatable); seeded histories over random "
      "class hierarchies with all property types. A refused instance is not looked at again.")
check("C45", "model histories replayed on the real cache, result, keys held and bytes used compared with the spec after each operation",
      "TLC exhausts histories of 4-5 operations over three keys and five sizes (budget, newest value, oldest use evicted, no more than needed); 600 seeded "
      "histories per run with arrays of many types and shapes. One thread.")

check("C06", "spec-evaluated histories of results under random options run through real tasks in a real pipeline, products, attributes, files and their contents compared",
      "TLC exhausts histories of two results and a final one under every combination of the options (each once, screened, tagged, saved exactly if asked); 880 seeded "
      "cases per run on 1, 2 and 3 real ranks with NaN and Inf on any one rank, HDF5 and zarr. Results of one call are different containers.")
check("C07", "spec-evaluated networks of flow tasks run by the real manager, products collected, identity and lifetime of the items compared",
      "TLC exhausts the interleavings of five networks (nothing lost or early, order kept); 700 seeded networks per run with items without truth value or equality.")

check("C42", "spec-evaluated file lists, selections and load/save task runs replayed with real tasks on real files, emitted containers, files and exceptions compared",
      "TLC exhausts small file lists, groups and selections (each file once, in order, arguments unchanged, precedence of ranges); 2100 seeded cases per run on "
      "1 and 2 real ranks with names that look like patterns. One tag per task.")
check("C46", "spec-evaluated zip jobs run by the real tasks with a stand-in compressor that delays and fails on request, zips, directories and outcome compared",
      "TLC exhausts the interleavings of hosts, ranks, jobs and failures (removed only after zipped, each once); 220 seeded runs on 1-4 real ranks with host names "
      "replaced. The stand-in compressor stands for 7z (not installed here).")

check("C40", "spec-evaluated truncation of bit-exact values and bounds replayed on the real extension and the Truncate task, every returned bit compared",
      "TLC exhausts small formats (values, bounds, ties, subnormals: within the bound, fewest bits, sign kept); 3250 seeded cases per run in both precisions and "
      "complex form, as arrays and through the task on 1 and 3 ranks. Values that would round up to infinity are left out.")
check("C41", "spec-evaluated weighted quantiles and moving medians of exact data replayed on the real extension, every element compared",
      "TLC exhausts small arrays, weights, windows and methods (selection against cumulative weight; incremental window equals fresh window); 1800 seeded cases per "
      "run over types, layouts, methods, ties and zero weights. Weights are chosen so their sums are exact except in dedicated rounding cases.")

check("C43", "spec-evaluated histories of queueing, running and re-queueing jobs replayed with the real queue functions and command line, stand-in schedulers running the real job scripts",
      "TLC exhausts histories of 4-5 steps over policies, faults, temporary directories and job outcomes (existing jobs untouched, errors without effect); 540 seeded "
      "histories per run over SLURM, PBS and registered systems; the job scripts are run by bash with recording stand-ins. Paths without shell characters.")
check("C44", "spec-evaluated plans of calls replayed on the real generator under forced thread orders, every element compared with the planned streams; seeds of tasks compared as classes",
      "TLC exhausts the interleavings of threads filling results of several calls (all set, none twice, same whatever the timing); 450 seeded call sequences and 50 "
      "pipelines per run on 1 and 3 ranks. Plain numpy generators stand for the streams.")

check("C47", "spec-evaluated walks through the forms of time replayed on the real functions, every value compared; recordings of the stellar clock judged by the specification",
      "TLC counts the calendar day by day and walks instants through the conversions (date arithmetic right, instants kept); 900 walks, 250 leap second and 150 "
      "observer cases per run, dense around leap seconds and month ends. Trusts skyfield's tables; the rotation angle is pinned to 1 s by its formula.")
check("C48", "spec-evaluated calls of adapted functions and bit-exact reciprocals replayed on the real code, every element compared",
      "TLC checks rounding of reciprocals for all small odd numbers, broadcasting of all small shapes and distinct items of all short lists; 2200 seeded calls per run. "
      "Complex reciprocals only of values with exact results.")
