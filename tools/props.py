# Source of properties.jsonl and MANIFEST.json (see gen_manifest.py).
PS = "python/virgo/mpi/parallel_sort.py"
PH = "python/virgo/mpi/parallel_hdf5.py"
UT = "python/virgo/mpi/util.py"
NOTE = ("Generated-input search with shrinking; no proof. Trusts numpy/h5py/mpi4py, the generators' coverage of the input "
        "space and the oracle named in the technique.")
NOTE_MPI = ("Generated-input search with shrinking on real MPI ranks (8 oversubscribed processes, shared-memory transport, "
            "1-8 rank sub-communicators). Schedules are whatever the OS produces: data-dependent errors are found, a rare race "
            "inside MPI itself is not. Trusts numpy, mpi4py and Open MPI.")
PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, observe, oracle, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      observe=observe, oracle=oracle, note=note or NOTE))


prop("P01", "parallel_sort sorts globally and returns the permutation",
     "For any partition of an array over MPI ranks (empty ranks, duplicates, any sortable type), parallel_sort leaves the "
     "array sorted across ranks in rank order, with every rank keeping its element count and the multiset of elements preserved. "
     "With return_index the returned global indexes are a permutation and fetch the sorted array from the original one.",
     ["inputs", "configurations"], "all arrays, dtypes, rank counts, partitions and rank orders",
     "The tests use uniformly random integers and floats on one fixed rank count; duplicates across splitters, empty ranks, "
     "extreme values and unequal partitions are input-quantified.",
     [PS],
     [("parallel_sort", PS), ("find_splitting_points", PS)], ["parallel_sort return value and in-place array on each rank"],
     "numpy.sort of the concatenation as reference model on real MPI ranks", NOTE_MPI)
prop("P02", "Bulk data movement delivers exactly the requested elements",
     "my_alltoallv, sendrecv and repartition deliver to each rank exactly the elements addressed to it, in sender-rank order and "
     "original order within a sender, whatever the counts, offsets, chunking, message size or memory layout, and modify nothing else. "
     "repartition keeps global element order and yields exactly the requested number of elements per rank.",
     ["inputs", "configurations", "schedules"], "all count matrices, offsets, partitions, dtypes, layouts and message sizes",
     "Tests sample a few random counts on contiguous 1-D arrays with small messages.",
     [PS, UT], [("my_alltoallv", PS), ("sendrecv_pairwise / my_alltoallv_pairwise", PS), ("repartition", PS)],
     ["receive buffers and returned arrays"], "numpy slicing reference model on real MPI ranks", NOTE_MPI)
prop("P03", "Gathering distributed arrays concatenates them in rank order",
     "gather_array on the root rank, and allgather_array on every rank, return the concatenation of the ranks' arrays along the "
     "first axis in rank order, whatever the per-rank lengths, dimensionality and memory layout; non-root ranks get None from gather_array.",
     ["inputs", "configurations"], "all partitions, shapes, dtypes, roots and memory layouts",
     "Only one-dimensional and a few fixed shapes are tested.",
     ["python/virgo/mpi/gather_array.py"], [("gather_array/allgather_array", "python/virgo/mpi/gather_array.py")], ["returned arrays"],
     "numpy.concatenate reference on real MPI ranks", NOTE_MPI)
prop("P04", "fetch_elements returns the elements at the requested global indexes",
     "For any distributed array and any per-rank list of valid global indexes (any order, duplicates, empty), fetch_elements "
     "returns arr[index] in request order on each rank, preserving dtype, trailing dimensions and array subclass information, and "
     "fills a caller-supplied result array identically.",
     ["inputs", "configurations"], "all arrays, partitions, index lists, layouts",
     "Tests use contiguous arrays and a handful of random index lists.",
     [PS], [("fetch_elements", PS)], ["returned array / result buffer"], "global fancy indexing reference on real MPI ranks", NOTE_MPI)
prop("P05", "parallel_match finds exactly the matching elements",
     "parallel_match returns, for every element of arr1, the global index of an element of arr2 with an equal value, and -1 "
     "exactly when arr2 contains no such value, with or without arr2_sorted, for any distribution of both arrays.",
     ["inputs", "configurations"], "all pairs of arrays, distributions, integer and float types",
     "Tests sample uniform random values; boundary values at rank edges, empty ranks and duplicates are not reached.",
     [PS], [("parallel_match", PS)], ["returned index arrays"], "set-membership oracle on real MPI ranks", NOTE_MPI)
prop("P06", "parallel_unique returns each distinct value once, with its count",
     "parallel_unique returns the sorted distinct values of the distributed array, each exactly once across all ranks, with "
     "counts that equal the number of occurrences; repartition_output spreads them evenly without changing order or contents.",
     ["inputs", "configurations"], "all arrays, partitions, options",
     "Values whose runs span several (or empty) ranks are sampled rarely by the fixed random tests.",
     [PS], [("parallel_unique", PS)], ["returned arrays"], "numpy.unique reference on real MPI ranks", NOTE_MPI)
prop("P07", "reduce_elements and parallel_bincount equal their serial counterparts",
     "reduce_elements applies every update exactly once to the element with its global index, giving the serial ufunc.at result "
     "for any distribution of updates. parallel_bincount equals numpy.bincount of the concatenated input with the same weights and "
     "minlength, for any input and result distribution.",
     ["inputs", "configurations"], "all target arrays, updates, operators, weights, partitions",
     "Tests cover a few operators with contiguous arrays.",
     [PS], [("reduce_elements", PS), ("parallel_bincount", PS)], ["updated local arrays / returned bins"],
     "numpy ufunc.at / bincount differential on real MPI ranks", NOTE_MPI)
prop("P08", "Particle group membership follows from lengths and offsets",
     "group_index_from_length_and_offset labels every particle with the index of the group whose [offset, offset+length) range "
     "contains it, -1 when none does, and (on request) its rank within the group, for any distribution of groups and particles. "
     "replace_none_with_zero_size gives every rank an array of common type and trailing shape without altering existing data.",
     ["inputs", "configurations"], "all catalogues with non-overlapping groups, all distributions",
     "Tests have a few random catalogues; groups spanning several ranks with gaps and empty ranks are not enumerated.",
     [UT], [("group_index_from_length_and_offset", UT), ("replace_none_with_zero_size", UT)],
     ["returned arrays"], "serial loop reference on real MPI ranks", NOTE_MPI)
prop("P09", "Halo matching picks the halo holding most of the particles",
     "match_halos returns for each halo the halo of the other output containing the most of its (first nr_particles, type-filtered) "
     "particles, with the count, resolving ties to the lowest index and giving -1 when none match; consistent_match flags exactly "
     "those halos whose match's match is themselves. Neither depends on how particles or halos are distributed over ranks.",
     ["inputs", "configurations"], "all particle lists, group memberships and distributions",
     "Tests use one synthetic layout; ties, partial overlaps and unrelated distributions are not covered.",
     ["python/virgo/mpi/merger_tree.py"], [("match_halos / consistent_match", "python/virgo/mpi/merger_tree.py")],
     ["returned match index and count arrays"], "dictionary-count reference model on real MPI ranks", NOTE_MPI)
prop("P10", "Collective HDF5 dataset I/O is exact for any distribution",
     "collective_write creates a dataset equal to the concatenation of the ranks' arrays whatever their sizes, dtype, chunking, "
     "compression and buffer size; collective_read gives every rank its contiguous, evenly split share so the concatenation over "
     "ranks equals the dataset.",
     ["inputs", "configurations"], "all arrays, distributions, buffer sizes and filters",
     "Tests cover a few sizes; buffer/chunk boundaries and empty ranks are input-quantified.",
     [PH], [("collective_read", PH), ("collective_write", PH)], ["HDF5 file contents, returned arrays"],
     "round trip and h5py serial differential on real MPI ranks", NOTE_MPI)
prop("P11", "MultiFile.read returns the whole file set in file order",
     "Reading a multi-file set gives distributed arrays whose concatenation over ranks equals the concatenation of the files' "
     "datasets in file order, for any number of files versus ranks, with absent datasets or groups skipped, None when no file has "
     "data, native endianness, the dataset's attributes, and file numbers equal to the file each element came from.",
     ["inputs", "configurations"], "all file sets, ways of naming them, rank counts, datasets",
     "Tests cover one file layout per case; empty or missing datasets and ranks>files or files>ranks combinations are sampled thinly.",
     [PH], [("MultiFile.read", PH), ("assign_files", PH)], ["returned arrays"], "h5py serial concatenation on real MPI ranks", NOTE_MPI)
prop("P12", "MultiFile.write reproduces the file layout",
     "get_elements_per_file reports the number of elements in each file, and write() with those counts puts into each output file "
     "exactly the elements that came from the corresponding input file (also for derived arrays), preserving dtype, attributes and "
     "existing contents when appending.",
     ["inputs", "configurations"], "all file sets, output naming schemes, rank counts",
     "One layout is tested; zero-sized files, missing datasets and mode/group combinations are not.",
     [PH], [("MultiFile.get_elements_per_file", PH), ("MultiFile.write", PH)], ["output HDF5 files"],
     "file-set round trip on real MPI ranks", NOTE_MPI)

F = "python/virgo/formats/"
U = "python/virgo/util/"
RB = U + "read_binary.py"

prop("P13", "Every rank gets the same arguments, parsed from the first rank's command line",
     "MPIArgumentParser gives every rank the result argparse would give for the command line of rank 0, whatever the other ranks' "
     "command lines contain. If that command line is invalid or asks for help, every rank stops instead of returning or hanging, "
     "and the message is printed once.",
     ["inputs", "configurations"], "all argument specifications, command lines, rank counts and roots",
     "No test parses arguments on several ranks; whether all ranks agree depends on the specification and the per-rank command lines.",
     [UT], [("MPIArgumentParser", UT)], ["parsed namespace or exit on each rank; stdout/stderr"],
     "argparse as reference model on real MPI ranks", NOTE_MPI)
prop("P14", "match finds exactly the elements present in the other array",
     "match(arr1, arr2) returns for every element of arr1 the index of an equal element of arr2, and -1 exactly when arr2 does not "
     "contain that value, for any types, byte orders and ordering. Passing arr2_sorted or a sorting index changes nothing about "
     "which elements match.",
     ["inputs"], "all pairs of arrays and types, presorted or indexed or neither",
     "There is no unit test of the serial matching; boundary values, mixed integer types and duplicates are input-quantified.",
     [U + "match.py"], [("match", U + "match.py")], ["returned index array"], "set-membership oracle")
prop("P15", "assign_ranges and sum_ranges act on exactly the requested ranges",
     "assign_ranges gives every element inside a range that range's value and leaves every other element unchanged. sum_ranges returns for every "
     "range the (optionally weighted and normalised) sum over exactly its elements along the first axis, zero for an empty range.",
     ["inputs"], "all sorted non-overlapping range lists, array shapes, types, weights",
     "There are no unit tests; adjacent, empty, first and last ranges and multidimensional data are input-quantified.",
     [U + "ranges.py"], [("assign_ranges", U + "ranges.py"), ("sum_ranges", U + "ranges.py")], ["returned arrays"],
     "loop reference model")
prop("P16", "Peano-Hilbert keys are the simulation code's space-filling curve",
     "The key functions map cell coordinates one to one onto keys along the Hilbert curve used by the simulation codes (consecutive "
     "keys are neighbouring cells; coarser keys are prefixes of finer ones), and the inverse recovers the cell, for any number of bits "
     "and array size. A position's key is that of the cell that contains it.",
     ["inputs"], "all cells, bit counts, array lengths, positions and box sizes",
     "There are no unit tests; block boundaries, large bit counts and cell edges cannot be enumerated by examples.",
     [U + "peano.py"], [("peano_hilbert_keys / inverse", U + "peano.py"), ("coordinates_from_position", U + "peano.py")],
     ["returned keys and coordinates"], "bijection, adjacency and nesting invariants and the C implementation as differential")
prop("P17", "Binary files read through the HDF5-like interface return the bytes on disk",
     "Datasets and attributes declared in a BinaryFile occupy consecutive ranges of the file as declared (after any skips), and reading "
     "one with any index expression gives the values numpy would give for those bytes in the byte order currently in force; later byte "
     "order changes apply to all blocks which do not fix their own order. Names are unique and groups are created as needed.",
     ["inputs", "histories"], "all layouts, index expressions, byte orders, histories of declarations and byte order changes",
     "There are no unit tests; layouts and byte-order histories form an unbounded space.",
     [RB], [("BinaryFile / BinaryDataset", RB)], ["values returned by indexing"],
     "model-based histories with numpy.frombuffer as reference model")
prop("P18", "Many binary files can be open at once without exhausting descriptors",
     "Any number of BinaryFile objects may be open and read in any order with correct results while the number of file descriptors stays within the "
     "fixed limit. Closing a file or dataset releases it, and a file replaced on disk afterwards is read afresh when opened again.",
     ["histories"], "all histories of open, read, close, replace and forget over any number of files",
     "Needs specific multi-step histories over more files than the descriptor limit.",
     [RB], [("open file cache", RB)], ["values read; descriptors held by the process"], "model-based histories against a dictionary of file contents")
prop("P19", "Copying or hashing a binary file covers every block exactly",
     "write_hdf5 reproduces every dataset, group and attribute of the binary file with the same name, type, shape and values; write_binary "
     "writes a file with the same layout in the requested byte order; the hash of the file is that of its bytes; and "
     "all_bytes_used is true exactly when every byte belongs to a block.",
     ["inputs", "configurations"], "all layouts and contents, byte orders, compression settings, hash algorithms",
     "There are no unit tests; nested layouts and zero-size blocks are input-quantified.",
     [RB], [("write_hdf5 / write_binary / hash / all_bytes_used", RB)], ["output files, returned values"],
     "round trip compared through h5py / numpy / hashlib")
prop("P20", "Fortran records are read back, and corrupt ones are rejected",
     "For any sequence of Fortran unformatted records in either byte order, the record interface determines the byte order "
     "and returns each record's contents. A record whose markers disagree, is cut short, or does not have the length the layout "
     "says raises an I/O error instead of returning data.",
     ["inputs", "crash_points"], "all record lengths (including 0 and lengths equal to their own byte reversal), byte orders, damaged markers, truncations",
     "There are no unit tests; damage positions and ambiguous markers are input-quantified.",
     [RB], [("start_fortran_record / end_fortran_record", RB)], ["values read, exceptions"], "records as written; fault injection on the file bytes")
prop("P21", "read_multi concatenates the datasets of a file set",
     "Reading datasets from a list of file numbers returns, for each name, the concatenation along the chosen axis of the datasets in the "
     "order of the file numbers given, skipping files where the dataset is absent, for HDF5 files or any other reader class.",
     ["inputs", "configurations"], "all file sets, orders, dataset lists, axes, reader classes",
     "There are no unit tests.", [U + "read_multi.py"], [("read_multi", U + "read_multi.py")], ["returned dictionary"],
     "numpy.concatenate reference model")
prop("P22", "Partial formatting fills in the given fields and preserves the rest",
     "Formatting a string with some of the values replaces those fields exactly as str.format does and leaves every other field, "
     "with its conversion, attribute lookups and format specification, unchanged. Formatting the result with the remaining values gives what "
     "formatting everything at once would have given.",
     ["inputs"], "all format strings and subsets of values", "There are no unit tests; the format mini-language is unbounded.",
     [U + "partial_formatter.py"], [("PartialFormatter", U + "partial_formatter.py")], ["formatted string"], "str.format differential and two-step metamorphic relation")
prop("P23", "Gadget snapshots are read the same from binary and HDF5 files",
     "Opening any Gadget type 1 binary snapshot gives the header and each particle type's datasets exactly as written, for either byte "
     "order, any set of particle types, 32 or 64 bit quantities, mass table use, and standard or user-defined extra blocks; HDF5 "
     "snapshots are opened transparently. A file with damaged record markers or which is cut short is rejected.",
     ["inputs", "configurations", "crash_points"], "all snapshot contents, layouts, byte orders, damage positions",
     "There are no unit tests of the snapshot readers.", [F + "gadget_snapshot.py"],
     [("GadgetBinarySnapshotFile / open", F + "gadget_snapshot.py")], ["datasets and attributes read, exceptions"],
     "independent writer round trip and fault injection")
prop("P24", "L-Gadget2 group and subhalo files are decoded and checked",
     "The Millennium group_tab, group_ids, sub_tab and sub_ids readers return every quantity exactly as written for any catalogue, byte order "
     "and ID size. The sanity check accepts every consistent file and reports each kind of inconsistency it covers (counts, offsets, "
     "ranges, parents, ordering, non-finite values); cut-off files are rejected.",
     ["inputs", "crash_points"], "all catalogues, byte orders, ID sizes; every single inconsistency or truncation",
     "There are no unit tests of these formats.", [F + "subfind_lgadget2.py"],
     [("GroupTabFile, GroupIDsFile, SubTabFile, SubIDsFile", F + "subfind_lgadget2.py")], ["datasets read, exceptions"],
     "independent writer round trip and fault injection")
prop("P25", "L-Gadget3 subhalo files are decoded and checked",
     "The L-Gadget3 sub_tab and sub_ids readers return every quantity exactly as written for any multi-file catalogue, byte order, ID and "
     "float size and optional fields. The sanity check accepts every consistent file and reports each inconsistency it covers; wrong "
     "options and cut-off or over-long files are rejected.",
     ["inputs", "configurations", "crash_points"], "all catalogues and options; every single inconsistency",
     "There are no unit tests of these formats.", [F + "subfind_lgadget3.py"],
     [("SubTabFile, SubIDsFile", F + "subfind_lgadget3.py")], ["datasets read, exceptions"], "independent writer round trip and fault injection")
prop("P26", "P-Gadget3 group and subhalo files are decoded and checked",
     "The P-Gadget3 subhalo_tab, subhalo_ids, group_tab and group_ids readers return every quantity exactly as written for any multi-file catalogue, "
     "byte order, ID and float size and optional fields. The sanity checks accept every consistent file and report each "
     "inconsistency they cover; wrong options and cut-off or over-long files are rejected.",
     ["inputs", "configurations", "crash_points"], "all catalogues and options; every single inconsistency",
     "There are no unit tests of these formats.", [F + "subfind_pgadget3.py"],
     [("SubTabFile, SubIDsFile, GroupTabFile, GroupIDsFile", F + "subfind_pgadget3.py")], ["datasets read, exceptions"],
     "independent writer round trip and fault injection")
prop("P27", "Group catalogues combine all files of a set in order",
     "Gadget-4 binary subhalo files return the header and every group and subhalo quantity as written, and files with damaged records are rejected. "
     "A whole-catalogue reader (Gadget-4 or P-Gadget3) returns for each requested quantity the concatenation over all files in order, "
     "including files with no groups or no subhalos, with the default list covering all quantities.",
     ["inputs", "configurations", "crash_points"], "all catalogues and divisions into files, options, damage positions",
     "There are no unit tests of these formats.", [F + "subfind_gadget4.py", F + "subfind_pgadget3.py"],
     [("SubTabFile / GroupCatalogue", F + "subfind_gadget4.py"), ("GroupCatalogue", F + "subfind_pgadget3.py")],
     ["datasets read, exceptions"], "independent writer round trip")
prop("P28", "Particles of a group or subhalo come from the right snapshot rows",
     "For any group-ordered snapshot split over any number of files, reading FoF group i or subhalo i returns exactly that object's "
     "particles of each type, in file order, across file boundaries and in any order of requests, and reading a particle range returns "
     "exactly that range.",
     ["inputs", "histories"], "all catalogues, splits of particles over files, particle types, request sequences, large offsets",
     "There are no unit tests; file-boundary cases depend on the combination of group sizes and file cuts.",
     [F + "subfind_gadget4.py", F + "subfind_pgadget3.py"],
     [("GroupOrderedSnapshot", F + "subfind_gadget4.py"), ("GroupOrderedSnapshot", F + "subfind_pgadget3.py")],
     ["particle arrays returned"], "slices of the full particle arrays as reference model")
prop("P29", "Millennium snapshot regions contain exactly the overlapping cells' particles",
     "Reading a region (or list of hash cells) of a Millennium-1 snapshot returns exactly the particles in the hash cells the region "
     "overlaps, with periodic wrapping, from whichever files hold them; single files return every quantity as written. The sanity check "
     "accepts every valid file and reports inconsistent headers, hash tables and IDs.",
     ["inputs", "histories"], "all snapshots, regions and repeated requests; every single inconsistency it covers",
     "There are no unit tests; wrap-around and file-boundary combinations are input-quantified.",
     [F + "subfind_lgadget2.py"], [("SnapshotFile, Snapshot.read_region/read_cells", F + "subfind_lgadget2.py")],
     ["particle arrays returned, exceptions"], "brute-force selection as reference model")
prop("P30", "Rockstar and VELOCIraptor binary halos are decoded field by field",
     "Reading any field of a Rockstar binary halo file (either format revision, with or without hydro fields) or a VELOCIraptor properties "
     "file (any header length) gives the values written for every halo. Files which are truncated or have the wrong layout are "
     "rejected, and Rockstar's sanity check accepts exactly the consistent particle ranges.",
     ["inputs", "configurations", "crash_points"], "all halo counts, revisions, options, index expressions; damage",
     "There are no unit tests of these formats.", [F + "rockstar.py", F + "velociraptor.py"],
     [("HalosFile", F + "rockstar.py"), ("PropertiesFile", F + "velociraptor.py")], ["datasets read, exceptions"],
     "independent writer round trip and fault injection")
prop("P31", "Merger tree, descendant and density field files are decoded as written",
     "The readers of MPA merger tree files (sub_desc, treeaux, tree) and MXXL descendant and density field files return every quantity "
     "exactly as written, for any number of objects including zero, ID sizes and optional tables. Truncated files and damaged "
     "record markers are rejected.",
     ["inputs", "configurations", "crash_points"], "all file contents and options; truncations",
     "There are no unit tests of these formats.", [F + "mpa_trees.py", "python/virgo/sims/mxxl.py"],
     [("SubDescFile, TreeAuxFile, TreeFile", F + "mpa_trees.py"), ("MXXL files", "python/virgo/sims/mxxl.py")],
     ["datasets read, exceptions"], "independent writer round trip and fault injection")
prop("P32", "Each simulation's reader uses the right format and file names",
     "The classes provided for a simulation (Millennium, Millennium-2, MXXL, COCO, Eagle) read that simulation's files "
     "correctly with their default options, and user-supplied options override the defaults. The Eagle helper returns the path of "
     "the requested snapshot's files, whatever redshift label their directory carries.",
     ["inputs", "configurations"], "all catalogues, options, directory trees",
     "There are no unit tests of the simulation modules.",
     ["python/virgo/sims/millennium.py", "python/virgo/sims/millennium2.py", "python/virgo/sims/mxxl.py", "python/virgo/sims/coco.py",
      "python/virgo/sims/eagle.py"],
     [("per-simulation classes", "python/virgo/sims"), ("eagle_filename", "python/virgo/sims/eagle.py")], ["datasets read, paths returned"],
     "independent writer round trip")
prop("P33", "Quantities from SWIFT and SOAP files carry the right physical units",
     "Reading any dataset of a SWIFT snapshot or SOAP catalogue returns the stored values with units whose dimensions and physical CGS value match the "
     "file's metadata, expressed in the documented snapshot units, expansion factor and h, also when several files with different unit systems are open. "
     "The named units have the values stored in the file, and groups and datasets otherwise behave like those of the HDF5 file.",
     ["inputs", "configurations", "histories"], "all unit systems, exponents, extra factors, data types, index expressions, sets of open files",
     "There are no unit tests of the SWIFT reader; exponents, factors and unit systems are a continuous input space.",
     [F + "swift.py", F + "soap.py"], [("soap_units_from_attributes / soap_unit_registry_from_snapshot", F + "swift.py"), ("SwiftFile, SwiftGroup, SwiftDataset", F + "swift.py")],
     ["arrays with units, unit objects"], "stored values times the CGS conversion factors in the attributes as oracle")
prop("P34", "swiftsimio arrays and cosmology agree with the file's metadata",
     "In swiftsimio mode every dataset is returned with units and comoving flag such that its comoving and its physical CGS values are those "
     "given by the file's conversion factors; data whose comoving state cannot be represented raises ValueError. The cosmology and expansion factor of a "
     "file are those in its metadata.",
     ["inputs", "configurations"], "all unit systems, exponents, factors, cosmologies",
     "There are no unit tests of the SWIFT reader.",
     [F + "swift.py", F + "soap.py"], [("swiftsimio_units_from_attributes / swiftsimio_cosmology", F + "swift.py")],
     ["cosmo_array objects, astropy cosmology, exceptions"], "stored values times the CGS conversion factors in the attributes as oracle")
IT = "python/virgo/database/index_trees.py"
prop("P35", "Depth-first tree indexes make every branch contiguous",
     "For any forest, the depth-first index numbers the nodes so that the progenitors of a node and their own progenitors occupy a contiguous "
     "range starting at the node, with progenitors in descending branch mass, and the end-of-branch and end-of-tree indexes delimit exactly the main "
     "branch and the whole sub-tree. The result does not depend on storage order or the numeric values of the node identifiers.",
     ["inputs"], "all forests, storage orders, identifiers, branch masses with ties",
     "There are no unit tests; tree shapes are an unbounded input space.", [IT], [("depth_first_index", IT)], ["returned index arrays"],
     "ordering axioms checked by recursion over generated forests")
prop("P36", "Branch mass, tree mass and main progenitor follow their definitions",
     "For any forest with progenitors in earlier snapshots, tree mass is the mass of a node plus all its progenitors', branch "
     "mass is the largest mass summed along any single branch ending at the node, and the main progenitor is the progenitor with the largest branch mass (-1 if none), with the number of progenitors tied with it. "
     "None of them depends on storage order or identifier values.",
     ["inputs"], "all forests, storage orders, identifiers, masses",
     "There are no unit tests; tree shapes are an unbounded input space.", [IT],
     [("find_progenitor_tree_mass / find_progenitor_branch_mass_delucia / find_main_progenitor", IT)], ["returned arrays"], "recursive definitions as reference model")
MD = "python/virgo/database/make_dtrees_table.py"
prop("P37", "Database tables hold every row and column of the merger trees",
     "The native data file and create-table script written for a set of columns describe the same packed rows and contain every value "
     "of every column in order, vector columns expanded and strings padded, and SQL and numpy types convert both ways consistently. Converting a multi-file "
     "forest writes one row per node with identifiers and tree links that satisfy the tree index properties.",
     ["inputs", "configurations"], "all column sets and types; all forests split over files",
     "There are no unit tests of the database writer.", [MD, IT], [("write_sql_server_native_file / make_dtrees_table", MD), ("sql_type / numpy_type", MD)], ["written files"],
     "independent parser round trip")

FW = "fortran/hdf5_wrapper/src/"
prop("P38", "The Fortran wrapper stores and returns datasets exactly",
     "Any sequence of whole or partial writes of arrays of any supported type and rank through the Fortran HDF5 wrapper leaves exactly the written values in the file, "
     "at the positions given by start and count, with the shape implied by initial_size and extensions; any read returns them and leaves the rest of "
     "the array unchanged. Misuse (wrong type, missing start/count, no room, read-only file) stops with an error and damages nothing.",
     ["histories", "inputs", "configurations"], "all types, ranks 0-7, selections, array shapes, options, histories of writes and reads",
     "The only tests are three fixed example programs whose output is not checked element by element.",
     [FW + "hdf5_wrapper.F90", FW + "read_dataset.inc", FW + "write_dataset.inc", FW + "write_dataset_preprocessor.inc", FW + "read_dataset_preprocessor.inc"],
     [("hdf5_write_data", FW + "write_dataset.inc"), ("hdf5_read_data", FW + "read_dataset.inc")], ["arrays in the Fortran program, files read with h5py, error stops"],
     "model-based histories run by a generated Fortran program, compared with numpy arrays and h5py")
prop("P39", "The Fortran wrapper stores and returns attributes exactly",
     "Attributes of any supported type and rank written through the Fortran HDF5 wrapper to the root group, other groups or datasets are read back exactly, and their "
     "dimensions, types and names are reported correctly. overwrite=.true. replaces an attribute by the new value; without it an existing "
     "attribute is preserved and the program stops with an error.",
     ["histories", "inputs"], "all types, ranks 0-7, parents, histories of writes and reads",
     "The only tests are three fixed example programs whose output is not checked element by element.",
     [FW + "hdf5_wrapper.F90", FW + "read_attribute.inc", FW + "write_attribute.inc", FW + "read_attribute_preprocessor.inc", FW + "write_attribute_preprocessor.inc"],
     [("hdf5_write_attribute", FW + "write_attribute.inc"), ("hdf5_read_attribute", FW + "read_attribute.inc"), ("hdf5_list_attributes", FW + "hdf5_wrapper.F90")],
     ["arrays in the Fortran program, files read with h5py, error stops"],
     "model-based histories run by a generated Fortran program, compared with numpy arrays and h5py")
prop("P40", "Fortran wrapper handles, groups and listings are consistent",
     "File handles stay independent however many files are open and in whatever order they are opened, closed and reopened, and read-only files are never modified. "
     "Creating a group creates all its parents and preserves what exists; listings, dimensions and types describe the file's real contents; "
     "files written by other software are read correctly whatever their byte order, padding or layout, or refused with an error.",
     ["histories", "inputs"], "all histories of opening, closing and group creation; all trees and data types",
     "The only tests are three fixed example programs.",
     [FW + "hdf5_wrapper.F90", FW + "read_dataset.inc"],
     [("hdf5_open_file / hdf5_create_file / hdf5_close_file", FW + "hdf5_wrapper.F90"), ("hdf5_create_group / hdf5_list_groups / hdf5_list_datasets", FW + "hdf5_wrapper.F90")],
     ["listings, handles, file contents, error stops"], "model-based histories run by a generated Fortran program, compared with a model and h5py")

EX = "examples/millennium/fortran/"
prop("P41", "An exception on any MPI rank stops the whole job",
     "A function decorated with mpi_errchk passes its arguments and return value through unchanged as long as it does not raise. If it raises (or is "
     "interrupted) on any rank, in any state of the other ranks, the whole MPI job ends promptly with a non-zero status and the exception and the rank are reported.",
     ["inputs", "schedules", "faults"], "all sets of failing ranks, kinds of exception, states of the other ranks",
     "There are no unit tests of the decorator; what matters is that a job never hangs or goes on after a failure, whatever the other ranks do.",
     ["python/virgo/mpi/errchk.py"], [("mpi_errchk", "python/virgo/mpi/errchk.py")], ["return values, MPI_Abort calls, exit status and output of whole jobs"],
     "fault injection on real MPI jobs against the transparency/termination oracle", NOTE_MPI)
CH = "consistency_check/hash/hash_dirs_mpi.py"
prop("P42", "hash_dirs_mpi.py hashes every selected file of a tree exactly once",
     "For any directory tree, number of ranks and options, the script reports the correct hash of every selected file exactly once, in the output file, in the "
     "per-directory files and in the database, and nothing else; unreadable files and wrong arguments are reported and never silently skipped. "
     "A resumed run gives what a complete run gives, recomputing only files without a known hash.",
     ["inputs", "configurations", "histories"], "all trees, patterns, options, numbers of ranks, histories of changes and resumed runs",
     "There are no tests of the script; trees, options and interrupted histories are an unbounded space.",
     [CH], [("hash_dirs_mpi.py", CH)], ["output files, database rows, messages"],
     "hashlib/fnmatch reference model over generated trees and histories", NOTE_MPI)
FP = ["consistency_check/eagle/check_eagle_file_presence.py", "consistency_check/p-gadget3/check_pgadget3_file_presence.py"]
prop("P43", "The file presence scripts report exactly which outputs are missing",
     "For any state of a simulation's output directories, the file presence scripts report as complete exactly those sets of files all of which exist, give the "
     "right counts for incomplete ones, and count missing and ambiguous directories and unreadable first files as incomplete.",
     ["inputs"], "all subsets of files present, numbers of files, directory layouts",
     "There are no tests of the scripts; any subset of the files may be missing.",
     FP, [("check_eagle_file_presence.py", FP[0]), ("check_pgadget3_file_presence.py", FP[1])],
     ["lines printed by the scripts"], "the generated directory tree as oracle")
prop("P44", "Fortran sort_index returns a sorting permutation",
     "For any array of integers, reals or strings of any length, sort_index returns a permutation of 1..n which puts the array into ascending order and leaves "
     "the array and all memory around the index unchanged. An index array of the wrong size is refused.",
     ["inputs"], "all arrays, types, lengths, strides",
     "There are no tests of the Fortran routines; the array contents (ties, presorted runs, extremes) are an unbounded space.",
     [EX + "sort.f90"], [("sort_index", EX + "sort.f90")], ["index arrays"], "sortedness/permutation axioms against numpy")
prop("P45", "The Millennium Fortran routines return what the files contain",
     "For any Millennium snapshot and group catalogue, in either byte order, the Fortran and C routines return exactly the header, particles, hash table, groups and "
     "subhalos in the files; reading a set of hash cells returns exactly the particles of those cells in file order. The example programs write exactly the particles of the "
     "files, regions, groups and subhalos asked for.",
     ["inputs", "configurations", "histories"], "all snapshots split over files, empty files and cells, regions, groups spanning files, byte orders",
     "There are no tests of these routines.",
     [EX + f for f in ("readfile.f90", "readgroups.f90", "readregion.f90", "readparticles.c", "peano_keys.c")],
     [("readregion", EX + "readregion.f90"), ("readgroups", EX + "readgroups.f90")], ["arrays returned, files written by the programs"],
     "independent writer round trip through a generated Fortran driver")
IG = "examples/millennium/idl/IdlGroupLib/groupstuff.c"
prop("P46", "The group catalogue library for IDL returns the right particles",
     "For any Millennium snapshot and group catalogue, the functions of the IDL group library return the right counts, identifiers, coordinates and hash "
     "table; the particles within a sphere or of a group, across the periodic boundary or several files, are found exactly and placed next to the centre; centres and mass "
     "functions agree with their definitions.",
     ["inputs", "histories"], "all catalogues, files, spheres, groups across the edges of the box",
     "There are no tests of this library.", [IG], [("groupstuff.c", IG)], ["arrays filled by the library"], "independent writers and brute-force periodic geometry")
EW = "examples/"
prop("P47", "The Millennium-2 and WMAP7 example programs print what the files contain",
     "For any Millennium-2 or Millennium-WMAP7 snapshot file, the C and Fortran example programs print the right number of particles, total (also above 2^32), box size "
     "and exactly the positions, velocities and 64-bit identifiers of the dark matter particles in order. Files which are missing or have a wrong header are refused.",
     ["inputs"], "all numbers of particles, values, identifiers, totals, data types",
     "There are no tests of these programs.",
     [EW + "millennium2/c/read_mill2_snapshot_file.c", EW + "millennium2/fortran/read_m2_snapshot_file.f90",
      EW + "millennium-wmap7/c/read_mr7_snapshot_file.c", EW + "millennium-wmap7/fortran/read_mr7_snapshot_file.f90"],
     [("main programs", EW + "millennium2")], ["output of the programs"], "independent writer round trip")

prop("P48", "The Python example scripts compute the right results from a run's files",
     "On any Millennium, Millennium-2 or WMAP7 run with the layout they document, the Python example scripts list every subhalo of the catalogue in order, return exactly the particles "
     "of the selected region or FoF group, and find the mean position, velocity, angular momentum and maximum circular velocity of each subhalo, also if it spans the edge of the box.",
     ["inputs"], "all catalogues, distributions of groups over files, byte orders, positions in the periodic box",
     "There are no tests of these scripts, three of which could not run.",
     [EW + "millennium/python", EW + "millennium2/python", EW + "millennium-wmap7/python"],
     [("scripts", EW + "millennium/python")], ["output, plotted values and results of the scripts"], "brute-force model")

NOT_APPLICABLE = {}
