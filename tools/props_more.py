THREADTECH = TECH + "real threads of hftools under a seeded scheduler that switches at chosen lines or bytecodes, cooperative locks; "

prop("C12", "Files and results depend on the data alone, not on the environment",
     "The same dataset saved in any text format gives the same bytes (apart from the creation stamp of MDIF), and the same files read, merged or found by pattern give the same result in the same order, "
     "whatever the hash seed, the locale, the time zone, the clock, the memory layout and the order of directory listings.",
     ["inputs", "schedules"], "all datasets of the six layouts, single or merged, including several blocks and variables over different dimensions, and all environments",
     "The test suite runs in one environment; differences only show when the same work is done in two.",
     [FF + "__init__.py", FF + "merge.py", FF + "mdif.py", FF + "spdata.py", FF + "citi.py", FF + "touchstone.py", "hftools/dataset/dataset.py", "hftools/utils.py"],
     [dict(name="explicit encodings and ordered containers in the writers", where=FF), dict(name="lex_order", where="hftools/utils.py")],
     TECH + "five interpreters with different hash seeds, locales, time zones, heaps and simulated clocks and listing orders do the same seeded work; byte comparison",
     "exploration", "Hash seed, locale, zone and allocator are sampled in five interpreters per run (hash seeds follow VERIF_SEED); clocks and listing orders per run. HDF5 files are compared by what is read.")

prop("C13", "Threads that use hftools at the same time do not disturb each other",
     "Operations that run at the same time in several threads (saving own or shared datasets to own files, reading own or shared files, merging, loading configurations, using cache entries of one's own, also in one shared directory) each give "
     "exactly the result, file or exception they give alone, also while an operation of another thread fails; shared datasets stay as they were, and nothing blocks for ever.",
     ["schedules", "inputs", "fault_sequences"], "all interleavings of 2-3 threads with 1-3 operations each, switching at any line or bytecode of hftools, with disk faults or unusable data in one of them",
     "Tests are single-threaded; the statement ranges over schedules.",
     [FF + "__init__.py", FF + "readbase.py", FF + "common.py", FF + "merge.py", FF + "citi.py", FF + "touchstone.py", FF + "spdata.py", FF + "mdif.py", FF + "config.py", FF + "hdf5/hdf5.py", "hftools/dataset/dataset.py"],
     [dict(name="no module-level state in readers and writers", where=FF)],
     THREADTECH + "results compared with the same operations one after the other", "exploration",
     "Schedules are sampled (mostly 1-10 preemptions); switches inside numpy, h5py and PyYAML are not made. Faults are not injected into HDF5 files here.")

prop("C14", "The log can be switched on and off from any thread",
     "However start_log and stop_log calls of several threads interleave, at most one handler is ever installed; a message of level info or above logged while the log is on appears exactly once on the stderr of the time it was switched on, one logged while it is off never, and "
     "none ever twice. After the last stop_log nothing is logged any more, and repeated calls are harmless.",
     ["schedules", "histories"], "all sequences of start, stop and logging in 2-4 threads and all their interleavings at any line or bytecode",
     "Tests call start_log and stop_log once, in one thread.",
     ["hftools/logger.py"], [dict(name="start_log, stop_log and their lock", where="hftools/logger.py")],
     THREADTECH + "history checked against the set of states the log may be in", "exploration",
     "Schedules are sampled; switches inside the logging module are not made.", state=[dict(name="_stream_handler", meaning="the handler installed by start_log, if any", where="hftools/logger.py")])

prop("C15", "Making directories is safe next to others and never a silent failure",
     "make_dirs and path.makedirs(silent=True) return normally exactly when the directory exists afterwards: also when it was there before, when other processes make the same or overlapping directories at the same time, "
     "or when one of them is killed. A file or dangling link in the way, or a directory that cannot be made, raises OSError. Nothing that existed is changed, permissions included, and only directories on the way to the target appear, under exactly the names given and with the permissions the umask leaves.",
     ["schedules", "fault_sequences", "crash_points", "inputs"], "all target paths, existing parts, failing mkdir calls, files in the way before or meanwhile, and interleavings of up to three processes and a kill",
     "Tests make one directory twice, alone, on a working disk.",
     ["hftools/utils.py", "hftools/_external/path.py"], [dict(name="make_dirs", where="hftools/utils.py"), dict(name="path.makedirs", where="hftools/_external/path.py")],
     TECH + "processes interleaved at every system call, mkdir faults, kills; the resulting tree against a model", "fault_enumeration",
     "Every mkdir of the call fails in turn; interleavings are sampled. Removal of directories by others is not part of it.")

prop("C16", "What depends on the time follows the clock, whatever the clock does",
     "A time of day in a configuration file loads as the first moment not before the moment of loading that has this time of day (seconds zero when not given), also around midnight, month and year ends, leap days and clock jumps during the load. "
     "timestamp() is the local time of the call in its documented form, with milliseconds when asked for, and the creation stamp of an MDIF file is the time it was saved.",
     ["inputs", "schedules"], "all times of day, all clock readings and jumps forwards or backwards between two readings of the clock",
     "The tests run at whatever time it happens to be and cannot move the clock.",
     [FF + "config.py", "hftools/utils.py", FF + "mdif.py"],
     [dict(name="time_constructor", where=FF + "config.py"), dict(name="timestamp", where="hftools/utils.py")],
     TECH + "simulated clock with scheduled steps and jumps at every reading; each result must be right for one moment the clock showed during the call", "exploration",
     "Clock values cluster at midnights and at the requested time itself. Local time is UTC in the simulation.")

prop("C17", "Configurations reload as they were written, or the caller hears of it",
     "Settings written by Config or LexicalConfig and loaded again are equal: numbers with their units, time intervals, dates, texts whatever they look like, lists and nested settings, also over a longer old file and "
     "with short or interrupted writes and reads. A failing disk makes the write raise and leaves the settings in memory unchanged, and writing again works. Loading is all or nothing: a file that is missing or cannot be read gives "
     "no settings and a warning or an error, never part of them or old ones, and reloading later recovers. Files written by hand load as what they say (numbers with SI prefix and unit, percent, ppm and ppb, time intervals, dates with and without time, texts). "
     "In a loaded LexicalConfig, a setting missing in a nested section is found in the nearest enclosing one, also through lists, by [], get and 'in' alike.",
     ["inputs", "fault_sequences", "histories"], "all settings (values with units and prefixes, intervals, dates, odd texts, nesting) and every failing, short, interrupted or disk-full operation of writing and loading",
     "The tests load one file and write it back without comparing or failing anything.",
     [FF + "config.py"], [dict(name="Config.write, reload_settings", where=FF + "config.py"), dict(name="YAML representers and resolvers", where=FF + "config.py")],
     TECH + "seeded settings, per-operation disk faults, comparison with the settings in memory", "fault_enumeration",
     "Lengths in metres are compared to 12 digits (they are written in millimetres). A file torn by a crash of the process is not judged: write is not atomic.")

prop("C18", "Walking a directory tree finds everything once and reports as asked",
     "walk, walkdirs, walkfiles, listdir, files and dirs of a path give every matching entry of the tree exactly once, a directory directly before what is in it, independent of the order of directory listings (links are followed; what is neither file nor directory is only an entry); patterns filter what is given, not where the walk goes. "
     "A directory that cannot be listed raises with errors='strict' (the default), gives one warning and is skipped with 'warn', and is skipped silently with 'ignore', while the rest of the tree is complete; any other policy raises ValueError. Files vanishing meanwhile never make it fail or lose others.",
     ["inputs", "fault_sequences", "schedules"], "all trees up to five levels, listing orders, patterns, sets of directories that cannot be listed and interleavings with a process that removes files",
     "There are no tests of the walk functions' error policy, and none controls listing order.",
     ["hftools/_external/path.py"], [dict(name="walk, walkdirs, walkfiles", where="hftools/_external/path.py")],
     TECH + "shuffled listings, listing faults at chosen directories and a second process interleaved, against a model tree", "fault_enumeration",
     "Trees of at most five levels; link cycles are not generated.")

prop("C19", "Operations leave no trace in the process",
     "Whatever operations came before in the same process, successful or failed by disk faults, torn files or unusable data, an operation gives the same result, exception and files as in a fresh process that does nothing else; "
     "files that were changed, replaced or removed in between are never answered from memory. No operation, successful or failed, changes settings shared with the rest of the program: working directory, environment, numpy error handling and print options, "
     "warning filters, locale, random generators, log handlers, signal handlers, umask, standard streams.",
     ["histories", "fault_sequences", "inputs"], "all histories of saving, reading, merging, appending, caching, configuration and failing operations over files that change in between",
     "Every test starts from its own files and never looks at what an operation leaves behind in the process.",
     [FF + "__init__.py", FF + "readbase.py", FF + "common.py", FF + "merge.py", FF + "config.py", FF + "mdif.py", FF + "citi.py", "hftools/utils.py", "hftools/dataset/helper.py"],
     [dict(name="no caches or leftovers in modules", where="hftools/")],
     TECH + "seeded histories with faults; every step is repeated in a process without a past and compared", "exploration",
     "Histories of 4-10 operations. The data cache (read_to_cache) remembers on disk by design; both processes see the same disk.")

prop("C20", "Files of instruments and other programs read as what they say",
     "read_data and the reader of the format give, for every valid Touchstone, CITI, SP-data or MDIF file another program wrote, exactly the values the file states, at the right places and in base units, and nothing else: "
     "Touchstone in Hz to THz, RI, MA or DB, upper or lower case, 1 to 6 ports with rows on one or several lines, two-ports column by column, reference impedance and two-port noise (Fmin, Rn in Ohm, Gopt always as magnitude and angle); "
     "CITI with value lists or segments over one to three VARs, RI, MAGANGLE and MAG data, measurement time, and matrices from element names; SP-data with unit prefixes in headers, Re/Im and Mag/Arg pairs, Mean and Std columns, repeated columns, matrices and text; "
     "MDIF with header and data over several lines, real, integer, complex and text columns, matrices, vectors, VARs and attributes over several blocks. Numbers, percentages, dates and texts stated in comments become variables, and all comments are kept in order (in MDIF those ahead of the first block). "
     "Line ends, blank lines, indentation and separators do not matter, nor do short or interrupted reads; a read error raises, and the next read on a working disk gives the same data.",
     ["inputs", "fault_sequences"], "all files of the four text formats in the stated dialects, and every failing, short or interrupted operation of the read",
     "Tests read some forty fixed files from a working disk; none varies ports, formats, units, layout and number styles against each other.",
     [FF + "touchstone.py", FF + "citi.py", FF + "spdata.py", FF + "mdif.py", FF + "readbase.py", FF + "common.py", "hftools/constants/si_units.py", "hftools/math.py"],
     [dict(name="tokenize and parse_blocks of every reader", where=FF), dict(name="unit_to_multiplier", where="hftools/constants/si_units.py")],
     TECH + "independent writers of the formats with seeded dialects; every read again under short reads and failing operations", "fault_enumeration",
     "Values are compared exactly but for 1e-12 relative (polar forms, unit prefixes). One file per run (many files: C11); CITI files with several packages and muwave .mat files are not part of it.")

prop("C21", "Saved figures are complete or the save raises",
     "When save_all_figures_to_pdf returns, the file is a complete PDF with one page per open figure, in the order of the figure numbers, each showing its figure; when helper.savefig returns, the file is the complete picture of the current figure, with an invisible background if facetransparent was asked for. "
     "This holds with short or interrupted writes and over an existing file. A failing or full disk, or a figure that cannot be drawn, makes the save raise, and saving again on a working disk works. "
     "Whether it succeeds or fails, no file is left open, no other file is touched and the open figures are as before (background, size, current figure); a name that is not .pdf is refused before anything is written.",
     ["inputs", "fault_sequences"], "all sets of open figures with at least one member and every failing, short, interrupted or disk-full operation of the save",
     "The tests save one figure on a working disk and only see that a file appears.",
     ["hftools/plotting/helper.py"], [dict(name="save_all_figures_to_pdf", where="hftools/plotting/helper.py"), dict(name="savefig", where="hftools/plotting/helper.py")],
     TECH + "seeded figures, per-operation disk faults, independent PDF parser and comparison with what matplotlib draws in memory", "fault_enumeration",
     "One to four small figures. The drawing itself is matplotlib's; the Smith projection fails with the installed matplotlib and is not used.")

prop("C22", "Measurements of the muwave toolbox read completely or not at all",
     "read_muwave_matlabdata and read_data give, for a MATLAB file the muwave toolbox wrote (one or several S-parameter measurements of any number of ports, compressed or not) and for a pattern over files with one measurement each, every measurement exactly once and in order (of the file; files in natural order of their names): "
     "frequencies, S and covariance matrices with each element at its place, reference impedance, bias states and measurement properties with exact values, dates, texts and units, fields that are always empty left out unless asked for. "
     "Short or interrupted reads change nothing; a failing read, a file cut short, a MAT-file that holds no such measurement (HFToolsIOError) and a pattern without a match raise, and the next read of good files works. No file is left open.",
     ["inputs", "fault_sequences"], "all measurement files of the toolbox's layout and every failing, short, interrupted or torn read of them",
     "There is no test of this reader.",
     [FF + "muwave_mat.py", FF + "__init__.py", FF + "merge.py"], [dict(name="read_muwave_matlabdata", where=FF + "muwave_mat.py")],
     TECH + "independently generated MAT-files, per-operation read faults, cuts at arbitrary bytes", "fault_enumeration",
     "1-3 ports, at least two frequencies, up to 7 measurements or 11 files. Files of other types than S, and several files with several measurements each, are refused by the reader (an exception) and not generated.")

prop("C23", "Operations on path objects do what they are called, or raise and change nothing",
     "Over every history of touch, remove, unlink, mkdir, makedirs, rmdir, removedirs, rename, renames, link, symlink, chmod and utime on path objects, each has exactly the effect of the operation of that name (touch creates a missing file and dates "
     "an existing one now, keeping its content, also while others write it) or raises the operating system's OSError; a failing operation is never swallowed, changes or removes nothing that was there and leaves nothing open. exists, isfile, isdir, islink, size, mtime, stat, readlink, "
     "readlinkabs, realpath, abspath, relpath, relpathto, getcwd, parent, name, ext, namebase, stripext and splitall answer for the path as it is then, from whatever working directory.",
     ["histories", "fault_sequences", "schedules", "inputs"], "all histories of up to 25 operations over nested names, links and changing working directories, every failing system call of each operation, and interleavings of touch with a process that writes the file",
     "The path class has no tests of these operations; none fails a system call or runs next to another process.",
     ["hftools/_external/path.py"], [dict(name="touch, rename, makedirs, readlinkabs, relpathto", where="hftools/_external/path.py")],
     TECH + "seeded histories on twin trees against plain operating-system calls, system-call faults, a second process interleaved", "fault_enumeration",
     "Names of at most three levels below the scratch directory. The aliases of shutil (copy, move, rmtree) and chown, chroot are not exercised.")
