"""Every property, its text and how it is decided."""


def A(files, mech, observe=None):
    d = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        d["observe_at"] = observe
    return d


MAIN3 = ["marine_qc.py", "marine_qc_hires.py", "marine_qc_track_only.py"]
NOTE = ("Seeded search, not exhaustive: no violation on everything explored. Real code for all programs and modules; "
        "netCDF4, the shell, bunzip2, sbatch/squeue, clock and raw system calls are simulated.")
PROPS = [
 dict(id="P01", title="Every report of a month appears exactly once in its outputs",
  statement="For every target month, each output file of the month holds exactly one row for each usable report that the "
  "archive has for that month (readable, dated in that month, not from an excluded platform), in archive order, with the "
  "archive's values and the anomalies from the climatology of its place and day, and no row for anything else. With "
  "tracking on, each drifter of the month has one set of files with exactly its own reports, and the month's ID list names "
  "each such drifter exactly once and nothing else.",
  quantifier=dict(over=["inputs", "histories", "configurations"], text="all archives (any mix of platforms, damaged, "
  "foreign, excluded and repeated records), all windows of months, all three programs, with and without tracking, all "
  "I/O buffer sizes"),
  why_tests_cant="The tests build reports in memory and call single methods; none runs a program over an archive, so the "
  "path archive, reader, three-month window, output files is not touched by them.",
  anchors=A(MAIN3 + ["Extended_IMMA.py", "IMMA1.py"], [("month loop and selection of records", "marine_qc.py main"),
  ("per-month and per-ID writers", "Extended_IMMA.py Deck.write_*"), ("reading of records", "IMMA1.py readob")]),
  how="whole programs over generated archives against a reference model of every output file", note=NOTE),
 dict(id="P02", title="An unusable record never affects any other report",
  statement="A record that cannot be used - an unreadable line, a record of another month or of an excluded platform, or a "
  "report that fails the position, date, time or blacklist checks, whether or not its ID is that of a good platform - never "
  "stops a run and changes no value or flag of any other report. Reports that are readable but fail those checks appear "
  "themselves, flagged.",
  quantifier=dict(over=["inputs", "fault_sequences"], text="all archives, all kinds, numbers and places of unusable records"),
  why_tests_cant="Tests feed well-formed reports one at a time; the property compares two whole runs for any archive and "
  "any placement of bad records.",
  anchors=A(MAIN3 + ["Extended_IMMA.py", "IMMA1.py", "qc.py"], [("filters before the track and buddy checks",
  "marine_qc.py main"), ("readob returning failure", "IMMA1.py")]),
  how="the same archive with and without injected unusable records, all other rows byte for byte", note=NOTE),
 dict(id="P03", title="Crash anywhere and run again: the same outputs to the byte",
  statement="If a run is killed at any point, any number of times, running the same command again to its end leaves exactly "
  "the output files that a run that was never interrupted leaves, byte for byte, and no partly written file is ever used as "
  "if it were complete.",
  quantifier=dict(over=["crash_points", "fault_sequences", "inputs"], text="all points of death (before any system call, "
  "part way through any write), sequences of up to three deaths, all three programs, all archives"),
  why_tests_cant="No test kills anything; what is on disk after a death depends on which write had been reached.",
  anchors=A(MAIN3 + ["Extended_IMMA.py", "qc.py"], [("outputs rewritten from scratch", "Extended_IMMA.py Deck.write_*"),
  ("background decompressed under a temporary name, then renamed", "marine_qc.py, qc.py get_background_filename")]),
  how="process crashes and torn writes at seeded operations, rerun compared with an uninterrupted run",
  note=NOTE + " Process crash only: what reached write() survives; the programs never fsync, so power loss is not claimed."),
 dict(id="P04", title="I/O errors and damaged input stop the run; nothing is silently wrong",
  statement="When any open, read, write, directory creation, rename, data file or child process fails, or an archive, "
  "climatology or background file is cut short or damaged, the run either ends with a failure or its outputs are exactly "
  "right; it never reports success over outputs that differ, and never goes on to later months after spoiling one. Once the "
  "cause is removed, running again gives exactly the outputs of a run without the fault.",
  quantifier=dict(over=["fault_sequences", "inputs"], text="all operations, all errno values listed, once or persisting, torn "
  "writes, all damaged input files, all three programs"),
  why_tests_cant="Tests never make I/O fail.",
  anchors=A(MAIN3 + ["Extended_IMMA.py", "qc.py", "Climatology.py", "BackgroundField.py", "IMMA1.py"],
  [("errors left to propagate", "all programs"), ("reading of the archive", "marine_qc.py main")]),
  how="errno, short-on-memory and child faults at seeded operations, damaged inputs on disk; result against the "
  "fault-free run", note=NOTE + " Faults of stat() are not injected; an empty background file counts as absent, by design; "
  "an archive file of zero bytes reads as an empty month, as Python's gzip has it."),
 dict(id="P05", title="Months with no archive file, or an empty one, are stepped over",
  statement="A run over any window of months, in which any of the months or their neighbours have no archive file, an empty "
  "one, or only unusable records, ends successfully and gives for every month exactly the outputs that its own and its "
  "adjacent months' reports determine. When a month is in several archives, only the first that has it is used.",
  quantifier=dict(over=["inputs", "configurations"], text="all patterns of missing and empty months over windows of 1-5 months"),
  why_tests_cant="No test runs a month loop.",
  anchors=A(MAIN3 + ["qc.py", "Extended_IMMA.py"], [("file lookup", "qc.py icoads_filename_from_stub"),
  ("three-month sliding window", "marine_qc.py main")]),
  how="whole programs over archives with seeded gaps against the reference model", note=NOTE),
 dict(id="P06", title="Each report gets the background field of the day before it",
  statement="With tracking on, the background temperature, ice and background variance given to a report are exactly those "
  "of the day before it and of its season at its place, from the first background directory that has a non-empty file for "
  "that day, plain or bzipped; when there is no such file, or the report has no valid date or position, they are missing. "
  "This holds whatever the order in which days arrive and whatever earlier runs left in the scratch folder.",
  quantifier=dict(over=["inputs", "histories", "configurations"], text="all orders of days, all sets of background files, "
  "all sequences of runs in one deployment"),
  why_tests_cant="The matching keeps state from report to report and on disk; tests cover only file-name helpers.",
  anchors=A(["marine_qc.py", "marine_qc_track_only.py", "BackgroundField.py", "qc.py"],
  [("reading a new field when the day changes", "marine_qc.py main"), ("file lookup and decompression",
  "qc.py get_background_filename")]),
  how="sequences of tracking runs over seeded background sets against a reference model", note=NOTE),
 dict(id="P07", title="The decompression cache never serves partial or wrong files",
  statement="At every moment, whatever the schedule of several runs that share a scratch folder and whatever crashes, full "
  "disks or failing decompressions happen, any file there under the name of a background file is a complete and right copy "
  "of it. Runs that are not themselves hit by a fault give the outputs they give alone.",
  quantifier=dict(over=["schedules", "crash_points", "fault_sequences"], text="1-4 processes, all interleavings at system "
  "calls, crashes, torn writes, failing children"),
  why_tests_cant="Needs two processes and a death at a chosen point; tests have neither.",
  anchors=A(["marine_qc.py", "marine_qc_track_only.py", "qc.py"], [("decompress to a private name, then rename",
  "qc.py get_background_filename, process_bgfile"), ("child started for decompression", "qc.py")]),
  how="seeded schedules of concurrent processes with crashes and failing children, cache checked after every step",
  note=NOTE + " Process crash only."),
 dict(id="P08", title="Interleaving of platforms in the archive does not change any flag",
  statement="The order in which the reports of different platforms stand in the archive, each platform's own reports keeping "
  "their order, changes no value or flag of any report in any output; only the order of the rows follows it.",
  quantifier=dict(over=["schedules", "inputs"], text="all interleavings of all archives"),
  why_tests_cant="Tests use one fixed order.",
  anchors=A(MAIN3 + ["Extended_IMMA.py", "qc.py"], [("voyages and super-observations", "Extended_IMMA.py Deck"),
  ("background read per day", "marine_qc.py main")]),
  how="seeded interleavings of the arrival of platforms, rows compared across them", note=NOTE),
 dict(id="P09", title="Outputs do not depend on how a period is split or on earlier runs",
  statement="The outputs of a month are the same, byte for byte, whether the month is run alone, within a longer period, in "
  "pieces in any order, again, or after runs of other programs or of the same program on an older state of the archive; "
  "files of platforms that are no longer in the month's ID list are not part of its outputs.",
  quantifier=dict(over=["histories", "programs", "configurations"], text="all ways to cut 2-4 months into runs, all orders, "
  "repeats and earlier states"),
  why_tests_cant="State kept between months in one process and on disk between runs is not reached by single calls.",
  anchors=A(MAIN3 + ["Extended_IMMA.py"], [("sliding window of three months", "marine_qc.py main"),
  ("outputs rewritten", "Extended_IMMA.py Deck.write_*")]),
  how="seeded histories of runs in one deployment, each month against that month alone in a fresh one", note=NOTE),
 dict(id="P10", title="Runs side by side give what they give alone",
  statement="Two or more of the monthly programs running at the same time over the same archive, climatologies, backgrounds, "
  "scratch and output folders, for months or programs that do not write the same files, each end successfully with exactly the "
  "outputs that they give alone, whatever the schedule and whichever of the others are killed part way.",
  quantifier=dict(over=["schedules", "crash_points", "programs"], text="2-5 processes, all interleavings at system calls, "
  "deaths of others at any operation"),
  why_tests_cant="Tests run one call in one process.",
  anchors=A(MAIN3 + ["qc.py", "BackgroundField.py"], [("folders made while others make them", "BackgroundField.py "
  "safe_make_dir"), ("scratch files shared between processes", "BackgroundField.py get_background_filename")]),
  how="seeded schedules of processes over one deployment, each against its run alone", note=NOTE),
 dict(id="P11", title="The wrapper submits exactly the chunks that its mode calls for",
  statement="From the monthly ID lists of a period the wrapper makes, for each drifter ID, the chunks of months separated by at "
  "least the critical gap, and submits exactly the ones its mode asks for, each as one job: all of them; standard, those with a full gap on both "
  "sides; noend, those with a full gap after them; new, those with a gap of exactly the critical length after them. Each "
  "job's script runs tracking QC for that very ID, chunk and edge cases, whatever characters the ID has.",
  quantifier=dict(over=["inputs", "configurations", "histories"], text="all ID lists over 1-40 months, all gaps, all modes, IDs "
  "with shell characters"),
  why_tests_cant="The wrapper has no tests at all; its jobs depend on whole histories of months.",
  anchors=A(["Tracking_QC_wrapper.py", "YMCounter.py"], [("chunks of a series", "YMCounter.py"),
  ("modes, scripts and submission", "Tracking_QC_wrapper.py main, process")]),
  how="the real wrapper against a simulated cluster, jobs parsed as a shell would, against a reference model of chunks",
  note=NOTE),
 dict(id="P12", title="The wrapper respects the queue limit and always finishes",
  statement="Once it has submitted a job, the wrapper submits nothing more while the user has more than 250 jobs in the queue as "
  "it last looked, it looks again before every further submission, and it goes on within 30 seconds of the queue having come "
  "down. Other users' jobs do not matter. Whenever the queue drains in the end, the wrapper ends with every chunk submitted.",
  quantifier=dict(over=["schedules", "histories"], text="all arrivals, lengths and departures of jobs, 1-3 wrappers, other users"),
  why_tests_cant="Depends on a queue that changes with time; tests have no clock and no queue.",
  anchors=A(["Tracking_QC_wrapper.py"], [("wait on squeue", "Tracking_QC_wrapper.py")]),
  how="simulated cluster and clock; limit, bounded progress and completeness over the history", note=NOTE),
 dict(id="P13", title="The wrapper never loses or spoils a job in silence",
  statement="Whatever fails (sbatch, squeue, any file operation, a missing ID list) or kills it at any point, the wrapper never "
  "submits an incomplete or wrong job, and reports success only when every job was accepted; wrappers that run beside it are "
  "not affected. Running it again after the failure submits all of the jobs, and succeeds.",
  quantifier=dict(over=["fault_sequences", "crash_points", "schedules"], text="errors and deaths at any operation, torn writes of "
  "scripts, refused submissions, 1-3 wrappers"),
  why_tests_cant="Tests never make a submission or a write fail.",
  anchors=A(["Tracking_QC_wrapper.py", "BackgroundField.py"], [("submission and its failure", "Tracking_QC_wrapper.py"),
  ("job scripts", "Tracking_QC_wrapper.py")]),
  how="seeded faults and crashes, then a rerun, against the cluster's record of jobs", note=NOTE),
 dict(id="P14", title="History with noend, then new each month, takes every chunk once",
  statement="A wrapper run with noend up to any month, followed by one with new for each month after it, submits exactly the "
  "chunks of the whole series that have ended by then, each of them once and whole: no report of a drifter is left out and "
  "none is quality controlled in two chunks.",
  quantifier=dict(over=["histories", "inputs"], text="all series of up to 26 months, all gaps, all months of the hand-over"),
  why_tests_cant="Conservation over a history of runs; no test runs the wrapper even once.",
  anchors=A(["Tracking_QC_wrapper.py", "YMCounter.py"], [("modes noend and new", "Tracking_QC_wrapper.py"),
  ("gaps and chunks", "YMCounter.py")]),
  how="seeded growing series, whole histories of wrapper runs, conservation over all jobs", note=NOTE),
 dict(id="P15", title="Tracking QC refuses incomplete or mismatched inputs",
  statement="When any of a drifter's monthly files is missing, empty, cut short at any byte, lacks or repeats a row, belongs to "
  "other reports or holds something that is not a number where one is needed, tracking QC ends with a failure and writes no "
  "output, unless the damage can make no difference to the result. After the files are put right the same command gives the "
  "right output.",
  quantifier=dict(over=["fault_sequences", "inputs"], text="all kinds of damage, at all bytes, of any of the files, alone or in "
  "several"),
  why_tests_cant="The tests build lists of reports in memory; nothing there reads a file.",
  anchors=A(["tracking_qc.py"], [("reading and matching of the four files", "tracking_qc.py"),
  ("conversion of fields", "tracking_qc.py")]),
  how="seeded damage on disk, then repair, against the undamaged run", note=NOTE),
 dict(id="P16", title="Tracking QC returns each report once, flagged from its eligible reports",
  statement="For a drifter's chunk of months, tracking QC writes each of its reports exactly once with flags that follow from "
  "the documented checks (aground, picked up, speed, tails, bias, noise, short record) applied to its eligible reports alone: "
  "those that pass the basic QC and, for temperature checks, have a night-time value, a background and little ice. Neither the "
  "order of rows in the inputs nor anything in an ineligible report changes a flag.",
  quantifier=dict(over=["inputs", "configurations"], text="all drifters over 1-4 months, all mixes of ineligible reports, all "
  "orders, all check parameters tried"),
  why_tests_cant="Tests call each check on prepared lists; the selection, ordering and combination of reports from files is "
  "not tested, and neither is any order but one.",
  anchors=A(["tracking_qc.py", "trackqc.py"], [("selection and order of reports", "tracking_qc.py"),
  ("the checks", "trackqc.py")]),
  how="generated drifters through the real program against an independent model, reordered and with ineligible reports changed",
  note=NOTE),
 dict(id="P17", title="Tracking QC jobs survive company, crashes and I/O errors",
  statement="Tracking QC jobs of different chunks running side by side, some of them killed at any point or hit by I/O errors, "
  "never disturb each other: a job that reports success has exactly the outputs that it has alone, and a job that meets no "
  "fault succeeds. Running the others again completes the set.",
  quantifier=dict(over=["schedules", "crash_points", "fault_sequences"], text="1-5 jobs, all interleavings at system calls, "
  "deaths, torn writes and errors at any operation"),
  why_tests_cant="Tests run one call in one process and never fail I/O.",
  anchors=A(["tracking_qc.py", "trackqc.py"], [("output of a job", "tracking_qc.py"), ("output folder",
  "BackgroundField.py safe_make_dir")]),
  how="seeded schedules with crashes and faults, outputs against each job alone", note=NOTE),
 dict(id="P18", title="End to end, each drifter report is tracking-QCd exactly once",
  statement="After monthly QC with tracking of a period, the wrapper in mode all and its jobs run by the cluster in any order, "
  "the tracking QC outputs hold every drifter report of the archive exactly once, in a file of its own drifter and chunk, with "
  "the flags the undisturbed pipeline gives; also when stages were killed or their submissions failed and those stages were run "
  "again.",
  quantifier=dict(over=["inputs", "schedules", "crash_points", "fault_sequences"], text="all archives, splits into runs, job "
  "orders, crashes of any stage"),
  why_tests_cant="No test joins two programs; what one writes is read by the next only here.",
  anchors=A(["marine_qc.py", "marine_qc_track_only.py", "Tracking_QC_wrapper.py", "tracking_qc.py", "Extended_IMMA.py"],
  [("per-ID files and ID lists", "Extended_IMMA.py Deck.write_*"), ("wrapper and its jobs", "Tracking_QC_wrapper.py"),
  ("reading of the per-ID files", "tracking_qc.py")]),
  how="whole pipeline in one simulation with crashes and reruns, conservation from archive to final output", note=NOTE),
 dict(id="P19", title="Climatologies are read right, however their files are laid out",
  statement="Every anomaly and every flag that rests on a climatology or on a field of standard deviations uses the value of "
  "the cell that holds the report and of its day, whatever the layout of the file: rows from either pole, columns from 180 W "
  "or from Greenwich, longitude first, with a level axis, one field, 73 pentads or 365 days, any of the accepted axis names. "
  "Where the field is missing, or the variable has no file, there is no anomaly and the no-climatology flag is set; a missing "
  "or negative standard deviation counts as 1 in the buddy checks.",
  quantifier=dict(over=["inputs", "configurations"], text="all combinations of the layouts for each of the fields that the "
  "programs read, all places and days of reports"),
  why_tests_cant="The tests read one or two small fields; the layouts and their combinations meet only when files are read.",
  anchors=A(["Climatology.py", "marine_qc.py", "marine_qc_hires.py", "marine_qc_track_only.py", "qc.py"],
  [("reading and turning of the field", "Climatology.py from_filename"), ("choice of the cell", "Climatology.py get_value*")]),
  how="whole programs in worlds with climatologies in seeded layouts, values and flags against reference models", note=NOTE),
 dict(id="P20", title="Runs under different run IDs in one deployment keep apart",
  statement="Runs with different parameter files and run IDs can share one deployment (archive, output, tracking and scratch "
  "folders). Each run writes only output files that carry its own run ID (the ID lists, which belong to no run, apart), and for each run ID all outputs, and the job scripts "
  "the wrapper makes for it, are the ones it gives when it is alone: whatever the others' parameters, "
  "before, after or beside it, also when runs of the others were killed or failed. The wrapper and the jobs of a run take up the "
  "files of its own run ID only.",
  quantifier=dict(over=["configurations", "schedules", "histories", "crash_points"], text="all sets of run IDs (also ones that "
  "are parts of one another) and parameters, all orders and interleavings of their stages, deaths of one of them"),
  why_tests_cant="The tests never run two configurations, nor any program of the pipeline.",
  anchors=A(MAIN3 + ["Extended_IMMA.py", "Tracking_QC_wrapper.py", "tracking_qc.py"], [("run ID in every file name",
  "Extended_IMMA.py Deck.write_*, Voyage.write_*"), ("names of what jobs read and write", "tracking_qc.py"),
  ("configuration handed to the jobs", "Tracking_QC_wrapper.py")]),
  how="whole pipelines of 2-3 configurations side by side with crashes, each run ID's files against it alone", note=NOTE),
 dict(id="P21", title="Long periods need no more files, fields and objects at a time than a month",
  statement="A run over a long period holds, at any time, no more files open, no more data fields in memory and (monthly QC "
  "programs) not more than about twice the report, platform and climatology objects in memory than the most demanding of its "
  "months run alone; the wrapper and the jobs of tracking QC likewise hold no more files open and fields in memory for long "
  "series than for short ones. So a period of any length runs under the limits that one month needs.",
  quantifier=dict(over=["inputs", "histories", "fault_sequences"], text="all archives, all lengths of the period, all programs, "
  "a limit on open files"),
  why_tests_cant="A test that runs for a moment on a few reports cannot tell what piles up over months and fields.",
  anchors=A(MAIN3 + ["Tracking_QC_wrapper.py", "tracking_qc.py", "BackgroundField.py", "Climatology.py"],
  [("three months of reports at a time", "marine_qc.py main"), ("files closed after use", "all programs"),
  ("fields read one by one", "BackgroundField.py, Climatology.py")]),
  how="open files, fields and live objects counted at every operation of simulated long runs against the same months alone, and "
  "again under a limit on open files", note=NOTE),
 dict(id="P24", title="Programs write in their own folders alone and never change their inputs",
  statement="A monthly program makes, writes, moves and removes files only in the output folders of the months it is to do and "
  "directly in the scratch folder; the wrapper only in its TrackingQC job and log folders; tracking QC only below the tracking "
  "output folder. Archives, climatologies, background fields, configuration and the outputs that a later stage reads are left "
  "as they were, and so are files in those folders that are not the program's own. Neither an ID, whatever characters it holds, nor a crash or an I/O error changes this.",
  quantifier=dict(over=["inputs", "crash_points", "fault_sequences", "schedules"], text="all archives, IDs made to lead file "
  "names astray, all programs, deaths and errors at any operation"),
  why_tests_cant="The tests write next to nothing and have no hostile IDs and no faults.",
  anchors=A(MAIN3 + ["Extended_IMMA.py", "BackgroundField.py", "Tracking_QC_wrapper.py", "tracking_qc.py"],
  [("names of files", "Extended_IMMA.py safe_filename"), ("folders", "BackgroundField.py safe_make_dir"),
  ("decompression", "BackgroundField.py get_background_filename"), ("job and log files", "Tracking_QC_wrapper.py")]),
  how="whole pipelines with hostile IDs and faults, every path each process writes and every input byte watched", note=NOTE),
 dict(id="P25", title="Same inputs, same outputs: no clock, hash order, buffer or machine shows in them",
  statement="The outputs of every program are a function of its inputs, configuration and arguments alone: the time of the run, "
  "time zone, host, user, process id, current folder, hash seed, order of directory entries, state of the random generators, "
  "sizes of buffers and short reads and writes change no byte of them (the order of lines in a list of IDs apart).",
  quantifier=dict(over=["configurations", "schedules", "histories"], text="all surroundings tried, whole pipelines, all "
  "archives"),
  why_tests_cant="The tests run in one place at one time, with one hash seed or another.",
  anchors=A(MAIN3 + ["Extended_IMMA.py", "BackgroundField.py", "Tracking_QC_wrapper.py", "tracking_qc.py", "trackqc.py"],
  [("order of platforms and reports", "Extended_IMMA.py Deck"), ("temporary names", "BackgroundField.py"),
  ("order of IDs", "Tracking_QC_wrapper.py")]),
  how="the same pipeline simulated again in other interpreters with seeded surroundings, outputs byte for byte", note=NOTE),
 dict(id="P26", title="Voyage flags follow from the platform's own reports of three months",
  statement="The voyage flags of a report (trk, iquam_track_qc, the spike flags, rep, repsat and round) follow from the "
  "reports of its own platform alone that pass the position, date, time and blacklist checks, in the previous, this and the "
  "next month, in the order of the archive, by the documented rules and parameters. A report that fails those checks gets 9 in "
  "them. What else the archive holds, and how the period is split, changes none of them.",
  quantifier=dict(over=["inputs", "histories", "configurations"], text="all archives of ships, buoys and platforms without an "
  "ID, with position errors, spikes, repeats, gaps and unusable records, all windows, all parameters tried"),
  why_tests_cant="The tests call the checks on short voyages made in memory; the choice and order of the reports over three "
  "months of archive, and the reset between months, are in the programs.",
  anchors=A(MAIN3 + ["Extended_IMMA.py", "track_check.py", "spherical_geometry.py"], [("split of the deck by ID",
  "Extended_IMMA.py Deck.get_one_platform_at_a_time"), ("track, spike and repeat checks", "Extended_IMMA.py Voyage"),
  ("three-month window", "marine_qc.py main")]),
  how="whole programs over generated archives, every voyage flag against an independent model of voyages", note=NOTE),
 dict(id="P27", title="Flags decided by one report follow from it and the parameters alone",
  statement="Every flag that one report decides by itself - position, date, time, blacklists, day or night, platform class, "
  "missing values, climatology checks, missing climatology, freezing, hard limits, supersaturation, wind consistency - follows "
  "from that report, the climatologies and the parameters alone, by the documented rules, also at and next to every limit. It "
  "is the same in each program that sets it and does not depend on what else was run or died before, or on the rest of the "
  "archive.",
  quantifier=dict(over=["inputs", "histories", "configurations", "crash_points"], text="all reports with values at and beside "
  "limits, all histories of 1-3 runs of the programs, some killed, all parameters tried"),
  why_tests_cant="The tests call single checks with chosen values; the way a value takes from a record through the reader, the "
  "programs and the writer to a flag is not run, nor any second run in the same place.",
  anchors=A(MAIN3 + ["Extended_IMMA.py", "qc.py", "IMMA1.py"], [("basic checks of one report",
  "Extended_IMMA.py MarineReport.perform_base_qc"), ("single checks", "qc.py"), ("writers", "Extended_IMMA.py Deck.write_qc")]),
  how="histories of runs and deaths of the programs over values at every limit, each flag against an independent model",
  note=NOTE),
 dict(id="P28", title="Buddy flags follow from the usable reports within reach",
  statement="The buddy flags (bud, bbud) of SST, air temperature, dew point and pressure of a report follow by the documented "
  "rules from the reports that are eligible (pass the basic, climatology and track checks) within reach of it in space and "
  "time, over the previous, this and the next month, and from nothing else. Reports that are not eligible influence no other "
  "report and get 0 themselves.",
  quantifier=dict(over=["inputs", "configurations"], text="all archives with clusters of reports in space and time, across "
  "month ends, the dateline and coasts, all parameters tried, away from the poles"),
  why_tests_cant="The tests buddy check a handful of reports on one grid; who is eligible, over three months, is decided in the "
  "programs.",
  anchors=A(["marine_qc.py", "marine_qc_hires.py", "Extended_IMMA.py"], [("choice of eligible reports", "marine_qc.py main"),
  ("buddy checks", "Extended_IMMA.py Deck.mds_buddy_check, Deck.bayesian_buddy_check"), ("grid of super observations",
  "Extended_IMMA.py Np_Super_Ob")]),
  how="whole programs over clustered archives, every buddy flag against an independent model", note=NOTE),
]
PURE = [
 dict(id="P30", title="Great-circle geometry is right for every pair of points",
  statement="Distances, courses, midpoints and points along a great circle agree with spherical geometry for every pair of "
  "points, poles and the dateline included.",
  quantifier=dict(over=["inputs"], text="all pairs of points"), why_tests_cant="Tests take some points.",
  anchors=A(["spherical_geometry.py"], [("formulas", "spherical_geometry.py")])),
 dict(id="P31", title="The IMMA reader and writer are inverse to each other",
  statement="Reading what the IMMA writer wrote gives back every field of every attachment.",
  quantifier=dict(over=["inputs"], text="all records"), why_tests_cant="No test reads or writes a record.",
  anchors=A(["IMMA1.py"], [("fields of the attachments", "IMMA1.py")])),
 dict(id="P32", title="Humidity conversions agree with each other and with their formulas",
  statement="The humidity variables follow the published formulas over ice and water and stay within their physical bounds.",
  quantifier=dict(over=["inputs"], text="all temperatures, dew points and pressures"),
  why_tests_cant="Tests take some values.", anchors=A(["CalcHums.py"], [("formulas", "CalcHums.py")])),
 dict(id="P33", title="The readers of other formats keep every value of a record",
  statement="NRT, SimpleIMMA and TestIMMA records come out of their readers with the values of the line.",
  quantifier=dict(over=["inputs"], text="all lines"), why_tests_cant="No test reads one.",
  anchors=A(["NRT.py", "SimpleIMMA.py", "TestIMMA.py"], [("readers", "readstr")])),
]
WHY_NA = {
 "P30": "pure functions of their arguments: no schedule, time, I/O or fault for a simulation to decide; what the programs make "
        "of them is in P26 and P16",
 "P31": "pure functions of a string; the writer is used by no program; what the programs read is in P01, P02 and P27",
 "P32": "pure functions of numbers, and no output file of any program holds their results",
 "P33": "pure functions of a string, used by no program of the repository",
}
PROPS += PURE
NA = dict(WHY_NA)
NOTES = ("No hooks in /repo: every seam (open, os, subprocess, time, netCDF4) is put in place from outside while a "
         "simulated process runs. One seed is one execution; check.py --replay FILE runs a recorded one again.")
