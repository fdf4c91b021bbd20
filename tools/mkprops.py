"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

PIPE = "riptide/pipeline/pipeline.py"; WP = "riptide/pipeline/worker_pool.py"; DMI = "riptide/pipeline/dmiter.py"
SER = "riptide/serialization.py"; TS = "riptide/time_series.py"; CAND = "riptide/candidate.py"

prop("P01", "Pipeline products do not depend on scheduling, workers, file order or clock",
 "For a given configuration and a given set of input DM trials (with distinct DMs), every data product of a pipeline run that completes is identical byte for byte, whatever the number of worker processes, the order in which workers start, run, stall and finish, the order in which the input files are listed, the behaviour of the system clock, and the hash seed and time zone of the interpreter.",
 ["schedules", "configurations", "inputs"], "every interleaving of the main process and its workers at I/O and task boundaries, 1 to 5 worker processes, every permutation of the file list, every clock (jumps, stalls), every hash seed",
 "The tests run the pipeline twice with fixed process counts and whatever schedule the OS gives them, and look only at the top candidate; no schedule is controlled, no two runs are compared.",
 [PIPE, WP, DMI, "riptide/timing.py"],
 [("ordered gathering of worker results, stable sort by period", WP), ("trial DMs sorted before chunking", DMI), ("candidates numbered after the sort by S/N", PIPE)],
 ["bytes of peaks.csv, clusters.csv, candidates.csv, candidate_*.json, candidate_*.png"])

prop("P02", "Every selected DM trial is searched exactly once, on its own data",
 "A pipeline run that completes reports, for each DM trial needed to cover the requested DM range, exactly the peaks that the library finds when that file alone is loaded, de-reddened, normalised and searched over every configured period range with that range's parameters: none missing, none duplicated, none attributed to another trial. This holds however trials are grouped and distributed over worker processes, and whatever a worker process has searched before.",
 ["schedules", "histories", "configurations"], "every assignment of trials to workers, every grouping of trials (including an incomplete last group), every mix of search ranges and every number of trials",
 "The pipeline tests search at most 3 trials with 2 processes and only check the brightest candidate, so a trial or range lost, repeated or contaminated by another one goes unseen.",
 [WP, PIPE, DMI, "riptide/search.py", "riptide/peak_detection.py"],
 [("one task per selected file, results flattened", WP), ("chunked iteration over the selected trials, with the incomplete last chunk", DMI)],
 ["peaks.csv rows against stand-alone library searches", "data files opened by the workers"])

prop("P03", "Peaks, clusters and candidates account for each other without loss",
 "In the products of a completed pipeline run every peak belongs to exactly one cluster, clusters are exactly the groups obtained by linking peaks whose frequencies differ by no more than the clustering radius divided by the median integration time (regardless of the trial, width or worker they came from), and each cluster row carries the parameters of its brightest peak, its number of peaks and its rank in decreasing S/N. Row i of the candidate table, the i-th numbered candidate file and the cluster it represents all describe the same object: same parameters, the complete table of member peaks, the header of the DM trial of its brightest peak, and that trial's data (de-reddened and normalised) folded at its period with the number of bins and at most the number of sub-integrations configured for the search range containing that period.",
 ["schedules", "histories", "inputs"], "every arrival order and content of peak lists coming back from workers, including S/N ties between trials, periods on or outside range boundaries, and several candidates per trial",
 "Tests check 4 attributes of one candidate of one signal; nothing relates the three tables and the candidate files to each other.",
 [PIPE, "riptide/clustering.py", "riptide/pipeline/peak_cluster.py", CAND, "riptide/folding.py"],
 [("friends-of-friends clustering of sorted frequencies", "riptide/clustering.py"), ("grouping of clusters by DM before folding, then re-sorting", PIPE), ("choice of the search range of a candidate", PIPE)],
 ["peaks.csv, clusters.csv, candidates.csv, candidate_*.json against an executable model"])

prop("P04", "Harmonic flags and candidate filters select exactly the documented clusters",
 "In a completed pipeline run a cluster is flagged as a harmonic exactly when a brighter cluster that is not itself a harmonic passes the documented frequency, dispersion and S/N tests against it, the brightest such cluster being recorded as its fundamental together with the ratio of their frequencies. The candidates produced are exactly the clusters left after the DM, S/N and harmonic filters that are configured, then, if a maximum number is configured, only the brightest ones; filters never alter the peak and cluster tables.",
 ["histories", "configurations", "schedules"], "every population of clusters, every combination of filters (each possibly blank or zero) and every order in which peaks arrive from workers",
 "The two test configurations exercise two fixed filter combinations on a single-signal data set and never look at flags, fundamentals or the set of candidates.",
 [PIPE, "riptide/pipeline/harmonic_testing.py", "riptide/pipeline/peak_cluster.py"],
 [("pairwise flagging in decreasing S/N order, skipping clusters already flagged", PIPE), ("filters applied after flagging, cap applied last", PIPE)],
 ["clusters.csv, candidates.csv, candidate files against an executable model"])

prop("P05", "A run that reports success has written every product completely",
 "If the pipeline program exits normally, then every table, candidate file and requested plot of that run is present in the output directory with its complete and correct content. Any error while opening or reading inputs, creating worker processes, allocating memory during the search, or creating, writing, flushing or closing a product makes the run end with an error instead (candidates whose folding fails, and log files, excepted), while conditions the operating system is allowed to produce - short writes, short reads, slow workers, clock jumps - change nothing, and a run on valid inputs that meets no error completes.",
 ["fault_sequences", "schedules"], "every sequence of I/O errors (no space, quota, I/O error, permission, too many files), allocation and fork failures at any operation of the main process or a worker, and every legal short transfer",
 "The tests never make an operation fail; error paths across the worker pools are not exercised at all.",
 [PIPE, WP, SER], [("worker exceptions re-raised by the pool", PIPE), ("products written through buffered files closed before return", SER)],
 ["exit status of the program versus content of the output directory"])

prop("P06", "Re-running after a crash or failure gives the same products as a clean run",
 "If a pipeline run is killed or fails at any point, any number of times, and is then run again with the same inputs, configuration and output directory until it completes, the data products found in the output directory are identical to those of an uninterrupted run in an empty directory. Nothing left behind by the interrupted runs is reused, appended to or skipped over.",
 ["crash_points", "histories", "fault_sequences"], "every crash point (any I/O operation of the main process or a worker, including the middle of a write), repeated crashes, worker processes that outlive the main process for a while, and any number of workers on each attempt",
 "No test interrupts a run or re-runs one in a directory that already has products.",
 [PIPE, SER], [("every product is recreated from scratch, truncating any previous file", PIPE)], ["output directory after recovery versus a clean run"])

prop("P07", "A partially written saved file is never loaded as valid data",
 "A file written by the library's save function and left incomplete by a crash, a full disk or a failed write - cut at any byte, or with blocks that never reached the disk reading back as zeros - is either refused with an error by the load function or yields exactly the object that was being saved, whatever the kind of object (time series, periodogram, candidate, or a composition of these). A save that returns normally has written the whole object, and a save that fails because the object cannot be represented leaves a previously saved file of the same name as it was.",
 ["crash_points", "fault_sequences", "inputs"], "every byte position at which a write can be interrupted, every set of lost 512/4096-byte blocks, every savable object",
 "The only serialization test saves and loads one time series successfully.",
 [SER, CAND], [("single self-delimiting JSON document, array payloads checked against their shape", SER)], ["load_json on every intermediate disk state"])

prop("P08", "A candidate that cannot be built does not affect the others",
 "If folding the data of one or more candidates fails for any reason, including lack of memory, the pipeline still completes, and every other candidate is produced with the same content as if nothing had failed, numbered consecutively in decreasing S/N; the peak and cluster tables are unaffected and still include the failed candidate's cluster.",
 ["fault_sequences", "histories"], "every subset of candidates whose folding fails, at any internal operation of the fold",
 "No test makes the building of a candidate fail.",
 [PIPE, CAND, "riptide/folding.py"], [("per-candidate exception isolation while building", PIPE)], ["candidates.csv and candidate_*.json versus the fault-free run"])

prop("P09", "A loaded time series is exactly what the file holds, or loading fails",
 "Loading a PRESTO, SIGPROC, NumPy or raw binary time series either raises an error or returns exactly the samples stored in the file in order, converted to 32-bit floats, with the sampling time, DM, epoch and coordinates of its header and an integration time equal to the number of samples times the sampling time. This holds if reads are short, fail or are interrupted, if the header is cut at any byte, and if the files are being appended to, truncated, replaced or deleted while they are read; every file opened is closed again, even on failure.",
 ["fault_sequences", "schedules", "inputs"], "every failing or short read, every truncation point of the header or data, every interleaving with a process that modifies the files",
 "The tests load 8 small intact files; no read ever fails and nothing changes under the reader.",
 ["riptide/reading/presto.py", "riptide/reading/sigproc.py", "riptide/metadata.py", TS],
 [("header parser refuses unknown or missing keys", "riptide/reading/sigproc.py"), ("integration time recomputed from the data at construction", TS)], ["TimeSeries and Metadata returned by the loaders"])

prop("P10", "A run only ever writes inside its output directory",
 "At no point of a pipeline or single-file search run, whether it succeeds, fails or is killed, is an input file created, modified, renamed or removed, or any file created, changed or removed outside the chosen output directory (and the log file, if requested). The single-file search program writes no file at all.",
 ["crash_points", "fault_sequences", "schedules"], "every prefix of every run, with and without faults",
 "No test looks at anything but the expected output files.",
 [PIPE, WP, "riptide/apps/rseek.py"], [("inputs opened read-only, products created under the output directory", PIPE)], ["every file operation issued by any process of the run", "hashes of the input directory"])

prop("P11", "A run always terminates and leaves no worker process behind",
 "Every pipeline run ends - normally or with an error - within a number of steps bounded by the amount of work, whatever worker stalls, task failures, I/O errors (passing or lasting) or worker deaths occur. When it ends normally, every worker process it started has been shut down and every file it opened is closed.",
 ["schedules", "fault_sequences"], "every schedule, every sequence of stalls, failures and deaths of workers",
 "Tests only observe fault-free runs that finish.",
 [PIPE, WP], [("pools closed and joined", WP)], ["termination of the run, live workers and open files at exit"])

prop("P12", "Saved objects come back equal and fully usable, through any history",
 "Any time series, periodogram, candidate, or list/dictionary composition of these (with text keys) that is saved (after any sequence of processing steps) and loaded again, any number of times and in any process, has the same array values, data types and shapes, tables, metadata and coordinates as the original, and keeps the library version it was first saved with. Every operation that works on the original works on the loaded object with the same result, and saving never alters the object saved.",
 ["histories", "inputs", "schedules"], "every sequence of processing, save, load, copy and inter-process transfer operations, under short reads and writes",
 "One test saves and loads one generated series and compares 4 attributes; nothing is done with the loaded object.",
 [SER, TS, "riptide/periodogram.py", CAND, "riptide/metadata.py"], [("typed JSON encoding of arrays, tables and coordinates", SER)], ["objects after load versus originals, operation by operation"])

prop("P13", "Library calls from several threads on shared objects do not interfere",
 "When several threads call the library concurrently on shared time series, periodograms and candidates, using only operations not documented as in-place, every call returns the same result as it would alone and no shared object is modified; results already returned never change later. This remains true for the other threads, and for later calls, when a call is interrupted by an exception at an arbitrary point.",
 ["schedules", "fault_sequences", "histories"], "every interleaving of threads at source-line granularity and every interruption point",
 "Every test is single-threaded and calls each function once or twice.",
 [TS, "riptide/search.py", "riptide/peak_detection.py", "riptide/folding.py", "riptide/running_medians.py", "riptide/libffa.py", "riptide/cpp"],
 [("functions work on fresh buffers, no module-level state", TS)], ["results of concurrent calls versus isolated calls, content of shared inputs"])

prop("P14", "In-place and copying variants agree, and failed operations change nothing",
 "For every sequence of operations, applying an operation of a time series in place leaves it with the same samples, data type, sampling time, length and metadata as the series returned by the copying variant, and the copying variant leaves the original untouched. An operation that fails, whatever the reason and including lack of memory, leaves the series it was applied to exactly as it was.",
 ["histories", "fault_sequences", "inputs"], "every sequence of normalise, deredden, downsample, fold and copy operations with valid and invalid arguments and allocation failures at any kernel call",
 "Tests apply each variant once, compare samples only approximately and never compare metadata or types.",
 [TS, "riptide/folding.py"], [("new object built from new data in the copying variants", TS)], ["TimeSeries attributes after each operation versus a reference model"])

prop("P15", "Compiled kernels survive allocation failure and stay within their memory",
 "Whatever memory allocation fails during a call to a compiled kernel, the call either returns its full correct result or raises an error, releases everything it allocated, and leaves its inputs unchanged and later calls unaffected. No kernel call, failing or not, writes outside the memory it owns or crashes the process.",
 ["fault_sequences", "inputs", "histories"], "failure of each allocation of each kernel call, for every accepted combination of sizes and parameters, in any sequence of calls",
 "Allocation never fails in the tests and out-of-bounds writes into heap slack go unnoticed.",
 ["riptide/cpp/python_bindings.cpp", "riptide/cpp/periodogram.hpp", "riptide/cpp/running_median.hpp", "riptide/cpp/downsample.hpp"],
 [("buffers owned by smart pointers and vectors, sized by the same formula as the loops", "riptide/cpp/periodogram.hpp")], ["allocator interposed under the extension module: balance, guard zones, results"])

prop("P16", "The single-file search program reports exactly what the library finds, or fails",
 "For any valid combination of its options and any readable input, the single-file search program prints (and returns) one row per group of significant peaks of nearly identical frequency, each being the brightest of its group, in decreasing S/N, with the values the library's search and peak finding give with those options. If reading the input or printing the table fails it ends with an error rather than a partial or empty report, and it gives the same report each time.",
 ["fault_sequences", "configurations", "schedules"], "every read or output error, every combination of options, every clock and repeated runs",
 "Tests run it twice with one set of options, through already-parsed arguments.",
 ["riptide/apps/rseek.py", "riptide/clustering.py"], [("grouping of peaks by frequency after the search", "riptide/apps/rseek.py")], ["standard output and returned table versus stand-alone library calls"])

prop("P17", "No product appears before the whole search has succeeded",
 "No data product is created, modified or removed in the output directory until all the input headers have been accepted and all selected trials have been searched in all ranges; a run that is refused (malformed configuration, unsearchable or non-contiguous ranges, inconsistent inputs, no trial in the DM range), fails or is killed before that point leaves the output directory as it found it.",
 ["crash_points", "fault_sequences", "configurations"], "every invalid input or configuration, and every fault or crash before the end of the search",
 "The configuration tests only check the type of the exception raised.",
 [PIPE, "riptide/pipeline/config_validation.py", DMI], [("products written only in the last stage", PIPE)], ["file operations on the output directory versus completion of the last search task"])

prop("P18", "Runs do not influence later runs in the same process",
 "Running the pipeline several times in one process, with new or re-used pipeline objects, the same or different inputs, and with earlier runs that succeeded, found nothing or failed, gives for each run exactly the products it gives when it is the only run of a fresh process.",
 ["histories", "fault_sequences"], "every sequence of runs (successful, empty, failing, refused) on new or re-used pipeline objects",
 "Each test builds a new pipeline and checks one file of its outputs.",
 [PIPE, WP, DMI], [("all results recomputed from the inputs at each run", PIPE)], ["products of each run versus the same run alone in a fresh process"])

prop("P19", "Concurrent runs sharing inputs do not interfere",
 "Several pipeline runs executing at the same time on the same machine, reading the same input files and writing to different output directories, with the same or different configurations, each give the products they give when run alone, even if the others fail or are killed.",
 ["schedules", "crash_points"], "every interleaving of two or three runs and their workers, with crashes and failures of some of them",
 "No test runs two pipelines at once.",
 [PIPE, WP, DMI], [("no file or name shared between runs other than read-only inputs", PIPE)], ["output directories of concurrent runs versus solo runs"])

# --- properties outside this family
prop("P30", "FFA transform rows are the documented shift-and-add of input rows",
 "For every input with any number of rows and columns, each row of the folding transform equals the sum of the input rows, each rotated by the drift that row's trial period implies to within one phase bin, and the first row is the plain sum of all rows.",
 ["inputs"], "every shape and content of the input", "Tests compare two shapes with stored values; shapes are unbounded.",
 ["riptide/cpp/transforms.hpp", "riptide/cpp/kernels.hpp", "riptide/libffa.py"], [("recursive merge of head and tail", "riptide/cpp/transforms.hpp")])
prop("P31", "Profile S/N is that of the best-placed boxcar of each trial width",
 "For every profile and trial width the reported S/N is the maximum over all phases of the zero-mean, unit-square-sum boxcar response divided by the noise level, hence invariant under rotation of the profile.",
 ["inputs"], "every profile, width and noise level", "Tests use a few profiles.",
 ["riptide/cpp/snr.hpp"], [("circular prefix sums", "riptide/cpp/kernels.hpp")])
prop("P32", "The periodogram covers the requested period range without gaps",
 "For every valid period range and bin limits, trial periods are strictly increasing from the minimum period up to the smaller of the maximum period and what the data allow, with steps no coarser than one bin of drift over the observation, the number of folding bins stays within limits, and the minimum number of periods that must fit in the data is honoured.",
 ["inputs", "configurations"], "every combination of search parameters", "Tests search two ranges.",
 ["riptide/cpp/periodogram.hpp", "riptide/search.py"], [("geometric downsampling plan", "riptide/cpp/periodogram.hpp")])
prop("P33", "Downsampling and folding conserve the signal",
 "Downsampling by any real factor distributes each input sample over the output samples covering it so that complete output samples sum to the input they cover, and folding with any number of sub-integrations sums to the same profile.",
 ["inputs"], "every length, factor, period, number of bins and sub-integrations", "Tests use a handful of factors.",
 ["riptide/cpp/downsample.hpp", "riptide/folding.py"], [("fractional weights at sample edges", "riptide/cpp/downsample.hpp")])
prop("P34", "Running median equals the true median of each edge-padded window",
 "For every input and odd window narrower than it, each output sample is the exact median of the window centred on it, with the edges padded by the end values.",
 ["inputs"], "every input and width", "Tests use a few arrays.",
 ["riptide/cpp/running_median.hpp", "riptide/running_medians.py"], [("ring buffer and quickselect", "riptide/cpp/running_median.hpp")])
prop("P35", "Peak finding reports every local group above both thresholds, once",
 "For every periodogram, peaks are exactly the brightest points of the groups of points, linked within the clustering radius, exceeding both the fixed and the fitted S/N threshold at each width, in decreasing S/N.",
 ["inputs"], "every periodogram and parameter set", "Tests see one signal.",
 ["riptide/peak_detection.py", "riptide/clustering.py"], [("polynomial threshold fit", "riptide/peak_detection.py")])
prop("P36", "The selected DM trials cover the requested DM range",
 "For every set of trial DMs and observing band the selected trials lie within the requested range and Galactic cap, and consecutive ones are no farther apart than the tolerated smearing allows unless no available trial lies between them.",
 ["inputs", "configurations"], "every list of DMs and band", "Tests have three trials.",
 [DMI], [("greedy selection by coverage radius", DMI)])
prop("P37", "Malformed configurations are rejected, documented ones accepted",
 "Every configuration that departs from the documented format is rejected with an explanatory error, and every configuration following it (including fields documented as optional or nullable) is accepted.",
 ["configurations"], "every configuration document", "Tests try four wrong ones.",
 ["riptide/pipeline/config_validation.py"], [("schema validation", "riptide/pipeline/config_validation.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
