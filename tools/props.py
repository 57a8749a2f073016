"""Single source of the property list: run it to rewrite properties.jsonl (MANIFEST.json is written by mkmanifest.py)."""
import json, os, sys

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe), "hook_needed": hook}})


TCR = "booktest/testcaserun.py"

prop("C01", "Re-running an accepted test with the same output passes",
     "When the output of a test has been accepted as its snapshot and the test is run again making the same calls with the same values, the run reports it OK, marks no line as differing, exits with 0 and leaves the snapshot as it was. "
     "This holds for every combination of the output API (tested and ignored text written whole or in pieces, multi-line text, headers, anchors, key-values, lists, sets, tables, formats, images, assertions, measurements) and for any text, including control characters, any line-break style and a last line that is never ended.",
     ["programs", "inputs"],
     "every test program over the output API and every text value; ignored pieces are separated from neighbouring text by a token boundary, anchors start a line, and a set is not directly followed by a line with its own prefix, as the API documents",
     "The repository's 59 cases sample a few fixed programs over mild ASCII text and only ever compare against committed snapshots; no case writes one word in pieces, control characters, CRLF or an unterminated line.",
     [TCR, "booktest/tokenizer.py", "booktest/testrun.py"],
     [("token by token comparison against the snapshot cursor", TCR + ":feed_token/next_exp_token/commit_line"), ("snapshot reader", TCR + ":reset_exp_reader/next_exp_line")],
     [("snapshot cursor", "line and token of the snapshot that the next output is compared with", TCR)],
     ["exit code", "cases.txt", "books/<case>.md", "books/.out/<case>.txt"])

prop("C02", "Tested text that differs from the snapshot is a DIFF, and only that",
     "For a test that writes lines of tested and ignored text, the case is DIFF exactly when it has no snapshot or some tested token (or tested line end, or tested line past the end of the snapshot) differs from the token at the same line and position of the snapshot; otherwise it is OK. "
     "In the per-case report the line of every such difference, and no other line, is marked with '?' (and, when error positions are asked for, pointed at below), and the output file holds exactly the text the test wrote.",
     ["programs", "inputs"],
     "every pair of (snapshot, test output) made of lines of tested and ignored tokens, related by any edit of tokens or lines",
     "The suite only replays matching output: no test checks that a change is reported, so a comparator that accepts everything passes all 59 cases.",
     [TCR, "booktest/tokenizer.py"],
     [("token comparison and diff marking", TCR + ":feed_token/diff"), ("line accounting", TCR + ":commit_line"), ("verdict", TCR + ":end")],
     [("diff count and pending line difference", "differences seen in the case and on the current line", TCR)],
     ["cases.txt", "exit code", "books/.out/<case>.txt", "books/.out/<case>.md"])

prop("C03", "Headers and anchors re-align sections, and changes inside them are found",
     "When a test consists of sections started by distinct headers, anchor lines or key-value anchors, writing the sections in another order, or with more or fewer ignored lines at the end of any section, still matches the accepted snapshot. "
     "Changing, adding or removing tested text inside any section, changing the value behind a key, or adding a new section, is a DIFF regardless of the order and of the ignored lines; only lines missing at the very end of the test's output are not compared. "
     "A test that moves the cursor by hand continues where it asked to: at the given line after a jump, and at the next matching line from the cursor on after a seek, else at the first one of the snapshot, else where it was.",
     ["programs", "inputs"],
     "every set of uniquely named sections, every permutation, every count of ignored lines and every single edit",
     "Two example cases shuffle three headers and vary one log; they never pair reordering with a change, so a seek that swallows differences passes.",
     [TCR],
     [("seek with wrap-around", TCR + ":seek/jump/seek_prefix/seek_line"), ("header and anchor output", TCR + ":header/anchor/anchorln/keyvalueln")],
     [("snapshot cursor", "moved by anchors", TCR)],
     ["cases.txt", "exit code"])

prop("C04", "A tested set is compared as a set, exactly",
     "A set written with the set API matches its snapshot in any order of the items, and is a DIFF as soon as one item is missing, added or changed (two items with the same text are two items), wherever in the test the set stands (first, between other text, last, or past the end of the snapshot). "
     "The text after the set is compared with the text after the set in the snapshot, whatever the number of items was.",
     ["inputs", "programs"],
     "every pair of item sets (one-line items, also with equal texts, any prefix), every order, and every position of the set in the test",
     "No test of the suite uses sets at all.",
     [TCR],
     [("set scan, membership and re-positioning", TCR + ":tset/seek_line/jump")], [], ["cases.txt", "exit code"])

prop("C05", "Tables, lists and formats render every value and compare every value",
     "A table is written as a markdown table with one row per data row and one column per data column holding the stripped text of each value on one line; a list has one prefixed line per item; a format print is the JSON structure of the value's types. "
     "Changing any single table cell, list item or type makes the case a DIFF (items or rows left out at the very end of the output are not compared), and blanks around a cell's text never do while the column keeps its width.",
     ["inputs"],
     "every table (column names and cells of any type and text), list, nested value, and single change to it",
     "One 3x2 data frame of plain values is the only table in the suite and no change is ever made to it.",
     [TCR],
     [("table rendering", TCR + ":tdf/ttable"), ("list rendering", TCR + ":tlist"), ("type format", TCR + ":tformat/value_format")], [],
     ["books/.out/<case>.md", "cases.txt"])

prop("C06", "A failed test is FAIL, in every mode, and can never be accepted",
     "A test that marks a failure at any point (failed assertion, explicit fail, unmet expectation on an object, exceeded time limit, escaping exception or exit request, result that cannot be stored) is reported FAIL even if its output also differs or has no snapshot, and the run exits non-zero. "
     "No mode (automatic accept, update, interactive accept, review, parallel) turns a FAIL into OK or touches its snapshot, and the remaining selected tests still run.",
     ["programs", "configurations", "fault_sequences"],
     "every test program with failures of any kind at any point, with any snapshot state and any combination of command line flags",
     "The suite contains no failing test: all 59 cases pass, so nothing checks that failure is noticed.",
     [TCR, "booktest/testrun.py", "booktest/review.py"],
     [("error accounting and verdict", TCR + ":fail/commit_line/end"), ("exception capture", "booktest/testrun.py:run_case"), ("accept policy", "booktest/review.py:case_review/interact")],
     [("error count and pending line error", "failures seen in the case and on the current line", TCR)],
     ["cases.txt", "exit code", "books/<case>.md"])

prop("C07", "Snapshots change only by acceptance, and then become exactly the output",
     "Running, listing, printing, reviewing or refreshing never creates, changes or deletes a test's snapshot text or snapshot files unless that test's result was accepted: a DIFF under automatic accept, an OK under update, or a non-failed result answered with accept. "
     "Accepting replaces the snapshot text and the whole set of snapshot files of that test by exactly what the accepted run produced, makes the verdict OK, and touches no other test; accepting something already accepted loses nothing.",
     ["histories", "configurations", "inputs"],
     "every sequence of runs, reviews, listings and answers over a suite whose tests change their text and files between the steps",
     "The suite runs once, in one mode, on matching snapshots; acceptance is never exercised.",
     ["booktest/review.py", TCR, "booktest/testrun.py", "booktest/runs.py"],
     [("acceptance", "booktest/review.py:freeze_case"), ("accept policy", "booktest/review.py:case_review"), ("output purge", TCR + ":__init__")],
     [("books directory", "snapshot text <case>.md and files <case>/", "books/")],
     ["contents of the books directory outside .out"])

prop("C08", "Reports and exit status tell exactly what happened",
     "After every run the case report holds exactly one record with the true verdict for each case that was run, in run order, plus the unchanged earlier records of cases that were not run; console summary and exit status agree with it, and the exit status is 0 exactly when no case of the run ended differing or failed. "
     "A parallel run that is interrupted while it asks for a review is not a success, and keeps the records of the cases that ended. With fail-fast a sequential run stops right after the first case that is not OK, and without it every selected case is run exactly once. "
     "A run started from a running event loop does and reports the same.",
     ["histories", "configurations"],
     "every suite of tests with any verdicts, any selection, flag combination and history of earlier runs",
     "The suite is a single all-passing run; a report that drops, duplicates or beautifies records would still list 59 OK lines.",
     ["booktest/testrun.py", "booktest/runs.py", "booktest/reports.py", "booktest/review.py", "booktest/__main__.py", "booktest/cli.py"],
     [("run loop and report", "booktest/testrun.py:run_async"), ("report persistence", "booktest/reports.py:CaseReports"), ("exit code mapping", "booktest/reports.py:test_result_to_exit_code")],
     [("cases.txt", "one line per case: name, verdict, duration", "books/.out")],
     ["books/.out/cases.txt", "stdout", "exit status", "order of execution"])

prop("C09", "An interrupted run can be continued without losing or skipping work",
     "If a run is killed at any point, or its report is cut at any byte, a continued run never skips a case that had not been recorded OK, never runs a case recorded OK again, never stops on the damaged record, and ends with the same records as an uninterrupted run. "
     "Repeating continue runs while tests get repaired converges: each one runs exactly the selected cases without an OK record. "
     "A killed review or forget leaves the old or the new records, and repeating it ends with the same records, snapshots and snapshot files as if it had not been killed; both also work when no run has got to its end.",
     ["crash_points", "histories"],
     "every kill point before, inside and between the tests of a run, every truncation length of the report, and every sequence of continued runs and verdict changes",
     "No test of the suite interrupts or continues a run.",
     ["booktest/testrun.py", "booktest/reports.py", "booktest/runs.py"],
     [("incremental report", "booktest/testrun.py:run_async (write_case with flush)"), ("continue filter", "booktest/reports.py:cases_to_done_and_todo"), ("tolerant report parsing", "booktest/reports.py:of_file")],
     [("cases.txt", "records of the cases done so far", "books/.out")],
     ["books/.out/cases.txt", "order of execution"])

prop("C10", "Dependents get their dependencies' latest results, after them",
     "Every dependency of a case that is to run is run before it in the same run when it is selected, when its result is not stored, or when refresh is asked for, and is not run again otherwise. "
     "Each dependent receives, in declaration order, for every dependency the value returned by the dependency's latest run that did not fail (including None), taken from the same test-book instance when that instance has the test, and the plain value of every declared resource; this does not depend on the in-memory cache used or on its size. "
     "A test that depends on something which is not a test of the suite fails without being called, and so do the tests that need it, while all others run.",
     ["programs", "histories", "configurations"],
     "every acyclic dependency graph over functions and parametrised book instances, sequence of selections, refresh flags (without continue), changed values and verdicts, and every cache kind and size kept over the sequential runs of one process; tests do not modify the values they receive",
     "The suite has a few two-level chains with constant values, run once, in definition order, with one cache.",
     ["booktest/dependencies.py", "booktest/testrun.py", "booktest/tests.py", "booktest/cache.py", "booktest/testbook.py"],
     [("argument injection", "booktest/dependencies.py:call_class_method_test/call_function_test"), ("result store", "booktest/testrun.py:get_test_result/save_test_result"), ("closure and order", "booktest/tests.py:selected_names/all_method_dependencies"), ("memory cache", "booktest/cache.py")],
     [("result files and memory cache", "last result of each case", "books/.out/<case>.bin")],
     ["values received by the test functions", "order of execution"])

prop("C11", "Selection runs exactly the selected cases and what they need",
     "A case is selected exactly when some positive argument (or, with none, the configured defaults) equals its name or a whole-component prefix of it (the empty one being a prefix of every name), or only exclusions were given, and no exclusion equals or prefixes it in the same way. "
     "The cases run are the selected ones in definition order, each once, plus the dependencies they need before them, and listing prints exactly the names that the same arguments would run, in that order, without running or changing anything.",
     ["inputs", "configurations"],
     "every suite of hierarchical names (including names that are string prefixes of each other) with dependencies, and every list of positive and excluding arguments",
     "The suite is only ever run whole.",
     ["booktest/tests.py", "booktest/testsuite.py", "booktest/cli.py"],
     [("selection", "booktest/tests.py:is_selected/selected_names"), ("listing", "booktest/tests.py:exec_parsed")], [],
     ["-l output", "order of execution", "cases.txt"])

prop("C12", "A parallel run gives what a sequential run gives",
     "A parallel run with any number of processes ends, runs every selected case exactly once, and gives the same verdicts, outputs, snapshots, stored results, case records and exit status as a sequential run of the same arguments, including cases that differ, fail, raise, ask to exit or return results that cannot be stored, and including accept, update, continue and interactive modes (where only the main process asks). "
     "With fail-fast it ends early when a case is not OK, having run no case twice and recorded only true verdicts, and is not a success.",
     ["schedules", "programs", "configurations"],
     "every suite with dependencies and any outcomes, number of processes, flags and history; schedules as produced by randomised test durations",
     "The suite is run sequentially only; the parallel runner is not executed at all by the stable tests.",
     ["booktest/runs.py", "booktest/testrun.py", "booktest/reports.py"],
     [("scheduler thread and worker pool", "booktest/runs.py:ParallelRunner"), ("per-case batches", "booktest/runs.py:RunBatch"), ("merge and review", "booktest/runs.py:parallel_run_tests")],
     [("todo/done/scheduled sets", "progress of the parallel run", "booktest/runs.py"), (".batches", "per case report files", "books/.out")],
     ["books tree", "cases.txt", "exit status", "execution log"])

prop("C13", "Parallel schedules respect dependencies and exclusive resources",
     "In a parallel run no case starts before all the dependencies of it that are part of the run have ended, and two cases that declare an equal exclusive resource are never executing at the same time, whatever the number of processes, the durations, outcomes and recorded earlier durations. "
     "Cases that share nothing may overlap, and every case gets its turn.",
     ["schedules", "programs"],
     "every dependency graph and resource assignment (plain values, ports, identified resources, several per case), number of processes, and durations",
     "The resource example is run sequentially, where nothing can collide.",
     ["booktest/runs.py", "booktest/dependencies.py"],
     [("planning", "booktest/runs.py:ParallelRunner.plan/thread_function"), ("resource identity", "booktest/dependencies.py:Resource/port")],
     [("reserved resources", "resources of the running cases", "booktest/runs.py")],
     ["begin/end log written by the tests"])

prop("C14", "Recorded requests traffic is replayed faithfully",
     "A test under requests snapshotting that is recorded against a server and accepted gives, when run again with the server gone, the same responses in the same order (status, body bytes, text, JSON, header lookup in any case, cookies, redirects followed, read whole or as a stream) for any methods, urls, bodies, digest authentication and repetitions of the same request, and is OK. "
     "Snapshots of the earlier file format are replayed, refreshed and completed the same way. While capturing, a request is sent with the arguments (timeout, verify, proxies and the like) that the test gave it. "
     "The way requests are made is restored afterwards.",
     ["inputs", "histories"],
     "every sequence of requests (repeats included) and server answers: statuses, header sets, redirects, text in any encoding and binary bodies",
     "The suite replays three hand-recorded JSON exchanges; recording is never run, because it needs a server.",
     ["booktest/requests.py"],
     [("recording and lookup", "booktest/requests.py:SnapshotAdapter"), ("serialisation", "booktest/requests.py:RequestSnapshot"), ("request identity and order", "booktest/requests.py:RequestKey")],
     [(".requests.json", "recorded exchanges of a case", "books/<case>/")],
     ["responses seen by the test", "hits on the server", "cases.txt"])

prop("C15", "Recorded httpx traffic is replayed faithfully",
     "A test under httpx snapshotting that is recorded against a server and accepted gives, when run again with the server gone, the same responses in the same order (status, body bytes, text, JSON, header lookup, repeated headers, cookies, redirects followed, read whole or as a stream) for any methods, urls, bodies, digest authentication and repetitions, in synchronous and asynchronous clients, concurrent asynchronous requests included, and is OK. Snapshots of the earlier file format are replayed, refreshed and completed the same way. "
     "The way requests are made is restored afterwards.",
     ["inputs", "histories", "schedules"],
     "every sequence of requests (repeats and concurrent asynchronous ones included) and server answers: statuses, header sets (except the content-encoding of a body that was decompressed), redirects, compressed, text in any encoding and binary bodies",
     "The suite replays three hand-recorded JSON exchanges; recording is never run, because it needs a server.",
     ["booktest/httpx.py"],
     [("recording and lookup", "booktest/httpx.py:SnapshotHttpx"), ("serialisation", "booktest/httpx.py:RequestSnapshot"), ("request identity and order", "booktest/httpx.py:RequestKey")],
     [(".httpx.json", "recorded exchanges of a case", "books/<case>/")],
     ["responses seen by the test", "hits on the server", "cases.txt"])

prop("C16", "HTTP snapshots reach the network only in capture mode",
     "Without a capture flag a request never reaches the network: it is answered from the snapshot, or the test fails naming the missing snapshot. "
     "Completing captures exactly the requests without a snapshot and answers all others from it; refreshing captures every request anew and discards old answers; after accepting, a plain run needs no network and a failed run changes no snapshot. The listing of the captured requests is a part of the tested output: a run that makes other requests differs.",
     ["histories", "configurations"],
     "every history of plain, completing and refreshing runs of a test whose requests and whose server's answers change between runs, for requests and httpx",
     "The suite runs only in plain mode with complete snapshots.",
     ["booktest/requests.py", "booktest/httpx.py"],
     [("capture policy", "booktest/requests.py:SnapshotAdapter.lookup_snapshot, booktest/httpx.py:SnapshotHttpx.lookup_snapshot"), ("snapshot loading", "booktest/requests.py:SnapshotRequests.__init__, booktest/httpx.py:SnapshotHttpx.__init__")],
     [], ["hits on the server", "cases.txt", "responses seen by the test"])

prop("C17", "Ignored HTTP details are neither stored nor used for matching",
     "By default no request header and no request body is written to any file of the book, and requests that differ only in headers match the same snapshot; with a list of ignored headers these names, in any letter case, are neither stored nor matched on, while other headers, the method, the url and the body do distinguish requests. "
     "A custom body encoder or request hash decides the matching of every request, repeated requests included.",
     ["inputs", "configurations"],
     "every request (method, url, headers, body), every ignore list and detail setting, custom encoder and hash",
     "The suite holds a few fixed examples of recorded requests and checks neither leaks nor distinctness.",
     ["booktest/requests.py", "booktest/httpx.py"],
     [("header removal and hashing", "RequestKey in booktest/requests.py and booktest/httpx.py"), ("detail hiding", "RequestKey.to_json_object")], [],
     ["files written by capture runs", "matching in replay"])

prop("C18", "Function snapshots replay what was recorded, per call",
     "A test that calls snapshotted functions while recording and is accepted gives on later runs, without calling them, for each function and arguments the value recorded for that call as it was returned, whatever the test did to returned values; a call without snapshot fails without capture flag, is captured alone when completing, and all calls are made anew when refreshing. "
     "The listing of the snapshotted calls is a part of the tested output. Mocked functions are replaced by their mocks for the duration of the test.",
     ["inputs", "histories"],
     "every set of functions (module functions, builtins, bound methods) and sequences of calls with JSON-representable arguments and results, mutated results, and histories of plain, completing and refreshing runs",
     "The suite replays six fixed calls.",
     ["booktest/functions.py"],
     [("call identity", "booktest/functions.py:FunctionCall"), ("record and replay", "booktest/functions.py:SnapshotFunctions"), ("patching", "booktest/functions.py:set_function")],
     [(".functions", "one file per recorded call", "books/<case>/")],
     ["values seen by the test", "calls made to the real functions", "cases.txt"])

prop("C19", "Environment snapshots and mocks give the test the environment they promise",
     "A test under environment snapshotting sees, after recording and accepting, the recorded value of each named variable (or its absence) whatever the current environment is, and fails naming the variable when it has no snapshot and no capture flag is given; the listing of the variables is a part of the tested output. "
     "Mocked variables have the mocked value or are absent during the test; mocks for missing variables apply exactly to variables that are not set, and not at all in a capture mode.",
     ["configurations", "histories"],
     "every set of variables, set or unset, with any values at recording and at replay, and all run modes",
     "The suite has one recorded variable with one value and never runs in capture mode or with unset variables.",
     ["booktest/env.py"],
     [("snapshot, mock and mock-if-missing", "booktest/env.py")], [(".env.json", "recorded variables", "books/<case>/")],
     ["environment seen by the test", "cases.txt"])

prop("C20", "Snapshotting, mocking and running leave the process as they found it",
     "After a case that used environment snapshots or mocks, function snapshots or mocks, requests or httpx snapshots, setup/teardown decorators, or any nesting of them, the environment, the functions and the http libraries are exactly as before, however the case ended: normally, by an exception anywhere, by a missing snapshot while it was being set up, or with variables changed or deleted by the test itself.",
     ["programs", "fault_sequences"],
     "every nesting of the decorators over any variables and functions, any outcome and point of failure, and any changes made by the test to the same variables",
     "Cases of the suite end normally and nothing looks at the process afterwards.",
     ["booktest/env.py", "booktest/functions.py", "booktest/requests.py", "booktest/httpx.py", "booktest/utils.py"],
     [("start and stop of each interception", "booktest/env.py, booktest/functions.py, booktest/requests.py, booktest/httpx.py")], [],
     ["os.environ", "function objects", "requests and httpx entry points after the case"])

prop("C21", "Each test's error output and logs go to its own log, and nowhere else",
     "Everything a test writes to standard error or logs through the root logger while it runs is in the log of that test, complete and in order, and in no other log or output. "
     "After each case and after the whole run the standard error stream and the logging handlers of the process are the ones from before and usable, whatever the outcomes.",
     ["programs", "histories"],
     "every sequence of tests writing to standard error and loggers, adding handlers, failing or raising",
     "One case logs one line and reads it back while still running.",
     [TCR, "booktest/testrun.py"],
     [("redirection", TCR + ":open/close"), ("log printing", "booktest/review.py:maybe_print_logs")],
     [("sys.stderr and root logger handlers", "process-wide streams", TCR)],
     ["books/.out/<case>.log", "sys.stderr and logging handlers after the run"])

prop("C22", "Cleaning removes garbage only",
     "Garbage listing prints, and cleaning removes, exactly the files under the books directory that are neither the index nor the snapshot text or a snapshot file of an existing test; nothing outside the books directory and no snapshot is ever removed, and after cleaning the accepted tests still pass and the garbage listing is empty.",
     ["inputs", "histories"],
     "every books directory content: existing and removed tests, names that are string prefixes of each other, nested directories, hidden files, stray files",
     "No test lists or cleans garbage.",
     ["booktest/tests.py"],
     [("garbage classification", "booktest/tests.py:exec_parsed (garbage/is_garbage)")], [], ["--garbage output", "directory contents after --clean"])

prop("C23", "The book index lists every test once, in place",
     "After every run the index of the book lists every test of the suite, run or not, exactly once, under its chain of parent suites and in definition order, with a link to its snapshot text.",
     ["inputs", "configurations"],
     "every list of hierarchical test names in any order, any selection and run mode",
     "The suite does not compare the index, it is rewritten unchecked.",
     ["booktest/review.py"],
     [("index writing", "booktest/review.py:create_index")], [], ["books/index.md"])

prop("C24", "Configuration layers override in order and do not leak between runs",
     "Each setting takes its value from the first of command line, BOOKTEST_ environment variable, project .booktest file, home .booktest file and built-in default that defines it; comments and blank lines are skipped, blanks around a line do not count, values may contain '=', and 1 and 0 mean on and off. "
     "Answers given to setup are what later runs read, empty answers keep the current values, and flags given to one run do not affect the next one in the same process.",
     ["configurations", "histories"],
     "every combination of layers defining any keys with any values, every sequence of setup answers, and every sequence of runs in one process",
     "The suite runs without configuration files, once.",
     ["booktest/config.py", "booktest/setup.py", "booktest/tests.py", "booktest/cli.py"],
     [("layering", "booktest/config.py:resolve_default_config"), ("setup", "booktest/setup.py:setup_booktest"), ("flag layering", "booktest/tests.py:exec_parsed")],
     [("default configuration", "process-wide cached defaults", "booktest/config.py")],
     ["--config output", ".booktest file", "behaviour of runs"])

prop("C25", "Tokenising loses nothing and always ends",
     "For every text the tokens, in order, concatenate to exactly that text; none is empty, their number is bounded by the text's length, and each is a maximal run of blanks, a maximal optionally signed decimal number, a maximal alphanumeric run, or one other character. "
     "Buffered iteration yields the same tokens with a correct one-token look-ahead.",
     ["inputs"],
     "every unicode text, and every interleaving of look-ahead and advance",
     "Five fixed strings are tokenised by the suite.",
     ["booktest/tokenizer.py"],
     [("tokenizer", "booktest/tokenizer.py:TestTokenizer"), ("look-ahead", "booktest/tokenizer.py:BufferIterator")], [], ["token sequence"])

prop("C26", "Reviewing a finished run records exactly the reviewer's decisions",
     "Reviewing after a run shows each selected recorded case once (with continue, only those not OK) and changes verdicts only by acceptance: accepted cases become OK, all others, and all not shown, keep their record and order; the exit status is 0 exactly when all records are OK afterwards. "
     "In interactive runs and reviews every answer does what it says: accept is only possible for a case that did not fail, continue keeps the verdict, quit stops with the later cases left as they were, viewing tools run without ending the question; forgetting removes the records of exactly the selected cases.",
     ["histories", "inputs", "configurations"],
     "every sequence of answers (also unknown ones) over every set of verdicts, selections, interactive modes, and sequences of run, review and forget",
     "The suite is never run interactively and never reviewed.",
     ["booktest/review.py", "booktest/testrun.py", "booktest/runs.py", "booktest/tests.py"],
     [("interaction loop", "booktest/review.py:interact"), ("review of a report", "booktest/review.py:review"), ("forget", "booktest/tests.py:exec_parsed")],
     [("cases.txt", "verdicts to be reviewed", "books/.out")],
     ["cases.txt", "books tree", "stdout", "exit status"])

prop("C27", "Setup and teardown bracket the tests, whatever happens in between",
     "The process setup runs once before any test of a run in its process (in parallel runs, around every case in its worker) and its teardown once after the last one, also when tests fail or raise; every test sees the set-up state. "
     "Decorator setup and teardown likewise bracket each run of the decorated test, synchronous or asynchronous, including when it raises, and keep its dependencies, parameters, result and name; this also holds for runs started from a running event loop.",
     ["programs", "fault_sequences", "schedules"],
     "every suite with any outcomes, nesting of decorators over functions and methods, sequential and parallel",
     "One case checks that the global value is set; teardown and failures are never looked at.",
     ["booktest/utils.py", "booktest/detection.py", "booktest/runs.py"],
     [("bracketing", "booktest/utils.py:SetupTeardown/setup_teardown"), ("process setup", "booktest/runs.py:run_tests/RunBatch, booktest/detection.py:detect_setup")], [],
     ["event log written by setup, tests and teardown"])

prop("C28", "Test files belong to one run of one test",
     "Files a test creates through the file API live in that test's own output directory, are the only ones there after the run (files and temporary files of earlier runs are gone before the test starts), and become its snapshot files on acceptance, while temporary files never do. "
     "Renaming a file to its hash gives a name that depends on the content alone, keeps the content, and image links in the output point to the file relative to the book page; what is outside the directory of the page has no relative path.",
     ["inputs", "histories"],
     "every set of file names, contents and sub-directories over sequences of runs and acceptances",
     "One case writes one temporary file and one renders one image; neither runs twice.",
     [TCR, "booktest/review.py"],
     [("file API", TCR + ":file/tmp_path/tmp_dir/rename_file_to_hash/rel_path/timage"), ("purge", TCR + ":__init__"), ("acceptance of files", "booktest/review.py:freeze_case")], [],
     ["directories of the case under books and books/.out"])

prop("C29", "Discovery finds every test once, under a name derived from where it is",
     "Every test function that a test file under the configured test paths defines or imports, every test method that a test book class there defines when it can be made without arguments, every test book instance and every suite there, is found, and is listed once under the path made of its directories, file name (without its test or book postfix), book name (left out when it repeats the file name) and test name without their test and book affixes; nothing else is listed. "
     "Merging keeps all cases in order and dropping a prefix keeps exactly the cases under it, renamed.",
     ["programs", "inputs"],
     "every tree of directories and modules with functions, books, instances and suites of any valid names",
     "The suite has one fixed layout, and a discovery that misses tests shortens the run without failing it.",
     ["booktest/detection.py", "booktest/naming.py", "booktest/testbook.py", "booktest/testsuite.py"],
     [("module scan", "booktest/detection.py:detect_tests/parse_test_file"), ("naming", "booktest/naming.py"), ("book members", "booktest/testbook.py:TestBook"), ("suite algebra", "booktest/testsuite.py")], [],
     ["-l output of the command line tool"])

prop("C30", "Assertions, formats and measurements judge and return what they should",
     "Every object expectation (contains, equals, has type, custom condition, assertion line) fails the test exactly when its condition is false and writes its title and outcome; timed calls return the function's value, fail exactly when the limit is exceeded (and not when it is met), and untimed limits never fail. "
     "Measured values are ignored in comparison and are printed together with the value found at the same place in the snapshot.",
     ["inputs", "programs"],
     "every object, condition, message, measurement value, unit and earlier snapshot value",
     "The suite only makes expectations that hold, and measurement lines are not compared.",
     [TCR],
     [("assertions", TCR + ":assertln/must_*/TestIt"), ("measurements", TCR + ":ifloatln/tmsln/imsln")], [],
     ["cases.txt", "books/.out/<case>.md", "return values"])

prop("C31", "The memory cache is a bounded map that keeps the latest uses",
     "The bounded memory cache never holds more entries than its size, always returns the latest value stored under a key it reports to contain, and evicts only the least recently used entries; the no-cache object never contains anything and always answers.",
     ["histories"],
     "every sequence of stores, reads and membership tests for every size",
     "The suite never fills the cache.",
     ["booktest/cache.py"],
     [("LRU map", "booktest/cache.py:LruCache"), ("null cache", "booktest/cache.py:NoCache")], [], ["API results"])

prop("C32", "Files and names with any ordinary characters are safe",
     "A book in a directory, or a test, whose name contains blanks, quotes, shell meta characters or non-ASCII letters is run, accepted, replayed, run in parallel, printed, listed and cleaned like any other, and no file outside that book's directory is created, changed or deleted.",
     ["inputs", "configurations"],
     "every path of ordinary printable characters for the book directory and test names, except names that are command line options or exclusions and names that are the directory of another test",
     "All names in the suite are plain identifiers.",
     ["booktest/testcaserun.py", "booktest/testrun.py", "booktest/runs.py", "booktest/tests.py", "booktest/review.py"],
     [("directory creation and removal", "booktest/testcaserun.py:__init__, booktest/testrun.py:run_async, booktest/runs.py:prepare_batch_dir"), ("printing and viewing", "booktest/tests.py:exec_parsed, booktest/review.py:run_tool")], [],
     ["file tree around the book directory"])

prop("C33", "The console shows each case's report and log, as asked, and nothing else",
     "With -v the console shows, for every case of a run, a parallel run or a review, in turn, the name of the case, every line of its report and its verdict; with -L it shows every line of the case's log under the case's full name; without them it shows one line with name and verdict. "
     "With the pointer to error positions switched on, each marked line of a report is followed by a line with a pointer below the place of its first difference or, in failed lines, of the failure.",
     ["inputs", "configurations", "histories"],
     "every suite writing reports and logs of any text, outcome and combination of the flags, in sequential and parallel runs and in reviews without questions",
     "The suite never looks at the console.",
     ["booktest/review.py", "booktest/testcaserun.py", "booktest/runs.py"],
     [("case report on the console", "booktest/review.py:report_case/report_case_begin/report_case_result/maybe_print_logs"), ("report lines", TCR + ":report/report_line/end")], [],
     ["standard output", "books/.out/<case>.txt", "books/.out/<case>.log"])

prop("C34", "Measuring coverage adds the coverage report and changes nothing else",
     "A run with --cov gives the same executions, records, outputs, snapshots and exit status as without, and leaves a coverage report that marks, of the lines of the tests, exactly those executed in this run, earlier runs not included; in parallel runs whose workers are set up to measure, those of all workers.",
     ["configurations", "histories"],
     "every history of sequential and parallel runs with any outcomes, branches and selections",
     "The suite never measures coverage.",
     ["booktest/tests.py", "booktest/runs.py"],
     [("measured run", "booktest/tests.py:exec_parsed"), ("workers write their coverage before they end", "booktest/runs.py:ParallelRunner.__enter__/__exit__")], [],
     ["coverage.xml", "books/.out", "exit code"])

prop("C35", "--print, --path, --view and -l show exactly the selected accepted books",
     "-l names the selected cases in suite order. --path names, in this order, their snapshot files. --print writes the accepted texts, complete and unchanged, one after the other, and --view hands exactly these files, in order, each as one argument, to the configured viewer. Cases never accepted are not printed or viewed, outputs not accepted are never shown, nothing is executed or changed, and the command's exit status tells whether the viewer succeeded.",
     ["inputs", "configurations", "histories"],
     "every suite, selection, set of accepted and only produced outputs, and texts and names of any characters",
     "The suite prints and lists one fixed book.",
     ["booktest/tests.py", "booktest/review.py"],
     [("listing, printing and viewing", "booktest/tests.py:exec_parsed"), ("the viewer", "booktest/review.py:run_tool")], [],
     ["standard output", "arguments of the viewer", "exit status"])

prop("C36", "The page is what the test wrote, whatever the snapshot",
     "The result page a test leaves is exactly the text it wrote through the output API, whatever the accepted snapshot holds, but for the earlier value quoted behind a measurement. The case's report has one line for each line of the page: unmarked and equal to it, or marked as difference or failure and quoting it along with the accepted line; the verdict is FAIL exactly when a line is marked as failed, which a line is exactly when the test failed, and otherwise DIFF exactly when one is marked as different or nothing was accepted.",
     ["inputs", "histories"],
     "every program over the output API, failing or not, and every snapshot: none, its own, edited or unrelated",
     "The suite compares a few pages with a few snapshots.",
     [TCR.split(":")[0], "booktest/tokenizer.py"],
     [("tokens, lines and the report", TCR + ":test_feed_token/feed_token/commit_line/report_line/end")], [],
     ["books/.out/<case>.md", "books/.out/<case>.txt", "books/<case>.md"])

prop("C37", "A reviewer is shown what acceptance will take",
     "Whenever a case is asked about in an interactive run, parallel run or review, its output page, report, log and files are complete on the disk, as the test wrote them. The viewing tools are given the files of this case, each as one argument: (v) the accepted page, when there is one, and the new one, (l) the log, (d) and (D) the accepted and the new page in this order; they change nothing and their failure does not matter. Accepting makes exactly the page and files that were there at the question the snapshot, and any other answer leaves them and the snapshot as they were, unless they are accepted automatically.",
     ["inputs", "histories", "configurations"],
     "every suite with any names, texts, logs, files and outcomes, settings of the tools and sequence of answers",
     "The suite has no interactive run.",
     ["booktest/review.py", "booktest/testcaserun.py", "booktest/runs.py"],
     [("questions and tools", "booktest/review.py:interact/run_tool/case_review/freeze_case"), ("files are closed before", TCR + ":end/close")], [],
     ["arguments of the tools", "books/.out/<case>.*", "books/<case>.md"])

prop("C38", "Durations are recorded truly, kept, and order parallel work",
     "The duration recorded for a case covers at least the time its test took and no more than the whole command, and the recorded duration of a run covers those of its cases in the same way; the console shows the recorded ones. Runs, reviews and forgetting leave the durations of cases that they did not run unchanged, and a review shows the duration of the run it reviews. In a parallel run, of the cases that are ready those with the longest recorded duration start first, equal ones in the order of their names.",
     ["histories", "configurations"],
     "every history of sequential and parallel runs, reviews and forgetting with any durations, outcomes and selections",
     "The suite runs each case once and does not look at times.",
     ["booktest/testcaserun.py", "booktest/runs.py", "booktest/reports.py", "booktest/review.py"],
     [("case durations", TCR + ":start/end"), ("order of parallel work", "booktest/runs.py:ParallelRunner.plan"), ("duration of a run", "booktest/reports.py:Metrics")], [],
     ["books/.out/cases.txt", "books/.out/metrics.json", "standard output"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
