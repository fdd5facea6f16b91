RES = ("Every case is executed on the code in /repo: a navigation which panics, its saved file, and the navigation which resumes it from that file; the trace of each is compared with what the reference model allows. "
       "Trusted: the reference model, the in-memory file system.")
p("C12", "A navigation resumed by fast forward carries on exactly where it stopped",
  "When a navigation was rescued from a panic, resuming it from the saved file with the fast forward strategy presents exactly what the interrupted navigation would have presented from the directory it was working in onwards, in the same order and described in the same way, with all saved settings (depth, order, sub paths, filters, sampling) honoured and nothing presented before it. Errors, skip requests and further panics while resumed behave as in any navigation, and what is then saved can be resumed again. Hibernation is not covered.",
  ["inputs", "configurations", "crash_points"], "all trees x every node as panic point x settings x what the client does in the resumed navigation, up to three interruptions in a row",
  "tests resume from two hand written states of the fixture tree",
  ["internal/feat/resume/strategy-fastward.go", "internal/feat/resume/controller.go", "internal/feat/resume/resume-plugin.go", "internal/kernel/guardian.go", "internal/kernel/navigation-vapour.go", "internal/persist/marshaler.go", "life/"],
  [{"name": "fast forward link", "where": "internal/feat/resume/strategy-fastward.go"}, {"name": "chain unwinding", "where": "internal/kernel/guardian.go"}],
  ["client callback", "returned error", "file written", "result metrics"], SEQ, RES, state=({"name": "saved state", "meaning": "active state and options of an interrupted navigation", "where": "the file written to the admin path"},))
p("C13", "A navigation resumed by spawning carries on exactly where it stopped",
  "When a navigation was rescued from a panic, resuming it from the saved file with the spawn strategy presents exactly what the interrupted navigation would have presented from the directory it was working in onwards, in the same order and described in the same way, with all saved settings honoured, nothing twice and nothing before it; the metrics carry on from the saved ones. Errors, skip requests and further panics while resumed behave as in any navigation, and what is then saved can be resumed again. Hibernation is not covered.",
  ["inputs", "configurations", "crash_points"], "all trees x every node as panic point x settings x what the client does in the resumed navigation, up to three interruptions in a row",
  "tests resume from two hand written states of the fixture tree",
  ["internal/feat/resume/strategy-spawn.go", "internal/feat/resume/controller.go", "internal/kernel/mediator.go", "internal/kernel/contents.go", "internal/level/periscope.go", "core/metrics.go"],
  [{"name": "crown and seed", "where": "internal/feat/resume/strategy-spawn.go"}, {"name": "spawn and bridge", "where": "internal/kernel/mediator.go"}],
  ["client callback", "returned error", "file written", "result metrics"], SEQ, RES, state=({"name": "saved state", "meaning": "active state and options of an interrupted navigation", "where": "the file written to the admin path"},))
p("C14", "What is saved is loaded unchanged, and a damaged file never does harm",
  "Every saved setting (behaviours, filters of every kind, sampling, hibernation, number of workers) comes back from the saved file exactly as it was, in any combination and for any text, and settings given when resuming are applied on top. A file cut short anywhere is refused with an error before the client is invoked. No damage to a single byte or value makes loading or the resumed navigation panic or run on for ever.",
  ["inputs", "configurations", "crash_points"], "all combinations of up to 3 (4) setting values; every prefix and every single byte and value change of four saved states",
  "tests convert options field by field with one value each and load intact files only",
  ["internal/persist/marshaler.go", "internal/persist/json-options.go", "internal/persist/comparison.go", "internal/opts/json/", "internal/opts/load.go", "internal/filtering/builders.go"],
  [{"name": "conversion", "where": "internal/persist/json-options.go"}, {"name": "loading", "where": "internal/persist/marshaler.go"}],
  ["options seen by an option applied when resuming", "returned error", "escaping panics"],
  "bounded exhaustive exploration of saved states (setting combinations, torn prefixes, single damages), each loaded and resumed by the real code",
  "Each damaged file is given to the real resume; only its options and outcome are judged, not what a damaged but readable file presents.", state=({"name": "saved state", "meaning": "active state and options of an interrupted navigation", "where": "the file written to the admin path"},))
CONC = "stateless model checking of the real code: every schedule within a deviation bound, under a deterministic scheduler"
CONCN = ("The code in /repo and the worker pool it uses are woven (every go statement, channel operation, select, lock, atomic, timer and context call goes through a scheduler) and executed; "
         "all schedules of a closed client program with up to 1-3 (quick) or more deviations from the default schedule are enumerated, with states (happens-before histories) visited once. "
         "Trusted: the scheduler, the weaver, a mutex in place of the pool's spin lock.")
p("C15", "A concurrent run presents every node exactly once, whatever the schedule",
  "Running a navigation concurrently (Run), with any number of workers and any buffer sizes, invokes the client exactly once for each node that a sequential Walk of the same tree with the same settings presents, with nodes described the same way, never more callbacks at once than workers asked for, and the same metrics and life cycle notifications. Each callback yields exactly one output carrying the node and the error it returned, the output stream is then closed, the client's wait group is done after all of that and nothing is left running. What a callback returns, a panicking or slow callback, or a failing directory doesn't upset any of it.",
  ["schedules", "inputs", "configurations"], "all schedules (bounded deviations) of client programs over trees x subscriptions x settings x workers x buffer sizes x callback behaviour",
  "tests run each configuration on whatever schedule the machine happens to take",
  ["synchronise.go", "builders.go", "driver.go", "session.go", "internal/kernel/mediator.go", "internal/kernel/guardian.go", "core/async.go", "pref/options-concurrency.go"],
  [{"name": "concurrent synchroniser", "where": "synchronise.go"}, {"name": "client swap", "where": "internal/kernel/guardian.go"}],
  ["client callback", "output stream", "wait group", "result metrics"], CONC, CONCN)
p("C16", "A cancelled navigation comes to an end, without presenting anything twice",
  "When the context of a navigation is cancelled or times out, before it begins, at any moment during it or from within a callback, the navigation returns (with no error or that of the context), the client's wait group is done, nothing has been presented twice or that a sequential navigation wouldn't present, and no callback runs once the wait group is done.",
  ["schedules", "inputs", "configurations", "crash_points"], "all schedules (bounded deviations), hence all points at which the cancellation can come, of client programs over trees x settings x workers x how it is cancelled",
  "tests cancel once, after a fixed time or not at all",
  ["synchronise.go", "driver.go", "session.go", "internal/kernel/navigator-agent.go", "internal/kernel/mediator.go", "builders.go"],
  [{"name": "cancellation of jobs", "where": "synchronise.go"}],
  ["client callback", "returned error", "wait group"], CONC, CONCN)
p("C17", "Navigating is free of data races",
  "No execution of a navigation, sequential or concurrent, alone or at the same time as others in the process, cancelled or not, has two unordered accesses to the same memory one of which is a write, as long as the client's own code has none.",
  ["schedules", "inputs", "configurations"], "all schedules (bounded deviations) of the client programs of C15, C16 and C18, each checked by a happens-before race detector",
  "the test suite isn't run under the race detector and wouldn't reach most schedules if it was",
  ["synchronise.go", "internal/kernel/", "internal/enclave/", "core/metrics.go", "core/node.go", "internal/opts/", "tapable/", "internal/level/periscope.go"],
  [{"name": "concurrent synchroniser", "where": "synchronise.go"}, {"name": "metrics", "where": "core/metrics.go"}],
  ["race detector reports"], CONC + ", each schedule under the Go race detector", CONCN + " The race detector sees the ordering the code itself establishes, not that of the scheduler.")
p("C18", "Navigations in the same process don't affect each other",
  "Navigations which take place at the same time, of whatever kind and with whatever settings (defined by the same objects of the client or not), each present, report, count and return exactly what they do by themselves, also when another one fails, is skipped or is cancelled.",
  ["schedules", "configurations", "histories"], "all schedules (bounded deviations) of pairs and triples of navigations with different settings",
  "tests navigate one at a time",
  ["builders.go", "driver.go", "session.go", "internal/opts/", "internal/kernel/", "internal/filtering/", "internal/feat/", "internal/level/periscope.go", "core/metrics.go"],
  [{"name": "per session state", "where": "builders.go, internal/kernel"}],
  ["client callback", "output stream", "returned error", "result metrics"], CONC, CONCN)
p("C19", "A navigation that can't be set up is refused, and one that can isn't",
  "A navigation which can't be set up, because its facade is of the wrong kind or incomplete (no tree, handler, subscription, forest or file system, unknown strategy), because the saved file can't be read or isn't suitable, because an option fails, or because a filter definition is invalid, is refused: Navigate returns an error, together with a result that has a session and zero metrics, the client is never invoked, nothing is written, the wait group is done and nothing panics. A valid request, through any scenario or composite (Walk, Run, Prime, Resume, Hare, Hydra, Tortoise, Goldfish), isn't refused and presents everything.",
  ["inputs", "configurations"], "every combination of facade, missing field, scenario, option and filter definition in the stated sets",
  "tests try a handful of invalid facades, none in combination",
  ["scaffold.go", "builders.go", "composites.go", "director.go", "pref/facade.go", "extent.go", "internal/kernel/navigator-hades.go", "internal/enclave/kernel-result.go", "internal/filtering/builders.go"],
  [{"name": "scaffold", "where": "scaffold.go"}, {"name": "validation", "where": "pref/facade.go"}, {"name": "refused navigation", "where": "internal/kernel/navigator-hades.go"}],
  ["returned error", "result", "client callback", "wait group", "escaping panics"], "bounded exhaustive exploration of set-ups, each executed by the real code",
  "Every combination of the stated sets is executed. Excluded: typed nil facades, nil pointers given to an option, a nil wait group.")
p("C20", "What is hooked in is what is used",
  "Hooks which a client taps replace the default for listing a directory, looking at the tree, sorting and the sub paths of files and directories, the last one tapped counts; functions which are chained are applied, in the order in which they were chained, to the result of what is there. What a navigation presents, in which order, with which sub path, which faults it reports and what it samples and filters follows from the resulting listings, order, status and paths and from nothing else, in every navigation that uses them, resumed ones included. Tapping a hook which has already been chained isn't covered.",
  ["inputs", "configurations"], "all programs of up to 2 taps and 2 (3) chained functions per hook, pairs of hooks, x trees x subscriptions x settings",
  "tests tap or chain each hook once, on one tree",
  ["tapable/", "pref/options-hooks.go", "pref/defaults.go", "internal/kernel/extend.go", "internal/kernel/contents.go", "internal/kernel/navigation-fs.go", "internal/feat/sampling/controller.go"],
  [{"name": "hook control", "where": "tapable/hooks.go"}, {"name": "broadcasters", "where": "tapable/broadcasters.go"}],
  ["client callback", "fault handler", "skip handler", "returned error"], SEQ,
  "Every case is executed on the code in /repo and its complete trace compared with the reference model, in which a hook is a function on listings, orders, status or paths. Trusted: the reference model, the in-memory file system.")
p("C21", "A navigation isn't affected by those before it",
  "In any sequence of navigations in a process (completed, failed, stopped, panicked, resumed, refused, cancelled, concurrent), each presents, reports, counts, saves and returns what it does by itself, also when they share options, the facade, the wait group, a saved file, or the options of an earlier one by means of Using.O, life cycle handlers included.",
  ["histories", "configurations"], "all sequences of up to 3 (4) navigations of 10 kinds x settings x what is shared",
  "tests navigate once per test, with everything made anew",
  ["builders.go", "driver.go", "scaffold.go", "session.go", "life/events.go", "internal/opts/get-push.go", "internal/services/broker.go", "internal/filtering/", "internal/feat/"],
  [{"name": "options", "where": "internal/opts/get-push.go"}, {"name": "events", "where": "life/events.go"}],
  ["client callback", "life cycle handlers", "returned error", "file written", "result metrics"],
  "bounded exhaustive exploration of histories of navigations, each executed by the real code and compared with the reference model of the navigation by itself",
  "Trusted: the reference model, the in-memory file system. Concurrent navigations are compared regardless of order, on the schedule the machine takes.", state=({"name": "process", "meaning": "what the navigations of a process have in common", "where": "package level variables, shared options"},))
p("C22", "An option sets what it says and nothing else",
  "The settings a navigation uses after any sequence of options are the defaults, altered by each option in turn in what it is for and in nothing else; conditional options count when their condition holds, absent ones are as if they weren't there, and the first one that fails refuses the navigation. Values given by the client are used as they are and never modified, functions are the ones called, defaults which depend on others (no recursion, sizes of buffers) are derived from the outcome, and the same option can be used for any number of navigations.",
  ["configurations", "histories"], "all sequences of up to 3 (4) options out of all there are, all of them together but one from every starting point in both directions",
  "tests apply one option at a time and look at the field it sets, never at the others",
  ["pref/", "internal/opts/get-push.go", "traverse-api.go", "builders.go", "extent.go"],
  [{"name": "options", "where": "pref/options.go"}, {"name": "default options", "where": "pref/defaults.go"}],
  ["options seen by the last option and by the navigation", "functions called", "life cycle events", "returned error", "client's own structs afterwards"],
  "bounded exhaustive exploration of sequences of options, each applied by the real code and compared with the reference settings",
  "Each option is specified by the (flattened) settings it alters; the complete settings are compared, hence anything else it alters shows. Trusted: the table of options in harness/options.go.",
  state=({"name": "options", "meaning": "all settings of a navigation", "where": "pref.Options"},))
p("C23", "The filter handed to the client is the one defined and the one applied",
  "A client which asks for the filters that are made out of its definitions (Sink) is handed, before anything is visited, the node, child and sample filter it defined, and only these: description, pattern, scope and validity are those of the definition, and whether a filter matches any node of the tree is exactly whether the navigation presents (or samples) it.",
  ["inputs", "configurations"], "all trees of up to 3 (5) nodes x names x all kinds of filter, alone and together with a child filter",
  "tests check that the sink is called",
  ["internal/feat/filter/", "internal/filtering/", "pref/options-filter.go", "core/filtering.go"],
  [{"name": "sink", "where": "internal/feat/filter/filter-plugin.go"}, {"name": "filters", "where": "internal/filtering/"}],
  ["sink", "client callback"], SEQ, RES)
p("C24", "The containers behave as containers",
  "Whatever is done to a positional set, a stack, an iterator (forward, reverse, runnable) or metrics, the contents, order, size, position, results and errors are those of an ordered set with an anchor in last place, a last-in-first-out stack, a sequence visited in order or reverse order until stopped, and counters which add up.",
  ["histories"], "all sequences of operations: 4 (5) of 16 for sets, 8 (9) of 5 for stacks, 7 (8) of 6 for iterators, 6 (7) of 9 when runnable, 5 (6) of 15 for metrics, from every initial contents listed",
  "tests run one sequence per operation",
  ["collections/positional-set.go", "collections/stack.go", "collections/iterators.go", "core/metrics.go", "internal/enclave/supervisor.go", "enums/filter-scope-en.go"],
  [{"name": "positional set", "where": "collections/positional-set.go"}, {"name": "stack", "where": "collections/stack.go"}, {"name": "iterators", "where": "collections/"}, {"name": "metrics", "where": "core/metrics.go"}],
  ["results of operations", "everything that can be observed after each"],
  "bounded exhaustive exploration of operation sequences, each executed on the real containers in lock step with a reference machine",
  "After every operation everything that can be observed is compared. Trusted: the reference machines. What is unspecified (operating on an iterator which isn't started or is finished) isn't explored.",
  state=({"name": "container", "meaning": "contents in order", "where": "collections/"},))
p("C25", "Whoever subscribed to a life cycle event is notified, unless it is muted",
  "Raising a life cycle event notifies every handler which is subscribed to it at that moment, once, in order of subscription, with what is raised, unless the event is muted at that moment; muting and subscribing affect no other event, mutes aren't forgotten and don't count, and binding the events again keeps who is subscribed. Handlers may subscribe others while being notified.",
  ["histories"], "all sequences of 5 (6) operations (subscribe, mute, unmute, mute all, unmute all, bind), all events raised after each, with and without nested subscription",
  "tests subscribe once and raise once",
  ["life/events.go", "internal/opts/binder.go", "pref/options-life.go"],
  [{"name": "notification controllers", "where": "life/"}],
  ["handlers notified, in order"],
  "bounded exhaustive exploration of operation sequences, each executed on the real controllers in lock step with a reference machine",
  "Trusted: the reference machine.", state=({"name": "controllers", "meaning": "handlers and mute per event", "where": "life/"},))
p("C26", "A local navigation presents what is there and touches nothing but its save",
  "With the default, an absolute or a relative local file system, the navigation of a directory (itself possibly a symbolic link, and however its path is spelled) presents exactly what is in it, each with the information of that very file, symbolic links being leaves which are never followed, whatever they point to; an interrupted navigation is saved to one new file below the admin path, which is created if need be, the error returned names that file, a navigation can be resumed from it as if not interrupted, and nothing else in the file system is made, changed or removed.",
  ["inputs", "configurations", "crash_points"], "all trees of up to 4 (5) nodes with symbolic links of 6 kinds in every directory x subscriptions x 4 settings x 7 ways of giving the file system (the working directory included) and 6 ways of spelling the tree, interrupted at every node and resumed by both strategies",
  "tests use an in-memory file system",
  ["tfs/", "builders.go", "internal/kernel/author.go", "internal/kernel/navigation-fs.go", "internal/persist/", "internal/opts/", "scaffold.go", "internal/kernel/guardian.go"],
  [{"name": "forest", "where": "scaffold.go"}, {"name": "saving", "where": "internal/kernel/author.go"}],
  ["client callback", "file information", "returned error", "file system before and after"], SEQ,
  "Trees are made in a scratch folder and navigated with nothing replaced. Trusted: the reference model, the operating system.")
p("C27", "What a navigation gives back tells what it did",
  "However a navigation ends (completed, tree missing, stopped, failed, panicked, resumed, refused, cancelled, concurrent), the result, the one given to the end handler, and its session agree: metrics are those of what was presented, the error is the one returned, the session has begun not before the call and its elapsed time neither exceeds that of the call nor changes after it, and asking them for anything at any time is safe and always gives the same answer.",
  ["inputs", "configurations", "histories"], "all trees x subscriptions x 5 settings x 12 kinds of end at every node",
  "tests look at the count of one metric of a navigation that completes",
  ["internal/enclave/kernel-result.go", "session.go", "driver.go", "core/metrics.go", "internal/enclave/", "internal/kernel/mediator.go"],
  [{"name": "result", "where": "internal/enclave/kernel-result.go"}, {"name": "session", "where": "session.go"}],
  ["result", "session", "end handler"], SEQ, RES)
p("C28", "What an error is can be told, however it is wrapped, and it says so",
  "For every error which the library defines, each of the predicates and exported values tells whether it is (or wraps, or is joined with) one of its kind, and not any other kind, whatever its argument and however it has been wrapped by the client; no two kinds read the same or are translated as the same message, every one has a text, and the text tells the argument (pattern, path, state, where it has been saved, the reason it hasn't).",
  ["inputs"], "all errors x 7 arguments x all sequences of up to two wrappings, joined with every other error",
  "tests check the predicate of one error of each kind against itself and one other",
  ["core/errors.go", "locale/messages-errors.go", "stock/error.go", "collections/errors.go"],
  [{"name": "errors", "where": "core/errors.go, locale/messages-errors.go"}],
  ["predicates", "errors.Is, errors.As", "text"], "bounded exhaustive enumeration of error trees, each asked every question, compared with the kinds it was made of",
  "Trusted: the table of kinds in harness/errs.go.")

p("C29", "Saving an interrupted navigation never replaces what was saved before",
  "Whatever the history of interruptions - one after another or at the same time, within the same second or not, from the top or resumed from any earlier save, with the name to be used taken by something else - every interrupted navigation is saved to a file of its own, the one its error names, with its own state; what was there before stays as it was, and a navigation can be resumed from every one of the saves by either strategy.",
  ["histories", "schedules", "crash_points"], "all histories of up to two (three) interruptions, many in a row, on four kinds of local file system; all schedules of two or three navigations which are interrupted at the same time, within a deviation bound",
  "tests save once, to a name nothing has yet",
  ["internal/kernel/author.go", "internal/kernel/navigator-agent.go", "internal/persist/marshaler.go", "core/defs.go"],
  [{"name": "saving", "where": "internal/kernel/author.go"}],
  ["returned error", "file system before and after", "resumed navigation"],
  "bounded exhaustive exploration of histories of crashes on the real file system, each resumed; stateless model checking of concurrent crashes, every schedule within a deviation bound",
  "The histories run one after another in a scratch folder, with the clock in the hands of the harness; the concurrent ones on the woven code under the scheduler. Trusted: the reference model, the scheduler, the operating system.",
  state=({"name": "saved states", "meaning": "all the files saved so far", "where": "the admin path"},))
p("C30", "A tree which changes while it is navigated is presented as it is when visited",
  "When the client, a listener or the skip handler removes, makes or replaces files and directories while they are told of something, the navigation goes on: the contents of a directory are what there is when it is visited (after it is descended into, before it is presented), what they listed is visited even if it is gone by then, with the error of finding out about it in place of its information, what a node says is so at the time of its visit, a directory which is gone or no longer one is a fault like any other, and nothing else is affected.",
  ["inputs", "histories", "fault_sequences"], "all trees of up to 3 (4) nodes x subscriptions x settings x every change of every path at every event; every pair of changes on trees of up to 2 (3) nodes; curated trees",
  "tests navigate trees which do not change",
  ["internal/kernel/navigator-agent.go", "internal/kernel/navigator-universal.go", "internal/kernel/navigator-files.go", "internal/kernel/navigator-directories.go", "internal/kernel/contents.go", "core/node.go"],
  [{"name": "reading and visiting", "where": "internal/kernel/"}],
  ["client callback", "life cycle events", "skip handler", "returned error"], SEQ,
  "The changes are made at the same events in the tree of the implementation and in that of the reference model. Trusted: the reference model.")
p("C31", "A tree which has changed since can be resumed",
  "When files and directories have been removed, made or replaced between the interruption of a navigation and its resumption, by either strategy, what is presented is what a navigation of the tree as it is now presents from the directory in which it was interrupted on: all that is left in it, even if that is nothing, and all that follows. If that directory itself is gone, the resumed navigation comes to an end, and presents nothing twice, out of order or which does not exist.",
  ["inputs", "histories", "crash_points"], "all trees of up to 4 (5) nodes x subscriptions x settings x interrupted at every node x every change of every path x both strategies; every pair of changes on trees of up to 2 (3) nodes; curated trees",
  "tests resume trees which have not changed",
  ["internal/feat/resume/strategy-fastward.go", "internal/feat/resume/strategy-spawn.go", "internal/feat/resume/controller.go", "internal/kernel/mediator.go", "internal/kernel/guardian.go"],
  [{"name": "fast forwarding", "where": "internal/feat/resume/strategy-fastward.go"}, {"name": "spawning", "where": "internal/feat/resume/strategy-spawn.go"}],
  ["client callback", "returned error"], SEQ, RES)
p("C32", "A navigation reads each directory it visits once and no other",
  "The file system is asked about the tree once, every directory which is visited is read once, when it is visited, in the order of the visits, and no directory which is skipped, cut off by the depth limit, sampled out or which the client did not get to before stopping is read; no entry is asked about twice, or whose directory has not been read. Resuming reads each directory at most once, and spawning none of those which were finished before the interruption.",
  ["inputs", "configurations", "crash_points"], "all trees of up to 5 (6) nodes x subscriptions x 15 settings, with every single deviation of the client, unreadable directory and interruption resumed by both strategies on trees of up to 4 (5) nodes",
  "tests don't look at what the file system is asked",
  ["internal/kernel/navigation-fs.go", "internal/kernel/navigator-agent.go", "internal/level/periscope.go", "internal/feat/resume/strategy-spawn.go", "internal/feat/sampling/", "internal/feat/filter/"],
  [{"name": "reading", "where": "internal/kernel/navigation-fs.go"}, {"name": "spawning", "where": "internal/feat/resume/strategy-spawn.go"}],
  ["reads and queries the file system receives"], SEQ, RES)

p("C33", "What a client is given stays as it was",
  "A node which has been presented (to the callback, a listener of ascend or the skip handler), those it is in, its children, and the contents which the skip handler was given, say the same ever after: while the navigation goes on, when it has ended in whatever way, and while it is resumed or something else is navigated.",
  ["inputs", "configurations", "histories"], "all trees of up to 5 (6) nodes x subscriptions x 15 settings, with every single deviation of the client, unreadable directory and interruption resumed by both strategies on trees of up to 4 (5) nodes; all that was given is looked at again at the end",
  "tests look at a node while it is presented",
  ["core/node.go", "internal/kernel/navigator-agent.go", "internal/kernel/contents.go", "internal/kernel/extend.go", "internal/kernel/navigator-universal.go", "internal/kernel/navigator-files.go", "internal/kernel/navigator-directories.go", "internal/feat/nanny/"],
  [{"name": "nodes", "where": "core/node.go"}, {"name": "contents", "where": "internal/kernel/contents.go"}],
  ["nodes and contents kept by the client"], SEQ, RES)
p("C34", "A navigation can be started from within another",
  "From within any callback, listener, skip handler or read of the file system of a navigation (prime or resumed, of whatever outcome) another one can be carried out (completed, failed, stopped, panicked, resumed, refused, cancelled, concurrent), and yet another one within that: each of them presents, reports, counts, saves and returns what it does by itself.",
  ["programs", "inputs", "configurations"], "all outer trees of up to 3 (4) nodes x every event x 10 kinds of inner navigation; outer settings x inner settings x every event on two trees; three levels deep",
  "tests navigate one tree at a time",
  ["driver.go", "session.go", "internal/services/broker.go", "builders.go", "internal/kernel/", "internal/feat/", "pref/defaults.go"],
  [{"name": "session", "where": "session.go, driver.go"}, {"name": "kernel", "where": "internal/kernel"}],
  ["client callback", "life cycle events", "returned error", "metrics", "saved state"], SEQ, RES)
