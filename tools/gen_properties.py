"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=hook)))

p("C01", "Concurrent counter updates are never lost or double counted",
  "When any number of threads update clones of one counter at the same time, its value after they finish is exactly the sum of all accepted amounts, whole or fractional. While they run, no reader ever sees the value go down, and every value read lies between the sum of the additions that had returned before the read began and the sum of those that had been called before it ended.",
  ["schedules"], "every interleaving of the atomic steps of 2-3 threads performing increment/add/add_u64 and value reads on one counter",
  "The tests update a counter from one thread only; a lost update needs a particular interleaving of two read-modify-write steps.",
  ["src/atomic.rs", "src/metrics/counter.rs"],
  [("compare-exchange retry loop for the fractional part", "src/atomic.rs AtomicF64::update"), ("fetch_add for the whole part", "src/atomic.rs AtomicU64::add"), ("value as the sum of two cells", "src/metrics/counter.rs Value::get")],
  ["Counter::value", "Counter Display", "Gatherer::gather"], [("Value.f64/Value.u64", "fractional and whole part of the count", "src/metrics/counter.rs")])
p("C02", "Concurrent gauge operations behave as if executed one at a time",
  "Increments, decrements, additions, subtractions, sets and reads performed concurrently on clones of one gauge have results (every value read and the final value) that some one-at-a-time execution of the same calls, consistent with their real-time order, would give. In particular concurrent in-progress tracking always returns the gauge to where it was and never shows fewer tracked sections than are running.",
  ["schedules"], "every interleaving of the atomic steps of 2-3 threads performing add/subtract/increment/decrement/set/track_inprogress and reads on one gauge",
  "The tests use a gauge from one thread only.",
  ["src/atomic.rs", "src/metrics/gauge.rs"], [("single atomic cell with compare-exchange updates", "src/atomic.rs AtomicF64"), ("increment/decrement bracket", "src/metrics/gauge.rs track_inprogress")], ["Gauge::value"])
p("C03", "Concurrent histogram observations are each counted exactly once",
  "When threads observe values on clones of one histogram concurrently, afterwards every bucket, the total count and the sum account for each observation exactly once. A reader running alongside always sees cumulative bucket counts that never decrease from one bound to the next or from one read to the next, printed text whose +Inf bucket equals its count, and counts and sums made up only of observations that had been called, including all that had returned before the read began.",
  ["schedules"], "every interleaving of the atomic steps of 2-3 threads observing on, reading from and rendering one histogram",
  "The tests observe from one thread only.",
  ["src/metrics/histogram.rs", "src/bucket.rs", "src/atomic.rs"], [("one atomic counter per bucket", "src/bucket.rs Bucket::increment"), ("atomic sum", "src/metrics/histogram.rs Histogram::observe")], ["Histogram::cumulative_buckets", "Histogram::count", "Histogram::sum", "Display"])
p("C04", "Concurrent summary observations are each counted exactly once",
  "When threads observe values on clones of one summary concurrently, afterwards the count, the sum and the quantiles account for each observation exactly once. A reader running alongside only ever sees counts, sums and quantile values built from observations that had been called, including all that had returned before the read began, and no interleaving deadlocks.",
  ["schedules"], "every interleaving of the atomic and lock steps of 2-3 threads observing on and reading quantiles, count and sum from one summary",
  "The tests observe from one thread only.",
  ["src/metrics/summary.rs", "src/atomic.rs"], [("mutex around the sample queue", "src/metrics/summary.rs with_current_samples"), ("atomic count and sum", "src/metrics/summary.rs Summary::observe")], ["Summary::quantiles", "Summary::count", "Summary::sum"])
p("C05", "Concurrent label changes are atomic and none is lost",
  "Inserting, removing and clearing labels through clones of one metric from several threads takes effect as if the calls ran one at a time in an order consistent with real time; no successful change is lost. A thread that reads, iterates or prints the labels, or prints the metric, meanwhile sees exactly the label set that existed at one instant.",
  ["schedules"], "every interleaving, up to the stated preemption bound, of 2-3 threads doing 1-2 label changes or reads each on one metric, with freed memory reused as early as possible",
  "The tests change labels from one thread only; a lost change additionally needs another thread to complete two changes inside a window of a few instructions.",
  ["src/label.rs"], [("copy-on-write label vector", "src/label.rs LabelsMut"), ("snapshot held by the iterator", "src/label.rs Iter")], ["Labels::iter", "Labels::get", "Labels Display"])
p("C06", "Registration, dropping and gathering may overlap freely",
  "With metrics being created, updated and dropped by some threads while others gather, every gather contains exactly once each metric whose registration had completed before it began and that stays alive, never one whose registration began after it ended or whose last handle was gone before it began, and values within what had been recorded. Once activity stops, the next gather contains exactly the living metrics with exact values, and nothing is ever lost or blocked.",
  ["schedules"], "every interleaving, up to the stated preemption bound, of 2-3 threads building/registering, updating, dropping metrics and gathering",
  "The tests register and gather on one thread; dropped-handle and mid-gather registration windows are not reached.",
  ["src/registry.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs"], [("channel of collectors drained by gather", "src/registry.rs Gatherer::gather"), ("weak references upgraded by collectors", "src/metrics/*.rs *Collector::collect")], ["Gatherer::gather"], [("Gatherer.collectors", "live collectors", "src/registry.rs")])
p("C07", "User code called by the library may use the library freely",
  "A timed or tracked closure may read, update, print or gather the very metric it runs under, and a collector may create, register, update or drop metrics on the registry that is gathering it; so may the iterator it returns, the destructors of both, a writer that a metric, its labels or a gathering is printed to, and an iterator of bucket bounds. The call always completes with the normal result, in every interleaving with other threads doing the same. Metrics registered from inside a collector appear at the latest in the next gather.",
  ["schedules", "histories"], "all nestings of library calls inside library callbacks (closures, collectors, their iterators and destructors, every call of a writer) up to depth 2, alone and under all interleavings (bounded preemptions) of two such threads",
  "The tests never call the library from inside a callback except for one gauge read.",
  ["src/metrics/summary.rs", "src/metrics/histogram.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/registry.rs"], [("no lock is held while user code runs", "src/metrics/*.rs time, src/registry.rs gather")], ["Gatherer::gather", "time", "track_inprogress"])
p("F01", "A panic or failure in user code leaves the library consistent",
  "If a closure being timed or tracked, a collector being gathered (or the iterator it returns, or the destructor of either), an iterator of bucket bounds, or a writer being printed to panics, the panic reaches the caller, as does the error of a writer that fails after having been given a beginning of the text, and every metric stays usable: an in-progress gauge returns to its former value, a timer records nothing or one observation but never a partial one, and no other metric or registration is lost, so that a later gather again reports every living metric with exact values.",
  ["fault_sequences", "histories"], "all sequences up to the stated depth of normal calls and calls whose user code panics, for every metric kind and every position of a panicking collector; and a failure or panic in every single call of a writer being printed to",
  "No test lets user code panic.",
  ["src/metrics/gauge.rs", "src/metrics/summary.rs", "src/metrics/histogram.rs", "src/metrics/counter.rs", "src/registry.rs"], [("restoration of the in-progress gauge", "src/metrics/gauge.rs track_inprogress"), ("collector list kept in the gatherer", "src/registry.rs Gatherer::gather")], ["Gauge::value", "Gatherer::gather"])
p("A01", "A counter equals the sum of its accepted additions and never decreases",
  "After any sequence of operations a counter's value is the sum of all increments and accepted additions, whichever operation added them and whether the amounts were whole, fractional, zero, huge or infinite; no operation ever makes it smaller. Adding a negative or NaN amount is refused with an invalid-input error and changes nothing.",
  ["inputs", "histories"], "all operation sequences up to the stated depth over increment/add/add_u64 with boundary amounts (0, -0, fractions, 2^53, 2^63, 2^64, 1e20, f64::MAX, infinity, negatives, NaN)",
  "The one counter test adds four small amounts.",
  ["src/metrics/counter.rs", "src/atomic.rs"], [("split into whole and fractional cells", "src/metrics/counter.rs Value::add"), ("validation", "src/metrics/counter.rs Counter::add")], ["Counter::value"])
p("A02", "A gauge holds exactly the last set value plus later changes",
  "After any sequence of operations on any of its clones, a gauge's value is its initial or last set value with all later additions and subtractions applied in order, in double-precision arithmetic. Setting to the current time stores the system clock's Unix time in seconds, also before 1970.",
  ["inputs", "histories"], "all operation sequences up to the stated depth over set/add/subtract/increment/decrement/set_to_current_time/track_inprogress with boundary values, for several initial values",
  "The one gauge test sets one value.",
  ["src/metrics/gauge.rs", "src/atomic.rs", "src/timestamp.rs"], [("bit-cast double in an atomic cell", "src/atomic.rs AtomicF64"), ("initial value", "src/metrics/gauge.rs GaugeBuilder::finish")], ["Gauge::value"])
p("H01", "A histogram counts every observation in the right buckets",
  "For every set of bucket bounds and every sequence of observations, the cumulative count reported at each bound is exactly the number of observed values less than or equal to that bound, the total count is the number of observations, and the sum is their sum. This covers values equal to a bound, outside all bounds, zero, negative and infinite; NaN is refused and changes nothing.",
  ["inputs", "histories", "configurations"], "all multisets of up to the stated number of bounds from a boundary alphabet, and all observation sequences up to the stated length from values on, next to and beyond the bounds",
  "The tests observe six values on two fixed, distinct, finite bucket layouts.",
  ["src/metrics/histogram.rs", "src/bucket.rs"], [("binary search over sorted bounds", "src/metrics/histogram.rs Histogram::observe"), ("running sum", "src/bucket.rs CumulativeBuckets")], ["Histogram::buckets", "Histogram::cumulative_buckets", "Histogram::count", "Histogram::sum"])
p("H02", "Histogram bucket layouts are exactly those requested",
  "A built histogram has each requested upper bound exactly once, in ascending order, always including +Inf as the last; linear buckets are start, start+width, ... and exponential buckets are start, start*factor, start*factor^2, ..., count of them. A NaN bound is refused with an invalid-input error.",
  ["inputs", "configurations"], "all sequences of bucket/buckets/linear/exponential builder calls up to the stated size over a boundary alphabet",
  "The tests build one linear layout and one explicit layout; no test builds exponential buckets, duplicates, unsorted or infinite bounds.",
  ["src/metrics/histogram.rs", "src/bucket.rs"], [("sorting and validation", "src/metrics/histogram.rs HistogramBuilder::finish"), ("generators", "src/metrics/histogram.rs with_linear_buckets, with_exponential_buckets")], ["Histogram::buckets"])
p("S01", "Summary quantiles describe exactly the samples of the sliding window",
  "At any time a summary reports, for each configured quantile q in ascending order, the sample of rank floor(q*n) (at most the last; counting from 0) among the n non-NaN values observed no longer ago than the window length, and nothing if there are none. Elapsed time is what counts: setting the system's wall clock forwards or backwards does not change what is in the window; count and sum cover all observations ever made.",
  ["inputs", "histories", "configurations"], "all sequences up to the stated depth of observations, timings, clock advances around the window length, wall-clock steps and reads, for several windows and all subsets of a quantile alphabet that includes 0 and 1",
  "The one test observes five values with the clock standing still and quantiles 0.25, 0.5, 0.75.",
  ["src/metrics/summary.rs", "src/quantile.rs"], [("expiry from the front of the sample queue", "src/metrics/summary.rs with_current_samples"), ("rank computation", "src/metrics/summary.rs quantiles")], ["Summary::quantiles", "Summary::count", "Summary::sum"], [("samples", "time-stamped values", "src/metrics/summary.rs")])
p("N01", "Only well-formed names are accepted, and refusal has no effect",
  "A metric is built, or a label accepted, if and only if every given part of the metric name matches [a-zA-Z_:][a-zA-Z0-9_:]*, every label name matches [a-zA-Z_][a-zA-Z0-9_]* without a leading double underscore, 'le' is not used as a label on a histogram nor 'quantile' on a summary, and every quantile lies in 0..=1. Anything else is refused with an invalid-input error without panicking, registers nothing and leaves existing labels as they were; the full name is the given parts joined by underscores.",
  ["inputs"], "all strings up to the stated length over an alphabet with every class boundary (including multi-byte characters and NUL) in each name position, for all four metric kinds",
  "Tests and doc-tests try two malformed label names and no malformed metric name.",
  ["src/metric.rs", "src/label.rs", "src/quantile.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs"], [("validate_name", "src/metric.rs, src/label.rs"), ("reserved names", "src/metrics/histogram.rs, src/metrics/summary.rs, src/label.rs LabelsMut::insert")], ["finish", "Label::new", "LabelsMut::insert"])
p("V01", "Labels, names, kinds and quantiles compare, order and hash as values",
  "Two labels, metric names, metric kinds or quantiles are equal exactly if their parts are (two labels if both name and value are, two metric names if namespace, subsystem and name are, two quantiles if the numbers are); their order is total and agrees with equality, labels ascending by name and then value, quantiles by number, and equal ones hash alike. A metric handle taken as a generic metric has the handle's kind, name and labels, and stays the same metric.",
  ["inputs"], "all pairs and triples of some hundreds of labels, names, kinds and quantiles, among them ones that differ in one character anywhere, in length, in case, in how the same full name is split, or by the smallest possible number",
  "The tests never compare, order or hash labels, metric names, kinds or quantiles.",
  ["src/label.rs", "src/metric.rs", "src/quantile.rs"], [("comparison of labels", "src/label.rs Label"), ("comparison of names and kinds; conversions of handles", "src/metric.rs MetricName, MetricKind, Metric"), ("order of quantiles", "src/quantile.rs")], ["Label", "MetricName", "MetricKind", "Quantile", "Metric::from"])
p("L01", "Labels behave as a map from name to value, in canonical order",
  "After any sequence of insertions, replacements, removals and clears, at build time or later, a metric has exactly one label per name with the last value given, listed in ascending name order; length, lookup, iteration and printed form agree with each other and are the same for all clones. The result does not depend on the order in which the labels were given.",
  ["histories", "inputs"], "all operation sequences up to the stated depth over insert/remove/clear through two clones with three names and two values, from all builder-time label sequences up to the stated length",
  "The tests insert one label into an empty set.",
  ["src/label.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs", "src/metrics/builder.rs"], [("retain, push, sort", "src/label.rs LabelsMut::insert; builders' label()")], ["Labels::iter", "Labels::get", "Labels::len", "Display"])
p("L02", "Label references and iterators stay valid while labels change",
  "A label or iterator obtained from a metric in safe code remains readable, with the contents it had, for as long as the program may hold it, however often the labels are changed through other clones meanwhile.",
  ["histories", "schedules"], "all ways of obtaining a label reference or a partly consumed iterator, followed by all sequences of label changes up to the stated depth, with all freed memory quarantined",
  "The tests never hold a label across a change.",
  ["src/label.rs"], [("snapshot owned by the iterator; lifetime extended by transmute", "src/label.rs Labels::iter, Iter")], ["Labels::get", "Labels::iter"])
p("T01", "Timestamps report exactly what was last set",
  "A metric's timestamp is absent until set, then exactly the last value (any but the smallest 64-bit integer, which the library reserves) set through any clone or thread, until cleared. Setting from a system time stores Unix milliseconds (truncated to whole milliseconds towards the epoch, negative before 1970), and every sample line of the metric's text carries exactly the current timestamp, or none; while other threads change it, all lines of one text carry the timestamp of one instant.",
  ["inputs", "histories", "schedules"], "all sequences up to the stated depth of set/set_time/set_now/clear with boundary times before, at and after the epoch, for all four kinds; and all interleavings of two or three threads setting, clearing and reading one timestamp",
  "No test sets a timestamp.",
  ["src/timestamp.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs"], [("sentinel-encoded atomic", "src/timestamp.rs")], ["Timestamp::get", "Display"])
p("E01", "Exposed text is valid and reads back as exactly the recorded data",
  "For any metrics, the text form (of one metric or of a gathering) parses under the Prometheus text format, and parsing it yields exactly the metric types, help texts, names, label sets, values and timestamps recorded: any Unicode help and label value, any double including infinities and NaN, any label on any line. Each family has its TYPE line once before its samples, no series is listed twice, histogram buckets ascend to a +Inf bucket equal to the count, and distinct label values never print alike.",
  ["inputs", "configurations"], "all label values and help texts up to the stated length over an alphabet of special characters, crossed with all kinds, boundary values, timestamps and label counts",
  "The tests compare the text of a handful of metrics with plain labels and small values.",
  ["src/metric.rs", "src/label.rs", "src/aggregated_metrics.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs"], [("escaping", "src/label.rs Display for Label, src/metric.rs Display for MetricFamily"), ("number formatting", "src/metric.rs MetricValue")], ["MetricFamilies::to_text", "Display of each metric type"])
p("G01", "Gathering merges metrics with equal name, kind and labels exactly",
  "A gathering has one family per full metric name and kind, and within it one entry per distinct label set, whatever the order of registration and however the full name is split into namespace, subsystem and name. A merged entry's value, count and sum are the sums over its members, its timestamp is the latest, its buckets are the union of the members' bounds with at each bound the sum of what the members count in buckets up to that bound, and its quantiles range over the union of the members' samples; all this also if labels change while the gathering is made or after it, which then shows the labels each metric had at some moment of it.",
  ["inputs", "configurations"], "all combinations up to the stated size of metrics over 4 kinds x name splits x label sets x bucket layouts x values, in all registration orders",
  "One test merges two pairs of metrics with different finite bounds.",
  ["src/registry.rs", "src/metric.rs", "src/aggregated_metrics.rs", "src/bucket.rs"], [("sort and group", "src/registry.rs Gatherer::gather"), ("try_merge", "src/aggregated_metrics.rs"), ("bucket merge", "src/bucket.rs AggregatedCumulativeBuckets")], ["Gatherer::gather", "Aggregated*"])
p("G02", "A gathering reports exactly the registered, living metrics",
  "After any sequence of creating, registering, cloning, dropping and gathering over several independent gatherers and the default one, each gathering contains exactly the metrics registered with that gatherer that still have a handle, and calls each other living collector exactly once. A collector that reports its end is dropped at once and never called again, without affecting any other; dropping or outliving a gatherer is harmless.",
  ["histories"], "all operation sequences up to the stated depth over create/clone/drop/gather/end-of-collector on two gatherers with up to four collectors, plus the default registry",
  "The tests only ever add metrics and gather once.",
  ["src/registry.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs"], [("swap_remove of finished collectors", "src/registry.rs Gatherer::gather"), ("weak handles", "src/metrics/*.rs")], ["Gatherer::gather"])
p("B01", "Builders produce exactly the configured metric, every time",
  "A metric built directly or through the shared builder has exactly the namespace, subsystem, name, help, labels, initial value, buckets, quantiles and window configured, later settings overriding earlier ones, and is registered with exactly the registries configured. Building again yields an independent metric with the same configuration and fresh state, and settings made on a derived builder never leak back into the shared one.",
  ["configurations", "histories"], "all sequences of builder calls up to the stated depth for the shared builder and for each of the four kinds, with 0-2 registries",
  "The tests set a namespace and a subsystem once and a registry once.",
  ["src/metrics/builder.rs", "src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs"], [("inheritance of settings", "src/metrics/builder.rs"), ("finish", "src/metrics/*.rs")], ["metric accessors", "Gatherer::gather"])
p("D01", "Timing helpers record exactly the elapsed time, once",
  "Timing a closure runs it exactly once, returns its result, and records exactly its elapsed time in seconds: added to a counter, set on a gauge, or observed once by a histogram or summary. Wall-clock changes during the closure do not affect what is recorded, nested, repeated and concurrent timings are each recorded, and nothing else of the metric changes.",
  ["inputs", "histories", "schedules"], "all sequences and nestings up to the stated depth of timed closures with durations from a boundary alphabet and wall-clock steps inside, for all four kinds; and all interleavings of threads timing closures on one metric",
  "No test calls a timing helper.",
  ["src/metrics/counter.rs", "src/metrics/gauge.rs", "src/metrics/histogram.rs", "src/metrics/summary.rs", "src/timestamp.rs"], [("monotonic clock difference", "src/metrics/*.rs time"), ("duration conversion", "src/timestamp.rs duration_to_seconds")], ["value/count/sum"])
p("P01", "Process metrics report what the kernel reports, whatever is unavailable",
  "Each gathering of the process collector reports the process's CPU seconds, virtual and resident memory in bytes, thread count, open file descriptors and descriptor limit as the kernel states them at that moment, plus a constant start time; a source that is missing or malformed only leaves out its own metrics. The collector never panics and never ends.",
  ["fault_sequences", "histories", "inputs"], "all combinations of present/missing/malformed kernel sources over boundary contents and collection histories, and all short histories of opening/closing descriptors and starting/ending threads against the real kernel",
  "A doc-test calls the collector once and ignores the result.",
  ["src/metrics/process.rs"], [("independent reads of the proc sources", "src/metrics/process.rs collect")], ["Collect::collect"])
p("M01", "Memory in use depends on what is alive, not on what has happened",
  "Once a gathering has taken place, and a summary has been updated or read after its window has passed, the memory held is determined by the metrics, labels, samples and collectors that are alive (or the most that were at one time), and does not grow with how often metrics were created (under whatever names, labels and settings), refused or dropped, labels changed, samples expired, collectors ended, text printed, or user code panicked. When all handles, registries and gatherers are dropped nothing remains, whatever the interleaving of the threads that used them. Collecting process metrics leaves no file descriptor open.",
  ["histories", "schedules"], "all short histories over 37 operations, each repeated up to 256 times and each followed by dropping everything, and all interleavings (preemption-bounded) of short concurrent programs",
  "No test measures memory, repeats a history, or drops metrics under concurrency.",
  ["src/label.rs", "src/registry.rs", "src/metrics/summary.rs", "src/metrics/process.rs"], [("live bytes and blocks after repetition", "src/registry.rs gather"), ("live bytes after everything was dropped", "src/label.rs LabelsMut")], ["Gatherer::gather", "LabelsMut::insert", "Summary::observe"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), [ (x["id"], len(x["title"])) for x in P if len(x["title"])>80])
