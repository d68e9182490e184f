MC = "stateless model checking of the real code: all schedules up to a preemption bound"
EN = "exhaustive enumeration of operation sequences and configurations on the real code against a reference model"
NT = "Every execution runs the real SDK built from the working tree; bounded by the listed programs, preemption bound and input tables."

prop("C01", "Every synchronous measurement is reported exactly once to every reader",
  "For each reader and each output series, the measurements accepted by a synchronous counter, up-down counter or histogram are neither lost nor counted twice: under delta temporality the sum of all points the reader ever collected equals the sum of all measurements made, under cumulative temporality the last point does. This holds for any number of goroutines recording and any number of readers collecting at the same time, including while idle series are being dropped from memory and re-created, and for the key-value fast path as well as the option path.",
  ["schedules", "programs", "configurations"], "all interleavings of concurrent recordings (same or different attribute sets), collections by one or more readers, record reclamation and re-creation",
  "The stress tests sample a few schedules of one workload; loss needs a recording to race with reclamation at one exact step.",
  [M+"internal/syncstate/sync.go", M+"internal/syncstate/bykeyvalue.go", M+"internal/syncstate/refcount_mapped.go", M+"internal/viewstate/accumulators.go", M+"internal/viewstate/collectors.go", M+"aggregator/sum/sum.go"],
  [("reference count with unmap bit", M+"internal/syncstate/refcount_mapped.go"), ("collect/scavenge of records", M+"internal/syncstate/sync.go"), ("move/merge of accumulators", M+"internal/viewstate/accumulators.go"), ("output entry reference count", M+"internal/viewstate/collectors.go")],
  ["core"], MC, NT)

prop("C02", "A collection reports what completed before it and nothing from after it",
  "Every measurement whose recording call returned before a reader's collection began is included in what that reader has received once that collection returns, and no collection includes a measurement whose call began after the collection returned. Under cumulative temporality a later collection never reports less than an earlier one (a measurement once included stays included).",
  ["schedules", "programs", "configurations"], "all interleavings of recordings and collections by several readers",
  "Tests collect after all recorders stopped, so visibility during concurrent collection is never judged.",
  [M+"internal/syncstate/sync.go", M+"producer.go", M+"internal/viewstate/collectors.go", M+"internal/viewstate/accumulators.go"],
  [("updated-since-collected test", M+"internal/syncstate/sync.go"), ("snapshot then collect", M+"producer.go")],
  ["core"], MC, NT)

prop("C03", "Histogram and min/max/sum/count points are internally consistent",
  "Each histogram point's count, sum, minimum, maximum, zero count and bucket counts all describe one and the same set of measurements, with every measurement in the bucket its value belongs to at the point's scale and the number of buckets within the configured maximum; each min/max/sum/count point likewise. This holds for every value mix, for every merge order and for points collected while measurements are being recorded.",
  ["schedules", "inputs", "configurations"], "all interleavings of recordings and collections; all short sequences over a table of extreme and ordinary values and maximum sizes",
  "Tests check fixed value lists with one thread; tearing between the fields of one point needs a collection in the middle of an update.",
  [M+"aggregator/histogram/histogram.go", M+"aggregator/minmaxsumcount/minmaxsumcount.go", M+"internal/viewstate/accumulators.go"],
  [("per-aggregator lock", M+"aggregator/histogram/histogram.go"), ("per-aggregator lock", M+"aggregator/minmaxsumcount/minmaxsumcount.go")],
  ["core"], MC, NT)

prop("C04", "A synchronous gauge reports the last value set",
  "A synchronous gauge series reports a value that was set and that was not followed by another set completing before the collection began: after all setters have stopped, the reported value is that of a last setter, also when several attribute sets are merged by a view and when series are re-created. Under delta temporality a gauge that was not set since the reader's previous collection is not reported; under cumulative temporality it keeps reporting its last value.",
  ["schedules", "programs", "configurations"], "all interleavings of concurrent sets and collections by several readers",
  "Tests set gauges from one goroutine.",
  [M+"aggregator/gauge/gauge.go", M+"internal/viewstate/accumulators.go", M+"internal/viewstate/collectors.go"],
  [("sequence number per update", M+"aggregator/gauge/gauge.go")],
  ["core"], MC, NT)

prop("C05", "Attribute sets identify series, however the caller passes them",
  "Two measurements land in the same series of a reader exactly when their attribute sets, after size truncation, the configured measurement processor, removal of empty keys, last-value-wins deduplication of keys and the view's key filter, are equal: order does not matter, values of different type are different, and hash collisions never merge series (unless collisions are configured to be ignored). The caller's slices are never modified nor retained, so changing them after the call affects nothing.",
  ["inputs", "configurations", "histories"], "all pairs and short sequences over a table of attribute lists (every value type, permutations, duplicates, empty keys, over-long strings, colliding fingerprints) on each recording path",
  "Tests check a handful of attribute lists.",
  [M+"internal/syncstate/bykeyvalue.go", M+"internal/syncstate/sync.go", M+"sdkinstrument/performance.go", M+"internal/viewstate/base_instrument.go", M+"internal/asyncstate/async.go"],
  [("fingerprint and equality", M+"internal/syncstate/bykeyvalue.go"), ("truncation", M+"sdkinstrument/performance.go"), ("keys filter", M+"internal/viewstate/base_instrument.go")],
  ["core"], EN, NT)

prop("C06", "Cardinality limits bound series, and overflow loses no data",
  "A reader never receives more series of one metric in one collection than the aggregator cardinality limit, nor (for a synchronous instrument) does the SDK hold more than the instrument cardinality limit, whatever the order or concurrency in which attribute sets appear. Measurements beyond a limit are accumulated under the single attribute otel.metric.overflow=true, series that exist already are unaffected, and the total over all series including the overflow one equals the total of all measurements (for asynchronous sums under delta temporality, what overflows counts in full in each interval).",
  ["schedules", "histories", "configurations"], "all sequences of new, repeated and idle attribute sets and collections for small limits; all interleavings of concurrent first recordings",
  "Tests use one limit and one insertion order from one goroutine.",
  [M+"internal/viewstate/base_instrument.go", M+"internal/syncstate/bykeyvalue.go", M+"internal/pipeline/overflow.go", M+"sdkinstrument/performance.go"],
  [("overflow entry", M+"internal/viewstate/base_instrument.go"), ("overflow record", M+"internal/syncstate/bykeyvalue.go")],
  ["core"], MC, NT)

prop("C07", "Idle series leave memory; active and cumulative ones stay",
  "A synchronous series that receives no measurement for the configured number of inactive collection periods is dropped from the instrument's memory, and no earlier, and from a delta reader's output; recording on it again starts it afresh with nothing lost or repeated. A cumulative reader keeps reporting a series for ever once it was recorded, with its full total.",
  ["histories", "configurations", "schedules"], "all sequences of recordings and collections up to a depth for each inactivity setting and reader mix",
  "Tests use one setting and one history.",
  [M+"internal/syncstate/sync.go", M+"internal/viewstate/collectors.go"],
  [("inactive count", M+"internal/syncstate/sync.go"), ("output entry removal", M+"internal/viewstate/collectors.go")],
  ["core"], EN, NT)

prop("C08", "Asynchronous instruments report exactly what callbacks observed",
  "In each collection each asynchronous series reports the last value its callbacks observed for that attribute set in that collection: as is for gauges and cumulative sums, as the difference to the value that reader last collected of the series for delta sums (no point when unchanged), and sums over the attribute sets that a view merges. A series not observed in a collection is not reported in it, every reader's collection runs each callback exactly once, a callback may observe from several goroutines at once and what it observed counts also when it returns an error, and readers do not affect each other's differences.",
  ["histories", "configurations", "schedules"], "all histories of observed/absent/changed values over a few rounds for each instrument kind, temporality, filter and reader mix; concurrent collections",
  "Tests run two or three rounds with one value pattern.",
  [M+"internal/asyncstate/async.go", M+"internal/viewstate/accumulators.go", M+"internal/viewstate/collectors.go", M+"producer.go"],
  [("per-collection state", M+"internal/asyncstate/async.go"), ("prior map and subtraction", M+"internal/viewstate/collectors.go")],
  ["core"], EN, NT)

prop("C09", "Callback registration and unregistration take effect exactly",
  "A registered callback runs exactly once in every collection of each reader that begins after registration returned and returns before unregistration began, and in none that begins after unregistration returned; registering or unregistering other callbacks at any time does not change that. Unregistering twice is an error that changes nothing, registration is refused when any of the instruments belongs to another meter or implementation, and observations by a callback of instruments it did not declare, or after it returned, have no effect on the data.",
  ["schedules", "histories"], "all interleavings of registration, unregistration and collection; all short sequences of them",
  "Tests unregister while nothing else runs.",
  [M+"meter.go", M+"producer.go", M+"internal/asyncstate/callback.go", M+"internal/asyncstate/async.go"],
  [("callback list", M+"meter.go"), ("callback invalidation", M+"internal/asyncstate/callback.go")],
  ["core", "race"], MC, NT)

prop("C10", "Views decide name, aggregation, keys and conflicts as configured",
  "For every instrument, each reader outputs one metric per matching non-drop view clause, and the reader's default when no clause matches, with the clause's name, description, keys, aggregation and aggregator configuration (each the reader's default where the clause leaves it unset), falling back to the instrument kind's standard aggregation with a reported error when the pairing makes no sense; an instrument dropped by every reader outputs nothing and stays usable. Instruments whose outputs coincide share one metric, outputs of equal name that differ in aggregation, temporality, unit, number kind, synchronousness, configuration or keys are all output and reported as a conflict to the caller who created them, for every order of creation.",
  ["configurations", "inputs", "histories"], "all pairs of view clauses and all pairs of instruments from tables, in both creation orders",
  "Tests cover selected combinations out of a product space of kinds, numbers, aggregations and clauses.",
  [M+"internal/viewstate/viewstate.go", M+"internal/viewstate/errors.go", M+"view/clause.go", M+"view/views.go", M+"meter.go"],
  [("Compile", M+"internal/viewstate/viewstate.go"), ("clause matching", M+"view/clause.go"), ("validation", M+"view/views.go")],
  ["core"], EN, NT)

prop("C11", "Hints in descriptions apply exactly as written",
  "A description holding a valid hint changes the aggregation, temporality, histogram size and cardinality limit exactly as it says, exports the hint's own description instead of the hint, and yields to a matching view clause for what the clause sets; an invalid hint or field is reported as an error and leaves the default in effect, except that a histogram size out of range is reported and clamped to the nearest valid size, and a hint for a histogram on an asynchronous instrument or for a sum on a gauge is refused with an error and the instrument's standard aggregation. The kind of sum a hint asks for follows the instrument, and creating the same hinted instrument again returns the same instrument and adds no metric and no conflict.",
  ["configurations", "inputs"], "all combinations of hint fields (valid, invalid, absent) with instrument kinds, number kinds, reader temporalities and view clauses",
  "Tests check a few hint strings on single instruments.",
  [M+"internal/viewstate/viewstate.go", M+"view/hint.go", M+"aggregator/aggregation/aggregation.go", M+"aggregator/aggregation/temporality.go"],
  [("tryToApplyHint", M+"internal/viewstate/viewstate.go")],
  ["core"], EN, NT)

prop("C12", "Temporality and timestamps: delta intervals abut, cumulative share a start",
  "Every point has the temporality its reader selected for the instrument kind (a hint overriding; asynchronous gauges are always cumulative), every point ends no earlier than it starts, cumulative points all start when the provider was created and end no earlier than in the reader's previous collection. A reader's delta points start exactly where that reader's previous collection ended (first: at provider creation), so its intervals neither overlap nor leave gaps, also when collections run concurrently with each other and with other readers'.",
  ["schedules", "histories", "configurations"], "all interleavings of collections by several readers; all instrument kinds, temporality selectors and histories of collections",
  "Tests check two consecutive collections with one reader.",
  [M+"producer.go", M+"internal/viewstate/collectors.go", M+"internal/viewstate/viewstate.go", M+"view/standard.go", M+"data/sequence.go"],
  [("lastCollect under lock", M+"producer.go")],
  ["core"], MC, NT)

prop("C13", "The periodic reader exports every interval, flushes, and shuts down cleanly",
  "While running, the periodic reader collects and exports once per interval with the configured timeout on the context, reports export errors and goes on, and never runs two exports at once. ForceFlush exports everything recorded before it and returns that export's error; Shutdown stops the loop, cancels an export in progress, exports the final data once and returns its error, and after Shutdown has returned nothing is exported any more, by a tick or a ForceFlush; ForceFlush and Shutdown hand the exporter their caller's own context (its values and its end, no added timeout) and do so even when it has already ended; nothing is reported as an error that no periodic export returned; none of them can deadlock.",
  ["schedules", "fault_sequences"], "all interleavings of ticks, exports that succeed, fail, or wait for cancellation, ForceFlush and Shutdown calls",
  "Tests depend on real time and cover single calls; the shutdown test is flaky.",
  [M+"periodic.go", M+"provider.go"],
  [("collect lock", M+"periodic.go"), ("stop and wait", M+"periodic.go")],
  ["core"], MC, NT)

prop("C14", "Provider lifecycle and instrument identity hold for every history",
  "The provider returns the same meter for the same name, version and schema URL and different meters otherwise, and asking again for an instrument with the same name, kind, number kind, unit and description returns the same instrument, also when goroutines ask concurrently. Shutdown calls every reader once and later calls change nothing and return an error; meters obtained after Shutdown do nothing; ForceFlush and Shutdown reach every reader even when one fails, and return all errors. A reader given to a provider a second time, or to a second provider, goes on serving the first only, and each further registration is reported as one error.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of concurrent meter and instrument creation, recording, collection and shutdown; all combinations of failing readers",
  "Tests call these one at a time.",
  [M+"provider.go", M+"meter.go", M+"syncinst.go", M+"asyncinst.go"],
  [("meters map under lock", M+"provider.go"), ("byDesc map under lock", M+"meter.go")],
  ["core", "race"], MC, NT)

prop("C15", "OTLP metric conversion preserves every point",
  "The OTLP request built for an export contains exactly the resource, scopes, metrics and points handed to the exporter, with equal names, descriptions, units, attributes of every type, temporality, monotonicity, timestamps and values (integers as integers, floats as floats; histogram counts, sums, extremes and buckets unchanged), in the same grouping, and nothing of an earlier export or of one made at the same time with another resource. The Prometheus exporter's explicit histogram buckets hold the same counts at boundaries that bound the same values.",
  ["inputs", "configurations"], "all combinations of aggregation kind, number kind, temporality, attribute types and a table of extreme values; sequences of exports",
  "Tests convert a few fixed data sets.",
  [M+"internal/export/export.go", M+"exporters/otlp/otelcol/client.go", M+"exporters/prom/client.go", "lightstep/sdk/internal/common.go", M+"number/traits.go"],
  [("d2pd", M+"internal/export/export.go"), ("CopyAttributes", "lightstep/sdk/internal/common.go")],
  ["core", "conv"], EN, NT)

prop("C16", "OTLP trace conversion preserves every span",
  "The OTLP request built for a batch of spans contains each span exactly once, under its own resource and its own instrumentation scope (name, version and schema URL), with equal identifiers, parent, trace state, name, kind, times, status, attributes, events, links and dropped counts. The batch may be of any composition and the spans handed in are not modified.",
  ["inputs", "histories"], "all batches up to a size over a table of scopes, resources and span contents; sequences of exports",
  "The test converts one batch with one scope order.",
  ["lightstep/sdk/trace/exporters/otlp/otelcol/client.go", "lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go", "lightstep/sdk/internal/common.go"],
  [("d2pd", "lightstep/sdk/trace/exporters/otlp/otelcol/client.go")],
  ["conv"], EN, NT)

prop("C17", "Export failures are reported and never lose the caller's control",
  "An error of the underlying metric or trace exporter comes back to the caller of export, flush or shutdown, partial batches included, and success means the whole request was handed over once. Without a deadline of the caller's an export ends with an error after the configured timeout (15 seconds by default). Counters of exported and failed points kept about exports add up to the number of points handed in, and one span about each export says its number of items and whether it succeeded; both are recorded with the provider given to the exporter or else, where self-telemetry is on, the global one. The exporter's components report their own metrics with the otelcol_ prefix replaced by otelsdk_ and otherwise as made. After its shutdown, also a failing one, the exporter holds no connection to the collector. The Prometheus exporter reports a port in use when it is made, shows what was exported to every scrape until its shutdown and nothing after it.",
  ["fault_sequences", "histories"], "all sequences of successful and failing exports up to a depth for each exporter method",
  "Tests cover single calls.",
  [M+"internal/export/export.go", M+"exporters/otlp/otelcol/client.go", "lightstep/sdk/trace/exporters/otlp/otelcol/client.go"],
  [("ExportMetrics", M+"internal/export/export.go")],
  ["conv"], EN, NT)

prop("C18", "Launcher configuration: options override environment override defaults",
  "For every launcher setting the value in effect is the option's if one is given, else the environment variable's if set, else the documented default (headers merge key by key, options winning), and it is what arrives at the exporters of the signal concerned; values that cannot be used are reported as fatal. A missing service name, or a missing access token with a default endpoint, makes the launcher refuse; otherwise it starts. Resource attributes given in code win over the configured service name and version, which win over OTEL_RESOURCE_ATTRIBUTES. A signal that is disabled or has an empty endpoint is never set up; one that cannot be set up is reported as fatal and, where the program goes on, leaves the other working. After Shutdown every measurement made and every span ended before (whatever its parent's sampling) has been exported once. Exactly the configured propagators write and read, in the order given. Errors reported through the API go to the configured error handler, by default to the log, and with the default logger a fatal report ends the program with a failure.",
  ["configurations", "inputs"], "all combinations of option, environment and default per setting and pairwise across settings",
  "Tests check single settings.",
  ["launcher/config.go", "pipelines/common.go", "pipelines/metrics.go", "pipelines/trace.go"],
  [("newConfig", "launcher/config.go")],
  ["conv"], EN, NT)

prop("C19", "Temporality preference selects the documented temporality per instrument",
  "For each metrics temporality preference (cumulative, delta, stateless, lowmemory; any letter case) the pipeline gives each instrument kind exactly the documented temporality, an unknown preference is an error, and each built-in metrics selection enables exactly the documented set of libraries. The reporting interval, the headers (empty values included), the resource and the TLS settings of either pipeline reach the reader and exporter as configured, as do the compression and headers given to an exporter, and settings that cannot be used are an error when it is made: an insecure connection only where asked for, and nothing is sent to a collector whose certificate the settings do not accept.",
  ["configurations"], "all preferences, letter cases and instrument kinds; all built-in selections",
  "Tests check two preferences.",
  ["pipelines/metrics.go", "pipelines/common.go", M+"view/standard.go"],
  [("tempoOptions", "pipelines/metrics.go")],
  ["conv"], EN, NT)

prop("C20", "Readers are independent of each other",
  "What one reader collects over time depends only on the measurements, its own configuration and its own collections: adding other readers with any temporality, views and collection pattern does not change it, as long as no cardinality limit is reached. In particular a collection by one reader never takes data away from another.",
  ["histories", "configurations"], "all sequences of recordings and collections up to a depth over pairs of reader configurations, compared with the same history and the reader alone",
  "Tests use two readers in lockstep.",
  [M+"producer.go", M+"internal/syncstate/sync.go", M+"internal/viewstate/viewstate.go", M+"internal/asyncstate/async.go"],
  [("multi accumulator", M+"internal/viewstate/accumulators.go")],
  ["core"], EN, NT)

prop("C21", "Reusing the previous output never changes what is collected",
  "Collecting into the data of the same reader's previous collection gives the same content as collecting into fresh memory, for every history, and never changes data collected separately. No value, attribute, bucket or timestamp of an earlier collection shows through when series disappear, change order or change kind.",
  ["histories", "configurations"], "all sequences of recordings and collections up to a depth, each collection done both ways on twin providers",
  "Tests reuse once with a growing set.",
  [M+"data/data.go", M+"internal/viewstate/base_instrument.go", M+"internal/viewstate/collectors.go", M+"aggregator/histogram/histogram.go"],
  [("ReallocateFrom and Reset", M+"data/data.go"), ("appendOrReusePoint", M+"internal/viewstate/base_instrument.go")],
  ["core"], EN, NT)

prop("C22", "Invalid measurements are rejected and reported, valid ones never are",
  "NaN and infinite values on any instrument, and negative values on synchronous counters and histograms, are discarded with an error report and leave all series as if the call had not been made; every other value is accepted, zero and extreme values included. This holds on every recording path, synchronous and asynchronous, integer and float.",
  ["inputs", "configurations"], "all instruments x recording paths x a table of special values, in sequences with valid values",
  "Tests check some values on some instruments.",
  [M+"aggregator/aggregator.go", M+"internal/syncstate/sync.go", M+"internal/asyncstate/async.go", M+"number/traits.go"],
  [("RangeTest", M+"aggregator/aggregator.go")],
  ["core"], EN, NT)

prop("C23", "Repeated error reports are rate limited, never silenced",
  "An error condition that recurs (an infinite, a NaN or a negative value: period 30 seconds; an empty attribute key: one minute) is reported at its first occurrence, then at most once per period, and again at the first occurrence after the period has passed, whatever the number of goroutines reporting at once. Different conditions do not suppress each other.",
  ["schedules", "histories"], "all interleavings of concurrent reports around period boundaries; all sequences of conditions and clock advances up to a depth",
  "The test uses one goroutine and real time.",
  [M+"internal/doevery/doevery.go", M+"aggregator/aggregator.go", M+"internal/viewstate/base_instrument.go"],
  [("TimePeriod", M+"internal/doevery/doevery.go")],
  ["core"], MC, NT)

prop("C24", "The metrics API is safe for concurrent use: no race, deadlock or panic",
  "Any calls on the provider, meters, instruments, callback registrations, readers and error values may run concurrently, collections included, without data races, deadlocks, lost progress or panics, for every view and performance configuration. In particular creation of conflicting instruments, unregistration, shutdown and concurrent collections by one or several readers may overlap with recording, and callbacks, and error handlers told of a measurement, may use the API themselves.",
  ["schedules", "configurations", "programs"], "all interleavings up to a preemption bound of pairs and triples of API calls, under the race detector",
  "The race detector sees only the few schedules the tests happen to run.",
  [M+"meter.go", M+"provider.go", M+"producer.go", M+"periodic.go", M+"internal/syncstate/sync.go", M+"internal/viewstate/base_instrument.go", M+"internal/asyncstate/async.go"],
  [("locks", M+"meter.go"), ("locks", M+"internal/viewstate/base_instrument.go")],
  ["race"], "stateless model checking with the race detector as oracle on every schedule", NT)

I = "lightstep/instrumentation/"
prop("C25", "Built-in runtime, host and process metrics report their sources truthfully",
  "The runtime instrumentation reports every supported Go runtime metric under its documented name (prefix process.runtime.go, .usage, .time and .objects rules), with UCUM unit, instrument kind and class, class2, class3 attributes, reports no subtotal (last class element \"total\") and no histogram, and passes unrecognised names to the error handler without affecting the others; the values in one collection all come from one reading of the runtime made for that collection, also when several readers collect at once. Host metrics report CPU time (user, system, idle, and other: all remaining states), memory used and available in bytes and as a fraction of the total, and network bytes per direction, as the operating system states them. Process metrics report user and system CPU time and an uptime that grows with the clock; nothing is reported for what cannot be read. Starting an instrumentation twice does not multiply values, and each uses the provider it is given, or else the global one.",
  ["inputs", "schedules", "histories"], "all windows of the Go 1.24 metric list and all subsets of a list of possible later names x value kinds; all sequences of changes of the runtime's, host's and process's state and of failing sources up to a depth, over a delta and a cumulative reader; all interleavings up to a preemption bound of concurrent collections",
  "The tests use the few values of the machine they run on, one reader, and mocked names for some patterns.",
  [I+"runtime/builtin.go", I+"runtime/descriptor.go", I+"runtime/defs.go", I+"host/host.go", I+"cputime/cputime.go", I+"cputime/cputime_unix.go"],
  [("findMatch", I+"runtime/descriptor.go"), ("callback over shared samples", I+"runtime/builtin.go"), ("host callback", I+"host/host.go"), ("getProcessTimes", I+"cputime/cputime_unix.go")],
  ["core"], MC, NT)
