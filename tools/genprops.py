#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here so that they stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over.split(), text=" ".join(qtext.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    P.append(d)

prop("P01", "UDP intake: every datagram's lines are published once, in order, whole",
 """Everything the UDP listener receives is published on its subject exactly once, in arrival order, when its batch is sent; nothing else is published there.
    Each datagram that does not end in a newline gets one, so lines of different datagrams are never joined.
    A read error or timeout, or a failed publish, never loses, repeats or alters data of other datagrams or batches.""",
 "inputs histories fault_sequences", "all datagram contents and lengths, any sequence of datagrams, read timeouts, read errors and publish failures, any batch settings",
 "The tests send a handful of fixed well-formed datagrams to a live server; datagram content, sequence and socket faults are never varied together.",
 "listener/listener.go batch/batch.go batchsplitter/batch_splitter.go", [("read one datagram into the batch, terminate it, maybe send", "listener/listener.go:listenUDP"), ("send and reset the batch", "listener/listener.go:sendBatch")],
 ["NATS publishes on the listener's subject"])
prop("P02", "HTTP intake: every write's lines are published once and never run together",
 """Every line of every HTTP write is published exactly once and in order within its request, whatever the order or overlap of requests and however their bodies are fragmented.
    Bytes of two different requests never end up in the same line, even when a body lacks a final newline or breaks off with a read error.
    Each request is answered with status 204.""",
 "inputs schedules histories fault_sequences", "all bodies, all splits of a body into reads, all orders and interleavings of concurrent requests with the age-based sender, read errors at any point",
 "Tests post a few well-formed bodies one after another; overlapping requests and unterminated bodies that meet in one batch are never tried.",
 "listener/listener.go batch/batch.go", [("append body to the shared batch under the lock", "listener/listener.go:readHTTPBodyNanos, readHTTPBodyWithPrecision"), ("age-based sender", "listener/listener.go:oldBatchSender")],
 ["NATS publishes on the listener's subject", "HTTP response status"])
prop("P03", "HTTP precision: timestamps are scaled to nanoseconds exactly or left alone",
 """When a write names a timestamp precision (u, ms, s, m or h), the timestamp of each line is published as exactly the equivalent number of nanoseconds, and the rest of the line is unchanged.
    A line without a timestamp, or whose timestamp would leave the representable nanosecond range, is published as it was received.""",
 "inputs", "all line contents, all 64-bit timestamps, all precisions",
 "Tests scale a few timestamps per precision; overflow boundaries and odd line endings are not covered.",
 "listener/listener.go influx/timestamps.go", [("scale timestamp", "listener/listener.go:applyTimestampPrecision"), ("overflow-checked multiplication", "influx/timestamps.go:SafeCalcTime")],
 ["NATS publishes on the listener's subject"])
prop("P04", "Listener batches go out by count, age or size and not before",
 """After each datagram or request the listener sends its batch when it holds at least batch_max_count writes, is at least batch_max_age old, or comes within 64 KiB of batch_max_size; otherwise it keeps collecting.
    Received data is never held back longer than batch_max_age plus one second (UDP) or batch_max_age (HTTP), even when nothing more arrives, and an empty batch is never published.""",
 "inputs histories configurations schedules", "all settings of count, age and size, all arrival times and sizes",
 "Tests use one or two settings with real time and sleeps; combinations of the triggers and exact boundaries are not explored.",
 "listener/listener.go batch/batch.go", [("send decision", "listener/listener.go:shouldSend"), ("age wake-up", "listener/listener.go:oldBatchSender, listenUDP read deadline")],
 ["NATS publishes and their times"])
prop("P05", "Splitting oversized data keeps every byte and respects the size limit",
 """When data is larger than the permitted size it is sent in consecutive pieces whose concatenation is exactly the data, none of which is empty or larger than the limit.
    A piece ends at the end of a line unless a single line is itself longer than the limit, and pieces are as long as these rules allow.""",
 "inputs", "all contents and all size limits",
 "Tests use three or four fixed buffers; boundary positions of newlines against the limit are not enumerated.",
 "batchsplitter/batch_splitter.go", [("backwards search for a newline", "batchsplitter/batch_splitter.go:Next")],
 ["chunks returned by the splitter"])
prop("P06", "Filter routing: each line goes to the first matching rule or the junkyard",
 """Every well-formed line with an acceptable timestamp that the filter receives is published exactly once: on the subject of the first rule in configuration order that matches it, or on the junkyard subject if none does.
    Lines matched by the same rule (or by none) keep their order within a received message, and nothing else is published.
    A failed publish is counted and does not disturb anything else.""",
 "inputs histories configurations fault_sequences", "all message contents, rule lists and publish failures",
 "Tests route a few fixed lines through one or two rules.",
 "filter/worker.go filter/rules.go", [("first match wins", "filter/rules.go:LookupParsed"), ("per-rule batches", "filter/worker.go:processLine, sendOff")],
 ["NATS publishes of the filter"])
prop("P07", "Rule semantics: a rule matches exactly the lines its type describes",
 """A basic rule matches a line if and only if the line's unescaped measurement name equals the configured name.
    A tags rule matches if and only if the line carries every configured tag with exactly that value, in any order and among any other tags.
    A regex rule matches if and only if its pattern matches the unescaped line (as published, with its tags sorted), and a negregex rule if and only if it does not.""",
 "inputs configurations", "all lines and all rule parameters",
 "Tests check a few names and tags; different names which only look alike to the implementation (hash collisions, escapes) are not covered.",
 "filter/rules.go influx/tags.go influx/unescape.go", [("measurement comparison", "filter/rules.go:CreateBasicRule"), ("tag subset", "influx/tags.go:SubsetOf")],
 ["rule lookup result", "subject of publishes"])
prop("P08", "Filter drops exactly the lines whose timestamp is outside the window",
 """A line whose trailing timestamp differs from the current time by max_time_delta or more is dropped and counted; a line whose timestamp is inside the window is kept.
    A line without a timestamp counts as current.""",
 "inputs configurations", "all 64-bit timestamps and line shapes, all window widths for which the ends of the window are representable",
 "Tests use a few timestamps far from the boundaries and a fixed line shape.",
 "filter/worker.go influx/timestamps.go", [("window check", "filter/worker.go:processBatch"), ("timestamp extraction", "influx/timestamps.go:ExtractNanos, filter/worker.go:extractTimestamp")],
 ["NATS publishes of the filter", "invalid_time counter"])
prop("P09", "Filter output is the input line with its tags sorted and nothing else changed",
 """The filter publishes each line with its tags in ascending key order.
    Apart from that order, the measurement, every tag key and value, the fields, the timestamp and the line ending are exactly those received.""",
 "inputs", "all lines, including escaped characters, missing fields (unless the line ends in a backslash) and missing final newline",
 "Tests sort a few fixed lines; lines where escapes are not canonical or fields are missing are not covered.",
 "filter/rules.go influx/tags.go influx/escape.go", [("sort and rebuild", "filter/rules.go:SortTags")],
 ["payload of filter publishes"])
prop("P10", "A malformed line cannot crash the filter or affect any other line",
 """Whatever bytes a message contains, the filter processes it without crashing.
    A line that cannot be parsed is discarded alone: every other line of the message is handled exactly as if the malformed line were absent.""",
 "inputs", "all byte strings as messages",
 "Tests feed a few specific malformed lines.",
 "filter/worker.go influx/tags.go influx/token.go", [("line splitting", "filter/worker.go:processBatch"), ("parser", "influx/tags.go:ParseTags")],
 ["filter publishes", "process liveness"])
prop("P11", "Filter counters account for every line exactly once",
 """Each received non-empty line adds one to processed; a line outside the time window adds one to invalid_time, a well-formed line without a matching rule one to rejected, and a line that matches a rule one to passed and one to that rule's triggered counter.
    failed_nats_publish counts the failed publishes, and counters never go down.""",
 "inputs histories fault_sequences", "all messages, rule lists and publish failures",
 "Tests compare counters for one fixed message.",
 "filter/worker.go filter/filter.go stats/stats.go", [("counter updates", "filter/worker.go:processBatch, processLine, publish")],
 ["published filter statistics"])
prop("P12", "Line protocol parsing and escaping agree with the format's rules",
 """Parsing splits a line at the first unescaped delimiters into exactly its measurement, its tags in order and the rest, and decodes each backslash escape of a delimiter; a line with an empty tag value, or a tag without '=', is rejected.
    Escaping a measurement, tag key, tag value or string and parsing it again yields the original bytes.""",
 "inputs", "all byte strings (for the round trip: those not ending in or containing a backslash)",
 "Tests use tables of chosen strings.",
 "influx/token.go influx/tags.go influx/escape.go influx/unescape.go", [("tokeniser", "influx/token.go:Token, QuotedString"), ("escape and unescape", "influx/escape.go:Escape, influx/unescape.go:Unescape")],
 ["results of parsing and escaping"])
prop("P13", "Downsampler: each line lands in the one period that contains its timestamp",
 """Each line contributes to exactly one sampling period, the one that contains its timestamp (the current time if it has none); only lines outside the previous, current and next period (as of the last emission) are discarded, and those are reported.
    Each period is emitted at most once, in time order and one period after its end, stamped with its end time, and never with lines of another period.""",
 "inputs histories configurations", "all timestamps, periods, clock readings and sequences of updates and emissions",
 "Tests walk through a few updates with one period length.",
 "downsampler/assigner.go downsampler/downsampler.go", [("bucket selection", "downsampler/assigner.go:findBucket"), ("rotation", "downsampler/assigner.go:Bytes")],
 ["assigner output", "NATS publishes of the downsampler"])
prop("P14", "Downsampler: a field's output is the exact mean or the last value",
 """For each series and field an integer field is emitted as the mean of all its values in the period with the fraction dropped, whatever the number, order and size of the values.
    String and other non-numeric fields are emitted with the last value received.""",
 "inputs histories", "all sequences of field values",
 "Tests average two or three small integers.",
 "downsampler/avgbucket.go", [("aggregation", "downsampler/avgbucket.go:intFieldValue, stringFieldValue, rawFieldValue")],
 ["emitted bucket content"])
prop("P15", "Downsampler: series, fields and field types are never mixed up",
 """A line only affects the output of its own series (same measurement and tag text) and its own fields; every series and field of the period is emitted once.
    A field keeps the type (string, integer, float or other) of its first value in the period: values of another type are reported and change nothing, and string values are emitted quoted with their content unchanged.""",
 "inputs histories", "all sequences of lines",
 "Tests mix types in a few chosen orders.",
 "downsampler/avgbucket.go influx/token.go", [("series map", "downsampler/avgbucket.go:avgBucket"), ("typed field values", "downsampler/avgbucket.go:fieldPairs")],
 ["emitted bucket content", "reported errors"])
prop("P16", "A malformed line cannot crash the downsampler or disturb other series",
 """Whatever bytes it receives, the downsampler does not crash; a line it cannot use (a bad timestamp, or fields that are not names and values with an equals sign in between) is reported and counted.
    Such a line never changes the output for any other series, and later lines are handled as usual.""",
 "inputs histories", "all byte strings as messages",
 "Tests feed a few specific malformed lines.",
 "downsampler/avgbucket.go downsampler/assigner.go influx/token.go", [("field parser", "downsampler/avgbucket.go:update")],
 ["emitted bucket content", "reported errors"])
prop("P17", "Writer: every accepted message reaches InfluxDB exactly once and in order",
 """The data of every message the writer receives and its rules accept is sent to InfluxDB exactly once, in arrival order per worker, and no write request exceeds batch_max_size; data is split between requests only at the end of a line unless a line alone exceeds it.
    When a write fails and retries are off the data of that request is dropped, and no other data is lost, repeated or altered.""",
 "inputs histories fault_sequences configurations", "all message contents and sequences, batch settings and write outcomes",
 "Tests send a few fixed messages to a server that always accepts.",
 "writer/writer.go batchsplitter/batch_splitter.go batch/batch.go", [("collect and send", "writer/writer.go:worker")],
 ["HTTP requests to InfluxDB"])
prop("P18", "Writer batches go out by count, size or age and not before",
 """The writer sends its batch when it holds at least batch_max_count writes, at least batch_max_size bytes, or is at least batch_max_age old, and keeps collecting otherwise.
    Received data waits at most batch_max_age plus about one second even when nothing more arrives, and no empty write is ever made.""",
 "histories configurations", "all settings and arrival times",
 "Tests check each trigger alone with one setting and real time.",
 "writer/writer.go batch/batch.go", [("send decision", "writer/writer.go:shouldSend"), ("periodic wake-up", "writer/writer.go:worker")],
 ["times and bodies of HTTP requests to InfluxDB"])
prop("P19", "Writer rules: a line is written if and only if some rule matches it",
 """When the writer has rules, exactly the lines matched by at least one rule are written, each once, unchanged and in order; with no rules the received data is written unchanged.""",
 "inputs configurations", "all message contents and rule lists",
 "Tests filter one fixed batch with basic rules.",
 "writer/writer.go filter/rules.go", [("line filter", "writer/writer.go:getBatchWriteFunc, filterLine")],
 ["HTTP requests to InfluxDB"])
prop("P20", "Retries: a failed write is retried until it succeeds, expires or is displaced",
 """A write that failed temporarily is tried again at every retry interval in turn until it succeeds, fails permanently, is older than writer_retry_timeout, or is the oldest when more than writer_retry_batches are waiting; it is dropped for no other reason.
    Once a batch has succeeded, failed permanently or expired it is never sent again, and a retry sends exactly the original bytes.""",
 "histories fault_sequences configurations schedules", "all arrival sequences and outcomes of retried writes, all queue sizes and intervals",
 "Tests run a few scenarios in real time with one queue size each.",
 "writer/retryworker.go", [("retry queue", "writer/retryworker.go:retryQueue"), ("retry loop", "writer/retryworker.go:loop")],
 ["writes made by the retry worker"])
prop("P21", "Write outcomes: 2xx is success, 4xx is permanent, everything else is retried",
 """A write succeeds if and only if InfluxDB answers with a 2xx status; a 4xx answer is a permanent failure and is not retried; any other answer or a failure to send is temporary.
    Every write is one POST of exactly the batch to the configured protocol, address, port and database, with the configured credentials if any, and its answer is closed. A request which cannot be made does not bring the writer down.""",
 "inputs fault_sequences configurations", "all status codes, send errors and configurations",
 "Tests use three or four status codes.",
 "writer/influxclient.go", [("classification", "writer/influxclient.go:Write, isHTTPPOSTSuccess, isHTTPClientError")],
 ["HTTP requests to InfluxDB", "error kind"])
prop("P22", "Writer counters match what was received, requested and failed",
 """received counts the messages taken from NATS, write_requests the write requests made including retries, and failed_writes the requests that failed including retries.""",
 "histories fault_sequences configurations", "all message sequences and write outcomes",
 "Tests check counters after one accepted and one failed write.",
 "writer/writer.go writer/retryworker.go", [("counter updates", "writer/writer.go:worker")],
 ["published writer statistics"])
prop("P23", "Monitor serves the latest value of every metric and survives bad messages",
 """The metrics page lists, sorted, exactly one entry per metric name and label set ever received, with its most recently received value and timestamp; the order of labels does not matter.
    A message that cannot be parsed changes nothing, and no message can crash the monitor or corrupt metrics already held.""",
 "inputs histories schedules", "all messages, sequences and interleavings with page requests",
 "Tests send one or two well-formed messages and one fixed invalid one.",
 "monitor/monitor.go prometheus/parse.go prometheus/metricset.go", [("merge", "prometheus/metricset.go:UpdateFromSet"), ("parser", "prometheus/parse.go:ParseMetric")],
 ["body of the metrics page"])
prop("P24", "Metric text: formatting and parsing are inverse",
 """Formatting a metric and parsing the text gives back the same name, labels, value and timestamp, for names and labels without quotes or delimiters.
    Parsing accepts only complete, well-formed text, and neither operation changes the text, names or values it is given.""",
 "inputs", "all names, label sets, 64-bit values and timestamps; all byte strings for the parser",
 "Tests use tables of chosen metrics.",
 "prometheus/parse.go prometheus/metric.go prometheus/labels.go", [("formatter", "prometheus/metric.go:ToBytes"), ("parser", "prometheus/parse.go:ParseMetric")],
 ["formatted bytes", "parsed metric"])
prop("P25", "Counters are exact under concurrent use",
 """However many goroutines update a counter at once, each increment is counted exactly once, a maximum update leaves the largest value ever given, and a counter never goes down.
    A snapshot holds every counter once with a value it really had.""",
 "schedules inputs", "all interleavings and values",
 "Tests are sequential.",
 "stats/stats.go stats/anonstats.go", [("atomic update", "stats/anonstats.go:Inc, Max")],
 ["counter values and snapshots"])
prop("P26", "Published statistics are complete, correctly labelled and parse back",
 """At start and then once every stats_interval, each component publishes all its counters on the monitor subject as text that the monitor accepts.
    Every entry carries the counter's value, the component, the configured name, the host and the current time in milliseconds, and per-rule or per-subject entries carry their own rule or subject.""",
 "histories configurations schedules", "all counter values, names and numbers of rules or subjects",
 "Tests compare one published snapshot per component.",
 "stats/prometheus.go filter/filter.go listener/listener.go writer/writer.go downsampler/downsampler.go", [("snapshot to text", "stats/prometheus.go:SnapshotToPrometheus, CounterToPrometheus"), ("publishing loop", "filter/filter.go:startStatistician and its siblings")],
 ["NATS publishes on the monitor subject"])
prop("P27", "Probes always report the component's current state",
 """Once serving, the liveness probe answers 200 while the component is alive and 503 after it stops, and the readiness probe answers 200 exactly while the component is ready; the two are independent.
    With no probe port configured nothing listens and all probe operations are harmless.""",
 "histories schedules", "all sequences of state changes and requests",
 "Tests walk one sequence of changes.",
 "probes/probes.go", [("probe state", "probes/probes.go:newHandler, SetAlive, SetReady")],
 ["HTTP answers of the probe endpoints"])
prop("P28", "Configuration: a valid file gives complete settings, an unsafe one is refused",
 """A configuration is accepted only if it names a known mode and every setting its component depends on is present and within range; an accepted configuration can always be started without crashing on its rules.
    Settings absent from the files take their documented defaults, and environment credentials apply to the writer only.""",
 "configurations inputs", "all combinations of modes and setting values",
 "Tests try one bad value at a time.",
 "config/config.go filter/rules.go", [("validation", "config/config.go:Validate"), ("defaults", "config/config.go:newDefaultConfig, NewConfigFromFile")],
 ["result of loading a configuration"])
prop("P29", "Start-up failures are reported as errors and clean up after themselves",
 """If any step of starting a component fails (connecting, subscribing, setting limits, flushing or opening its own socket), starting returns an error; it does not crash or hang.
    Nothing started before the failure is left running: goroutines, connections and the probe listener are all shut down.""",
 "fault_sequences configurations", "a failure at every start-up step of every component",
 "Tests only start components against a healthy server.",
 "listener/listener.go filter/filter.go writer/writer.go downsampler/downsampler.go monitor/monitor.go", [("clean-up on error", "the deferred Stop in each Start function")],
 ["returned error", "open connections, goroutines and probes after the failure"])
prop("P30", "Stopping a component always terminates and leaves nothing running",
 """Stopping a running component returns under every schedule, whatever it is doing at that moment.
    Afterwards none of its goroutines runs, its connections and probe listener are closed, it publishes nothing more, and its probes were set to not ready and not alive.""",
 "schedules histories", "all interleavings of stopping with message arrival, batching, retrying and statistics",
 "Tests stop idle components.",
 "listener/listener.go filter/filter.go writer/writer.go downsampler/downsampler.go monitor/monitor.go", [("stop channel and wait group", "Stop in each component")],
 ["return of Stop", "goroutines and connections afterwards"])
prop("P31", "Integer text is accepted exactly when it denotes a 64-bit integer",
 """Parsing a decimal integer returns its exact value if the text is an optional minus sign and one or more digits denoting a signed 64-bit integer, and an error otherwise.""",
 "inputs", "all byte strings",
 "Tests use a table; digit strings far beyond 64 bits wrap around silently and are not in it.",
 "convert/convert.go", [("digit loop with overflow check", "convert/convert.go:ToInt")],
 ["returned value and error"])
prop("P32", "A batch holds exactly what was put into it, through any growth and reuse",
 """After any sequence of appends, reads and resets a batch holds exactly the bytes written since the last reset, in order, whatever its capacity and however it grew.
    Its write count is the number of appends and successful reads since then and its age runs from the first of them.""",
 "inputs histories fault_sequences", "all sequences of operations, reader behaviours and capacities",
 "Tests use a few sequences; growth at arbitrary fill levels and readers that fail part-way are not covered.",
 "batch/batch.go", [("growth", "batch/batch.go:grow"), ("reads", "batch/batch.go:ReadFrom, ReadOnceFrom")],
 ["batch content, size, write count and age"])
prop("P33", "Trailing timestamps are recognised and decoded exactly",
 """A line's timestamp is the integer after its last space, with an optional newline behind it; it is decoded exactly for every 64-bit value, negative ones included, and reported with its position.
    Text after the last space that is not an integer, or is too long to be one, is never taken for a timestamp.""",
 "inputs", "all lines",
 "Tests use a table of chosen lines.",
 "influx/timestamps.go", [("backwards search", "influx/timestamps.go:ExtractTimestamp"), ("fast search", "influx/timestamps.go:ExtractNanos")],
 ["extracted value and offset"])
prop("P34", "Components are free of data races",
 """While a component starts, handles data, publishes statistics, answers probes and stops, no two goroutines ever access the same memory without synchronisation, unless both only read.""",
 "schedules", "all interleavings of a component's goroutines",
 "The race detector only sees the schedules the tests happen to run.",
 "listener/listener.go filter/filter.go writer/writer.go downsampler/downsampler.go monitor/monitor.go probes/probes.go", [("mutex around the shared batch", "listener/listener.go:mu"), ("one parser and batch set per worker", "filter/worker.go:worker")],
 ["happens-before order of memory accesses"])
prop("P35", "Floating point fields are averaged correctly",
 """For each series and period a floating point field is emitted as the arithmetic mean of its values, up to floating point rounding, whatever decimal or exponent notation they were written in.
    Values of other types sent for the same field are reported as errors and change nothing.""",
 "inputs histories", "all sequences of floating point values",
 "Tests average two or three values; mixtures with other types, fields and series are not varied.",
 "downsampler/avgbucket.go", [("incremental mean", "downsampler/avgbucket.go:floatFieldValue")],
 ["emitted bucket content"])
prop("P36", "Configuration files are read according to the TOML format",
 """A setting written in TOML syntax reaches the component with exactly the value written, including sizes, durations and nested lists; malformed files are refused.""",
 "inputs", "all file contents",
 "Tests read a few files.",
 "config/config.go config/duration.go", [("third-party decoder", "config/config.go:readConfig")],
 ["loaded configuration"])
prop("P37", "End to end: a line sent is in its database exactly once, or dropped for cause",
 """With a listener, a filter and writers connected through NATS, every well-formed line sent to the listener reaches the database whose rule it matches first (or the catch-all's), exactly once and in the order sent, with its tags sorted, its timestamp in nanoseconds and nothing else changed, whether it came by UDP or HTTP and however each component batches, and also when the first write to a database fails.
    Malformed lines and lines outside the filter's time window reach no database and affect no other line; a downsampler attached to the filter's output makes the archive's writer receive each period's mean exactly once.""",
 "inputs histories fault_sequences", "all line contents, transports, precisions, batch settings and first-write failures, any sequence of messages",
 "The one end-to-end test sends one fixed batch of lines; it cannot vary line content together with transport, batching, workers and failures.",
 "cmd/influx-spout/main.go listener/listener.go filter/filter.go writer/writer.go downsampler/downsampler.go", [("subjects and batches between components", "listener/listener.go:sendBatch; filter/worker.go; writer/writer.go")],
 ["bodies of the requests made to InfluxDB, per database"])
prop("P38", "End to end: the monitor's page accounts for all traffic",
 """With every component publishing to a monitor, the monitor's page shows for each component under its own labels the number of messages it received, passed on, failed, rejected and lost to NATS, and these agree with each other and with what was really sent, processed and written, after every statistics interval.""",
 "inputs histories fault_sequences", "all sequences of messages, losses, failing reads, publishes and writes, and batch settings",
 "Tests compare a few counters of one fixed run.",
 "monitor/monitor.go stats/stats.go listener/listener.go filter/filter.go writer/writer.go", [("statistics publication", "each component's statistician"), ("latest value of every metric", "monitor/monitor.go:monitorMetrics, ListenAndServe")],
 ["the monitor's /metrics page"])
prop("P39", "The command starts exactly the component the configuration asks for",
 """For a readable configuration the command starts the component named by its mode, with the mode's default port unless one is given, profiling exactly if pprof_port is set, and the component works until stopped.
    A missing or broken file, an unknown mode or a failing start gives an error and leaves nothing running.""",
 "inputs fault_sequences", "all modes, ports, profiling settings, file faults and connection failures",
 "Tests start each component once in the good case.",
 "cmd/influx-spout/main.go config/config.go", [("mode switch", "cmd/influx-spout/main.go:runComponent")],
 ["error, sockets, subscriptions and servers afterwards"])
prop("P40", "The tap prints the lines of its subject as they are, filtered as asked",
 """influx-spout-tap prints every line published on its subject unchanged and in order, or exactly those that match the regular expression given, and nothing from other subjects.""",
 "inputs histories", "all message contents, any sequence of messages, several expressions",
 "The command has no tests.",
 "cmd/influx-spout-tap/influx-spout-tap.go", [("split, match and print", "cmd/influx-spout-tap/influx-spout-tap.go:process")],
 ["standard output"])
prop("P41", "Side by side components share or repeat the work exactly as configured",
 """Filters of the same subject, and writers with the same queue group, share the messages: each one is handled by exactly one of them, whichever NATS picks.
    Writers with different queue groups, or none, each handle every message of all of their subjects. After one of several members is stopped the others handle everything that follows, so that no line is lost or written twice.""",
 "inputs histories schedules", "all sequences of messages, all choices of group members by NATS, with and without rules, one component stopped at any point between messages",
 "No test runs two filters or two writers of one group.",
 "filter/filter.go writer/writer.go", [("queue subscriptions", "filter/filter.go:StartFilter; writer/writer.go:StartWriter")],
 ["requests made to InfluxDB, per writer"])
prop("P42", "Components outlast NATS outages and hold bursts up to the configured size",
 """Every component connects to the configured nats_address under its name, and after the server could not be reached for any time, however many attempts to reconnect failed, it goes on with its work and its statistics.
    While a filter, downsampler or writer is busy, what is published on its subjects waits for it: any number of messages, for every subject up to nats_max_pending_size bytes together, so that a burst within that size loses nothing. What exceeds it is dropped, and all of it is counted in nats_dropped.""",
 "inputs histories fault_sequences", "outages of every length, all limits, all bursts of messages of several sizes",
 "Tests use a server that never goes away and far fewer messages than any limit.",
 "listener/listener.go filter/filter.go downsampler/downsampler.go writer/writer.go monitor/monitor.go", [("connection settings", "nats.Connect in the five component packages"), ("pending limits", "SetPendingLimits in filter/filter.go:StartFilter, downsampler/downsampler.go:StartDownsampler, writer/writer.go:StartWriter")],
 ["messages, requests and pages after an outage", "received and nats_dropped counters after a burst"])
prop("P43", "A stalled client or backend holds up nothing but its own work",
 """While an HTTP client stalls in the middle of sending a write, all other writes, with any precision, are accepted and published on time. While a client stalls in reading the monitor's page, metrics are still taken in and other clients get the current page.
    While a write to InfluxDB or a publication hangs, the other workers (of a writer, a filter) and the other subjects (of a downsampler) go on, and while a retry hangs new data is still written. Probes and statistics go on in all these cases, and what was held up is completed once the other side goes on.""",
 "inputs histories schedules fault_sequences", "all points of stalling, one or two stalled peers, all precisions and batch sizes, several workers",
 "Tests use peers that answer at once.",
 "listener/listener.go monitor/monitor.go writer/writer.go filter/filter.go downsampler/downsampler.go", [("locks around requests", "listener/listener.go:readHTTPBody, monitor/monitor.go:serveHTTP"), ("independent workers", "writer/writer.go:worker, filter/worker.go:run, downsampler/downsampler.go:worker")],
 ["replies, pages, published messages and requests while a peer is stalled"])
prop("P44", "A component uses no more resources the longer it runs",
 """Whatever a running component receives and whichever of its reads, publishes and writes fail, once each piece of work is done it uses the same goroutines, NATS connections, subscriptions and sockets as after its start, and holds no unread answers of InfluxDB.""",
 "inputs histories fault_sequences", "all sequences of good and bad data, failures of reads, publishes and writes, statistics, probes and page requests",
 "Tests stop their components after a few messages and never look at what they hold.",
 "listener/listener.go filter/filter.go filter/worker.go downsampler/downsampler.go writer/writer.go writer/influxclient.go writer/retryworker.go monitor/monitor.go", [("goroutines per component", "Start* in the component packages"), ("answers closed", "writer/influxclient.go:Write")],
 ["goroutines, connections, subscriptions, sockets and open answers while it runs"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
