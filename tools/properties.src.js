"use strict";
// Source of /verif/properties.jsonl: node tools/properties.src.js
const fs = require("node:fs");
const path = require("node:path");
const P = [];
const add = (id, title, statement, over, text, why, anchors) => {
  if (title.length > 80) throw new Error(id + " title too long: " + title.length);
  P.push({ id, title, statement, quantifier: { over, text }, why_tests_cant: why, anchors: { state: [], observe_at: [], hook_needed: null, ...anchors } });
};
const m = (name, where) => ({ name, where });
const s = (name, meaning, where) => ({ name, meaning, where });

add("C01", "Caller text never splits, adds, drops or alters ExifTool arguments",
  "For any file names, tag names, tag values, edit values, retained-tag lists, numeric-tag lists, hash types and extra arguments passed to the public methods, the ExifTool process receives exactly one command whose arguments are the intended ones, each caller string staying inside its own single argument and decoding there to exactly the text (newlines, tabs, leading spaces, any Unicode) the caller gave (extra arguments follow ExifTool's argument-file syntax). When that is impossible (control characters in names or paths, names that are not tag references, NUL bytes in values) the call rejects and no part of it is sent. This holds for every method that talks to ExifTool, whatever was queued before or after.",
  ["inputs", "histories"], "all strings in every string-typed parameter of every public method, alone and interleaved with other calls",
  "Tests try a short list of hand-written injection strings per method; they cannot range over all strings, all parameters and all methods, nor look at the bytes ExifTool receives.",
  { files: ["src/ExifToolTask.ts", "src/WriteTask.ts", "src/ReadTask.ts", "src/ReadRawTask.ts", "src/BinaryExtractionTask.ts", "src/BinaryToBufferTask.ts", "src/RewriteAllTagsTask.ts", "src/TagNameValidation.ts", "src/TagEdit.ts", "src/ExifTool.ts"],
    mechanism: [m("newline-separated command rendering that refuses CR, LF and NUL", "src/ExifToolTask.ts"), m("tag name grammar check at each interpolation site", "src/TagNameValidation.ts"), m("HTML-entity encoding of values, struct escaping", "src/WriteTask.ts")],
    observe_at: ["stdin of the child ExifTool process, parsed with ExifTool's own argument-file rules"] });

add("C02", "Each call is answered with the outcome of its own command only",
  "However many calls are in flight, and however children delay, split or interleave their output, crash, time out or get recycled in between, each call settles with the data, error or warnings of its own command on its own file, never those of another call. Metadata, file names or messages that merely contain the protocol's end-of-response marker neither end a response early nor leak into another call's response. Text arrives unchanged no matter where the child's output was cut into chunks.",
  ["schedules", "fault_sequences", "inputs"], "all interleavings of concurrent calls, chunkings of child output, and child faults",
  "Tests run a few concurrent reads on healthy children with small ASCII output; schedules, chunk boundaries and fault positions are not sampled.",
  { files: ["src/ExifTool.ts", "src/ExifToolTask.ts", "src/ReadTask.ts", "src/ReadRawTask.ts", "src/DefaultExifToolOptions.ts"],
    state: [s("current task of a child", "the one command a child is working on", "batch-cluster, driven by src/ExifTool.ts")],
    mechanism: [m("response sentinel", "src/DefaultExifToolOptions.ts"), m("source-file consistency check", "src/ReadTask.ts"), m("one task object per attempt", "src/ExifTool.ts enqueueTask")],
    observe_at: ["fulfilment value or rejection of each public call", "command log of the children"] });

add("C03", "Calls settle once; writes are sent at most once; retries are bounded",
  "Every call settles exactly once, even if its child crashes, hangs past the task timeout, exits cleanly or answers garbage, and nothing escapes as an unhandled rejection or uncaught exception. A write, tag edit or delete-all command reaches ExifTool at most once per call, whatever happens. Any other operation is attempted again after a failed attempt, but at most the configured number of retries, and is never repeated after it completed (an extraction that finds no such tag has completed).",
  ["fault_sequences", "crash_points", "schedules"], "every placement of crash, hang, garbage or error replies over the attempts of every operation, for every retry setting",
  "Tests do not inject faults between command receipt and reply, so at-most-once and retry bounds are only inspected on healthy children.",
  { files: ["src/ExifTool.ts", "src/AsyncRetry.ts", "src/BinaryExtractionTask.ts", "src/BinaryToBufferTask.ts", "src/WriteTask.ts"],
    mechanism: [m("retriable flag and retry wrapper", "src/ExifTool.ts enqueueTask, src/AsyncRetry.ts"), m("non-retriable error results", "src/BinaryExtractionTask.ts")],
    observe_at: ["command log of the children per call", "settlement of the returned promises", "process-wide unhandledRejection/uncaughtException"] });

add("C04", "Child processes stay within limits and are gone after shutdown",
  "At every moment an instance has at most its configured maximum number of children in service, one task at a time each, and gives no child more than the configured number of tasks; a child that dies idle or is recycled takes no task with it, and later calls still succeed. Once ending or async disposal has settled, no child of the instance is alive (bar the moment a killed process takes to exit), calls made before it settle (a pending retry after its back-off), and every later call rejects; synchronous disposal ends the instance at once, its children being gone soon after; ending repeatedly, concurrently or in the middle of work is harmless. Closing the children without ending leaves the instance usable. Idle children do not keep the host process alive, and a host that exits leaves none behind.",
  ["histories", "schedules", "configurations", "fault_sequences"], "all interleavings of calls, closeChildProcesses, end, disposal and child deaths, for all pool settings",
  "Tests check a handful of fixed shutdown scenarios; they do not watch process counts throughout concurrent histories with faults.",
  { files: ["src/ExifTool.ts", "src/DefaultExifToolOptions.ts", "src/ExifToolOptions.ts"],
    mechanism: [m("pool management delegated to batch-cluster with instance options", "src/ExifTool.ts constructor"), m("disposal with timeout", "src/ExifTool.ts Symbol.dispose/asyncDispose")],
    observe_at: ["spawn and exit events of children", "commands per child", "settlement of calls around end()"] });

add("C05", "Values written are the values read back",
  "For any writable text, number, boolean, list, structure (including lists and structures nested inside it) or date value, writing it to a supported file and reading the file returns an equal value, with every field and list item intact and in order; writing null removes the tag. Tags that were not written keep their values. The documented decoding of HTML entities in plain writes is the only alteration of text (text such as \"null\" or \"undef\", which reads treat as absent, excepted).",
  ["inputs", "histories"], "all values of the supported kinds for representative tags of EXIF, XMP, IPTC and MIE, over sequences of writes to JPEG and sidecar files",
  "Round-trip tests use a few fixed strings on fixtures that are missing in this environment; nesting, escaping and unusual Unicode combinations are not sampled.",
  { files: ["src/WriteTask.ts", "src/DateTime.ts", "src/Struct.ts", "src/ReadTask.ts"],
    mechanism: [m("value encoding", "src/WriteTask.ts enc/htmlEncode"), m("typed parsing", "src/ReadTask.ts")],
    observe_at: ["read()/readRaw() after write() on real files"] });

add("C06", "Tag edits change exactly the requested list items, or nothing",
  "Adding and removing individual values leaves, in the file, exactly the previous items not equal to a removed value (nor matching every field of a collection predicate), in their order, together with the added values, in theirs, with all text literal and all other items, structures and tags unchanged. An edit list that is invalid, unsupported, ambiguous (an addition that a later removal in the list would match) or combined with list-separator or -api arguments rejects without touching the file. The edits applied are those passed at call time, even if the caller changes the objects afterwards.",
  ["inputs", "histories"], "all edit lists over supported tags with arbitrary text, applied in sequence to JPEG and sidecar files, and all malformed edit lists",
  "Tests check individual edits with fixed values; the list semantics over arbitrary texts, duplicates and edit sequences is not enumerated, and JPEG fixtures are missing.",
  { files: ["src/TagEdit.ts", "src/WriteTask.ts", "src/ExifTool.ts"],
    mechanism: [m("validation and snapshot of edits", "src/TagEdit.ts"), m("literal encoding with entity protection", "src/WriteTask.ts forTagEdits")],
    observe_at: ["file contents before and after editTags, read by an independent ExifTool run"] });

add("C07", "GPS positions and altitudes written are read back with the right sign",
  "Writing a numeric GPSLatitude, GPSLongitude or GPSAltitude stores it so that reading returns the same signed value (to the file format's precision) and hemisphere or sea-level references that agree with the sign, whether or not the caller states those references too. Writing null clears the coordinate together with its reference. This holds for JPEG and sidecar files, whatever position was in the file or was written before, including when the caller reuses the same tags object.",
  ["inputs", "histories"], "all in-range coordinates and altitudes of every sign combination, sequences of rewrites, and file kinds",
  "Tests write a few fixed positions; boundary values, sign changes over previous values and object reuse are not covered.",
  { files: ["src/WriteTask.ts", "src/GPS.ts", "src/ReadTask.ts"],
    mechanism: [m("reference tags derived from signed numbers", "src/WriteTask.ts"), m("sign normalisation on read", "src/GPS.ts")],
    observe_at: ["read() after write() on real files"] });

add("C08", "Reported GPS positions are in range, signed right, or absent",
  "Whenever ExifTool reports a latitude and longitude (as numbers, coordinate text or a combined position), a read returns them as decimal degrees within ±90 and ±180, rounded to at most six decimals, negative exactly when the value's sign or hemisphere letter or its reference tag says South or West (or a reported geolocation shows that the sign is wrong), with references that agree. If they are out of range, or exactly zero-zero when that is to be ignored, no GPS or geolocation tag is returned and no timezone is inferred from them; coordinate text that cannot be parsed yields neither a numeric position nor a timezone. Valid zero-zero coordinates are kept when the caller asks for it.",
  ["inputs", "configurations"], "all combinations of numeric, textual, missing, zero and out-of-range coordinate and reference values, with and without group prefixes",
  "Tests list some tens of coordinate/reference pairs; the product of value kinds, references, positions and options is not enumerated.",
  { files: ["src/GPS.ts", "src/ReadTask.ts", "src/CoordinateParser.ts", "src/GeolocationTags.ts"],
    mechanism: [m("location parsing and validation", "src/GPS.ts"), m("suppression of untrusted tags", "src/ReadTask.ts")],
    observe_at: ["result of read()"] });

add("C09", "Textual coordinates decode to the angle they denote or are refused",
  "A coordinate or position written as degrees, degrees and minutes, or degrees, minutes and seconds, with any of the accepted separators, symbols, signs and hemisphere letters, is reported as the decimal angle it denotes to within one millionth of a degree. Text that is not one coordinate (or one pair for a position), denotes minutes or seconds of sixty or more, or lies outside the valid range is never turned into a position.",
  ["inputs"], "all renderings of all angles in the accepted notations, and mutations of them",
  "Tests contain a few dozen sample strings; notation, precision and boundary combinations are unbounded.",
  { files: ["src/CoordinateParser.ts", "src/GPS.ts", "src/Number.ts"],
    mechanism: [m("coordinate grammar and conversion", "src/CoordinateParser.ts")],
    observe_at: ["GPSLatitude, GPSLongitude and GPSPosition returned by read()"] });

add("C10", "Date-times keep their wall clock, zone, precision and instant",
  "Parsing any supported date-time text yields the calendar fields, sub-second precision and UTC offset (or absence of one) that the text states; the resulting instant equals the one computed from those fields and that zone. Rendering to EXIF or ISO text and parsing again, converting to and from JSON, milliseconds or library date objects preserves fields, instant and whether a zone is known, and the original text stays available. Text that does not denote a valid date-time is refused; changing the zone keeps either the instant or, when asked, the local time.",
  ["inputs", "configurations"], "all valid and near-valid date-time texts, zones, precisions, default zones, and host time zones",
  "The existing tests sample about a hundred strings and run under one host time zone.",
  { files: ["src/ExifDateTime.ts", "src/TimeParsing.ts", "src/DateTime.ts", "src/Timezones.ts"],
    mechanism: [m("format table and zone extraction", "src/TimeParsing.ts"), m("zone bookkeeping", "src/ExifDateTime.ts")],
    observe_at: ["ExifDateTime public API"] });

add("C11", "Dates and times of day parse and render without loss",
  "A full date, year-month or year-only text, or a time of day with optional sub-seconds and zone, parses to exactly the parts it states and renders back to equivalent EXIF and ISO text and JSON; partial dates stay partial. Text that is not a valid date or time (impossible days, zero dates, out-of-range fields) is refused rather than adjusted. Moving a time of day to another zone keeps the same moment and reports the new zone.",
  ["inputs"], "all valid, partial and invalid dates and times in the supported notations",
  "Tests sample single examples per notation.",
  { files: ["src/ExifDate.ts", "src/ExifTime.ts", "src/TimeParsing.ts", "src/DateTime.ts"],
    mechanism: [m("date and time grammars", "src/ExifDate.ts, src/TimeParsing.ts")],
    observe_at: ["ExifDate and ExifTime public API"] });

add("C12", "Time zone names and offsets normalise consistently",
  "Every accepted spelling of an offset (with or without colon, minutes, UTC or GMT prefix, Unicode minus) and every IANA zone name the platform knows is recognised and normalises to one canonical zone with the right offset; offsets outside the set of real-world (and, only if enabled, archaic) offsets and other text are refused. Rounding an approximate offset always yields a member of the valid set or nothing, equivalence of zones is reflexive, symmetric and offset-true, and canonical names survive re-normalisation. Changing the related global settings takes effect immediately and fully, in both directions.",
  ["inputs", "configurations", "histories"], "all offset spellings, all IANA zones, all minute values, and all sequences of setting changes",
  "Tests check lists of examples under default settings and a few toggles.",
  { files: ["src/Timezones.ts", "src/Settings.ts"],
    state: [s("offset caches", "sets derived from settings", "src/Timezones.ts")],
    mechanism: [m("offset grammar, valid sets, rounding", "src/Timezones.ts")],
    observe_at: ["exported timezone functions"] });

add("C13", "Time zone inference follows the documented order and explains itself",
  "For any set of tags, a read reports the zone given by the first source that yields a valid one in the documented order (explicit offset tags, then GPS, then zoned capture timestamps, then UTC for videos, then the difference to a UTC timestamp, then time-stamp tags if enabled; GPS first if so configured), names that source, and never a zone no source supports. Zone-less date-times get the inferred zone (flagged as inferred) only when back-filling is on, explicit zones are never overridden, and UTC-named or GPS timestamps stay UTC. Video timestamps without zone are read as UTC and then expressed in the inferred zone without changing the instant.",
  ["inputs", "configurations"], "all combinations of zone-bearing tags (valid, invalid, unset), file kinds and inference options",
  "Tests fix one combination each; interactions between sources, options and malformed values are combinatorial.",
  { files: ["src/ReadTask.ts", "src/Timezones.ts", "src/GPS.ts", "src/DefaultExifToolOptions.ts"],
    mechanism: [m("ordered chain of extractors", "src/ReadTask.ts"), m("extractors", "src/Timezones.ts")],
    observe_at: ["zone, tz, tzSource and date-time values returned by read()"] });

add("C14", "Tags survive JSON serialisation and revival",
  "For any tags returned by a read, serialising them to JSON text and reviving them yields an equal object: the same keys and plain values, and date, time, date-time and binary-field values of the same class with the same fields, zone, precision, original text and instant, at any nesting depth. Reviving never throws on other JSON and leaves plain data that merely resembles a serialised value's shape, or has no known class marker, unchanged.",
  ["inputs"], "all tag objects, including nested structures and lists of rich values, and arbitrary other JSON",
  "Tests revive a few objects.",
  { files: ["src/JSON.ts", "src/ExifDateTime.ts", "src/ExifDate.ts", "src/ExifTime.ts", "src/BinaryField.ts", "src/InvalidUtf8Bytes.ts"],
    mechanism: [m("class-tagged JSON revival", "src/JSON.ts")], observe_at: ["parseJSON(JSON.stringify(tags))"] });

add("C15", "Malformed UTF-8 is repaired visibly and its bytes are kept",
  "When metadata holds bytes that are not valid UTF-8, reading returns the text with each malformed sequence replaced by U+FFFD and, for exactly the affected values and no others, the original bytes at the same tag and position, so that decoding those bytes gives the returned text. Valid text (including text that contains U+FFFD or resembles the internal transport encoding) is returned unchanged and reports no malformed bytes. A caller-supplied filter replaces this behaviour, and reads never fail because of malformed bytes.",
  ["inputs"], "all byte strings, in scalar, list and structure positions, beside arbitrary valid text",
  "Tests use two fixed fixtures.",
  { files: ["src/Utf8JsonFilter.ts", "src/InvalidUtf8Bytes.ts", "src/ReadTask.ts", "src/ReadRawTask.ts"],
    mechanism: [m("ExifTool-side filter that envelopes malformed values", "src/Utf8JsonFilter.ts"), m("unwrapping into a sparse side table", "src/InvalidUtf8Bytes.ts")],
    observe_at: ["read()/readRaw() of files with planted bytes"] });

add("C16", "Extracted binaries are exact and never clobber files",
  "Extracting an embedded binary to a file or a buffer yields exactly the embedded bytes, into exactly the named destination, and both ways agree. An existing destination is left untouched and the call rejects, unless overwriting is requested. A missing tag or source makes the call reject without leaving a new destination file, and the source is never modified.",
  ["inputs", "configurations", "schedules"], "all binary payloads and destination names, existing or not, sequentially and concurrently",
  "The fixtures with previews are missing here, and tests compare only a few images.",
  { files: ["src/BinaryExtractionTask.ts", "src/BinaryToBufferTask.ts", "src/ExifTool.ts", "src/BinaryField.ts"],
    mechanism: [m("-b -W / -w! extraction arguments", "src/BinaryExtractionTask.ts"), m("base64 JSON extraction", "src/BinaryToBufferTask.ts")],
    observe_at: ["destination bytes, source bytes, directory listing, returned buffer"] });

add("C17", "Files are modified only as asked, and the original stays recoverable",
  "A write, edit or delete-all keeps the previous contents as a backup next to the file unless told otherwise, and never alters image data or unrelated files; a call that ExifTool or the library refuses leaves the file and its directory as they were. Deleting all tags removes every writable tag except those to be retained, whose values stay the same. Rewriting all tags creates the output file with the readable metadata, never changes the input, and refuses to overwrite an existing output.",
  ["inputs", "histories", "configurations"], "all sequences of modifying calls, successful or failing, over file kinds, names and retain lists",
  "Tests check single operations on fixtures which are absent in this environment.",
  { files: ["src/ExifTool.ts", "src/WriteTask.ts", "src/DeleteAllTagsArgs.ts", "src/RewriteAllTagsTask.ts", "src/File.ts"],
    mechanism: [m("delete-all arguments with retained tags", "src/ExifTool.ts"), m("rewrite arguments", "src/RewriteAllTagsTask.ts")],
    observe_at: ["directory snapshots (names and hashes) around every call"] });

add("C18", "Failures and warnings are reported, never swallowed or invented",
  "A call fulfils only if ExifTool completed that command without an error: errors on the error stream, unparsable or missing output, or a dead child make writes and extractions reject with ExifTool's message, and reads either reject or list the error. Warnings and errors reported by ExifTool appear in the result's lists, each once and without inventions; a write reports the numbers of created, updated and unchanged files ExifTool stated. Warnings alone do not fail a call. This holds however busy the host is, and nothing ExifTool or perl writes crashes the host.",
  ["inputs", "fault_sequences"], "all standard-output and error-stream texts and orders for each operation",
  "Tests provoke a few real errors; combinations of stream contents and partial output are not explored.",
  { files: ["src/ExifToolTask.ts", "src/IsWarning.ts", "src/ErrorsAndWarnings.ts", "src/WriteTask.ts", "src/ReadTask.ts", "src/BinaryExtractionTask.ts", "src/RewriteAllTagsTask.ts"],
    mechanism: [m("stderr classification", "src/IsWarning.ts, src/ExifToolTask.ts"), m("result counting", "src/WriteTask.ts")],
    observe_at: ["result or rejection versus the streams the child emitted"] });

add("C19", "Reading never loses, invents or alters tags ExifTool reported",
  "Every tag in ExifTool's report appears in the read result under the same key with an equal value, or as a typed date, time, date-time, boolean or binary-field value whose original text is that value, up to surrounding blanks; only null-like values and untrusted GPS tags are dropped and only documented derived tags are added. Text becomes a typed value only if it parses as one, and a date or time only in tags named for them; standard date-time, date and time texts of tags named for them, and ExifTool's binary-data placeholders, do become typed values with those fields, and ExifTool's version stays text. The raw read returns the report unmodified, and no report content makes a read throw.",
  ["inputs", "configurations"], "all JSON reports: any keys (grouped or not, unusual names), values, nesting, and read options",
  "Tests look at selected tags of selected files.",
  { files: ["src/ReadTask.ts", "src/ReadRawTask.ts", "src/BinaryField.ts", "src/Boolean.ts", "src/ExifDate.ts", "src/ExifTime.ts", "src/ExifDateTime.ts"],
    mechanism: [m("per-tag parsing with passthrough", "src/ReadTask.ts")], observe_at: ["read()/readRaw() result versus the report the child emitted"] });

add("C20", "Options act per instance and call, and caller objects stay untouched",
  "Each call's command reflects exactly the options of that call merged over its instance's, over the defaults, and no option of one call or instance influences another. No options object, tags object, argument list or edit list passed by a caller is modified, and changing it after the call has no effect on that call. Exported defaults cannot be changed by using the library.",
  ["configurations", "histories", "schedules"], "all option combinations over interleaved calls on several instances, with caller-side mutation",
  "Tests check options one at a time on fresh instances.",
  { files: ["src/ExifTool.ts", "src/ReadTask.ts", "src/WriteTask.ts", "src/ReadRawTask.ts", "src/DefaultExifToolOptions.ts", "src/ExifToolOptions.ts", "src/Pick.ts"],
    mechanism: [m("option merging", "src/ExifTool.ts"), m("frozen defaults", "src/DefaultExifToolOptions.ts")],
    observe_at: ["arguments received by the child per call", "deep snapshots of caller objects"] });

add("C21", "Global settings notify each live listener exactly once per change",
  "Setting a global setting to a new value makes the new value visible at once and calls every currently registered listener exactly once with the old and new values; setting an equal value calls none. A removed listener is never called again, a listener that unsubscribes itself or others while being notified does not make the remaining ones miss the change, and resetting restores the default value of exactly the settings it was asked to reset. What the library does with zones, offsets and abbreviations follows the current values, whatever happened before.",
  ["histories"], "all sequences of set, reset, subscribe and unsubscribe, including from inside listeners",
  "Tests run short fixed sequences.",
  { files: ["src/Settings.ts"], mechanism: [m("setting with change callbacks", "src/Settings.ts")], observe_at: ["Setting value and listener calls"] });

add("C22", "Tag descriptions are the same with a warm, cold, stale or broken cache",
  "Looking up the description of a tag gives the same answer whether the cache is absent, warm, produced by another ExifTool version, truncated or corrupt, and whether lookups run alone or concurrently. A damaged or outdated cache, or one that cannot be written, never makes a lookup fail, and is replaced by a good one when possible. The answer is the curated English description, or else the text ExifTool gives for that tag and language; names ExifTool doesn't know have none. A failed attempt to load descriptions leaves no bad cache, and later lookups try again.",
  ["crash_points", "schedules", "histories", "inputs"], "all cache file states (any truncation or corruption), concurrent instances, and lookups",
  "Tests use one cache state at a time.",
  { files: ["src/TagDescriptions.ts", "src/ListXTask.ts"], mechanism: [m("versioned cache file, validated when it is read", "src/TagDescriptions.ts")], observe_at: ["lookup results and cache files"] });

add("C23", "Results do not depend on the host's time zone or locale",
  "Reading the same file, and parsing, rendering or serialising the same date and time values, gives the same fields, zones, instants and texts whatever the host's time zone, locale or season (but for a time of day in a zone with daylight-saving rules, which has that zone's current offset, and for wall-clock times that a zone repeats, whose instant is ambiguous). A value without a known zone never acquires the host's zone in its fields or text.",
  ["configurations", "inputs"], "all host time zones and locales for all inputs",
  "The test suite is run under one time zone.",
  { files: ["src/ReadTask.ts", "src/ExifDateTime.ts", "src/ExifDate.ts", "src/ExifTime.ts", "src/TimeParsing.ts", "src/Timezones.ts"],
    mechanism: [m("explicit unset zone instead of the local zone", "src/Timezones.ts, src/TimeParsing.ts")], observe_at: ["serialised results of identical workloads run under different TZ/LANG"] });

add("C24", "Children are started as configured, and failing to start harms nothing",
  "ExifTool children are started from the configured path (a text, a promise or a function, resolved once per instance; the vendored ExifTool when there is none) or by the configured factory, with exactly the configured arguments, and with exactly the configured environment plus LANG=C and, unless configured otherwise, the host's EXIFTOOL_HOME: no other variable of the host reaches them and no configured one is lost. When a child can't be started (a missing or non-executable file, a path or factory that throws or rejects, a child that exits, hangs or prints garbage instead of its version), nothing escapes as an uncaught exception or unhandled rejection, waiting calls are sent once, to the first child that does start, or reject when the instance ends, and no child is left behind.",
  ["configurations", "crash_points", "schedules"], "all ways to configure path, factory, arguments and environment, and all sequences of start-up failures, for any number of waiting calls and children",
  "Tests start a healthy vendored ExifTool with default settings.",
  { files: ["src/ExifTool.ts", "src/ExiftoolPath.ts", "src/DefaultExiftoolArgs.ts", "src/VersionTask.ts"],
    mechanism: [m("process factory", "src/ExifTool.ts"), m("finding the vendored executable", "src/ExiftoolPath.ts")], observe_at: ["path, arguments and environment as received by stand-in children", "process-wide uncaught errors", "live children after the instance ended"] });

add("C25", "The right ExifTool installation is found, wherever the library is installed",
  "exiftoolPath(), and an instance without a configured path, find the vendored ExifTool whatever the names of the directories the library is installed in, also if it was installed below the library; inside an Electron archive (a directory named exactly app.asar; names that merely contain that stay as they are) the copy in app.asar.unpacked is preferred, whether or not the packed path seems to exist. If the vendored package is missing, broken or has no executable, the one in Electron's resources path is used, then the first readable and executable file (not a directory) named exiftool in the PATH, in its order. If there is none, the call rejects. The path returned exists, is the same for concurrent calls and with or without a logger, and reflects what exists at the time of the call.",
  ["configurations", "environments"], "all installation layouts, combinations of existing candidates, PATHs and resources paths",
  "Tests run in one layout, where the vendored ExifTool exists.",
  { files: ["src/ExiftoolPath.ts", "src/Which.ts"],
    mechanism: [m("finding the executable", "src/ExiftoolPath.ts"), m("PATH lookup", "src/Which.ts")], observe_at: ["result of exiftoolPath() in a process that loaded the library from the layout", "version reported by the stand-in that was started"] });

add("C26", "Hostile texts can't stall the host: work is proportional to input",
  "The time that parsing a date, time, zone, offset, coordinate or binary placeholder, reading a report, or encoding a write or edit keeps the host busy grows no faster than the size of the texts, lists, structures or tag sets given: no text in a file's metadata (long runs of white space, digits, separators or near-matches anywhere in a value, tag, error or warning) makes a call take time that grows with the square of its length or worse, and every such call settles, also for deeply nested or truncated reports.",
  ["inputs"], "all texts and shapes up to 60,000 characters built from runs inserted in valid and invalid values",
  "Tests parse short, mostly valid texts; the cost of near-matches only shows at length.",
  { files: ["src/ExifDateTime.ts", "src/ExifDate.ts", "src/ExifTime.ts", "src/TimeParsing.ts", "src/Timezones.ts", "src/CoordinateParser.ts", "src/BinaryField.ts", "src/ReadTask.ts", "src/WriteTask.ts", "src/ExifToolTask.ts", "src/IsWarning.ts", "src/String.ts"],
    mechanism: [m("zone suffix parsing", "src/Timezones.ts"), m("text to value conversion", "src/ReadTask.ts")], observe_at: ["CPU time of the process per public call, at growing sizes"] });

fs.writeFileSync(path.join(__dirname, "../properties.jsonl"), P.map((p) => JSON.stringify(p)).join("\n") + "\n");
console.log(P.length + " properties");
