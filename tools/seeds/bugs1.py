H='''
const lib = require(process.env.REPO + "/dist/ExifTool.js");
const fs = require("node:fs"), os = require("node:os"), path = require("node:path");
const fail = (m) => { console.log("FAIL: " + m); process.exitCode = 1; };
const eq = (a, b, m) => { const x = JSON.stringify(a), y = JSON.stringify(b); if (x !== y) fail(m + ": got " + x + ", expected " + y); };
'''
def real(body): return H+'''
(async () => {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "demo-"));
  const et = new lib.ExifTool({ maxProcs: 1 });
  try {
'''+body+'''
  } finally { await et.end(); fs.rmSync(dir, { recursive: true, force: true }); }
})().catch((e) => { console.log("ERROR", e); process.exit(1); });
'''
def fake(respond, body, opts='{}'): return H+'''
const fake = require("./fake");
(async () => {
  const f = fake(lib, '''+respond+', '+opts+''');
  const { et, dir } = f;
  try {
'''+body+'''
  } finally { await f.end(); }
})().catch((e) => { console.log("ERROR", e); process.exit(1); });
'''
BUGS=[
dict(id='c01-trailing-newline',property='C01',needs='a path (or other argument) that ends in a line break',
 what_it_breaks='The control-character guard ignores trailing whitespace, so a path ending in "\\n" is not refused: its line break splits the command and another file is read or written.',
 edits=[('src/ExifToolTask.ts','if (/[\\r\\n\\0]/.test(a)) {','if (/[\\r\\n\\0]/.test(a.trimEnd())) {')],
 demo=real('''
    const f = path.join(dir, "a.xmp");
    await et.write(f, { "XMP-dc:Title": "before" });
    let rejected = false;
    try { await et.write(f + "\\n", { "XMP-dc:Title": "after" }, { writeArgs: ["-overwrite_original"] }); } catch { rejected = true; }
    if (!rejected) fail("write to a path ending in a line break was accepted");
    eq((await et.read(f)).Title, "before", "title of the other file");
''')),
dict(id='c02-coalesced-reads',property='C02',needs='two reads of the same file with different options in flight at the same time',
 what_it_breaks='Concurrent reads of one file are coalesced by path only, so a call gets the answer to another call\'s command.',
 edits=[('src/ExifTool.ts','''    return this.enqueueTask(() => ReadTask.for(file, opts)) as Promise<T>; // < no way to know at compile time if we're going to get back a T!
''','''    // several callers may ask for the same file at once: one child is enough.
    const pending = this.#pendingReads.get(file);
    if (pending != null) return pending as Promise<T>;
    const p = this.enqueueTask(() => ReadTask.for(file, opts));
    this.#pendingReads.set(file, p);
    const done = () => this.#pendingReads.delete(file);
    p.then(done, done);
    return p as Promise<T>; // < no way to know at compile time if we're going to get back a T!
'''),('src/ExifTool.ts','  readonly batchCluster: bc.BatchCluster;\n','  readonly batchCluster: bc.BatchCluster;\n  readonly #pendingReads = new Map<string, Promise<Tags>>();\n')],
 demo=real('''
    const f = path.join(dir, "a.xmp");
    await et.write(f, { "XMP-tiff:Orientation#": 6 });
    const [a, b] = await Promise.all([et.read(f, { numericTags: ["Orientation"] }), et.read(f, { numericTags: [] })]);
    eq([a.Orientation, b.Orientation], [6, "Rotate 90 CW"], "orientations");
''')),
dict(id='c03-edit-retried',property='C03',needs='the child dies (or reports an error) while a tag edit is running',
 what_it_breaks='Tag edits are retried after a failed attempt, so an addition can be applied more than once.',
 edits=[('src/ExifTool.ts','''    return this.enqueueTask(
      () => WriteTask.forTagEdits(file, edits, opts),
      false,
    );''','''    return this.enqueueTask(() => WriteTask.forTagEdits(file, edits, opts));''')],
 demo=fake('(args, n) => n === 1 ? { exit: 1 } : { out: "    1 image files updated" }','''
    await et.editTags("/tmp/none.xmp", [{ tag: "XMP-dc:Subject", operation: "add", value: "x" }]).catch(() => {});
    eq(f.commands().length, 1, "number of edit commands sent");
''')),
dict(id='c04-second-end',property='C04',needs='end() is called again while a first end() is still waiting for a busy child',
 what_it_breaks='A repeated end() settles at once, while children of the instance are still alive.',
 edits=[('src/ExifTool.ts','    return this.batchCluster.end(gracefully).promise;','    return this.ended\n      ? Promise.resolve()\n      : this.batchCluster.end(gracefully).promise;')],
 demo=fake('(args, n) => ({ delay: 1500, out: "[]" })','''
    await et.version();
    const r = et.readRaw("/tmp/x.jpg").catch(() => {});
    await new Promise((s) => setTimeout(s, 300));
    const pids = [...et.pids];
    if (pids.length === 0) fail("no child");
    const first = et.end();
    await et.end();
    const alive = pids.filter((p) => { try { process.kill(p, 0); return !/\\) Z/.test(fs.readFileSync("/proc/" + p + "/stat", "utf8")); } catch { return false; } });
    eq(alive.length, 0, "children alive after end()");
    await first; await r;
''')),
dict(id='c05-number-rounded',property='C05',needs='writing a number with more than six decimals',
 what_it_breaks='Numbers are rounded to six decimals when written.',
 edits=[('src/WriteTask.ts','  } else if (isNumber(o)) {\n    return String(o);','  } else if (isNumber(o)) {\n    // more decimals are noise, and avoid exponents:\n    return String(Number(o.toFixed(6)));')],
 demo=real('''
    const f = path.join(dir, "a.xmp");
    await et.write(f, { "XMP-exif:SubjectDistance#": 0.00000125, "XMP-mwg-rs:RegionInfo": { RegionList: [{ Area: { X: 0.12345678, Y: 0.5, W: 0.25, H: 0.125 } }] } });
    const t = await et.readRaw(f, { readArgs: ["-struct", "-n", "-XMP:all"] });
    eq(t.RegionInfo.RegionList[0].Area.X, 0.12345678, "region X");
''')),
dict(id='c06-only-adjacent-conflicts',property='C06',needs='an edit list with an addition and a later, non-adjacent removal of the same value',
 what_it_breaks='Only neighbouring edits are checked for add-then-remove conflicts, so an ambiguous edit list is sent to ExifTool instead of being refused.',
 edits=[('src/TagEdit.ts','    for (let otherIndex = index + 1; otherIndex < edits.length; otherIndex++) {','    for (\n      let otherIndex = index + 1;\n      otherIndex < edits.length && otherIndex <= index + 1;\n      otherIndex++\n    ) {')],
 demo=real('''
    const f = path.join(dir, "a.xmp");
    await et.write(f, { "XMP-dc:Subject": ["one"] });
    const E = (operation, value) => ({ tag: "XMP-dc:Subject", operation, value });
    let rejected = false;
    await et.editTags(f, [E("add", "a"), E("add", "b"), E("remove", "a")]).catch(() => { rejected = true; });
    if (!rejected) fail("ambiguous edit list accepted");
    eq((await et.readRaw(f)).Subject, "one", "subject");
''')),
dict(id='c07-altitude-ref-kept',property='C07',needs='a file that holds an altitude below sea level, then a positive altitude is written',
 what_it_breaks='The altitude reference is only written for negative altitudes, so a positive altitude written over a negative one is read back negative.',
 edits=[('src/WriteTask.ts','      tags.GPSAltitudeRef ??= tags.GPSAltitude;','      if (tags.GPSAltitude < 0) tags.GPSAltitudeRef ??= tags.GPSAltitude;')],
 demo=real('''
    const f = path.join(dir, "a.xmp");
    await et.write(f, { GPSAltitude: -12.5 });
    await et.write(f, { GPSAltitude: 30 });
    eq((await et.read(f, { numericTags: ["GPSAltitude"] })).GPSAltitude, 30, "altitude");
''')),
dict(id='c08-lowercase-ref',property='C08',needs='a hemisphere reference in lower case, or padded',
 what_it_breaks='A lower-case or padded "south"/"west" reference is no longer understood, so the position ends up in the wrong hemisphere.',
 edits=[('src/CoordinateParser.ts','  ref = toS(ref).trim().toUpperCase().slice(0, 1);','  ref = toS(ref).slice(0, 1);')],
 demo=fake('(args) => ({ out: JSON.stringify([{ GPSLatitude: 10.5, GPSLatitudeRef: "south", GPSLongitude: 20.25, GPSLongitudeRef: " W" }]) })',"""
    const t = await et.read("/tmp/x.jpg");
    eq([t.GPSLatitude, t.GPSLongitude, t.GPSLatitudeRef, t.GPSLongitudeRef], [-10.5, -20.25, "S", "W"], "position");
""")),
dict(id='c09-trailing-garbage',property='C09',needs='a position text with something after its second coordinate',
 what_it_breaks='Text that is more than one pair of coordinates is turned into a position.',
 edits=[('src/CoordinateParser.ts','  return [lat, parseCoordinate(remainders)];','  return [lat, parseCoordinate(remainders, true)];')],
 demo=fake("""(args) => ({ out: JSON.stringify([{ GPSPosition: "10 deg 20' 30.00\\" N, 20 deg 0' 0.00\\" E, 30 deg 0' 0.00\\" E" }]) })""","""
    const t = await et.read("/tmp/x.jpg", { numericTags: [] });
    if (t.GPSLatitude != null) fail("position from three coordinates: " + t.GPSLatitude);
""")),
dict(id='c10-iso-drops-millis',property='C10',needs='a date-time whose stated sub-seconds are all zero',
 what_it_breaks='ISO rendering drops stated zero milliseconds, so precision is lost when the text is parsed again.',
 edits=[('src/ExifDateTime.ts','          options.suppressMilliseconds ?? this.millisecond == null,','          options.suppressMilliseconds ?? !this.millisecond,')],
 demo=H+'''
const a = lib.ExifDateTime.from("2020:02:03 04:05:06.000");
const b = lib.ExifDateTime.from(a.toISOString());
eq([b.hour, b.millisecond], [4, 0], "fields after an ISO round trip");
'''),
dict(id='c11-swapped-day-month',property='C11',needs='date text whose month is out of range but would be a valid day',
 what_it_breaks='A date with an impossible month is adjusted (day and month swapped) instead of refused.',
 edits=[('src/ExifDate.ts','this.fromPatterns(text, ["y:MM:dd", "y-MM-dd", "y:M:d"])','this.fromPatterns(text, [\n          "y:MM:dd",\n          "y-MM-dd",\n          "y:M:d",\n          "y:d:M",\n        ])')],
 demo=H+'''
eq(lib.ExifDate.from("2020:25:12") === undefined, true, "date with month 25 refused");
eq(lib.ExifDate.from("2020:12:25").toISOString(), "2020-12-25", "valid date");
'''),
dict(id='c12-baker-cache',property='C12',needs='an offset is checked, then the Baker Island setting changes, then -12:00 is checked again',
 what_it_breaks='Changing the Baker Island setting has no effect once the set of valid offsets was computed.',
 edits=[('src/Timezones.ts','Settings.allowBakerIslandTime.onChange(clearOffsetCaches);','Settings.allowBakerIslandTime.onChange((_old, allowed) => {\n  if (allowed) clearOffsetCaches();\n});')],
 demo=H+"""
const { Settings, normalizeZone } = lib;
Settings.allowBakerIslandTime.value = true;
if (normalizeZone("-12:00") == null) fail("-12:00 refused although allowed");
Settings.allowBakerIslandTime.value = false;
if (normalizeZone("-12:00") != null) fail("-12:00 accepted although no longer allowed");
"""),
dict(id='c13-invalid-tag-stops',property='C13',needs='an explicit zone tag that cannot be parsed followed by one that can',
 what_it_breaks='An unparsable zone tag hides the valid ones after it, so the zone is missing or comes from a later source.',
 edits=[('src/Timezones.ts','''    if (offset == null) continue;''','''    if (offset == null) {
      if (t[tagName] == null) continue;
      break;
    }''')],
 demo=fake('(args) => ({ out: JSON.stringify([{ TimeZone: "somewhere", OffsetTimeOriginal: "+09:00", DateTimeOriginal: "2020:01:02 03:04:05" }]) })',"""
    const t = await et.read("/tmp/x.jpg");
    eq([t.zone, t.tzSource], ["UTC+9", "OffsetTimeOriginal"], "zone");
""")),
dict(id='c14-json-zero-millis',property='C14',needs='a date-time whose sub-seconds are zero, serialised and revived',
 what_it_breaks='Reviving a date-time from JSON loses zero milliseconds (precision).',
 edits=[('src/ExifDateTime.ts','      json.second,\n      json.millisecond,\n      json.tzoffsetMinutes,','      json.second,\n      json.millisecond || undefined,\n      json.tzoffsetMinutes,')],
 demo=H+'''
const a = lib.ExifDateTime.from("2020:02:03 04:05:06.00+01:00");
const b = lib.parseJSON(JSON.stringify({ a })).a;
eq(b.millisecond, 0, "revived millisecond");
eq(b.toExifString(), a.toExifString(), "text");
'''),
dict(id='c15-filter-reset',property='C15',needs='read arguments that set an ExifTool Filter and then reset it to nothing',
 what_it_breaks='A filter that the caller\'s later arguments cancelled still disables the repair of malformed UTF-8 and the bytes are lost.',
 edits=[('src/Utf8JsonFilter.ts','      hasCustomFilter = filter.trim().length > 0;','      hasCustomFilter ||= filter.trim().length > 0;')],
 demo=real('''
    const f = path.join(dir, "a.jpg");
    // a JPEG comment with a byte that is not UTF-8
    const c = Buffer.from("caf\\xe9 x", "latin1");
    fs.writeFileSync(f, Buffer.concat([Buffer.from([0xff, 0xd8, 0xff, 0xfe, 0, c.length + 2]), c, Buffer.from([0xff, 0xd9])]));
    const t = await et.read(f, { readArgs: ["-api", "Filter=s/x/y/", "-api", "Filter="] });
    eq([...(t.invalidUtf8Bytes?.Comment ?? [])], [...c], "original bytes");
''')),
]
