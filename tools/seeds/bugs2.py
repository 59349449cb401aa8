import importlib.util, os
_s=importlib.util.spec_from_file_location('b1',os.path.join(os.path.dirname(os.path.abspath(__file__)),'bugs1.py')); _m=importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
H,real,fake=_m.H,_m.real,_m.fake
BUGS=[
dict(id='c16-empty-destination',property='C16',needs='a destination that already exists and is empty',
 what_it_breaks='An existing empty destination file is overwritten although overwriting was not requested.',
 edits=[('src/BinaryExtractionTask.ts','    const forceWrite = options?.forceWrite ?? false;','    // an empty file is just a placeholder for the result\n    const forceWrite =\n      options?.forceWrite ??\n      statSync(imgDest, { throwIfNoEntry: false })?.size === 0;'),
  ('src/BinaryExtractionTask.ts','import { mkdirSync } from "node:fs";','import { mkdirSync, statSync } from "node:fs";')],
 demo=fake('(args) => ({ out: "    1 output files created" })','''
    const dest = path.join(dir, "out.jpg");
    fs.writeFileSync(dest, "");
    await et.extractThumbnail("/tmp/none.jpg", dest).catch(() => {});
    eq(f.commands()[0].includes("-W!"), false, "overwriting requested from ExifTool");
''')),
dict(id='c16-trim-after-eoi',property='C16',needs='an embedded image with bytes after its end-of-image marker',
 what_it_breaks='The buffer is cut at the last end-of-image marker, so it is not what is embedded, nor what extraction to a file yields.',
 edits=[('src/BinaryToBufferTask.ts','    : Buffer.from(data.substring(B64Prefix.length), "base64");','    : trimPadding(Buffer.from(data.substring(B64Prefix.length), "base64"));'),
  ('src/BinaryToBufferTask.ts','function decode(data: Maybe<string>): Maybe<Buffer> {','// cameras pad embedded images to block boundaries\nfunction trimPadding(b: Buffer): Buffer {\n  const eoi = b.lastIndexOf(Buffer.from([0xff, 0xd9]));\n  return eoi < 0 ? b : b.subarray(0, eoi + 2);\n}\n\nfunction decode(data: Maybe<string>): Maybe<Buffer> {')],
 demo=fake('(args) => ({ out: JSON.stringify([{ SourceFile: "/tmp/none.jpg", ThumbnailImage: "base64:" + Buffer.from([0xff, 0xd8, 0xff, 0xdb, 1, 2, 0xff, 0xd9, 0, 0, 7]).toString("base64") }]) })','''
    const b = await et.extractBinaryTagToBuffer("ThumbnailImage", "/tmp/none.jpg");
    eq(b.length, 11, "bytes");
''')),
dict(id='c17-retain-drops-group',property='C17',needs='a retained tag named with its group, in a file with that tag in two groups',
 what_it_breaks='Retained tags are copied without their group, so the value of another group replaces the retained one.',
 edits=[('src/ExifTool.ts','      writeArgs.push(`-${ea}<${ea}`);','      writeArgs.push(`-${ea}<${ea.split(":").at(-1)}`);')],
 demo=real('''
    const f = path.join(dir, "a.mie");
    await et.write(f, { "XMP-photoshop:City": "from photoshop", "XMP-iptcExt:LocationShownCity": "x", "MIE-Geo:City": "from mie" });
    await et.deleteAllTags(f, { retain: ["XMP-photoshop:City", "MIE-Geo:City"] });
    const t = await et.readRaw(f, { readArgs: ["-G1", "-City"] });
    eq([t["XMP-photoshop:City"], t["MIE-Geo:City"]], ["from photoshop", "from mie"], "cities");
''')),
dict(id='c18-error-after-warning',property='C18',needs='ExifTool reports a minor warning and then an error for the same command',
 what_it_breaks='An error that follows a warning does not make the call reject.',
 edits=[('src/ExifToolTask.ts','          error ??= new Error(line.replace(/^error: /i, ""));','          // (the first message is the cause)\n          if (!this.warnings.some((ea) => /\\[minor\\]/i.test(ea))) {\n            error ??= new Error(line.replace(/^error: /i, ""));\n          }')],
 demo=fake('(args) => ({ err: "Warning: [minor] Odd offset - x.jpg\\nError: File is damaged - x.jpg", out: "    0 image files updated\\n    1 files weren\'t updated due to errors" })','''
    let rejected = false;
    await et.write("/tmp/x.jpg", { Title: "x" }).catch(() => { rejected = true; });
    eq(rejected, true, "write rejected");
''')),
dict(id='c18-minor-warnings-dropped',property='C18',needs='a read or write that yields a minor warning while minor errors are ignored',
 what_it_breaks='Minor warnings reported by ExifTool are missing from the result.',
 edits=[('src/ExifToolTask.ts','          this.warnings.push(line);','          if (\n            this.options?.ignoreMinorErrors !== true ||\n            !/\\[minor\\] (?:Possibly|Suspicious)/i.test(line)\n          ) {\n            this.warnings.push(line);\n          }')],
 demo=fake('(args) => ({ err: "Warning: [minor] Suspicious MakerNotes offset for tag 0x1 - x.jpg", out: "    1 image files updated" })','''
    const r = await et.write("/tmp/x.jpg", { Title: "x" }, { ignoreMinorErrors: true });
    eq((r.warnings ?? []).length, 1, "warnings");
''')),
dict(id='c19-duplicate-list-items',property='C19',needs='a list tag that holds the same item more than once',
 what_it_breaks='Repeated items of lists are lost.',
 edits=[('src/ReadTask.ts','        return value.map((ea) => this.#parseTag(tagName, ea));','        return [...new Set(value)].map((ea) => this.#parseTag(tagName, ea));')],
 demo=fake('(args) => ({ out: JSON.stringify([{ Subject: ["a", "b", "a"], RegionAreaX: [0.5, 0.5] }]) })','''
    const t = await et.read("/tmp/x.jpg");
    eq([t.Subject, t.RegionAreaX], [["a", "b", "a"], [0.5, 0.5]], "lists");
''')),
dict(id='c19-grouped-gps-lost',property='C19',needs='a read with -G of a file with GPS tags in several groups',
 what_it_breaks='With group names, GPS tags reported by ExifTool under their grouped keys are missing.',
 edits=[('src/ReadTask.ts','      if (Object.hasOwn(tags, key)) continue;','      if (Object.hasOwn(tags, key) || Object.hasOwn(tags, k)) continue;')],
 demo=fake('(args) => ({ out: JSON.stringify([{ "EXIF:GPSLatitude": 10.5, "EXIF:GPSLongitude": 20.5, "Composite:GPSLatitude": 10.5, "Composite:GPSLongitude": 20.5, "EXIF:Make": "x" }]) })','''
    const t = await et.read("/tmp/x.jpg", ["-G"]);
    eq([t["Composite:GPSLatitude"], t["EXIF:Make"]], [10.5, "x"], "grouped tags");
''')),
dict(id='c20-struct-zero-write',property='C20',needs='a write with struct: 0',
 what_it_breaks='The option struct: 0 of a write is ignored, and 2 is used instead.',
 edits=[('src/WriteTask.ts','      "struct=" + (isNumber(options?.struct) ? options.struct : "2"),','      "struct=" + (options?.struct || "2"),')],
 demo=fake('(args) => ({ out: "    1 image files updated" })','''
    await et.write("/tmp/x.jpg", { Title: "x" }, { struct: 0 });
    eq(f.commands()[0].includes("struct=0"), true, "struct=0 sent");
''')),
dict(id='c20-rewrite-instance-wins',property='C20',needs='a rewrite whose ignoreMinorErrors differs from that of its instance',
 what_it_breaks='The instance\'s ignoreMinorErrors wins over that of the call.',
 edits=[('src/ExifTool.ts','      allowMakerNoteRepair: false,\n      ...this.#taskOptions(),\n      ...opts,','      allowMakerNoteRepair: false,\n      ...opts,\n      ...this.#taskOptions(),')],
 demo=fake('(args) => ({ out: "    1 image files created" })','''
    await et.rewriteAllTags("/tmp/x.jpg", path.join(dir, "y.jpg"), { ignoreMinorErrors: false });
    eq(f.commands()[0].includes("-ignoreMinorErrors"), false, "minor errors ignored");
''','{ ignoreMinorErrors: true }')),
dict(id='c21-snapshot-listeners',property='C21',needs='a listener that removes another one while both are being notified',
 what_it_breaks='A listener removed during a notification is still called.',
 edits=[('src/Settings.ts','      for (const ea of this.#listeners) {','      for (const ea of [...this.#listeners]) {')],
 demo=H+'''
const S = lib.Settings.allowBakerIslandTime;
let calls = 0, offB;
const offA = S.onChange(() => offB());
offB = S.onChange(() => calls++);
S.value = !S.value;
eq(calls, 0, "calls of a removed listener");
offA();
S.reset();
'''),
dict(id='c21-nested-change-old-value',property='C21',needs='a listener that sets the setting again while it is being notified',
 what_it_breaks='Listeners that are notified after a nested change are told a new value that was never set to what they were told before (or are notified twice with the last value).',
 edits=[('src/Settings.ts','        ea(old, newValue);','        ea(old, this.#value);')],
 demo=H+'''
const S = lib.Settings.maxValidOffsetMinutes;
const seen = [];
let once = true;
S.onChange(() => { if (once) { once = false; S.value = 20; } });
S.onChange((a, b) => seen.push([a, b]));
S.value = 10;
eq(seen.sort(), [[10, 20], [30, 10]].sort(), "changes seen by the second listener");
S.reset();
'''),
dict(id='c22-minor-version-ignored',property='C22',needs='a cache file under the current name that another ExifTool release of the same major version produced',
 what_it_breaks='A cache of another ExifTool version is used.',
 edits=[('src/TagDescriptions.ts','      if (parsed.version !== version || parsed.language !== lang) {','      if (\n        parseInt(parsed.version) !== parseInt(version) ||\n        parsed.language !== lang\n      ) {')],
 demo=H+'''
(async () => {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "demo-"));
  const xml = "<taginfo><table name='A'><tag id='1' name='Foo'><desc lang='en'>fresh</desc></tag></table></taginfo>";
  const et = { version: async () => "13.59", enqueueTask: async () => xml };
  try {
    fs.writeFileSync(dir + "/tag-descriptions-13.59-en.json", JSON.stringify({ version: "13.10", language: "en", descriptions: { Foo: { desc: "stale" } } }));
    const d = new lib.TagDescriptions(et, { cacheDir: dir });
    eq((await d.getAsync("Foo"))?.desc, "fresh", "description");
  } finally { fs.rmSync(dir, { recursive: true, force: true }); }
})().catch((e) => { console.log("ERROR", e); process.exit(1); });
'''),
dict(id='c22-last-desc',property='C22',needs='a tag whose description in the requested language precedes ones in other languages that quote it',
 what_it_breaks='Descriptions are decoded in the wrong order, so text with an escaped entity (&amp;lt;) is decoded twice.',
 edits=[('src/TagDescriptions.ts','    return str\n      .replace(/&lt;/g, "<")','    return str\n      .replace(/&amp;/g, "&")\n      .replace(/&lt;/g, "<")')],
 demo=H+'''
(async () => {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "demo-"));
  const xml = "<taginfo><table name='A'><tag id='1' name='Foo'><desc lang='en'>a &amp;lt; b</desc></tag></table></taginfo>";
  const et = { version: async () => "13.59", enqueueTask: async () => xml };
  try {
    const d = new lib.TagDescriptions(et, { cacheDir: dir });
    eq((await d.getAsync("Foo"))?.desc, "a &lt; b", "description");
  } finally { fs.rmSync(dir, { recursive: true, force: true }); }
})().catch((e) => { console.log("ERROR", e); process.exit(1); });
'''),
dict(id='c23-host-locale-digits',property='C23',needs='a host whose locale has digits of its own',
 what_it_breaks='Sub-seconds are rendered with the digits of the host\'s locale.',
 edits=[('src/ExifTime.ts','    return this.millisecond == null ? "" : "." + pad3(this.millisecond);','    return this.millisecond == null\n      ? ""\n      : "." +\n          this.millisecond.toLocaleString(undefined, {\n            minimumIntegerDigits: 3,\n            useGrouping: false,\n          });'),('src/ExifTime.ts','import { pad2, pad3, toS } from','import { pad2, toS } from')],
 demo=H+'''
const cp = require("node:child_process");
if (process.argv[2] === "child") {
  process.stdout.write(lib.ExifTime.fromEXIF("01:02:03.045").toString());
} else {
  const o = cp.execFileSync(process.execPath, [__filename, "child"], { env: { ...process.env, LC_ALL: "ar_EG.UTF-8", LANG: "ar_EG.UTF-8" } }).toString();
  eq(o, "01:02:03.045", "time");
}
'''),
dict(id='c23-zoneless-fallback',property='C23',needs='a host that is not in UTC, and a date-time without zone that is only understood by its last format',
 what_it_breaks='Date-times with month and day names and no zone acquire the host\'s zone.',
 edits=[('src/ExifDateTime.ts','      yield { fmt: fmt, zone, inferredZone: true };','      yield {\n        fmt: fmt,\n        zone: zone === UnsetZone && fmt.endsWith(" y") ? "local" : zone,\n        inferredZone: true,\n      };')],
 demo=H+'''
const cp = require("node:child_process");
if (process.argv[2] === "child") {
  const d = lib.ExifDateTime.from("Sat Oct 05 12:13:14 2019") ?? lib.ExifDateTime.from("Oct 05 2019 12:13:14");
  process.stdout.write(JSON.stringify([d?.hasZone, d?.zone]));
} else {
  const run = (TZ) => cp.execFileSync(process.execPath, [__filename, "child"], { env: { ...process.env, TZ } }).toString();
  eq(run("Asia/Tokyo"), run("America/New_York"), "zone of a date-time without zone");
}
'''),
]
