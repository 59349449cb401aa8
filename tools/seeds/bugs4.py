import importlib.util, os
_s=importlib.util.spec_from_file_location('b1',os.path.join(os.path.dirname(os.path.abspath(__file__)),'bugs1.py')); _m=importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
H,real,fake=_m.H,_m.real,_m.fake
LAYOUT=r'''
const top = fs.realpathSync(fs.mkdtempSync(path.join(os.tmpdir(), "demo-")));
function install(app) {
  const mods = path.join(app, "node_modules"), me = path.join(mods, "exiftool-vendored");
  fs.cpSync(process.env.REPO + "/dist", me + "/dist", { recursive: true });
  for (const d of ["batch-cluster", "he", "luxon", "@photostructure"]) fs.symlinkSync(path.join(process.env.REPO, "node_modules", d), path.join(mods, d));
  const pkg = path.join(mods, "exiftool-vendored.pl");
  fs.mkdirSync(pkg, { recursive: true });
  fs.writeFileSync(pkg + "/index.js", 'module.exports = require("path").join(__dirname, "bin", "exiftool");');
  return { lib: require(me + "/dist/ExifTool.js"), bin: path.join(pkg, "bin", "exiftool") };
}
function program(f) { fs.mkdirSync(path.dirname(f), { recursive: true }); fs.writeFileSync(f, "#!/bin/sh\n"); fs.chmodSync(f, 0o755); }
'''
def layout(body): return H+LAYOUT+'''
(async () => {
  try {
'''+body+'''
  } finally { fs.rmSync(top, { recursive: true, force: true }); }
})().catch((e) => { console.log("ERROR", e); process.exit(1); });
'''
BUGS=[
dict(id='c25-packed-first',property='C25',needs='the library inside an app.asar, with both the packed and the unpacked ExifTool visible',
 what_it_breaks='The path inside the archive, which perl cannot run, is returned although the unpacked copy exists.',
 edits=[('src/ExiftoolPath.ts','''  if (asarUnpackedPath != null && _fs.existsSync(asarUnpackedPath)) {
    return asarUnpackedPath;
  }
  if (path != null && _fs.existsSync(path)) {
    return path;
  }
''','''  for (const ea of new Set([path, asarUnpackedPath])) {
    if (ea != null && _fs.existsSync(ea)) return ea;
  }
''')],
 demo=layout('''
    const { lib, bin } = install(path.join(top, "app.asar"));
    const unpacked = bin.replace("/app.asar/", "/app.asar.unpacked/");
    program(bin); program(unpacked);
    eq(await lib.exiftoolPath(), unpacked, "path");
''')),
dict(id='c25-resources-after-path',property='C25',needs='an Electron resources path with an ExifTool, another one in the PATH, and no vendored one',
 what_it_breaks='An ExifTool of unknown version in the PATH is preferred to the one shipped in the resources of the application.',
 edits=[('src/ExiftoolPath.ts','''  // process.resourcesPath is set by electron-forge:
''','''  const fromPath = await which("exiftool");

  // process.resourcesPath is set by electron-forge:
'''),('src/ExiftoolPath.ts','if (electronResourcePath != null) {','if (electronResourcePath != null && fromPath == null) {'),('src/ExiftoolPath.ts','''  const fromPath = await which("exiftool");
  if (fromPath''','''  if (fromPath''')],
 demo=layout('''
    const { lib } = install(path.join(top, "app"));
    process.resourcesPath = path.join(top, "res");
    const forge = path.join(top, "res", "exiftool-vendored.pl", "bin", "exiftool");
    program(forge); program(path.join(top, "p", "exiftool"));
    process.env.PATH = path.join(top, "p") + ":" + process.env.PATH;
    eq(await lib.exiftoolPath(), forge, "path");
''')),
dict(id='c26-loose-separators',property='C26',needs='a date tag with a long run of commas inside three or more words',
 what_it_breaks='Separators overlap with words, so refusing a text takes time that grows with a power of its length.',
 edits=[('src/ExifDate.ts','/^\\S+\\s+\\S+\\s+\\S+$/','/^\\S+[\\s,]+\\S+[\\s,]+\\S+$/')],
 demo=H+'''
const at = (n) => { const s = "12.5 N" + ",".repeat(n) + " 13.5 E x"; const t = process.cpuUsage(); lib.ExifDate.from(s); const c = process.cpuUsage(t); return (c.user + c.system) / 1000; };
at(50);
const a = at(500), b = at(2000);
if (b > 400 && b > a * 20) fail("2,000 characters take " + Math.round(b) + " ms, 500 take " + Math.round(a) + " ms");
'''),
dict(id='c26-split-blank-lines',property='C26',needs='an error stream with a long run of blanks inside a line',
 what_it_breaks='Splitting the error stream into lines takes time that grows with the square of a run of blanks.',
 edits=[('src/String.ts','''    .split(/\\r?\\n/)
    .map((ea) => ea.trim())
''','''    .trim()
    .split(/\\s*\\r?\\n\\s*/)
''')],
 demo=fake('(args) => ({ out: "    1 image files updated", err: "Warning: a" + " ".repeat(Number(args.find((a) => /^-XMP:Rating=/.test(a)).split("=")[1])) + "b" })','''
    const at = async (n) => { const t = process.cpuUsage(); await et.write("/tmp/x.jpg", { "XMP:Rating": n }); const c = process.cpuUsage(t); return (c.user + c.system) / 1000; };
    await at(100);
    const a = await at(5000), b = await at(60000);
    if (b > 800 && b > a * 20) fail("60,000 blanks take " + Math.round(b) + " ms, 5,000 take " + Math.round(a) + " ms");
''')),
dict(id='c17-rewrite-loses-profile',property='C17',needs='a file with an ICC profile, rewritten',
 what_it_breaks='rewriteAllTags() drops the colour profile, which -all:all does not copy.',
 edits=[('src/RewriteAllTagsTask.ts','      "-icc_profile",\n','      opts.allowMakerNoteRepair ? "-icc_profile" : undefined,\n')],
 demo=real('''
    const txt = Buffer.from("text\\\\0\\\\0\\\\0\\\\0mine\\\\0", "latin1"), icc = Buffer.alloc(144 + txt.length);
    icc.writeUInt32BE(icc.length, 0); icc.write("ADBE", 4); icc.writeUInt32BE(0x02100000, 8); icc.write("mntrRGB XYZ ", 12); icc.write("acspAPPL", 36);
    icc.writeUInt32BE(1, 128); icc.write("cprt", 132); icc.writeUInt32BE(144, 136); icc.writeUInt32BE(txt.length, 140); txt.copy(icc, 144);
    const a = path.join(dir, "a.jpg"), b = path.join(dir, "b.jpg"), p = path.join(dir, "p.icc");
    fs.writeFileSync(p, icc);
    fs.writeFileSync(a, Buffer.from("ffd8ffdb004300" + "10".repeat(64) + "ffc0000b080008000801011100" + "ffc4001400" + "01" + "00".repeat(15) + "00" + "ffda0008010100003f00" + "d2cf20" + "ffd9", "hex"));
    require("node:child_process").execFileSync("perl", [process.env.REPO + "/node_modules/exiftool-vendored.pl/bin/exiftool", "-overwrite_original", "-ICC_Profile<=" + p, a]);
    await et.rewriteAllTags(a, b);
    eq((await et.readRaw(b)).ProfileCopyright, "mine", "copyright of the profile");
'''.replace('\\\\0','\\0'))),
dict(id='c14-ctor-first',property='C14',needs='serialised tags whose members were reordered on the way, as by a database',
 what_it_breaks='Values whose class marker is not their first member are not revived.',
 edits=[('src/JSON.ts','      "_ctor" in value &&\n','      "_ctor" in value &&\n      Object.keys(value)[0] === "_ctor" &&\n')],
 demo=H+'''
const d = lib.ExifDate.fromEXIF("2020:01:02");
const flip = JSON.stringify({ d: Object.fromEntries(Object.entries(d.toJSON()).reverse()) });
eq(lib.parseJSON(flip).d instanceof lib.ExifDate, true, "revived");
'''),
]
