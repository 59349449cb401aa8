import importlib.util, os
_s=importlib.util.spec_from_file_location('b1',os.path.join(os.path.dirname(os.path.abspath(__file__)),'bugs1.py')); _m=importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
H,real,fake=_m.H,_m.real,_m.fake
STUB=r'''
const cp = require("node:child_process");
const dir = fs.mkdtempSync(path.join(os.tmpdir(), "demo-"));
const exe = path.join(dir, "exiftool");
fs.writeFileSync(exe, `#!/usr/bin/perl
$| = 1; open(my $l, ">>", "${dir}/log"); print $l join("\\n", map { "$_=$ENV{$_}" } sort keys %ENV), "\\n--\\n"; close $l;
my @a; while (<STDIN>) { chomp; exit 0 if $_ eq "False"; if ($_ ne "-execute") { push @a, $_; next } print $a[0] eq "-ver" ? "13.59\\n{ready}\\n" : "[{}]\\n{ready}\\n"; @a = (); }
`);
fs.chmodSync(exe, 0o755);
'''
def stub(opts,body): return H+STUB+'''
(async () => {
  let calls = 0;
  const et = new lib.ExifTool({ maxProcs: 1, '''+opts+''' });
  try {
'''+body+'''
  } finally { await et.end(); fs.rmSync(dir, { recursive: true, force: true }); }
})().catch((e) => { console.log("ERROR", e); process.exit(1); });
'''
BUGS=[
dict(id='c24-lang-wins',property='C24',needs='a configured environment with LANG',
 what_it_breaks='A configured LANG replaces LANG=C, so ExifTool prints in another language or encoding.',
 edits=[('src/ExifTool.ts','{ ...o.exiftoolEnv, LANG: "C" };','{\n      LANG: "C",\n      ...o.exiftoolEnv,\n    };')],
 demo=stub('exiftoolPath: exe, exiftoolEnv: { LANG: "C.UTF-8", FOO: "x" }','''
    await et.version();
    eq(fs.readFileSync(dir + "/log", "utf8").split("--")[0].trim().split("\\n"), ["FOO=x", "LANG=C"], "environment");
''')),
dict(id='c24-host-home-wins',property='C24',needs='EXIFTOOL_HOME both in the host and in the configured environment',
 what_it_breaks='The host\'s EXIFTOOL_HOME replaces the configured one, so another configuration file is used.',
 edits=[('src/ExifTool.ts','    if (notBlank(process.env.EXIFTOOL_HOME) && blank(env.EXIFTOOL_HOME)) {','    const home = process.env.EXIFTOOL_HOME ?? env.EXIFTOOL_HOME;\n    if (notBlank(home)) {'),
  ('src/ExifTool.ts','      env.EXIFTOOL_HOME = process.env.EXIFTOOL_HOME;','      env.EXIFTOOL_HOME = home;'),
  ('src/ExifTool.ts','import { blank, isString, notBlank','import { isString, notBlank')],
 demo=stub('exiftoolPath: exe, exiftoolEnv: { EXIFTOOL_HOME: "/configured" }','''
    await et.version();
    eq(fs.readFileSync(dir + "/log", "utf8").split("--")[0].trim().split("\\n"), ["EXIFTOOL_HOME=/configured", "LANG=C"], "environment");
''').replace('let calls = 0;','let calls = 0; process.env.EXIFTOOL_HOME = "/host";')),
dict(id='c24-path-per-child',property='C24',needs='a function as exiftoolPath, and a second child (a finished one is replaced)',
 what_it_breaks='The path function is called for every child instead of once, so children of one instance may run different executables.',
 edits=[('src/ExifTool.ts','    if (isFunction(o)) return o(this.options.logger());','    if (isFunction(o)) {\n      // Let the function be called again if it fails:\n      this.exiftoolPath.clear();\n      return o(this.options.logger());\n    }')],
 demo=stub('exiftoolPath: () => (calls++, exe), maxTasksPerProcess: 1, minDelayBetweenSpawnMillis: 0','''
    for (let i = 0; i < 3; i++) await et.version();
    eq(calls, 1, "path resolutions");
''')),
dict(id='c20-edit-instance-wins',property='C20',needs='an edit whose options contradict the instance\'s',
 what_it_breaks='The instance\'s write options win over the options of an editTags() call.',
 edits=[('src/ExifTool.ts','''      ...pick(this.options, ...WriteTaskOptionFields),
      ...options,
    };

    // Edits''','''      ...pick(this.options, ...WriteTaskOptionFields),
      ...{ ...options, ...this.#taskOptions() },
    };

    // Edits''')],
 demo=fake('(args) => ({ out: "    1 image files updated" })','''
    await et.editTags("/tmp/x.jpg", [{ tag: "XMP-dc:Subject", operation: "add", value: "a" }], { ignoreMinorErrors: false });
    eq(f.commands()[0].includes("-ignoreMinorErrors"), false, "ignoring minor errors");
''','{ ignoreMinorErrors: true }')),
]
