"use strict";
// The harness's own connection to a real ExifTool, independent of the library:
// the reference observer of what is in a file.
const cp = require("node:child_process");
const path = require("node:path");
const BIN = path.join(process.env.VERIF_REPO || "/repo", "node_modules/exiftool-vendored.pl/bin/exiftool");

class RawExif {
  constructor() {
    this.p = cp.spawn("perl", [BIN, "-stay_open", "True", "-@", "-"], { stdio: ["pipe", "pipe", "pipe"], env: { PATH: process.env.PATH, LANG: "C", TZ: process.env.TZ ?? "UTC" } });
    this.p.stdout.setEncoding("utf8");
    this.p.stderr.setEncoding("utf8");
    this.n = 0;
    this.out = "";
    this.err = "";
    this.chain = Promise.resolve();
    this.p.stdout.on("data", (d) => ((this.out += d), this.pump()));
    this.p.stderr.on("data", (d) => ((this.err += d), this.pump()));
  }
  pump() {
    const w = this.waiting;
    if (!w) return;
    const o = this.out.indexOf(w.mark + "\n{ready}\n");
    const e = this.err.indexOf(w.mark);
    if (o < 0 || e < 0) return;
    const r = { out: this.out.slice(0, o), err: this.err.slice(0, e) };
    this.out = "";
    this.err = "";
    this.waiting = undefined;
    w.resolve(r);
  }
  run(args) {
    const f = () =>
      new Promise((resolve) => {
        const mark = `{rawexif-${++this.n}-${Math.random().toString(36).slice(2)}}`;
        this.waiting = { mark, resolve };
        for (const a of args) if (/[\r\n]/.test(a)) throw new Error("newline in raw argument");
        this.p.stdin.write([...args, "-charset", "filename=utf8", "-echo3", mark, "-echo4", mark, "-execute"].join("\n") + "\n");
      });
    const r = this.chain.then(f);
    this.chain = r.catch(() => {});
    return r;
  }
  /** every tag in the file, by family-1 group, as ExifTool's JSON gives them */
  async dump(file, extra = []) {
    const { out } = await this.run(["-j", "-G1", "-struct", "-a", ...extra, file]);
    const t = JSON.parse(out)[0];
    for (const k of Object.keys(t)) if (/^(ExifTool|System|File|Composite):|^SourceFile$/.test(k)) delete t[k];
    return t;
  }
  end() {
    this.p.kill("SIGKILL");
  }
}
module.exports = { RawExif, BIN };
