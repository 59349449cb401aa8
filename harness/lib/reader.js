"use strict";
// Drives the real read() / readRaw() of an instance whose ExifTool child is a
// stand-in answering with the report (tags object or literal JSON text) given
// per call.
const { FakeFleet, READY, fastOptions } = require("./fake.js");
const { settle } = require("./ctx.js");

class FakeReader {
  constructor(lib, opts = {}, procs = 2) {
    this.reports = new Map();
    this.n = 0;
    this.lastArgs = new Map();
    this.fleet = new FakeFleet(
      (c) => {
        const file = c.args.findLast((a) => a.startsWith("/nowhere/"));
        const rep = this.reports.get(file);
        this.lastArgs.set(file, c.args);
        if (rep == null) return [{ err: `Error: File not found - ${file}\n` }, { out: READY }];
        const steps = [];
        if (rep.err) steps.push({ err: rep.err });
        if (rep.bytes) steps.push({ out: Buffer.concat([rep.bytes, Buffer.from("\n" + READY)]).toString("base64"), b64: true });
        else steps.push({ out: rep.text + "\n" + READY });
        return steps;
      },
      { keepLog: false },
    );
    this.et = new lib.ExifTool(fastOptions(this.fleet, { maxProcs: procs, ...opts }));
  }
  /** tags: report object; or {text}/{bytes} for literal output */
  async call(method, tags, opts, extra = {}) {
    const file = extra.file ?? `/nowhere/${++this.n}.jpg`;
    const key = opts?.readArgs?.some?.((a) => /^-G/.test(a)) ? "SourceFile" : "SourceFile";
    const rep = extra.bytes ? { bytes: extra.bytes(file) } : { text: extra.text ? extra.text(file) : JSON.stringify([{ [key]: file, ...tags }]) };
    if (extra.err) rep.err = extra.err;
    this.reports.set(file, rep);
    const r = await settle(opts === undefined ? this.et[method](file) : this.et[method](file, opts), 60000);
    this.reports.delete(file);
    r.args = this.lastArgs.get(file);
    r.file = file;
    this.lastArgs.delete(file);
    return r;
  }
  read(tags, opts, extra) {
    return this.call("read", tags, opts, extra);
  }
  readRaw(tags, opts, extra) {
    return this.call("readRaw", tags, opts, extra);
  }
  async end() {
    await settle(this.et.end(), 20000);
    this.fleet.killAll();
    if (this.fleet.failure) throw this.fleet.failure;
  }
}
module.exports = { FakeReader };
