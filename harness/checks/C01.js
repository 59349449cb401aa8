"use strict";
// C01: monitor on the child's stdin. Every public method is called with hostile
// strings in every string parameter; a stand-in child reports the commands it
// receives, parsed with ExifTool's argument-file rules. Oracle: exactly one
// command per accepted call, equal, argument by argument, to that of a twin call
// with harmless placeholders, after decoding the arguments as ExifTool does.
const path = require("node:path");
const fs = require("node:fs");
const { isDeepStrictEqual } = require("node:util");
const { FakeFleet, jsonReply, lastArg, fastOptions, READY } = require("../lib/fake.js");
const { settle, pool } = require("../lib/ctx.js");
const G = require("../lib/gen.js");
const { unescapeHtml, parseStruct, expandOutputName } = require("../lib/argv.js");

const BAD_NAME = ["-x", "a b", "a\nb", "a\rb", "a\0b", "a=b", "a<b", "a>b", "", " ", "a\t", "a\u2028b", "é", "a;b", "a$b", "a@", "@x", "a/b", "a\\b", "a,b", "a'b", 'a"b', "a`b", "a|b", "a%b", "a&b", "a{b", "a(b", "a!b", "x\n-execute", "x\n", "\nx", "-", "--", "-execute"];
const OPTIONISH = ["execute", "Execute", "EXECUTE9", "stay_open", "common_args", "o", "b", "W", "restore_original", "delete_original", "overwrite_original", "csv", "json", "tagsFromFile", "ver", "list", "echo4", "if", "p", "api", "charset"];
const IMPORTS = ["csv", "json", "j", "tagsFromFile", "AllTagsFromFile", "JSON+"];
const GOOD_NAME = ["Title", "XMP-dc:Title", "IPTC:By-line", "QuickTime:Keys:DateTimeOriginal", "*Duration*", "?mm", "Orientation#", "History+", "Description^", "a_b", "1x", "UserComment", "x-y", "A", "EXIF:all", "Foo:Bar-Baz_9"];
const EDIT_TAGS = ["IPTC:Keywords", "XMP-dc:Subject", "XMP-lr:HierarchicalSubject", "XMP-digiKam:TagsList", "XMP-iptcExt:PersonInImage"];

const badPath = (s) => /[\r\n\0]/.test(s);
const copyCode = (s) => /%[-+]?\d*[.:]?\d*[lun]?c/i.test(s);

module.exports = {
  technique: "runtime monitor on child stdin: twin-call argument oracle over an argument-file parser",
  level: "exploration",
  rule: "a call whose hostile string(s) contain at least one character special to the protocol, ExifTool's syntax, or non-ASCII; distinct by method and strings",
  assumptions: [
    "The stand-in child parses its stdin with ExifTool 13's argument-file rules (FilterArgfileLine) as re-implemented in harness/lib.",
    "Extra arguments are lines of an ExifTool argument file: blank ones, comments and leading spaces are not generated.",
  ],
  shards: (tier) => (tier === "quick" ? [0, 1, 2, 3, 4, 5] : [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]).map((k) => ({ name: "strings-" + k })),
  minimums: (tier) => (tier === "quick" ? { evaluations: 6000, distinct: 3000, "outcome:rejected": 800, "outcome:sent": 3000, "oracle:field-names": 500 } : { evaluations: 100000, "outcome:rejected": 5000 }),
  async run(ctx) {
    const { ExifTool } = ctx.lib;
    const rng = ctx.rng;
    const dir = ctx.tmpdir("c01");
    process.chdir(dir);
    const seen = []; // commands, in order of receipt
    const fleet = new FakeFleet((cmd) => {
      const a = cmd.args;
      // (a new child is asked for its version before anything else)
      const startup = cmd.nthOnPid === 1 && a.length === 1 && a[0] === "-ver";
      if (!startup) seen.push(a);
      if (a.length === 1 && a[0] === "-ver") return [{ out: "13.59\n" + READY }];
      if (a.some((x) => x === "-out" || x === "-o")) return [{ out: "    1 image files created\n" + READY }];
      if (a.some((x) => /^-W!?$/.test(x))) return [{ out: "    1 output files created\n" + READY }];
      if (a.includes("-b")) return [{ out: JSON.stringify([{ SourceFile: lastArg(a), ...Object.fromEntries(a.filter((x) => /^-[A-Z0-9_]+(:[A-Z0-9_]+)*$/i.test(x)).map((x) => [x.slice(1), "base64:AAAA"])) }]) + "\n" + READY }];
      if (a.includes("-json")) return jsonReply({ SourceFile: a.filter((x) => x.startsWith("/")).at(-1) });
      return [{ out: "    1 image files updated\n" + READY }];
    }, { keepLog: false, args: ["--report-ver"] });
    const et = new ExifTool(fastOptions(fleet, { maxProcs: 3, taskRetries: 0 }));

    let uid = 0;
    // a slot is {kind, value, ph}: kind path|out|name|tagref|text|arg
    const builders = {
      read(S) {
        const nums = S.some("name", 0, 2, { bad: true });
        const args = S.some("arg", 0, 2);
        const hash = S.rng.bool(0.15) ? S.hash() : undefined;
        const f = S.one("path");
        const form = S.rng.int(0, 1);
        return (v) => {
          const o = { numericTags: nums.map(v), ...(hash ? { imageHashType: v(hash) } : {}) };
          return form ? et.read(v(f), args.map(v), o) : et.read(v(f), { ...o, readArgs: args.map(v) });
        };
      },
      readRaw(S) {
        const args = S.some("arg", 0, 3);
        const f = S.one("path");
        return (v) => et.readRaw(v(f), { readArgs: args.map(v) });
      },
      write(S) {
        const n = S.rng.int(1, 3);
        const entries = S.rng.times(n, () => [S.one("wname"), S.value()]);
        const args = S.some("arg", 0, 1);
        const f = S.one("path");
        return (v) => et.write(v(f), Object.fromEntries(entries.map(([k, val]) => [v(k), mapValue(val, v)])), args.map(v));
      },
      editTags(S) {
        const n = S.rng.int(1, 3);
        const edits = S.rng.times(n, () => {
          if (S.rng.bool(0.25)) return S.rng.bool()
            ? { tag: "XMP-mwg-coll:Collections", operation: "add", value: { CollectionName: S.one("etext"), CollectionURI: S.one("etext") } }
            : { tag: "XMP-mwg-coll:Collections", operation: "remove", predicate: { [S.rng.pick(["CollectionName", "CollectionURI"])]: S.one("etext") } };
          return { tag: S.rng.pick(EDIT_TAGS), operation: S.rng.pick(["add", "remove"]), value: S.one("etext") };
        });
        // adds before removes of the same value are refused: order removes first
        edits.sort((a, b) => (a.operation === b.operation ? 0 : a.operation === "remove" ? -1 : 1));
        const f = S.one("path");
        return (v) => et.editTags(v(f), edits.map((e) => mapValue(e, v)));
      },
      deleteAllTags(S) {
        const retain = S.some("name", 0, 3, { bad: true });
        const f = S.one("path");
        return (v) => et.deleteAllTags(v(f), { retain: retain.map(v) });
      },
      extractBinaryTag(S) {
        const t = S.one("tagref");
        const f = S.one("path");
        const o = S.one("out");
        const forceWrite = S.rng.pick([undefined, true, false]);
        return (v) => et.extractBinaryTag(v(t), v(f), v(o), { forceWrite });
      },
      extractThumbnail(S) {
        const m = S.rng.pick(["extractThumbnail", "extractPreview", "extractJpgFromRaw"]);
        const f = S.one("path");
        const o = S.one("out");
        return (v) => et[m](v(f), v(o));
      },
      extractBinaryTagToBuffer(S) {
        const t = S.one("tagref");
        const f = S.one("path");
        return (v) => et.extractBinaryTagToBuffer(v(t), v(f));
      },
      rewriteAllTags(S) {
        const f = S.one("path");
        const o = S.one("out");
        const allowMakerNoteRepair = S.rng.bool();
        return (v) => et.rewriteAllTags(v(f), v(o), { allowMakerNoteRepair });
      },
    };
    const mapValue = (x, v) =>
      x && x.ph ? v(x) : Array.isArray(x) ? x.map((e) => mapValue(e, v)) : x && typeof x === "object" ? Object.fromEntries(Object.entries(x).map(([k, e]) => [k, mapValue(e, v)])) : x;

    const hostileRate = ctx.shard.hostile ?? 0.55;
    function newCall() {
      const method = rng.pick(Object.keys(builders));
      const id = "Q" + uid++ + "Z";
      const slots = [];
      let invalid = false;
      // at most one string that must be refused per call, so that a refusal is attributable
      const wantBad = rng.bool(0.2);
      const S = {
        rng,
        one(kind) {
          let value;
          const ph = `PH${id}n${slots.length}z`;
          const hostile = rng.bool(hostileRate);
          const bad = wantBad && !invalid && rng.bool(0.5);
          switch (kind) {
            case "path":
            case "out": {
              const base = hostile ? G.filename(rng) : G.word(rng);
              value = `${id}${kind === "out" ? "o" : "f"}${base}`;
              if (rng.bool(0.2)) value = path.join(dir, value);
              else if (rng.bool(0.1)) value = "./" + value;
              if (bad) {
                const at = rng.int(id.length + 3, value.length);
                value = value.slice(0, at) + rng.pick(["\n", "\r", "\0", "\r\n", "\n-execute\n", "\n-o\nx"]) + value.slice(at);
              }
              if (badPath(value) || (kind === "out" && copyCode(path.resolve(value)))) invalid = true;
              break;
            }
            case "name":
              value = bad ? rng.pick(BAD_NAME) : rng.pick(GOOD_NAME);
              if (bad) invalid = true;
              break;
            case "wname": {
              value = bad ? rng.pick(rng.bool(0.2) ? IMPORTS : BAD_NAME) : rng.pick(GOOD_NAME.filter((n) => !slots.some((s) => s.value === n)));
              if (bad) invalid = true;
              break;
            }
            case "tagref":
              value = bad ? rng.pick(rng.bool() ? BAD_NAME : OPTIONISH) : rng.pick(["ThumbnailImage", "PreviewImage", "JpgFromRaw", "EXIF:ThumbnailImage", "OtherImage", "ICC_Profile", "thumbnailimage"]);
              if (bad) invalid = true;
              break;
            case "text":
              value = hostile ? G.text(rng) : G.word(rng);
              if (bad) {
                value = value.slice(0, 2) + "\0" + value.slice(2);
                invalid = true;
              }
              break;
            case "etext":
              value = hostile ? G.text(rng, { ok: (s) => !/[\u0000-\u0008\u000b-\u001f\ufdd0-\ufdef\ufffe\uffff]/.test(s) }) : G.word(rng);
              if (bad) {
                value = value + rng.pick(["\0", "\x1f", "\r", "\x0b", "\ufffe", "\ud800"]);
                invalid = true;
              }
              break;
            case "arg":
              value = "-x" + (hostile ? G.text(rng, { ok: (s) => !/[\r\n\0]/.test(s) && !/^[-_0-9A-Z:]*#?\s*[-+<]?=/i.test(s) && !/filter/i.test(s) }) : G.word(rng));
              if (bad) {
                value += rng.pick(["\n", "\r", "\0"]) + "-execute";
                invalid = true;
              }
              break;
          }
          const s = { kind, value, ph: kind === "out" || kind === "path" ? path.join(dir, ph) : kind === "arg" ? "-x" + ph : ph };
          slots.push(s);
          return s;
        },
        some(kind, lo, hi) {
          return rng.times(rng.int(lo, hi), () => S.one(kind));
        },
        hash() {
          const good = rng.pick(["MD5", "SHA256", "SHA512"]);
          const bad = wantBad && !invalid;
          if (bad) invalid = true;
          const s = { kind: "hash", value: bad ? rng.pick(["md5\n-execute", "SHA1", "x", "MD5\n", "MD5 ", "sha256", "MD5=1"]) : good, ph: bad ? "MD5" : good };
          slots.push(s);
          return s;
        },
        value() {
          const k = rng.int(0, 9);
          if (k < 5) return S.one("text");
          if (k < 7) return rng.times(rng.int(1, 4), () => S.one("text"));
          return rng.times(rng.int(1, 2), () => Object.fromEntries(rng.times(rng.int(1, 3), (i) => ["F" + i, rng.bool(0.75) ? S.one("text") : rng.bool() ? rng.times(rng.int(1, 3), () => S.one("text")) : { G: S.one("text") }])));
        },
      };
      const mk = builders[method](S);
      return { id, method, slots, mk, get invalid() { return invalid; } };
    }
    const find = (id) => seen.filter((a) => a.some((x) => x.includes(id)));

    // expected (decoded) twin argument after replacing placeholders by strings
    const cwdOf = (s) => path.resolve(s);
    function compare(call, got, twin) {
      if (got.length !== twin.length) return `argument count ${got.length}, expected ${twin.length}`;
      const sepOf = (a) => a[a.indexOf("-sep") + 1];
      const hasE = got.includes("-E");
      const D = hasE ? unescapeHtml : (s) => s;
      const isEdit = call.method === "editTags";
      for (let i = 0; i < twin.length; i++) {
        const t = twin[i];
        const g = got[i];
        const hits = call.slots.filter((s) => t.includes(s.ph) && s.kind !== "hash");
        if (hits.length === 0) {
          if (g !== t) return `argument ${i} is ${JSON.stringify(g)}, expected ${JSON.stringify(t)}`;
          continue;
        }
        const subst = (str, f = (s) => s.value) => hits.reduce((acc, s) => acc.split(s.ph).join(f(s)), str);
        const slot = hits[0];
        if (slot.kind === "path" && t === slot.ph) {
          if (g !== cwdOf(slot.value)) return `path argument ${JSON.stringify(g)} for ${JSON.stringify(slot.value)}`;
        } else if (slot.kind === "out") {
          const src = got.at(-2).startsWith("/") ? got.at(-2) : got.at(-1);
          const e = expandOutputName(g, src, "Tag");
          if (e !== cwdOf(slot.value)) return `output name ${JSON.stringify(g)} expands to ${JSON.stringify(e)} for ${JSON.stringify(slot.value)}`;
        } else if (["name", "tagref", "arg"].includes(slot.kind)) {
          if (g !== subst(t)) return `argument ${JSON.stringify(g)}, expected ${JSON.stringify(subst(t))}`;
        } else {
          // -NAME=VALUE: the first "=" ends the name
          const tEq = t.indexOf("=");
          const gEq = g.indexOf("=");
          const tName = t.slice(0, tEq + 1);
          if (g.slice(0, gEq + 1) !== subst(tName)) return `assignment ${JSON.stringify(g.slice(0, gEq + 1))}, expected ${JSON.stringify(subst(tName))}`;
          const want = (ph) => {
            const s = call.slots.find((x) => x.ph === ph);
            return s == null ? ph : isEdit ? s.value : unescapeHtml(s.value);
          };
          const sep = sepOf(got);
          const decode = (str, leaf) => {
            const whole = D(str);
            if (leaf.struct) return parseStruct(whole, D);
            // -sep splits the decoded value
            return whole.split(sep);
          };
          const struct = /^[\[{]/.test(t.slice(tEq + 1));
          let a, b;
          try {
            const rawT = t.slice(tEq + 1);
            b = struct ? parseStruct(rawT) : rawT.split(sepOf(twin));
            const deep = (x) => (typeof x === "string" ? want(x) : Array.isArray(x) ? x.map(deep) : Object.fromEntries(Object.entries(x).map(([k, y]) => [k, deep(y)])));
            b = deep(b);
            a = decode(g.slice(gEq + 1), { struct });
          } catch (e) {
            return `value of ${JSON.stringify(g)} cannot be decoded: ${e.message}`;
          }
          if (!isDeepStrictEqual(a, b)) return `value decodes to ${JSON.stringify(a)}, expected ${JSON.stringify(b)}`;
        }
      }
      return undefined;
    }
    const special = (s) => /[^A-Za-z0-9]/.test(s);

    const rounds = ctx.n(40, 300);
    for (let r = 0; r < rounds; r++) {
      const calls = rng.times(ctx.n(220, 300), newCall);
      // twins first, one by one would be slow: identify them by placeholder text
      seen.length = 0;
      await pool(calls, 40, async (c) => {
        const t = await settle(c.mk((s) => s.ph));
        c.twinStatus = t.status;
        c.twinReason = String(t.reason);
      });
      const twins = seen.slice();
      for (const c of calls) {
        const m = twins.filter((a) => a.some((x) => x.includes(`PH${c.id}n`)));
        c.twin = m.length === 1 ? m[0] : undefined;
        // nothing the caller passed may be missing, even from the harmless twin
        if (c.twin) {
          const lost = c.slots.filter((s) => c.twin.filter((x) => (s.kind === "hash" ? x.endsWith("=" + s.ph) : x.includes(s.ph))).length !== 1);
          ctx.check(lost.length === 0, "all-strings-sent", c.method, { lost, command: c.twin });
        }
        if (!ctx.check(c.twinStatus === "fulfilled" && m.length === 1, "benign-call", c.method, { twinStatus: c.twinStatus, reason: c.twinReason, commands: m, slots: c.slots })) c.twin = undefined;
      }
      seen.length = 0;
      await pool(calls, 40, async (c) => {
        c.res = await settle(Promise.resolve().then(() => c.mk((s) => s.value)));
      });
      const sent = seen.slice();
      let claimed = 0;
      for (const c of calls) {
        const mine = sent.filter((a) => a.some((x) => x.includes(c.id)));
        claimed += mine.length;
        const strings = c.slots.map((s) => s.value);
        ctx.saw(strings.some(special) ? c.method + JSON.stringify(strings) : undefined, { method: c.method, strings: strings.map((s) => s.slice(0, 80)), invalid: c.invalid, outcome: c.res.status });
        const detail = () => ({ method: c.method, strings, status: c.res.status, reason: String(c.res.reason), commands: mine, twin: c.twin });
        ctx.count("method:" + c.method);
        if (c.invalid) {
          ctx.count("outcome:rejected");
          ctx.check(c.res.status === "rejected" && mine.length === 0, "unsafe-string-refused", c.method, detail);
        } else if (c.twin) {
          ctx.count("outcome:sent");
          if (!ctx.check(c.res.status === "fulfilled" && mine.length === 1, "one-command-per-call", c.method, detail)) continue;
          const problem = compare(c, mine[0], c.twin);
          ctx.check(problem === undefined, "arguments-intact", c.method, () => ({ problem, ...detail() }));
        }
      }
      ctx.check(claimed === sent.length, "no-stray-commands", "count", { stray: sent.filter((a) => !calls.some((c) => a.some((x) => x.includes(c.id)))).slice(0, 5) });
      // field names of structures: whatever they contain, they make no other field, tag or argument
      for (let k = 0; k < 4; k++) {
        seen.length = 0;
        const id = "K" + uid++ + "Y";
        const key = rng.pick(["F0", "F", ""]) + rng.pick(["=x,G0", "=x}", "=x},{G0", "=[x],G0", ",G0", "|=x|,G0", "&#61;x&#44;G0", "&amp;#61;x", "\n-execute\n", "\n-o\nx", "=x\n-F1", "}", "]", " G0", "#", "é", "=", "={A=b},G0", "=1]}"]) + rng.pick(["", "F1"]);
        const res = await settle(Promise.resolve().then(() => et.write(path.join(dir, id), { "XMP-x:Struct": rng.bool() ? { [key]: id } : [{ [key]: id, H9: "h" }] })));
        const sent = seen.filter((a) => a.some((x) => x.includes(id)));
        const detail = () => ({ key, status: res.status, commands: sent });
        ctx.saw("field/" + key, { field: key, outcome: res.status });
        if (!ctx.check(sent.length <= 1 && seen.length === sent.length, "field-names", "one command", detail) || !sent.length) continue;
        const set = sent[0].filter((x) => /^-XMP-x:Struct/.test(x));
        const alone = set.length === 1 && sent[0].filter((x) => x.includes(id)).length === 2 && sent[0].includes(path.join(dir, id));
        let extra;
        try {
          const whole = unescapeHtml(set[0].slice(set[0].indexOf("=") + 1));
          const v = parseStruct(whole, unescapeHtml);
          for (const o of [v].flat()) if (typeof o === "object") extra = Object.keys(o).find((n) => n !== key.trim() && n !== "H9") ?? extra;
          if ([v].flat().length > 1) extra = "another structure";
        } catch {
          // ExifTool refuses it
        }
        ctx.check(alone && extra === undefined, "field-names", "no other field", () => ({ extra, ...detail() }));
      }
      for (const f of fs.readdirSync(dir)) fs.rmSync(path.join(dir, f), { recursive: true, force: true });
    }
    await settle(et.end(), 20000);
    fleet.killAll();
    if (fleet.failure) throw fleet.failure;
  },
};
