"use strict";
// Writes /verif/known-findings.json: node tools/findings.src.js
const fs = require("node:fs"), path = require("node:path"), cp = require("node:child_process");
const log = cp.execFileSync("git", ["-C", "/repo", "log", "--format=%h %s"], { encoding: "utf8" }).trim().split("\n");
const P = [
  ["C02", "don't mistake {ready}", "metadata, a file name or stderr text containing {ready} ended a response early and shifted all later responses of that child"],
  ["C02", "decode child output as a UTF-8 stream", "a multi-byte character cut by a chunk boundary of the child's output was read as U+FFFD"],
  ["C05", "preserve leading whitespace", "write() of a value with leading whitespace stored it without that whitespace"],
  ["C05", "encode lists inside of structs", "write() of a struct with a list field lost items and following fields"],
  ["C20", "don't mutate the tags object", "write() of GPS tags added reference tags to (or removed them from) the caller's tags object"],
  ["C20", "snapshot tags and edits", "changes the caller made to tags or edits after write()/editTags() returned were sent"],
  ["C12", "recognize IANA zone names", "IANA zones with a hyphen or plus sign in their name (America/Port-au-Prince, Etc/GMT+5) were not recognised as a text suffix"],
  ["C11", "ExifTime.setZone() reports", "ExifTime.setZone() kept reporting the zone it came from"],
  ["C10", "only accept \"Z\" as a zone suffix", "any text with a Z anywhere (\"Zaza\") was taken for a UTC suffix"],
  ["C16", "take percent signs in output paths", "percent signs in the destination of an extraction or rewrite were expanded as ExifTool format codes, so another file was written"],
  ["C05", "don't let HTML entities in struct", "HTML entities in struct fields decoded to struct delimiters and split the struct"],
  ["C05", "write lists of dates and booleans", "a list of ExifDateTime or boolean values was written as one JSON-like text"],
  ["C01", "don't take tag names that are ExifTool options", "tag names that are ExifTool option names (csv, json, execute, stay_open …) were sent as options"],
  ["C19", "only take binary data placeholders", "any text containing a binary-data placeholder was replaced by a BinaryField"],
  ...(fs.existsSync(path.join(__dirname, "findings.more.json")) ? JSON.parse(fs.readFileSync(path.join(__dirname, "findings.more.json"), "utf8")) : []),
];
const findings = [];
for (const [property, match, what] of P) {
  const l = log.find((x) => x.includes("fix: " + match));
  if (!l) throw new Error("no commit for " + match);
  const commit = l.split(" ")[0];
  findings.push({ property, status: "fixed", commit, what, line: `fixed: property=${property} ${commit} ${what}` });
}
const known = fs.existsSync(path.join(__dirname, "findings.known.json")) ? JSON.parse(fs.readFileSync(path.join(__dirname, "findings.known.json"), "utf8")) : [];
fs.writeFileSync(path.resolve(__dirname, "../known-findings.json"), JSON.stringify({ findings: [...findings, ...known] }, null, 1) + "\n");
