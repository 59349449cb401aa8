"use strict";
// Minimal valid PNGs.
const zlib = require("node:zlib");
const crypto = require("node:crypto");
const SIG = Buffer.from([0x89, 0x50, 0x4e, 0x47, 0x0d, 0x0a, 0x1a, 0x0a]);
function chunk(type, data) {
  const b = Buffer.alloc(12 + data.length);
  b.writeUInt32BE(data.length, 0);
  b.write(type, 4, "latin1");
  data.copy(b, 8);
  b.writeUInt32BE(zlib.crc32(b.subarray(4, 8 + data.length)), 8 + data.length);
  return b;
}
function png({ seed = "x", width = 16, height = 12 } = {}) {
  const h = Buffer.alloc(13);
  h.writeUInt32BE(width, 0);
  h.writeUInt32BE(height, 4);
  h[8] = 8;
  const rows = [];
  for (let y = 0; y < height; y++) rows.push(Buffer.from([0]), crypto.createHash("sha256").update(seed + y).digest().subarray(0, width));
  return Buffer.concat([SIG, chunk("IHDR", h), chunk("IDAT", zlib.deflateSync(Buffer.concat(rows))), chunk("IEND", Buffer.alloc(0))]);
}
function imageData(buf) {
  if (!buf.subarray(0, 8).equals(SIG)) throw new Error("not a png");
  const out = [];
  for (let i = 8; i < buf.length; ) {
    const n = buf.readUInt32BE(i);
    const type = buf.toString("latin1", i + 4, i + 8);
    if (type === "IHDR" || type === "IDAT" || type === "IEND") out.push(buf.subarray(i, i + 12 + n));
    i += 12 + n;
  }
  return Buffer.concat(out);
}
module.exports = { png, imageData };
