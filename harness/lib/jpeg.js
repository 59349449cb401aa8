"use strict";
// Minimal structurally valid JPEGs, built byte by byte.
const crypto = require("node:crypto");
const seg = (marker, payload) => {
  const h = Buffer.alloc(4);
  h[0] = 0xff;
  h[1] = marker;
  h.writeUInt16BE(payload.length + 2, 2);
  return Buffer.concat([h, payload]);
};
/** entropy-coded stand-in: no 0xff bytes */
function scanData(n, seed) {
  const out = [];
  let i = 0;
  while (out.length < n) {
    for (const b of crypto.createHash("sha256").update(String(seed) + ":" + i++).digest()) {
      if (b !== 0xff && out.length < n) out.push(b);
    }
  }
  return Buffer.from(out);
}
const JFIF = seg(0xe0, Buffer.from([0x4a, 0x46, 0x49, 0x46, 0, 1, 1, 0, 0, 1, 0, 1, 0, 0]));
function jpeg({ seed = "x", size = 200, width = 8, height = 8, segments = [], jfif = true } = {}) {
  const dqt = seg(0xdb, Buffer.concat([Buffer.from([0]), Buffer.alloc(64, 1)]));
  const sof = Buffer.alloc(9 + 0);
  sof[0] = 8;
  sof.writeUInt16BE(height, 1);
  sof.writeUInt16BE(width, 3);
  sof[5] = 1;
  sof[6] = 1;
  sof[7] = 0x11;
  sof[8] = 0;
  const dht = seg(0xc4, Buffer.concat([Buffer.from([0x00]), Buffer.from([1, ...new Array(15).fill(0)]), Buffer.from([0])]));
  const sos = seg(0xda, Buffer.from([1, 1, 0, 0, 63, 0]));
  return Buffer.concat([
    Buffer.from([0xff, 0xd8]),
    ...(jfif ? [JFIF] : []),
    ...segments,
    dqt,
    seg(0xc0, sof),
    dht,
    sos,
    scanData(size, seed),
    Buffer.from([0xff, 0xd9]),
  ]);
}
const exifSegment = (tiff) => seg(0xe1, Buffer.concat([Buffer.from("Exif\0\0", "latin1"), tiff]));
const xmpSegment = (xml) => seg(0xe1, Buffer.concat([Buffer.from("http://ns.adobe.com/xap/1.0/\0", "latin1"), Buffer.from(xml)]));

/** the bytes from SOS on: what decoders show; metadata writes must not touch it */
function imageData(buf) {
  let i = 2;
  while (i < buf.length) {
    if (buf[i] !== 0xff) throw new Error("bad jpeg at " + i);
    const mk = buf[i + 1];
    if (mk === 0xda) return buf.subarray(i);
    i += 2 + buf.readUInt16BE(i + 2);
  }
  throw new Error("no SOS");
}
/**
 * Little-endian TIFF (EXIF) writer. ifd0/exif/gps: {tagId: {type, values|bytes}}.
 * types: 1 byte, 2 ascii, 3 short, 4 long, 5 rational, 7 undef, 9 slong, 10 srational.
 */
function tiff({ ifd0 = {}, exif = {}, gps = {}, ifd1 = {}, thumb } = {}) {
  const sizeOf = { 1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 7: 1, 9: 4, 10: 8 };
  const enc = (e) => {
    if (e.bytes) return { type: e.type, count: e.bytes.length / sizeOf[e.type], data: e.bytes };
    const v = e.values;
    const b = Buffer.alloc(v.length * sizeOf[e.type]);
    v.forEach((x, i) => {
      const o = i * sizeOf[e.type];
      if (e.type === 3) b.writeUInt16LE(x, o);
      else if (e.type === 4) b.writeUInt32LE(x, o);
      else if (e.type === 9) b.writeInt32LE(x, o);
      else if (e.type === 5) (b.writeUInt32LE(x[0], o), b.writeUInt32LE(x[1], o + 4));
      else if (e.type === 10) (b.writeInt32LE(x[0], o), b.writeInt32LE(x[1], o + 4));
      else b[o] = x;
    });
    return { type: e.type, count: v.length, data: b };
  };
  const chunks = [];
  let off = 8;
  const layout = (ifd, next) => {
    const ids = Object.keys(ifd).map(Number).sort((a, b) => a - b);
    const start = off;
    const dirLen = 2 + ids.length * 12 + 4;
    let dataOff = start + dirLen;
    const dir = Buffer.alloc(dirLen);
    dir.writeUInt16LE(ids.length, 0);
    const datas = [];
    ids.forEach((id, i) => {
      const e = enc(ifd[id]);
      const o = 2 + i * 12;
      dir.writeUInt16LE(id, o);
      dir.writeUInt16LE(e.type, o + 2);
      dir.writeUInt32LE(e.count, o + 4);
      if (e.data.length <= 4) e.data.copy(dir, o + 8);
      else {
        dir.writeUInt32LE(dataOff, o + 8);
        const pad = e.data.length % 2 ? Buffer.concat([e.data, Buffer.alloc(1)]) : e.data;
        datas.push(pad);
        dataOff += pad.length;
      }
    });
    const all = Buffer.concat([dir, ...datas]);
    chunks.push({ start, buf: all, nextAt: dirLen - 4 });
    off = start + all.length;
    return chunks[chunks.length - 1];
  };
  const i0 = { ...ifd0 };
  const hasExif = Object.keys(exif).length > 0;
  const hasGps = Object.keys(gps).length > 0;
  // reserve pointers, fix afterwards
  if (hasExif) i0[0x8769] = { type: 4, values: [0] };
  if (hasGps) i0[0x8825] = { type: 4, values: [0] };
  const c0 = layout(i0);
  const fix = (id, v) => {
    const n = c0.buf.readUInt16LE(0);
    for (let i = 0; i < n; i++) if (c0.buf.readUInt16LE(2 + i * 12) === id) c0.buf.writeUInt32LE(v, 2 + i * 12 + 8);
  };
  if (hasExif) fix(0x8769, layout(exif).start);
  if (hasGps) fix(0x8825, layout(gps).start);
  if (thumb) {
    const i1 = { ...ifd1, 0x103: { type: 3, values: [6] }, 0x201: { type: 4, values: [0] }, 0x202: { type: 4, values: [thumb.length] } };
    const c1 = layout(i1);
    c0.buf.writeUInt32LE(c1.start, c0.nextAt);
    const n = c1.buf.readUInt16LE(0);
    for (let i = 0; i < n; i++) if (c1.buf.readUInt16LE(2 + i * 12) === 0x201) c1.buf.writeUInt32LE(off, 2 + i * 12 + 8);
    chunks.push({ start: off, buf: thumb });
    off += thumb.length;
  }
  const h = Buffer.alloc(8);
  h.write("II", 0, "latin1");
  h.writeUInt16LE(42, 2);
  h.writeUInt32LE(8, 4);
  return Buffer.concat([h, ...chunks.map((c) => c.buf)]);
}
const ascii = (s) => ({ type: 2, bytes: Buffer.concat([Buffer.isBuffer(s) ? s : Buffer.from(s), Buffer.alloc(1)]) });
module.exports = { jpeg, seg, exifSegment, xmpSegment, imageData, tiff, ascii };
