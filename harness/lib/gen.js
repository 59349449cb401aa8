"use strict";
// String generators shared by the checks.
const FRAGMENTS = [
  "a", "Zoë", "x y", "  ", " ", "\t", "\n", "\r\n", "\r", "\v", "\f", "\u00a0", "\u2028", "\u2029", "\u0085", "\u200b", "\ufeff", "\u200f",
  "é", "ß", "漢字", "🎉", "👩‍👩‍👧", "e\u0301", "\ufffd", "𝒳", "ﬁ",
  "-execute", "-execute1", "{ready}", "{ready}\n", "-stay_open\nFalse", "-o /x", "\n-execute\n", "\n-overwrite_original\n", "-", "--", "-all=", "-@",
  "=", "<", "<=", ">", "@", "#", "#[CSTR]", "%d", "%f", "%%", "$", "${Make}", "`", "'", '"', "\\", "\\n", "/", "*", "?", "~", "!", "^", "+",
  "|", "||", ",", ", ", "[", "]", "{", "}", ";", ":", "|,", "{a=b}", "[a,b]", "=b", "a=b,c=d",
  "&", "&amp;", "&lt;", "&gt;", "&quot;", "&#10;", "&#x41;", "&#233;", "&nosuch;", "&amp;amp;", "&#44;", "&#125;", "&#124;", "&;", "&#;",
  "0", "1", "-1", "1e5", "007", "True", "null", "undef", "\u007f", "\u0080", "...", "../x", "C:\\x", "nul", "(Binary data 5 bytes, use -b option to extract)",
];
const isXmlCtl = (s) => /[\u0000-\u0008\u000b\u000c\u000e-\u001f\ufffe\uffff]/.test(s);
/** any text without NUL; `ok` filters fragments */
function text(rng, { max = 5, ok = () => true, nonEmpty = true } = {}) {
  for (;;) {
    let s = "";
    const n = rng.int(nonEmpty ? 1 : 0, max);
    for (let i = 0; i < n; i++) {
      if (rng.bool(0.8)) s += rng.pick(FRAGMENTS);
      else if (rng.bool(0.7)) s += String.fromCharCode(rng.int(0x20, 0x7e));
      else s += String.fromCodePoint(rng.pick([rng.int(0xa0, 0x24f), rng.int(0x370, 0x3ff), rng.int(0x4e00, 0x9fff), rng.int(0x1f300, 0x1f64f), rng.int(0xe000, 0xe0ff)]));
    }
    if (rng.bool(0.01)) s += "y".repeat(rng.int(1000, 20000));
    if ((!nonEmpty || s.length > 0) && ok(s)) return s;
  }
}
const word = (rng, n = rng.int(3, 9)) => rng.times(n, () => rng.pick([..."abcdefghijklmnopqrstuvwxyz"])).join("");
/** a file name component without NUL, slash or line breaks */
function filename(rng, { max = 4, ext = "" } = {}) {
  for (;;) {
    const s = text(rng, { max, ok: (t) => !/[\/\0\r\n]/.test(t) && Buffer.byteLength(t) < 180 });
    if (s !== "." && s !== "..") return s + ext;
  }
}
module.exports = { FRAGMENTS, text, word, filename, isXmlCtl };
