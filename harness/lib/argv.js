"use strict";
// ExifTool's reading of the arguments it receives (an independent model).
const NAMED = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", eacute: "é", nbsp: "\u00a0" };
/** Image::ExifTool::HTML::UnescapeHTML */
function unescapeHtml(s) {
  return s.replace(/&(#?[A-Za-z0-9_]+);/g, (m, e) => {
    if (e[0] === "#") {
      const n = /^#x[0-9a-fA-F]+$/i.test(e) ? parseInt(e.slice(2), 16) : /^#\d+$/.test(e) ? parseInt(e.slice(1), 10) : NaN;
      return Number.isFinite(n) && n <= 0x10ffff && !(n >= 0xd800 && n <= 0xdfff) ? String.fromCodePoint(n) : m;
    }
    return Object.hasOwn(NAMED, e) ? NAMED[e] : m;
  });
}
/** XMPStruct.pl InflateStruct: "{k=v,...}" and "[...]"; | escapes */
function parseStruct(str, leaf = (s) => s) {
  let i = 0;
  const ws = () => {
    while (i < str.length && /[ \t\r\n\f\v]/.test(str[i])) i++;
  };
  const scalar = () => {
    let s = "";
    while (i < str.length && !",]}".includes(str[i])) {
      if (str[i] === "|") {
        i++;
        if (i < str.length) s += str[i++];
      } else s += str[i++];
    }
    return leaf(s);
  };
  const value = () => {
    ws();
    if (str[i] === "{") {
      i++;
      const o = {};
      for (;;) {
        ws();
        const m = /^([-A-Za-z0-9_:]+#?)[ \t\r\n\f\v]*=/.exec(str.slice(i));
        if (!m) break;
        i += m[0].length;
        o[m[1]] = value();
        if (str[i] === ",") i++;
        else break;
      }
      ws();
      if (str[i] !== "}") throw new Error("unterminated structure at " + i);
      i++;
      ws();
      return o;
    }
    if (str[i] === "[") {
      i++;
      const a = [];
      for (;;) {
        a.push(value());
        if (str[i] === ",") i++;
        else break;
      }
      ws();
      if (str[i] !== "]") throw new Error("unterminated list at " + i);
      i++;
      ws();
      return a;
    }
    return scalar();
  };
  const v = value();
  if (i !== str.length) throw new Error("text after the structure: " + JSON.stringify(str.slice(i, i + 40)));
  return v;
}
/** FilenameSPrintf + NextUnusedFilename of the output name format for source `src` */
function expandOutputName(fmt, src, tag = "") {
  const m = /^(.*?)([^/]*?)(\.[^./]*)?$/s.exec(src);
  const part = { d: m[1], f: m[2], E: m[3] ?? "", e: (m[3] ?? "").slice(1), F: m[2] + (m[3] ?? ""), D: m[1].replace(/\/+$/, ""), t: tag, g: "GROUP", s: "SUGG", o: "ORIG" };
  const out = fmt.replace(/%([-+]?)(\d*)([.:]?)(\d*)([lu]?)([dDfFeEtgso])/g, (all, sign, wid, dot, skip, mod, code) => {
    const p = part[code];
    let sk = Number(skip || 0);
    if (sk >= p.length) return "";
    let w = wid === "" || Number(wid) + sk > p.length ? p.length - sk : Number(wid);
    if (sign === "-") sk = p.length - w - sk;
    return p.slice(sk, sk + w);
  });
  if (/%[-+]?\d*[.:]?\d*[lun]?[cC]/.test(out)) return out.replace(/%[-+]?\d*[.:]?\d*[lun]?[cC]/g, "");
  return out;
}
module.exports = { unescapeHtml, parseStruct, expandOutputName };
