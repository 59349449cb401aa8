From 34eadd49303ef4f32c4c9681aa121edc4ae1412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:51 +0000
Subject: [PATCH 01/62] fix: don't mistake {ready} in metadata, filenames, or
 stderr for the end of a response

---
 src/DefaultExifToolOptions.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/DefaultExifToolOptions.ts b/src/DefaultExifToolOptions.ts
index a330767..d565dff 100644
--- a/src/DefaultExifToolOptions.ts
+++ b/src/DefaultExifToolOptions.ts
@@ -60,8 +60,11 @@ export const DefaultExifToolOptions: Omit<
   exiftoolArgs: DefaultExiftoolArgs,
   exiftoolEnv: {},
   checkPerl: !isWin32(),
-  pass: "{ready}",
-  fail: "{ready}",
+  // ExifTool emits "{ready}\n" as the last bytes of every response, and only to
+  // stdout. Metadata values, filenames, and stderr messages may contain that
+  // text as well, and must not be mistaken for the end of a response:
+  pass: /\{ready\}\r?\n$/,
+  fail: /^\{ready\}\r?\n/m,
   exitCommand: "-stay_open\nFalse\n",
   versionCommand: new VersionTask().command,
   healthCheckIntervalMillis: 30000,
-- 
2.43.0


From 1a79e6f98cd46fb32241489ef6870f6442840290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:22 +0000
Subject: [PATCH 02/62] fix: decode child output as a UTF-8 stream, so
 characters split across chunks survive

---
 src/ExifTool.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 4eb6ea3..648ccba 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -279,7 +279,7 @@ export class ExifTool {
     // Allow callers to provide a custom processFactory (e.g., for Flatpak
     // sandboxes that need flatpak-spawn --host). If not provided, use the
     // default factory that spawns perl directly.
-    const processFactory =
+    const spawnProcess =
       options.processFactory ??
       (async () =>
         ignoreShebang
@@ -290,6 +290,14 @@ export class ExifTool {
             )
           : _cp.spawn(await this.exiftoolPath(), o.exiftoolArgs, spawnOpts));
 
+    const processFactory = async () => {
+      const proc = await spawnProcess();
+      // Decode as a stream: multi-byte characters may straddle chunk boundaries
+      proc.stdout?.setEncoding("utf8");
+      proc.stderr?.setEncoding("utf8");
+      return proc;
+    };
+
     this.options = {
       ...o,
       ignoreShebang,
-- 
2.43.0


From 4952d480ebbb8a3f209fed949da755510bba270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:55 +0000
Subject: [PATCH 03/62] fix: preserve leading whitespace of values passed to
 write()

---
 src/WriteTask.ts | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 10aa6b2..25a89f2 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -45,18 +45,15 @@ function enc(
     // Structs need their own escaping here.
     // See https://exiftool.org/struct.html#Serialize
     const structurallyEscaped = structValue
-      ? (htmlDecodeLayers > 0 && /^\s/.test(o) ? "|" : "") +
+      ? (/^\s/.test(o) ? "|" : "") +
         o.replace(/[,[\]{}|]/g, (ea) => "|" + ea)
       : o;
     let entityProtected = structurallyEscaped;
     for (let i = 0; i < htmlDecodeLayers; i++) {
       entityProtected = entityProtected.replace(/&/g, "&#38;");
     }
-    if (
-      !structValue &&
-      htmlDecodeLayers > 0 &&
-      entityProtected.startsWith(" ")
-    ) {
+    // ExifTool drops a single space that follows the "=" of an argument:
+    if (!structValue && entityProtected.startsWith(" ")) {
       entityProtected = "&#32;" + entityProtected.slice(1);
     }
     return htmlEncode(entityProtected);
-- 
2.43.0


From 9275f65ed56fce6748ffe79e5a54fa7fccab22bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:07 +0000
Subject: [PATCH 04/62] fix: encode lists inside of structs so items and
 following fields aren't lost

---
 src/WriteTask.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 25a89f2..fd32e91 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -61,9 +61,10 @@ function enc(
     return toExifString(o);
   } else if (Array.isArray(o)) {
     const primitiveArray = o.every((ea) => isString(ea) || isNumber(ea));
-    return primitiveArray
+    // ExifTool doesn't apply `-sep` to lists inside of structs:
+    return primitiveArray && !structValue
       ? `${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(sep)}`
-      : `[${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(",")}]`;
+      : `[${o.map((ea) => enc(ea, true, htmlDecodeLayers)).join(",")}]`;
   } else if (isStruct(o)) {
     // See https://exiftool.org/struct.html#Serialize
     return `{${keys(o)
-- 
2.43.0


From c4417e38d0e63c89825753f06252de5c25107a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:54 +0000
Subject: [PATCH 05/62] fix: don't mutate the tags object passed to write()

---
 src/WriteTask.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index fd32e91..29e8b74 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -164,6 +164,10 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
 
     // See https://exiftool.org/TagNames/GPS.html
 
+    // Don't add derived tags to the caller's object: they'd be stale if the
+    // object is reused with different coordinates.
+    ({ ...tags } = tags);
+
     if (isNumber(tags.GPSLatitude)) {
       // ExifTool will also accept a number when writing GPSLatitudeRef,
       // positive for north latitudes or negative for south, or a string
-- 
2.43.0


From 311c82e7ac9d708a9f73328f63f19087c34bfc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:56 +0000
Subject: [PATCH 06/62] fix: snapshot tags and edits when write() and
 editTags() are called

---
 src/ExifTool.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 648ccba..ddd666f 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -831,8 +831,11 @@ export class ExifTool {
    */
   enqueueTask<T>(task: () => ExifToolTask<T>, retriable = true): Promise<T> {
     const f = async () => {
+      // Build the task before yielding, so callers can't change what's sent by
+      // mutating tags, edits, or options after the call:
+      const t = task();
       await this.#checkForPerl();
-      return this.batchCluster.enqueueTask(task());
+      return this.batchCluster.enqueueTask(t);
     };
     return retriable ? retryOnReject(f, this.options.taskRetries) : f();
   }
-- 
2.43.0


From 28e4949d66e73087ac3039d6c9d6abcdefaf44f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:04 +0000
Subject: [PATCH 07/62] fix: recognize IANA zone names with hyphens or plus
 signs

---
 src/Timezones.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 7180b4a..c162dcc 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -431,8 +431,8 @@ export const defaultVideosToUTC = "defaultVideosToUTC";
 
 // https://en.wikipedia.org/wiki/List_of_tz_database_time_zones -- note that
 // "WET" and "W-SU" are full TZs (!!!), and "America/Indiana/Indianapolis" is
-// also a thing.
-const IanaFormatRE = /^\w{2,15}(?:\/\w{3,15}){0,2}$/;
+// also a thing, as are "America/Port-au-Prince" and "Etc/GMT+2".
+const IanaFormatRE = /^\w[\w-]{1,14}(?:\/[\w+-]{3,15}){0,2}$/;
 
 /**
  * Regex for parsing timezone offset strings.
-- 
2.43.0


From f59c004144349e02cfc061e2edf3c8562482b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:39 +0000
Subject: [PATCH 08/62] fix: ExifTime.setZone() reports the zone it moved to

---
 src/ExifTime.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExifTime.ts b/src/ExifTime.ts
index 491e734..9094b01 100644
--- a/src/ExifTime.ts
+++ b/src/ExifTime.ts
@@ -120,7 +120,7 @@ export class ExifTime {
     return ExifTime.fromDateTime(
       dt,
       this.rawValue,
-      this.zone,
+      getZoneName({ zone: dt.zone }),
       this.inferredZone,
       this.millisecond == null,
     );
-- 
2.43.0


From 13c5ba059dbc2fc691bc7ab9ba9756feeffa40a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:39 +0000
Subject: [PATCH 09/62] fix: only accept "Z" as a zone suffix at the end of the
 text

---
 src/Timezones.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index c162dcc..b9c983e 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -809,7 +809,7 @@ function tzHourToOffset(n: unknown): Maybe<string> {
 // "+02:00", and "+0200" (ISO 8601 basic format). Also accepts seconds like
 // "-00:25:21" for archaic offsets. Handles Unicode minus (−, U+2212).
 const tzRe =
-  /(?<Z>Z)|((UTC)?(?<sign>[+−-])(?<hours>\d\d?)(?::?(?<minutes>\d\d)(?::(?<seconds>\d\d))?)?)$/;
+  /(?:(?<Z>Z)|((UTC)?(?<sign>[+−-])(?<hours>\d\d?)(?::?(?<minutes>\d\d)(?::(?<seconds>\d\d))?)?))$/;
 
 export interface TzSrc {
   /**
-- 
2.43.0


From f82b958dd4ab072bf07dc80fdbb36984b93db953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:07 +0000
Subject: [PATCH 10/62] fix: take percent signs in output paths literally

---
 src/BinaryExtractionTask.ts |  4 +++-
 src/File.ts                 | 18 ++++++++++++++++++
 src/RewriteAllTagsTask.ts   |  3 ++-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/BinaryExtractionTask.ts b/src/BinaryExtractionTask.ts
index 5f71225..bcbe086 100644
--- a/src/BinaryExtractionTask.ts
+++ b/src/BinaryExtractionTask.ts
@@ -2,6 +2,7 @@ import { mkdirSync } from "node:fs";
 import path from "node:path";
 import { ExifToolOptions } from "./ExifToolOptions";
 import { ExifToolTask } from "./ExifToolTask";
+import { toOutputFormat } from "./File";
 import { Utf8FilenameCharsetArgs } from "./FilenameCharsetArgs";
 import { Maybe } from "./Maybe";
 import { toS } from "./String";
@@ -39,6 +40,7 @@ export class BinaryExtractionTask extends ExifToolTask<Maybe<string>> {
     options?: BinaryExtractionTaskOptions,
   ): BinaryExtractionTask {
     validateTagName(tagname);
+    const dest = toOutputFormat(path.resolve(imgDest));
     // Ensure the destination directory exists:
     mkdirSync(path.dirname(imgDest), { recursive: true });
 
@@ -58,7 +60,7 @@ export class BinaryExtractionTask extends ExifToolTask<Maybe<string>> {
       // I also tried `-out` instead of `-W`, and that didn't work at least on
       // ExifTool 13.17.
       forceWrite ? "-W!" : "-W",
-      path.resolve(imgDest),
+      dest,
       path.resolve(imgSrc),
     ];
     return new BinaryExtractionTask(args, options);
diff --git a/src/File.ts b/src/File.ts
index 1df91eb..bd4e040 100644
--- a/src/File.ts
+++ b/src/File.ts
@@ -49,3 +49,21 @@ export function compareFilePaths(a: string, b: string): boolean {
     ? aNorm === bNorm
     : aNorm.localeCompare(bNorm, undefined, { sensitivity: "base" }) === 0;
 }
+
+/**
+ * ExifTool expands `%` format codes in the output file names given to `-W` and
+ * `-out`.
+ * @param path - the output file path, to be taken literally
+ * @returns the ExifTool format string that ExifTool expands to `path`
+ * @throws if `path` includes a copy number code, which cannot be escaped
+ */
+export function toOutputFormat(path: string): string {
+  if (/%[-+]?\d*[.:]?\d*[lun]?c/i.test(path)) {
+    throw new Error(
+      "ExifTool does not support output paths with copy number codes: " + path,
+    );
+  }
+  // ExifTool doesn't have an escaped percent sign, but a percent sign followed
+  // by a zero-width "%f" isn't a code.
+  return path.replaceAll("%", "%%0f");
+}
diff --git a/src/RewriteAllTagsTask.ts b/src/RewriteAllTagsTask.ts
index 61a4d9d..e02930a 100644
--- a/src/RewriteAllTagsTask.ts
+++ b/src/RewriteAllTagsTask.ts
@@ -1,6 +1,7 @@
 import * as _path from "node:path";
 import { compact } from "./Array";
 import { ExifToolTask, ExifToolTaskOptions } from "./ExifToolTask";
+import { toOutputFormat } from "./File";
 import { Utf8FilenameCharsetArgs } from "./FilenameCharsetArgs";
 
 /**
@@ -35,7 +36,7 @@ export class RewriteAllTagsTask extends ExifToolTask<void> {
       "-icc_profile",
       opts.allowMakerNoteRepair ? "-F" : undefined,
       "-out",
-      _path.resolve(imgDest),
+      toOutputFormat(_path.resolve(imgDest)),
       _path.resolve(imgSrc),
     ]);
     return new RewriteAllTagsTask(args, opts);
-- 
2.43.0


From 46446b5d4d8debc23db33117b89bceaf3778a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:39 +0000
Subject: [PATCH 11/62] fix: don't let HTML entities in struct fields become
 struct delimiters

---
 src/WriteTask.ts | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 29e8b74..ac7b1ef 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -59,20 +59,26 @@ function enc(
     return htmlEncode(entityProtected);
   } else if (isDateOrTime(o)) {
     return toExifString(o);
-  } else if (Array.isArray(o)) {
+  }
+
+  // ExifTool decodes entities before it parses a serialized structure, and then
+  // again for each field: an entity must not turn into a delimiter.
+  const fieldDecodeLayers = Math.max(1, htmlDecodeLayers);
+
+  if (Array.isArray(o)) {
     const primitiveArray = o.every((ea) => isString(ea) || isNumber(ea));
     // ExifTool doesn't apply `-sep` to lists inside of structs:
     return primitiveArray && !structValue
       ? `${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(sep)}`
-      : `[${o.map((ea) => enc(ea, true, htmlDecodeLayers)).join(",")}]`;
+      : `[${o.map((ea) => enc(ea, true, fieldDecodeLayers)).join(",")}]`;
   } else if (isStruct(o)) {
     // See https://exiftool.org/struct.html#Serialize
     return `{${keys(o)
       .map(
         (k) =>
-          enc(k, true, htmlDecodeLayers) +
+          enc(k, true, fieldDecodeLayers) +
           "=" +
-          enc(o[k], true, htmlDecodeLayers),
+          enc(o[k], true, fieldDecodeLayers),
       )
       .join(",")}}`;
   } else {
-- 
2.43.0


From e62b2427fb69610a7d2419f8926914c2c78cca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:53 +0000
Subject: [PATCH 12/62] fix: write lists of dates and booleans as lists

---
 src/WriteTask.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index ac7b1ef..8bffe07 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -45,8 +45,7 @@ function enc(
     // Structs need their own escaping here.
     // See https://exiftool.org/struct.html#Serialize
     const structurallyEscaped = structValue
-      ? (/^\s/.test(o) ? "|" : "") +
-        o.replace(/[,[\]{}|]/g, (ea) => "|" + ea)
+      ? (/^\s/.test(o) ? "|" : "") + o.replace(/[,[\]{}|]/g, (ea) => "|" + ea)
       : o;
     let entityProtected = structurallyEscaped;
     for (let i = 0; i < htmlDecodeLayers; i++) {
@@ -66,7 +65,13 @@ function enc(
   const fieldDecodeLayers = Math.max(1, htmlDecodeLayers);
 
   if (Array.isArray(o)) {
-    const primitiveArray = o.every((ea) => isString(ea) || isNumber(ea));
+    const primitiveArray = o.every(
+      (ea) =>
+        isString(ea) ||
+        isNumber(ea) ||
+        typeof ea === "boolean" ||
+        isDateOrTime(ea),
+    );
     // ExifTool doesn't apply `-sep` to lists inside of structs:
     return primitiveArray && !structValue
       ? `${o.map((ea) => enc(ea, false, htmlDecodeLayers)).join(sep)}`
-- 
2.43.0


From b5f215ee41904cbcc6bfb55ba8cdcb981f0f1616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:36 +0000
Subject: [PATCH 13/62] fix: don't take tag names that are ExifTool options for
 tag references

---
 src/BinaryExtractionTask.ts |  4 ++--
 src/BinaryToBufferTask.ts   |  4 ++--
 src/TagNameValidation.ts    | 45 +++++++++++++++++++++++++++++++++++++
 3 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/src/BinaryExtractionTask.ts b/src/BinaryExtractionTask.ts
index bcbe086..f623ac7 100644
--- a/src/BinaryExtractionTask.ts
+++ b/src/BinaryExtractionTask.ts
@@ -6,7 +6,7 @@ import { toOutputFormat } from "./File";
 import { Utf8FilenameCharsetArgs } from "./FilenameCharsetArgs";
 import { Maybe } from "./Maybe";
 import { toS } from "./String";
-import { validateTagName } from "./TagNameValidation";
+import { validateExtractedTagName } from "./TagNameValidation";
 
 export type BinaryExtractionTaskOptions = Pick<
   ExifToolOptions,
@@ -39,7 +39,7 @@ export class BinaryExtractionTask extends ExifToolTask<Maybe<string>> {
     imgDest: string,
     options?: BinaryExtractionTaskOptions,
   ): BinaryExtractionTask {
-    validateTagName(tagname);
+    validateExtractedTagName(tagname);
     const dest = toOutputFormat(path.resolve(imgDest));
     // Ensure the destination directory exists:
     mkdirSync(path.dirname(imgDest), { recursive: true });
diff --git a/src/BinaryToBufferTask.ts b/src/BinaryToBufferTask.ts
index 28bf4c1..a3da539 100644
--- a/src/BinaryToBufferTask.ts
+++ b/src/BinaryToBufferTask.ts
@@ -3,7 +3,7 @@ import { ExifToolTask, ExifToolTaskOptions } from "./ExifToolTask";
 import { Utf8FilenameCharsetArgs } from "./FilenameCharsetArgs";
 import { Maybe } from "./Maybe";
 import { notBlank } from "./String";
-import { validateTagName } from "./TagNameValidation";
+import { validateExtractedTagName } from "./TagNameValidation";
 
 /**
  * Task that returns an error string (to prevent retries), or undefined if
@@ -23,7 +23,7 @@ export class BinaryToBufferTask extends ExifToolTask<Buffer | Error> {
     imgSrc: string,
     options?: ExifToolTaskOptions,
   ): BinaryToBufferTask {
-    validateTagName(tagname);
+    validateExtractedTagName(tagname);
     const args = [...Utf8FilenameCharsetArgs, "-json", "-b", "-" + tagname];
     args.push(path.resolve(imgSrc));
     return new BinaryToBufferTask(tagname, args, options);
diff --git a/src/TagNameValidation.ts b/src/TagNameValidation.ts
index e1d8585..bd2ba14 100644
--- a/src/TagNameValidation.ts
+++ b/src/TagNameValidation.ts
@@ -21,6 +21,36 @@
  */
 const ValidTagNameRE = /^[A-Za-z0-9_:*?+#^][A-Za-z0-9_:\-*?+#^]*$/;
 
+/**
+ * ExifTool imports the file named by VALUE if given `-NAME=VALUE` with one of
+ * these names.
+ */
+const ImportOptionRE = /^(?:csv|j|json|(?:add|all)?tagsfromfile)\+?$/i;
+
+/**
+ * ExifTool takes `-NAME` as an option, and not as a tag, with these names. Note
+ * that `-execute` would end the command.
+ */
+const OptionRE = new RegExp(
+  `^(?:[^*]|${[
+    "(?:add|all)?tagsfromfile|api|arg(?:s|format)|binary|charset|common_args",
+    "composite|config|coordformat|csv|csvdelim|dateformat|decimal",
+    "delete_original|diff|duplicates|e[chex]|echo\\d?|efile\\d*|ee\\d+",
+    "escape(?:c|html|xml)|exclude|execute\\d*|ext(?:ension)?\\+?",
+    "extractembedded\\d*|f[-+]?\\d*|fast\\d*|file\\d+|fileorder\\d*",
+    "fixbase[-+]?\\d*|forceprint|g(?:roup(?:headings|names))?[\\d:]*|geotag",
+    "globaltimeshift|hex|htmldump(?:[-+]?\\d+)?|htmlformat|if\\d*|ignore",
+    "ignoreminorerrors|json|lang|latin|list(?:[wfrdx]|wf|g\\d*|geo)?|list_dir",
+    "listitem|long|nop|out|overwrite_original(?:_in_place)?|password|pause|php",
+    "plot|preserve|printconv|(?:p|printformat)-?|progress\\d*(?::.*)?|purge\\d*",
+    "quiet|recurse|restore_original|s(?:hort)?\\d*|scanforxmp|sep(?:arator)?",
+    "sort|srcfile|stay_open|struct|tab|table|(?:w|tagout|textout)\\+*",
+    "tagoutext|wext|unknown2?|use|userparam|v(?:erbose)?\\d*|ver|veryshort|wm",
+    "writemode|xmlformat|zip",
+  ].join("|")})$`,
+  "i",
+);
+
 /**
  * Throw if `name` is not a safe ExifTool tag reference.
  *
@@ -39,4 +69,19 @@ export function validateTagName(name: string, context = "tag name"): void {
         `Tag names must match ${ValidTagNameRE}.`,
     );
   }
+  if (ImportOptionRE.test(name)) throw optionError(name, context);
+}
+
+/**
+ * Throw if `-${name}` is not a safe reference to a tag to be extracted.
+ */
+export function validateExtractedTagName(name: string): void {
+  validateTagName(name);
+  if (OptionRE.test(name)) throw optionError(name, "tag name");
+}
+
+function optionError(name: string, context: string): Error {
+  return new Error(
+    `Invalid ${context}: ${JSON.stringify(name)} is an ExifTool option.`,
+  );
 }
-- 
2.43.0


From ab9b6a040c1cd17e53ea0b358666f9b30ee841e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:11 +0000
Subject: [PATCH 14/62] fix: only take binary data placeholders for binary
 fields

---
 src/BinaryField.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BinaryField.ts b/src/BinaryField.ts
index b1a52aa..5467516 100644
--- a/src/BinaryField.ts
+++ b/src/BinaryField.ts
@@ -6,7 +6,7 @@ const BinaryFieldRE =
   // 1000000000 bytes is 1 GB. The largest binary field I've seen is ~5 MB (7
   // chars): 10 chars is absurdly large, and is just to avoid the
   // `js/polynomial-redos` eslint rule.
-  /Binary(?: data)? (\d{1,10}) bytes/i;
+  /^\(?Binary(?: data)? (\d{1,10}) bytes(?:, use -b option to extract)?\)?$/i;
 
 /**
  * Represents a binary field in the Exif data.
-- 
2.43.0


From d3dd0c1a15a69be4aa4a9a2599db72b8a1c6e5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:11 +0000
Subject: [PATCH 15/62] fix: asyncDispose waits for an end() that is already in
 progress

---
 src/ExifTool.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index ddd666f..8e94565 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -997,6 +997,9 @@ export class ExifTool {
       } finally {
         if (timeoutHandle != null) clearTimeout(timeoutHandle);
       }
+    } else {
+      // a prior .end() may still be in progress:
+      await this.end();
     }
   }
 }
-- 
2.43.0


From 60daf06832160010bf02b6a64dd77daec95a936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:22 +0000
Subject: [PATCH 16/62] fix: write tiny altitudes without an exponent, which
 ExifTool misreads

---
 src/WriteTask.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 8bffe07..8ad9fab 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -208,6 +208,10 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
       // ExifTool will also accept number when writing this tag, with negative
       // numbers indicating below sea level
       tags.GPSAltitudeRef ??= tags.GPSAltitude;
+      // ExifTool doesn't understand exponents here: "1e-7" would be 1 meter.
+      if (String(tags.GPSAltitude).includes("e-")) {
+        tags.GPSAltitude = tags.GPSAltitude.toFixed(20);
+      }
     } else if (tags.GPSAltitude === null) {
       tags.GPSAltitudeRef ??= null;
     }
-- 
2.43.0


From 63d211e8335bd0cb87cba4455afd482dc25dff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:50 +0000
Subject: [PATCH 17/62] fix: keep the sign of coordinates with "-0" degrees

---
 src/CoordinateParser.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CoordinateParser.ts b/src/CoordinateParser.ts
index 945897f..7e89c76 100644
--- a/src/CoordinateParser.ts
+++ b/src/CoordinateParser.ts
@@ -275,13 +275,14 @@ export function parseCoordinate(
 
 function toDecimalDegrees(coord: Omit<Coordinate, "decimal">): number {
   const degrees = toFloat(coord.degrees) ?? 0;
-  const sign = Math.sign(degrees);
+  // "-0° 30'" is south or west, too:
+  const negative = degrees < 0 || Object.is(degrees, -0);
   let decimal = Math.abs(degrees);
 
   decimal += Math.abs(toFloat(coord.minutes) ?? 0) / 60.0;
   decimal += Math.abs(toFloat(coord.seconds) ?? 0) / 3600.0;
 
-  if (coord.direction === "S" || coord.direction === "W" || sign < 0) {
+  if (coord.direction === "S" || coord.direction === "W" || negative) {
     decimal = -decimal;
   }
 
-- 
2.43.0


From 8dfed398159e4dcc80566ea8382bc1947f0c9efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:40 +0000
Subject: [PATCH 18/62] fix: don't flip GPS signs near the equator or prime
 meridian

---
 src/CoordinateParser.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CoordinateParser.ts b/src/CoordinateParser.ts
index 7e89c76..6552518 100644
--- a/src/CoordinateParser.ts
+++ b/src/CoordinateParser.ts
@@ -366,9 +366,11 @@ export function processCoordinate(
     value = -Math.abs(value);
   }
 
-  // Check for mismatched signs with GeolocationPosition
+  // Check for mismatched signs with GeolocationPosition. (Near the equator or
+  // prime meridian, the closest place may just be in the other hemisphere).
   if (
     geoValue != null &&
+    Math.abs(geoValue - value) >= MAX_LAT_LON_DIFF &&
     Math.abs(Math.abs(geoValue) - Math.abs(value)) < MAX_LAT_LON_DIFF
   ) {
     if (Math.sign(geoValue) !== Math.sign(value)) {
-- 
2.43.0


From 03f9e729a80a876bcff17d4257b8486024725023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:52 +0000
Subject: [PATCH 19/62] fix: zone-less date-times keep their wall clock in the
 host's DST gaps

---
 src/ExifDateTime.ts | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index e7d2fd7..eb6a32e 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -273,9 +273,10 @@ export class ExifDateTime {
     zone: string | Zone,
     opts?: ZoneOptions & { inferredZone?: boolean },
   ): Maybe<ExifDateTime> {
+    const { keepLocalTime } = { keepLocalTime: !this.hasZone, ...opts };
     const dt = setZone({
       zone,
-      src: this.toDateTime(),
+      src: keepLocalTime ? this.#toWallClock() : this.toDateTime(),
       srcHasZone: this.hasZone,
       opts,
     });
@@ -317,6 +318,14 @@ export class ExifDateTime {
     }));
   }
 
+  /**
+   * If the zone is unknown, the host's DST transitions must not affect the wall
+   * clock.
+   */
+  #toWallClock(): DateTime {
+    return this.toDateTime(this.hasZone ? undefined : "UTC");
+  }
+
   toEpochSeconds(overrideZone?: Maybe<string>) {
     return this.toDateTime(overrideZone).toUnixInteger();
   }
@@ -327,7 +336,7 @@ export class ExifDateTime {
 
   toISOString(options: ToISOTimeOptions = {}): Maybe<string> {
     return denull(
-      this.toDateTime().toISO({
+      this.#toWallClock().toISO({
         suppressMilliseconds:
           options.suppressMilliseconds ?? this.millisecond == null,
         includeOffset: this.hasZone && options.includeOffset !== false,
@@ -336,7 +345,7 @@ export class ExifDateTime {
   }
 
   toExifString() {
-    return dateTimeToExif(this.toDateTime(), {
+    return dateTimeToExif(this.#toWallClock(), {
       includeOffset: this.hasZone,
       includeMilliseconds: this.millisecond != null,
     });
@@ -423,7 +432,7 @@ export class ExifDateTime {
   }
 
   plus(duration: DurationLike) {
-    let dt = this.toDateTime().plus(duration);
+    let dt = this.#toWallClock().plus(duration);
     if (!this.hasZone) {
       dt = dt.setZone(UnsetZone, { keepLocalTime: true });
     }
-- 
2.43.0


From f7ad9ae01de3dd9d171623e44259434110790370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:20 +0000
Subject: [PATCH 20/62] fix: date-times keep their instant when clocks fall
 back

---
 src/ExifDateTime.ts | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index eb6a32e..694834f 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -312,10 +312,22 @@ export class ExifDateTime {
     }
 
     // Cache the DateTime for performance
-    return (this.#dt ??= DateTime.fromObject(this.toDateTimeObject(), {
-      // Convert zone name string to Zone object so Luxon can recognize it
-      zone: normalizeZone(this.zone) ?? this.zone,
-    }));
+    return (this.#dt ??= this.#matchOffset(
+      DateTime.fromObject(this.toDateTimeObject(), {
+        // Convert zone name string to Zone object so Luxon can recognize it
+        zone: normalizeZone(this.zone) ?? this.zone,
+      }),
+    ));
+  }
+
+  /**
+   * When clocks fall back, a wall clock time happens twice: tzoffsetMinutes
+   * tells which one this is.
+   */
+  #matchOffset(dt: DateTime): DateTime {
+    if (this.tzoffsetMinutes == null || !dt.isValid) return dt;
+    const other = dt.plus({ minutes: dt.offset - this.tzoffsetMinutes });
+    return other.offset === this.tzoffsetMinutes ? other : dt;
   }
 
   /**
-- 
2.43.0


From 1cda1be888a9e0a779ccc4e6e468f14bea24dfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:35 +0000
Subject: [PATCH 21/62] fix: parse dates independently of the host's time zone

---
 src/ExifDate.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ExifDate.ts b/src/ExifDate.ts
index 05a284b..714d9f7 100644
--- a/src/ExifDate.ts
+++ b/src/ExifDate.ts
@@ -54,7 +54,7 @@ export class ExifDate {
   }
   static fromISO(text: string): Maybe<ExifDate> {
     return StrictExifRE.test(toS(text).trim())
-      ? this.fromDateTime(DateTime.fromISO(text), text)
+      ? this.fromDateTime(DateTime.fromISO(text, { zone: "UTC" }), text)
       : undefined;
   }
 
@@ -62,7 +62,8 @@ export class ExifDate {
     if (blank(text)) return;
     text = toS(text).trim();
     for (const fmt of fmts) {
-      const dt = DateTime.fromFormat(text, fmt);
+      // The host's zone may have skipped this day:
+      const dt = DateTime.fromFormat(text, fmt, { zone: "UTC" });
       if (validDateTime(dt)) {
         return this.fromDateTime(dt, text);
       }
@@ -87,7 +88,7 @@ export class ExifDate {
     if (!YearMonthRE.test(textStr)) return undefined;
 
     for (const fmt of ["y:MM", "y-MM", "y:M", "y-M"]) {
-      const dt = DateTime.fromFormat(textStr, fmt);
+      const dt = DateTime.fromFormat(textStr, fmt, { zone: "UTC" });
       if (validDateTime(dt)) {
         return new ExifDate(dt.year, dt.month, undefined, textStr);
       }
-- 
2.43.0


From b420f2038c3a21239a92d8598a52a993176cae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:15 +0000
Subject: [PATCH 22/62] fix: parse times of day independently of DST in the
 default zone

---
 src/ExifTime.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ExifTime.ts b/src/ExifTime.ts
index 9094b01..e4bfc5f 100644
--- a/src/ExifTime.ts
+++ b/src/ExifTime.ts
@@ -12,13 +12,18 @@ export class ExifTime {
   static fromEXIF(text: string, defaultZone?: Maybe<string>): Maybe<ExifTime> {
     const s = toS(text).trim();
     if (s.length === 0) return;
-    const result = parseDateTime(text, timeFormats({ defaultZone }));
+    // The default zone is only applied after parsing: this time of day may not
+    // exist there today (due to DST).
+    const result = parseDateTime(text, timeFormats({ defaultZone: undefined }));
     if (result != null) {
+      const zone = result.unsetZone
+        ? getZoneName({ zoneName: defaultZone })
+        : getZoneName({ zone: result.dt.zone });
       return this.fromDateTime(
         result.dt,
         text,
-        result.unsetZone ? undefined : getZoneName({ zone: result.dt.zone }),
-        result.inferredZone,
+        zone,
+        result.unsetZone ? zone != null : result.inferredZone,
         result.unsetMilliseconds,
       );
     }
-- 
2.43.0


From 822da4a3b4d0f49e3a11319d8a40f26028d532a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:15 +0000
Subject: [PATCH 23/62] fix: don't infer a zone from a TimeStamp without zone

---
 src/Timezones.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index b9c983e..6178c14 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -1175,7 +1175,8 @@ export function extractTzOffsetFromTimeStamp(
 ): Maybe<TzSrc> {
   if (opts?.inferTimezoneFromTimeStamp !== true) return;
   const ts = ExifDateTime.from(t.TimeStamp);
-  if (ts == null) return;
+  // (without a zone, the offset to TimeStamp doesn't tell anything)
+  if (ts?.zone == null) return;
   for (const tagName of opts.inferTimezoneFromDatestampTags ?? []) {
     const v = t[tagName];
     if (!isString(v) && !(v instanceof ExifDateTime)) continue;
-- 
2.43.0


From 9458a61e0e3ad8018d09a1f3d69682cc595d5857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:22 +0000
Subject: [PATCH 24/62] fix: resolve zoned date-times independently of the
 current date

---
 src/ExifDateTime.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index 694834f..eb9966a 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -322,11 +322,14 @@ export class ExifDateTime {
 
   /**
    * When clocks fall back, a wall clock time happens twice: tzoffsetMinutes
-   * tells which one this is.
+   * tells which one this is. (Luxon's guess also depends on the current date,
+   * and may not be on the wall clock at all)
    */
   #matchOffset(dt: DateTime): DateTime {
     if (this.tzoffsetMinutes == null || !dt.isValid) return dt;
-    const other = dt.plus({ minutes: dt.offset - this.tzoffsetMinutes });
+    const other = this.toDateTime("UTC")
+      .minus({ minutes: this.tzoffsetMinutes })
+      .setZone(dt.zone);
     return other.offset === this.tzoffsetMinutes ? other : dt;
   }
 
-- 
2.43.0


From 07ee30f44b4a83caee730f13d3c38f0aa4e6cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:34 +0000
Subject: [PATCH 25/62] fix: ExifTime.setZone() keeps the local time when
 clocks change today

---
 src/ExifTime.ts | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ExifTime.ts b/src/ExifTime.ts
index e4bfc5f..a5a2070 100644
--- a/src/ExifTime.ts
+++ b/src/ExifTime.ts
@@ -122,10 +122,23 @@ export class ExifTime {
       srcHasZone: this.hasZone,
       opts,
     });
+    const zoneName = getZoneName({ zone: dt.zone });
+    // DST transitions that happen to be today must not change the local time:
+    if (dt.isValid && (opts?.keepLocalTime ?? !this.hasZone)) {
+      return new ExifTime(
+        this.hour,
+        this.minute,
+        this.second,
+        this.millisecond,
+        this.rawValue,
+        zoneName,
+        this.inferredZone,
+      );
+    }
     return ExifTime.fromDateTime(
       dt,
       this.rawValue,
-      getZoneName({ zone: dt.zone }),
+      zoneName,
       this.inferredZone,
       this.millisecond == null,
     );
-- 
2.43.0


From 1b4d900d3bdb8b596ce20865581e024d39efa7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:30 +0000
Subject: [PATCH 26/62] fix: refuse UTC offsets with more than 59 minutes

---
 src/Timezones.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 6178c14..e46222b 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -996,7 +996,10 @@ export function extractZone(
     const seconds = parseInt(capturedGroups.seconds ?? "0");
     // Handle both ASCII minus (-) and Unicode minus (−, U+2212)
     const sign = MinusRE.test(capturedGroups.sign ?? "") ? -1 : 1;
-    const offsetMinutes = sign * (hours * 60 + minutes + seconds / 60);
+    const offsetMinutes =
+      minutes < 60 && seconds < 60
+        ? sign * (hours * 60 + minutes + seconds / 60)
+        : undefined;
     const zone = offsetMinutesToZoneName(offsetMinutes);
     if (zone != null) {
       return {
-- 
2.43.0


From 7d44c5031acf7aaa0afba588d22aaacce08eccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:20 +0000
Subject: [PATCH 27/62] fix: don't adjust time zones to offsets that don't
 exist

---
 src/Timezones.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index e46222b..fc7081d 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -1128,7 +1128,7 @@ export function extractTzOffsetFromTags(
     const minutes = adjustFn(t, offset.tz);
     if (minutes != null) {
       const adjustedZone = incrementZone(offset.tz, minutes);
-      if (adjustedZone != null)
+      if (isZoneValid(adjustedZone))
         return {
           zone: adjustedZone.name,
           tz: adjustedZone.name,
-- 
2.43.0


From 41de2b2bf5e71e2b40253900527e4ae0b41c06fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:25 +0000
Subject: [PATCH 28/62] fix: don't take numeric datestamps for hour offsets

---
 src/Timezones.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index fc7081d..81d1f61 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -1153,7 +1153,8 @@ export function extractTzOffsetFromDatestamps(
 ): Maybe<TzSrc> {
   if (opts?.inferTimezoneFromDatestamps === true) {
     for (const tagName of opts.inferTimezoneFromDatestampTags ?? []) {
-      if (t[tagName] != null) {
+      // (a number is not a datestamp, nor an offset, here)
+      if (t[tagName] != null && !isNumber(t[tagName])) {
         const offset = extractZone(t[tagName]);
         // Some applications (looking at you, Google Takeout) will add a
         // spurious "+00:00" timezone offset to random datestamp tags, so
-- 
2.43.0


From 4b1aa4cb4ca7aa5342828cf55614744610e8d65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:56 +0000
Subject: [PATCH 29/62] fix: parseJSON() ignores class markers that name
 Object.prototype members

---
 src/JSON.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/JSON.ts b/src/JSON.ts
index 695fd3a..2360e1b 100644
--- a/src/JSON.ts
+++ b/src/JSON.ts
@@ -42,7 +42,8 @@ export function parseJSON(s: string) {
       typeof value === "object" &&
       value !== null &&
       "_ctor" in value &&
-      typeof value._ctor === "string"
+      typeof value._ctor === "string" &&
+      Object.hasOwn(Revivers, value._ctor)
     ) {
       return Revivers[value._ctor]?.(value as JsonObject) ?? value;
     }
-- 
2.43.0


From 3f311e30e7f349e7f5b387685d540dc0182ffb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:46 +0000
Subject: [PATCH 30/62] fix: normalizeZone() refuses values that cannot be
 converted to text

---
 src/Timezones.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 81d1f61..2f1a4ed 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -645,8 +645,8 @@ export function parseTimezoneOffsetToMinutes(str: string): Maybe<number> {
 export function normalizeZone(input: unknown): Maybe<Zone> {
   if (
     input == null ||
-    blank(input) ||
     (!isNumber(input) && !isString(input) && !isZone(input)) ||
+    blank(input) ||
     input === UnsetZone ||
     input === UnsetZoneOffsetMinutes ||
     isZoneUnset(input)
-- 
2.43.0


From 2ba983dfc278fa09bcae72fd1d8dafadbe22fac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:10 +0000
Subject: [PATCH 31/62] fix: extractBinaryTagToBuffer() returns payloads that
 happen to be text

---
 src/BinaryToBufferTask.ts | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/BinaryToBufferTask.ts b/src/BinaryToBufferTask.ts
index a3da539..bbb21a0 100644
--- a/src/BinaryToBufferTask.ts
+++ b/src/BinaryToBufferTask.ts
@@ -5,6 +5,16 @@ import { Maybe } from "./Maybe";
 import { notBlank } from "./String";
 import { validateExtractedTagName } from "./TagNameValidation";
 
+const B64Prefix = "base64:";
+
+// ExifTool's JSON only encodes values that aren't valid UTF-8: payloads that
+// happen to be text would be shown as text (without any NULs), or as a number.
+const Base64FilterArgs = [
+  "-api",
+  "Filter=require Image::ExifTool::XMP; " +
+    `$_ = "${B64Prefix}" . Image::ExifTool::XMP::EncodeBase64($_, 1)`,
+] as const;
+
 /**
  * Task that returns an error string (to prevent retries), or undefined if
  * everything seems to have worked.
@@ -24,7 +34,13 @@ export class BinaryToBufferTask extends ExifToolTask<Buffer | Error> {
     options?: ExifToolTaskOptions,
   ): BinaryToBufferTask {
     validateExtractedTagName(tagname);
-    const args = [...Utf8FilenameCharsetArgs, "-json", "-b", "-" + tagname];
+    const args = [
+      ...Utf8FilenameCharsetArgs,
+      "-json",
+      "-b",
+      ...Base64FilterArgs,
+      "-" + tagname,
+    ];
     args.push(path.resolve(imgSrc));
     return new BinaryToBufferTask(tagname, args, options);
   }
@@ -54,8 +70,6 @@ export class BinaryToBufferTask extends ExifToolTask<Buffer | Error> {
   }
 }
 
-const B64Prefix = "base64:";
-
 function decode(data: Maybe<string>): Maybe<Buffer> {
   return !data?.startsWith(B64Prefix)
     ? undefined
-- 
2.43.0


From ef359d21c8d86dedf085da8ee2e500e0fab9956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:18 +0000
Subject: [PATCH 32/62] fix: don't rename files with percent signs when no tags
 are written

---
 src/WriteTask.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 8ad9fab..61e765e 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -285,8 +285,9 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
       // This is a hack to prevent ExifTool from thinking it should be in "read"
       // mode, and not "write" mode. It _should_ be a no-op, but there are some
       // cases that this can cause ExifTool to behave oddly, so we only apply it
-      // if we have no other fields to set.
-      fieldsToSet.push("-FileName<FileName");
+      // if we have no other fields to set. Don't assign FileName here: ExifTool
+      // renames files whose name has format codes, like "50%discount.jpg".
+      fieldsToSet.push("-TestName-=/");
     }
 
     args.push(...fieldsToSet, ...toArray(options.writeArgs), sourceFile);
-- 
2.43.0


From d41127158c84b5c4010cfea8610307a87595a704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:12 +0000
Subject: [PATCH 33/62] fix: rewriteAllTags() doesn't depend on prior commands
 that used MWG

---
 src/RewriteAllTagsTask.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/RewriteAllTagsTask.ts b/src/RewriteAllTagsTask.ts
index e02930a..8244228 100644
--- a/src/RewriteAllTagsTask.ts
+++ b/src/RewriteAllTagsTask.ts
@@ -32,6 +32,9 @@ export class RewriteAllTagsTask extends ExifToolTask<void> {
       "-tagsfromfile",
       "@",
       "-all:all",
+      // "-use MWG" of a prior command still applies, and would sync (overwrite!)
+      // EXIF, IPTC, and XMP tags
+      "--MWG:all",
       "-unsafe",
       "-icc_profile",
       opts.allowMakerNoteRepair ? "-F" : undefined,
-- 
2.43.0


From 4aa365cccf406133b10f77ffab0744828fa9092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:16 +0000
Subject: [PATCH 34/62] fix: rewriteAllTags() accepts outputs in new
 directories, and plain copies

---
 src/RewriteAllTagsTask.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/RewriteAllTagsTask.ts b/src/RewriteAllTagsTask.ts
index 8244228..dac3d84 100644
--- a/src/RewriteAllTagsTask.ts
+++ b/src/RewriteAllTagsTask.ts
@@ -53,7 +53,9 @@ export class RewriteAllTagsTask extends ExifToolTask<void> {
         throw error;
       }
     }
-    if (null == data.match(/^\s*1 image files creat/i)) {
+    // Note that "1 directories created" may come first, and that files without
+    // any metadata to rewrite are just copied.
+    if (null == data.match(/^\s*1 image files (?:creat|copied)/im)) {
       throw (
         error ??
         new Error(
-- 
2.43.0


From 74be596271b372dd6f0c199e9da3537c91635467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:55 +0000
Subject: [PATCH 35/62] fix: don't take errors that quote warning-like text for
 warnings

---
 src/IsWarning.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/IsWarning.ts b/src/IsWarning.ts
index 0ff52f5..9f8e6d5 100644
--- a/src/IsWarning.ts
+++ b/src/IsWarning.ts
@@ -5,9 +5,11 @@ export interface IgnorableError {
   (err: Maybe<Error | string>): boolean;
 }
 
-// This is quite lax by design: it's up to the user to check .warnings!
+// This is quite lax by design: it's up to the user to check .warnings! But
+// errors may quote paths or values that look like warnings.
 
-const WarningRE = /\bwarning: |\bnothing to (?:write|do)\b/i;
+const WarningRE =
+  /^(?!error: ).*\bwarning: |^(?:error: )?nothing to (?:write|do)\b/i;
 
 /**
  * This is the default implementation of IgnorableError, and ignores null,
-- 
2.43.0


From d5ade273d631e98485775be80c07927f2a5ffdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:56 +0000
Subject: [PATCH 36/62] fix: rewriteAllTags() rejects on errors that mention
 warnings

---
 src/RewriteAllTagsTask.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/RewriteAllTagsTask.ts b/src/RewriteAllTagsTask.ts
index dac3d84..838448b 100644
--- a/src/RewriteAllTagsTask.ts
+++ b/src/RewriteAllTagsTask.ts
@@ -47,9 +47,8 @@ export class RewriteAllTagsTask extends ExifToolTask<void> {
 
   parse(data: string, error?: Error): void {
     if (error != null) {
-      const str = String(error);
-      // Ignore warnings:
-      if (str.match(/\berror\b/i) != null && !str.match(/\bwarning\b/i)) {
+      // Ignore warnings (but not errors that mention them):
+      if (!error.message.match(/^\s*warning\b/i)) {
         throw error;
       }
     }
-- 
2.43.0


From 8d8644a4cd0a5bed57bc5a1780ec0a25346d05f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:57 +0000
Subject: [PATCH 37/62] fix: extractBinaryTagToBuffer() rejects if ExifTool
 reports an error

---
 src/BinaryToBufferTask.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BinaryToBufferTask.ts b/src/BinaryToBufferTask.ts
index bbb21a0..cf62bff 100644
--- a/src/BinaryToBufferTask.ts
+++ b/src/BinaryToBufferTask.ts
@@ -46,6 +46,7 @@ export class BinaryToBufferTask extends ExifToolTask<Buffer | Error> {
   }
 
   parse(data: string, err?: Error): Buffer | Error {
+    if (err != null) return err;
     try {
       const obj = JSON.parse(data)?.[0];
       // did they get the casing right?
@@ -60,7 +61,7 @@ export class BinaryToBufferTask extends ExifToolTask<Buffer | Error> {
         }
       }
     } catch (caught) {
-      err ??= notBlank(data)
+      err = notBlank(data)
         ? new Error(data)
         : caught instanceof Error
           ? caught
-- 
2.43.0


From 9346b4cd02c05c501fb3eae08e09337e40005803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:57 +0000
Subject: [PATCH 38/62] fix: write() doesn't count created directories or links
 as files

---
 src/WriteTask.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 61e765e..9ad63b3 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -348,10 +348,11 @@ export class WriteTask extends ExifToolTask<WriteTaskResult> {
 }
 
 // "0 files created" | "0 file created" | "    1 image files created"
-const CreatedRE = /(?<count>\d{1,5}) [\w ]{1,12}\bcreated$/i;
+// (but not "1 directories created" or "1 hard links created")
+const CreatedRE = /(?<!\d)(?<count>\d{1,9}) (?:image )?files? created$/i;
 
 const UnchangedRE =
-  /(?<count>\d{1,5}) [\w ]{1,12}\b(?:weren't updated|unchanged)$/i;
+  /(?<!\d)(?<count>\d{1,9}) (?:image )?files? (?:weren't updated|unchanged)$/i;
 
 // "1 image files updated"
-const UpdatedRE = /(?<count>\d{1,5}) [\w ]{1,12}\bupdated$/i;
+const UpdatedRE = /(?<!\d)(?<count>\d{1,9}) (?:image )?files? updated$/i;
-- 
2.43.0


From 4f8304f57f142c986fe0eb21540e2eb2b7e38586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:20 +0000
Subject: [PATCH 39/62] fix: list errors and warnings of reads with group names

---
 src/ErrorsAndWarnings.ts | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ErrorsAndWarnings.ts b/src/ErrorsAndWarnings.ts
index f37b5aa..66301f6 100644
--- a/src/ErrorsAndWarnings.ts
+++ b/src/ErrorsAndWarnings.ts
@@ -23,11 +23,22 @@ export function errorsAndWarnings(
   t?: { Error?: string; Warning?: string },
 ): Required<ErrorsAndWarnings> {
   return {
-    errors: uniq(compactBlanks([t?.Error, ...task.errors])),
-    warnings: uniq(compactBlanks([t?.Warning, ...task.warnings])),
+    errors: uniq(compactBlanks([...reported(t, "Error"), ...task.errors])),
+    warnings: uniq(
+      compactBlanks([...reported(t, "Warning"), ...task.warnings]),
+    ),
   };
 }
 
+// With -G, ExifTool reports these as (for example) "ExifTool:Warning"
+function reported(t: object | undefined, name: "Error" | "Warning"): string[] {
+  return Object.entries(t ?? {})
+    .filter(
+      ([k]) => k === name || (/^ExifTool:/.test(k) && k.endsWith(":" + name)),
+    )
+    .map(([, v]) => v as string);
+}
+
 /**
  * Convert an unknown value to an Error.
  */
-- 
2.43.0


From 67a747d14f4783775b6300becaab19e42214d51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:59 +0000
Subject: [PATCH 40/62] fix: rewriteAllTags() never rejects with a blank
 message

---
 src/RewriteAllTagsTask.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/RewriteAllTagsTask.ts b/src/RewriteAllTagsTask.ts
index 838448b..a44fe95 100644
--- a/src/RewriteAllTagsTask.ts
+++ b/src/RewriteAllTagsTask.ts
@@ -3,6 +3,7 @@ import { compact } from "./Array";
 import { ExifToolTask, ExifToolTaskOptions } from "./ExifToolTask";
 import { toOutputFormat } from "./File";
 import { Utf8FilenameCharsetArgs } from "./FilenameCharsetArgs";
+import { toNotBlank } from "./String";
 
 /**
  * Task for rewriting all metadata tags in a file, which can repair corrupted metadata.
@@ -58,7 +59,8 @@ export class RewriteAllTagsTask extends ExifToolTask<void> {
       throw (
         error ??
         new Error(
-          data.trim().split("\n")[0] ?? "Missing expected status message",
+          toNotBlank(data.trim().split("\n")[0]) ??
+            "Missing expected status message",
         )
       );
     }
-- 
2.43.0


From fc1a6a58e1df61bc0c9b6099382c4c9dcbb9c683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:47 +0000
Subject: [PATCH 41/62] fix: keep ExifToolVersion a string when reading with
 group names

---
 src/ReadTask.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ReadTask.ts b/src/ReadTask.ts
index c8d7dbf..faeb0ac 100644
--- a/src/ReadTask.ts
+++ b/src/ReadTask.ts
@@ -169,8 +169,9 @@ export class ReadTask extends ExifToolTask<Tags> {
     try {
       // Fix ExifToolVersion to be a string to preserve version distinctions like 12.3 vs 12.30
       const versionFixedData = data.replace(
-        /"ExifToolVersion"\s*:\s*(\d+(?:\.\d+)?)/,
-        '"ExifToolVersion":"$1"',
+        // (the tag name is prefixed with its group if readArgs includes "-G")
+        /"((?:[^"\\]*:)?ExifToolVersion)"\s*:\s*(\d+(?:\.\d+)?)/,
+        '"$1":"$2"',
       );
       const parsed = JSON.parse(versionFixedData)[0] as Record<string, unknown>;
       const decoded = this.#unwrapInvalidUtf8
-- 
2.43.0


From 83ec3968c96b9a815f1b77cc9f26cfd22583b726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:54 +0000
Subject: [PATCH 42/62] fix: don't lose struct fields or tags named like
 Object.prototype members

---
 src/ReadTask.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ReadTask.ts b/src/ReadTask.ts
index faeb0ac..058c660 100644
--- a/src/ReadTask.ts
+++ b/src/ReadTask.ts
@@ -241,7 +241,7 @@ export class ReadTask extends ExifToolTask<Tags> {
     for (const [key, value] of Object.entries(this.#raw)) {
       const k = this.#tagName(key);
       // Did something already set this? (like GPS tags)
-      if (key in tags) continue;
+      if (Object.hasOwn(tags, key)) continue;
       const v = this.#parseTag(k, value);
       // Note that we set `key` (which may include a group prefix):
       if (v == null) {
@@ -387,7 +387,13 @@ export class ReadTask extends ExifToolTask<Tags> {
       if (isObject(value)) {
         const result: Record<string, unknown> = {};
         for (const [k, v] of Object.entries(value)) {
-          result[k] = this.#parseTag(tagName + "." + k, v);
+          // Assignment would invoke Object.prototype.__proto__'s setter.
+          Object.defineProperty(result, k, {
+            configurable: true,
+            enumerable: true,
+            value: this.#parseTag(tagName + "." + k, v),
+            writable: true,
+          });
         }
         return result;
       }
-- 
2.43.0


From 0e8425194ca7db02a51fb1a7a0aa6dbf3096ebac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:54 +0000
Subject: [PATCH 43/62] fix: don't fail reads if TimeStamp isn't text

---
 src/Timezones.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 2f1a4ed..8c40a7e 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -1178,7 +1178,10 @@ export function extractTzOffsetFromTimeStamp(
   >,
 ): Maybe<TzSrc> {
   if (opts?.inferTimezoneFromTimeStamp !== true) return;
-  const ts = ExifDateTime.from(t.TimeStamp);
+  const timeStamp: unknown = t.TimeStamp;
+  // (ExifTool renders numeric, list, and struct values as such)
+  if (!isString(timeStamp) && !(timeStamp instanceof ExifDateTime)) return;
+  const ts = ExifDateTime.from(timeStamp);
   // (without a zone, the offset to TimeStamp doesn't tell anything)
   if (ts?.zone == null) return;
   for (const tagName of opts.inferTimezoneFromDatestampTags ?? []) {
-- 
2.43.0


From 8ef9eace9f75fcbd38e053ea63eaeb08cb5c1c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:27 +0000
Subject: [PATCH 44/62] fix: don't fail reads if timezone inference throws

---
 src/ReadTask.ts | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ReadTask.ts b/src/ReadTask.ts
index 058c660..7e9021b 100644
--- a/src/ReadTask.ts
+++ b/src/ReadTask.ts
@@ -202,7 +202,8 @@ export class ReadTask extends ExifToolTask<Tags> {
   }
 
   #isVideo(): boolean {
-    return String(this.#rawDegrouped?.MIMEType).startsWith("video/");
+    const mimeType = this.#rawDegrouped?.MIMEType;
+    return isString(mimeType) && mimeType.startsWith("video/");
   }
 
   #defaultToUTC(): boolean {
@@ -231,7 +232,7 @@ export class ReadTask extends ExifToolTask<Tags> {
     // GeolocationTimeZone
     this.#extractGpsMetadata();
 
-    const tzSrc = this.#extractTzOffset();
+    const tzSrc = this.#tzSrc();
     if (tzSrc) {
       tags.zone = tzSrc.zone;
       tags.tz = tzSrc.tz;
@@ -327,7 +328,18 @@ export class ReadTask extends ExifToolTask<Tags> {
     return;
   });
 
-  #tz = lazy(() => this.#extractTzOffset()?.tz);
+  // Files can contain any sort of value in timezone-related tags. If that breaks
+  // timezone inference, still return what ExifTool reported:
+  #tzSrc = lazy<Maybe<TzSrc>>(() => {
+    try {
+      return this.#extractTzOffset();
+    } catch (error) {
+      this.warnings.push("Failed to determine timezone: " + error);
+      return;
+    }
+  });
+
+  #tz = lazy(() => this.#tzSrc()?.tz);
 
   #extractTzOffset = lazy<Maybe<TzSrc>>(() => {
     if (true === this.options.preferTimezoneInferenceFromGps) {
-- 
2.43.0


From 321402f2fb2fe3d221e28f7d5f1f38d710adaf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:40 +0000
Subject: [PATCH 45/62] fix: ExifDateTime.fromMillis() doesn't change the
 caller's options

---
 src/ExifDateTime.ts | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/ExifDateTime.ts b/src/ExifDateTime.ts
index eb9966a..ee22a73 100644
--- a/src/ExifDateTime.ts
+++ b/src/ExifDateTime.ts
@@ -212,16 +212,13 @@ export class ExifDateTime {
     millis: number,
     options: DateTimeJSOptions & { rawValue?: string } = {},
   ) {
-    if (
-      options.zone == null ||
-      [UnsetZoneName, UnsetZone].includes(options.zone)
-    ) {
-      delete options.zone;
+    // (don't change the caller's options)
+    const opts = { ...omit(options, "rawValue") };
+    if (opts.zone == null || [UnsetZoneName, UnsetZone].includes(opts.zone)) {
+      delete opts.zone;
     }
-    let dt = DateTime.fromMillis(millis, {
-      ...omit(options, "rawValue"),
-    });
-    if (options.zone == null) {
+    let dt = DateTime.fromMillis(millis, opts);
+    if (opts.zone == null) {
       dt = dt.setZone(UnsetZone, { keepLocalTime: true });
     }
     // TODO: is there a way to provide an invalid millisecond value?
-- 
2.43.0


From 4d95d77117f02f930c3afb2263180dd03c8417de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:12 +0000
Subject: [PATCH 46/62] fix: the deprecated includeImageDataMD5 option has an
 effect again

---
 src/ExifTool.ts | 11 +++++++----
 src/ReadTask.ts |  6 +++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 8e94565..1ab8c76 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -249,10 +249,11 @@ export class ExifTool {
         "Please update caller to the new ExifTool constructor API",
       );
     }
-    const o = handleDeprecatedOptions({
+    const o = {
       ...DefaultExifToolOptions,
-      ...options,
-    });
+      // (before merging: the default imageHashType isn't the caller's)
+      ...handleDeprecatedOptions({ ...options }),
+    };
 
     // Backward compatibility: if options.logger is provided, set it as the global logger
     const options_logger = options.logger;
@@ -389,7 +390,9 @@ export class ExifTool {
   ): Promise<T> {
     const opts = {
       ...pick(this.options, ...ReadTaskOptionFields),
-      ...(isObject(argsOrOptions) ? argsOrOptions : options),
+      ...handleDeprecatedOptions({
+        ...(isObject(argsOrOptions) ? argsOrOptions : options),
+      }),
     };
     opts.readArgs =
       ifArray(argsOrOptions) ?? ifArray(opts.readArgs) ?? this.options.readArgs;
diff --git a/src/ReadTask.ts b/src/ReadTask.ts
index 7e9021b..59aef35 100644
--- a/src/ReadTask.ts
+++ b/src/ReadTask.ts
@@ -112,10 +112,10 @@ export class ReadTask extends ExifToolTask<Tags> {
   }
 
   static for(filename: string, options: ReadTaskOptions): ReadTask {
-    const opts: Required<ReadTaskOptions> = handleDeprecatedOptions({
+    const opts: Required<ReadTaskOptions> = {
       ...DefaultReadTaskOptions,
-      ...options,
-    });
+      ...handleDeprecatedOptions({ ...options }),
+    };
     const sourceFile = _path.resolve(filename);
     const readArgs = toArray(opts.readArgs);
     const args = [
-- 
2.43.0


From fefd981a8815a1078ecaafb84795c27c5fd24549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:21 +0000
Subject: [PATCH 47/62] fix: changes of callers' options don't affect retries

---
 src/ExifTool.ts | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index 1ab8c76..b6abb9c 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -223,6 +223,16 @@ const whichPerl = lazy(async () => {
   return result;
 });
 
+/**
+ * Replaces array-valued options with copies, so changes that callers make to
+ * their arrays after a call don't affect its (re)tries.
+ */
+function copyArrays(opts: object): void {
+  for (const [k, v] of Object.entries(opts)) {
+    if (Array.isArray(v)) Object.assign(opts, { [k]: [...v] });
+  }
+}
+
 /**
  * Manages delegating calls to a cluster of ExifTool child processes.
  *
@@ -396,6 +406,7 @@ export class ExifTool {
     };
     opts.readArgs =
       ifArray(argsOrOptions) ?? ifArray(opts.readArgs) ?? this.options.readArgs;
+    copyArrays(opts);
     return this.enqueueTask(() => ReadTask.for(file, opts)) as Promise<T>; // < no way to know at compile time if we're going to get back a T!
   }
 
@@ -458,6 +469,7 @@ export class ExifTool {
     };
     opts.readArgs =
       ifArray(argsOrOptions) ?? ifArray(opts.readArgs) ?? this.options.readArgs;
+    copyArrays(opts);
 
     return this.enqueueTask(() => ReadRawTask.for(file, opts));
   }
@@ -715,11 +727,9 @@ export class ExifTool {
   ): Promise<void> {
     // BinaryExtractionTask returns a stringified error if the output indicates
     // the task should not be retried.
+    const taskOpts = { ...this.#taskOptions(), ...opts };
     const maybeError = await this.enqueueTask(() =>
-      BinaryExtractionTask.for(tagname, src, dest, {
-        ...this.#taskOptions(),
-        ...opts,
-      }),
+      BinaryExtractionTask.for(tagname, src, dest, taskOpts),
     );
     if (maybeError != null) {
       throw new Error(maybeError);
@@ -746,11 +756,9 @@ export class ExifTool {
     imageFile: string,
     opts?: ExifToolTaskOptions,
   ): Promise<Buffer> {
+    const taskOpts = { ...this.#taskOptions(), ...opts };
     const result = await this.enqueueTask(() =>
-      BinaryToBufferTask.for(tagname, imageFile, {
-        ...this.#taskOptions(),
-        ...opts,
-      }),
+      BinaryToBufferTask.for(tagname, imageFile, taskOpts),
     );
     if (Buffer.isBuffer(result)) {
       return result;
@@ -787,12 +795,13 @@ export class ExifTool {
     outputFile: string,
     opts?: { allowMakerNoteRepair?: boolean } & ExifToolTaskOptions,
   ): Promise<void> {
+    const taskOpts = {
+      allowMakerNoteRepair: false,
+      ...this.#taskOptions(),
+      ...opts,
+    };
     return this.enqueueTask(() =>
-      RewriteAllTagsTask.for(inputFile, outputFile, {
-        allowMakerNoteRepair: false,
-        ...this.#taskOptions(),
-        ...opts,
-      }),
+      RewriteAllTagsTask.for(inputFile, outputFile, taskOpts),
     );
   }
 
-- 
2.43.0


From 6dc923d0ac8fddeffa5a70d309176ed88bc5c117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:16 +0000
Subject: [PATCH 48/62] fix: decode apostrophes in tag descriptions

ExifTool escapes them as &#39;, so 1,000+ French and Italian descriptions
contained "l&#39;image".
---
 src/TagDescriptions.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index cc12083..5c48b20 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -583,7 +583,7 @@ export class TagDescriptions {
       .replace(/&lt;/g, "<")
       .replace(/&gt;/g, ">")
       .replace(/&quot;/g, '"')
-      .replace(/&apos;/g, "'")
+      .replace(/&(?:apos|#39);/g, "'")
       .replace(/&amp;/g, "&");
   }
 }
-- 
2.43.0


From eea6bc9095c485f2a3487c73833e4db05851ad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:22 +0000
Subject: [PATCH 49/62] fix: don't take Object.prototype members for tag
 descriptions

get("constructor") returned the Object function.
---
 src/TagDescriptions.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index 5c48b20..be65237 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -404,6 +404,13 @@ export class TagDescriptions {
     return this.#options.language === "en" ? CuratedDescriptions : {};
   }
 
+  // own properties only: "constructor" isn't a curated tag
+  #curatedFor(tagName: string): Maybe<TagDescription> {
+    return Object.hasOwn(this.#curated, tagName)
+      ? this.#curated[tagName]
+      : undefined;
+  }
+
   /**
    * Synchronous lookup of a tag description.
    * Returns undefined if descriptions haven't been loaded or tag is unknown.
@@ -414,7 +421,7 @@ export class TagDescriptions {
    * @returns Tag description or undefined
    */
   get(tagName: string): TagDescription | undefined {
-    return this.#curated[tagName] ?? this.#cacheSync?.get(tagName);
+    return this.#curatedFor(tagName) ?? this.#cacheSync?.get(tagName);
   }
 
   /**
@@ -425,7 +432,7 @@ export class TagDescriptions {
    * @returns Promise resolving to tag description or undefined
    */
   async getAsync(tagName: string): Promise<TagDescription | undefined> {
-    return this.#curated[tagName] ?? (await this.#cache()).get(tagName);
+    return this.#curatedFor(tagName) ?? (await this.#cache()).get(tagName);
   }
 
   /**
-- 
2.43.0


From 48dfd577b7f2fec3b6321d9aca9a6b2bcbdde0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:29 +0000
Subject: [PATCH 50/62] fix: an undefined TagDescriptions language is English

It left out the curated descriptions, and wrote a disk cache without them
which instances with the default language would then read.
---
 src/TagDescriptions.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index be65237..360bcf9 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -370,6 +370,8 @@ export class TagDescriptions {
       disableDiskCache: false,
       ...options,
     };
+    // an explicit undefined is the default, too:
+    this.#options.language ??= "en";
   }
 
   /**
-- 
2.43.0


From 5408c47d38a0f986f8059a7c3ac6d33b11845cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:57 +0000
Subject: [PATCH 51/62] fix: regenerate damaged tag description caches

A cache file that was valid JSON but had no, or malformed, descriptions was
used as is: lookups returned undefined, null, or letters.
---
 src/TagDescriptions.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index 360bcf9..9c1e9ff 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -521,7 +521,16 @@ export class TagDescriptions {
         return;
       }
 
-      return new Map(Object.entries(parsed.descriptions));
+      const entries = Object.entries(parsed.descriptions);
+      // A damaged cache is as good as no cache:
+      if (
+        entries.length === 0 ||
+        entries.some(([, ea]) => typeof ea?.desc !== "string")
+      ) {
+        return;
+      }
+
+      return new Map(entries);
     } catch {
       // Cache miss or corrupt - will regenerate
       return;
-- 
2.43.0


From e9544754c8e49aaeda2f061c02c28b6f96cbaa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:04 +0000
Subject: [PATCH 52/62] fix: getAll() returns current curated descriptions with
 a warm cache

The disk cache is keyed by ExifTool's version, so it could have been written
by a version of this library with different curated descriptions.
---
 src/TagDescriptions.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index 9c1e9ff..0da72fd 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -465,6 +465,10 @@ export class TagDescriptions {
     if (!this.#options.disableDiskCache) {
       const cached = this.#readDiskCache(version, lang);
       if (cached != null) {
+        // The cache may be from another version of this library:
+        for (const [name, desc] of Object.entries(this.#curated)) {
+          cached.set(name, desc);
+        }
         this.#cacheSync = cached;
         return cached;
       }
-- 
2.43.0


From 62ccaacc2b5a4d8190d2dfc69f206a62e0c29ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:10 +0000
Subject: [PATCH 53/62] fix: tag descriptions can be loaded after a failed
 attempt

The rejected promise was remembered, so one failing ExifTool process made
all later lookups fail until clear() was called.
---
 src/TagDescriptions.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/TagDescriptions.ts b/src/TagDescriptions.ts
index 0da72fd..b564cf7 100644
--- a/src/TagDescriptions.ts
+++ b/src/TagDescriptions.ts
@@ -456,7 +456,15 @@ export class TagDescriptions {
     this.#cache.clear();
   }
 
-  readonly #cache = lazy(async (): Promise<Map<string, TagDescription>> => {
+  readonly #cache = lazy(() =>
+    this.#load().catch((err: unknown) => {
+      // Don't remember failures: the next lookup should try again.
+      this.#cache.clear();
+      throw err;
+    }),
+  );
+
+  async #load(): Promise<Map<string, TagDescription>> {
     // Get ExifTool version for cache key
     const version = await this.#exiftool.version();
     const lang = this.#options.language ?? "en";
@@ -492,7 +500,7 @@ export class TagDescriptions {
 
     this.#cacheSync = parsed;
     return parsed;
-  });
+  }
 
   #getCacheDir(): string {
     return this.#options.cacheDir ?? join(tmpdir(), "exiftool-vendored");
-- 
2.43.0


From 774f574e1196a8bb773e75ddbd0c760c15e8009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:16 +0000
Subject: [PATCH 54/62] fix: don't cache incomplete tag descriptions

Any output of -listx was accepted, and written to the disk cache.
---
 src/ListXTask.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ListXTask.ts b/src/ListXTask.ts
index 6f39558..c4bffc1 100644
--- a/src/ListXTask.ts
+++ b/src/ListXTask.ts
@@ -13,7 +13,11 @@ export class ListXTask extends ExifToolTask<string> {
     super(["-listx"], options);
   }
 
-  protected parse(input: string): string {
+  protected parse(input: string, error?: Error): string {
+    // Incomplete tag information must not make it into the disk cache:
+    if (!input.trimEnd().endsWith("</taginfo>")) {
+      throw error ?? new Error("Unexpected output from exiftool -listx");
+    }
     // Return raw XML - parsing is handled by TagDescriptions
     return input;
   }
-- 
2.43.0


From 53e8b1bba0fef0751a54ca71bf7556671a285683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:52 +0000
Subject: [PATCH 55/62] fix: ExifDate doesn't take times for today's date

ExifDate.from("04:34:48") returned the current date.
---
 src/ExifDate.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ExifDate.ts b/src/ExifDate.ts
index 714d9f7..c22831e 100644
--- a/src/ExifDate.ts
+++ b/src/ExifDate.ts
@@ -31,6 +31,7 @@ export interface ExifDateFull extends ExifDateYearMonth {
 export type ExifDatePartial = ExifDateYearOnly | ExifDateYearMonth;
 
 const StrictExifRE = /^\d{1,4}:\d{1,2}:\d{1,2}|\d{1,4}-\d{1,2}-\d{1,2}$/;
+const IsoRE = /\d{1,4}-\d{1,2}-\d{1,2}$/;
 const YearMonthRE = /^\d{1,4}[:-]\d{1,2}$/;
 const YearOnlyRE = /^\d{1,4}$/;
 const LooseExifRE = /^\S+\s+\S+\s+\S+$/;
@@ -53,7 +54,8 @@ export class ExifDate {
     );
   }
   static fromISO(text: string): Maybe<ExifDate> {
-    return StrictExifRE.test(toS(text).trim())
+    // Luxon parses times, like "12:34:56", as _today_.
+    return IsoRE.test(toS(text).trim())
       ? this.fromDateTime(DateTime.fromISO(text, { zone: "UTC" }), text)
       : undefined;
   }
-- 
2.43.0


From 95a5094fa33045f4c90494ffe36d369185f4e31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:27 +0000
Subject: [PATCH 56/62] fix: parse "UTC" (and blanks before "Z" and "UTC") at
 the end of date-time texts, like "GMT" and "utc"

---
 src/Timezones.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index 8c40a7e..e82adff 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -809,7 +809,7 @@ function tzHourToOffset(n: unknown): Maybe<string> {
 // "+02:00", and "+0200" (ISO 8601 basic format). Also accepts seconds like
 // "-00:25:21" for archaic offsets. Handles Unicode minus (−, U+2212).
 const tzRe =
-  /(?:(?<Z>Z)|((UTC)?(?<sign>[+−-])(?<hours>\d\d?)(?::?(?<minutes>\d\d)(?::(?<seconds>\d\d))?)?))$/;
+  /(?:\s*(?<Z>Z|UTC)|((UTC)?(?<sign>[+−-])(?<hours>\d\d?)(?::?(?<minutes>\d\d)(?::(?<seconds>\d\d))?)?))$/;
 
 export interface TzSrc {
   /**
@@ -984,7 +984,7 @@ export function extractZone(
 
   if (match != null && capturedGroups != null) {
     const leftovers = str.slice(0, match.index);
-    if (capturedGroups.Z === "Z")
+    if (capturedGroups.Z != null)
       return {
         zone: "UTC",
         tz: "UTC",
-- 
2.43.0


From 258e7691be85221de5ee640fdaea4a0b077d7eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:08 +0000
Subject: [PATCH 57/62] fix: refuse structure field names with "=", which
 ExifTool takes for other fields

---
 src/WriteTask.ts | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/WriteTask.ts b/src/WriteTask.ts
index 9ad63b3..9d8dfc2 100644
--- a/src/WriteTask.ts
+++ b/src/WriteTask.ts
@@ -79,12 +79,17 @@ function enc(
   } else if (isStruct(o)) {
     // See https://exiftool.org/struct.html#Serialize
     return `{${keys(o)
-      .map(
-        (k) =>
+      .map((k) => {
+        // There is no escape for "=": ExifTool would write to another field
+        if (String(k).includes("=")) {
+          throw new Error("Invalid structure field name: " + JSON.stringify(k));
+        }
+        return (
           enc(k, true, fieldDecodeLayers) +
           "=" +
-          enc(o[k], true, fieldDecodeLayers),
-      )
+          enc(o[k], true, fieldDecodeLayers)
+        );
+      })
       .join(",")}}`;
   } else {
     throw new Error("cannot encode " + JSON.stringify(o));
-- 
2.43.0


From f21ae105e96cd5e693f46a046aef4f855e03c260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:54 +0000
Subject: [PATCH 58/62] fix: don't crash the host when ExifTool can't be
 spawned

---
 src/ExifTool.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ExifTool.ts b/src/ExifTool.ts
index b6abb9c..aa8d68e 100644
--- a/src/ExifTool.ts
+++ b/src/ExifTool.ts
@@ -303,6 +303,13 @@ export class ExifTool {
 
     const processFactory = async () => {
       const proc = await spawnProcess();
+      if (proc.pid == null) {
+        // Nobody else listens to a child that failed to spawn, and an unhandled
+        // "error" event would take down the host process.
+        proc.on("error", (err) =>
+          this.options.logger().error("Failed to spawn ExifTool:", err),
+        );
+      }
       // Decode as a stream: multi-byte characters may straddle chunk boundaries
       proc.stdout?.setEncoding("utf8");
       proc.stderr?.setEncoding("utf8");
-- 
2.43.0


From fdf0208e31e8eccd93fe71c2a66f9a8cc956efe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:54 +0000
Subject: [PATCH 59/62] fix: don't lose errors that are read after {ready} when
 the host is busy

---
 src/ExifToolTask.ts | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ExifToolTask.ts b/src/ExifToolTask.ts
index c3557d6..25d0b3f 100644
--- a/src/ExifToolTask.ts
+++ b/src/ExifToolTask.ts
@@ -34,13 +34,21 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
 
   readonly errors: string[] = [];
   readonly warnings: string[] = [];
+  #stderr = "";
 
   constructor(
     readonly args: string[],
     readonly options?: ExifToolTaskOptions,
   ) {
-    super(ExifToolTask.renderCommand(args, options), (stdout, stderr, passed) =>
-      this.#parser(stdout, stderr, passed),
+    super(
+      ExifToolTask.renderCommand(args, options),
+      async (stdout, _stderr, passed) => {
+        // ExifTool writes to stderr before it writes "{ready}" to stdout, but if
+        // the host is busy, stdout may be read first, and streamFlushMillis may
+        // pass without stderr being polled: poll once more.
+        await new Promise((resolve) => setImmediate(resolve));
+        return this.#parser(stdout, this.#stderr, passed);
+      },
     );
   }
 
@@ -52,6 +60,7 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
       // details.
       throw new Error(buf.toString());
     }
+    this.#stderr += buf.toString();
     super.onStderr(buf);
   }
 
-- 
2.43.0


From 10598dd902f1b668e0dc787d3af55713c557e226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:20 +0000
Subject: [PATCH 60/62] fix: a missing Perl module rejects the call instead of
 crashing the host

---
 src/ExifToolTask.ts | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/ExifToolTask.ts b/src/ExifToolTask.ts
index 25d0b3f..77a2bca 100644
--- a/src/ExifToolTask.ts
+++ b/src/ExifToolTask.ts
@@ -4,7 +4,7 @@ import { isWarning } from "./IsWarning";
 import { Maybe } from "./Maybe";
 import { blank, notBlank, splitLines } from "./String";
 
-const BadPerlInstallationRE = /Can't locate \S+ in @INC/i;
+const BadPerlInstallationRE = /^Can't locate \S+ in @INC/im;
 
 export type ExifToolTaskOptions = Pick<ExifToolOptions, "ignoreMinorErrors">;
 
@@ -35,6 +35,7 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
   readonly errors: string[] = [];
   readonly warnings: string[] = [];
   #stderr = "";
+  #perlError: Maybe<Error>;
 
   constructor(
     readonly args: string[],
@@ -58,19 +59,29 @@ export abstract class ExifToolTask<T> extends bc.Task<T> {
       // needs to be installed. See
       // https://github.com/photostructure/exiftool-vendored.js/issues/168 for
       // details.
-      throw new Error(buf.toString());
+      //
+      // Don't throw here: we're called by a stream, so that would take down the
+      // host process. Don't reject, either, until this process is done with us.
+      this.#perlError ??= new Error(buf.toString());
     }
     this.#stderr += buf.toString();
     super.onStderr(buf);
   }
 
+  override reject(error: Error): boolean {
+    return super.reject(this.#perlError ?? error);
+  }
+
   #parser(stdout: string, stderr: string | undefined, passed: boolean): T {
     let error: Maybe<Error>;
     if (notBlank(stderr) || !passed) {
       for (const line of splitLines(stderr ?? "")) {
         if (isWarning(line)) {
           this.warnings.push(line);
-        } else if (/error|warning/i.test(line)) {
+        } else if (
+          /error|warning/i.test(line) ||
+          BadPerlInstallationRE.test(line)
+        ) {
           this.errors.push(line);
           // new Error() will add a "Error: " prefix:
           error ??= new Error(line.replace(/^error: /i, ""));
-- 
2.43.0


From ef94bbcdc355c1e306e62d8be32bb5e40a10b9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:00 +0000
Subject: [PATCH 61/62] fix: take linear time to look for a zone after long
 runs of white space

The "\s*" of the earlier fix ("parse UTC and blanks before Z and UTC") made the
search quadratic: a date text with 60,000 blanks kept the host busy for seconds.
---
 src/Timezones.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Timezones.ts b/src/Timezones.ts
index e82adff..73c416d 100644
--- a/src/Timezones.ts
+++ b/src/Timezones.ts
@@ -809,7 +809,7 @@ function tzHourToOffset(n: unknown): Maybe<string> {
 // "+02:00", and "+0200" (ISO 8601 basic format). Also accepts seconds like
 // "-00:25:21" for archaic offsets. Handles Unicode minus (−, U+2212).
 const tzRe =
-  /(?:\s*(?<Z>Z|UTC)|((UTC)?(?<sign>[+−-])(?<hours>\d\d?)(?::?(?<minutes>\d\d)(?::(?<seconds>\d\d))?)?))$/;
+  /(?:(?<!\s)\s*(?<Z>Z|UTC)|((UTC)?(?<sign>[+−-])(?<hours>\d\d?)(?::?(?<minutes>\d\d)(?::(?<seconds>\d\d))?)?))$/;
 
 export interface TzSrc {
   /**
-- 
2.43.0


From 78cbba0d2f2d0df2883ebcdcd237658cfbeef19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:00 +0000
Subject: [PATCH 62/62] fix: which() skips directories

A directory named "exiftool" in the PATH was taken for an executable.
---
 src/Which.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Which.ts b/src/Which.ts
index c5eff63..5534482 100644
--- a/src/Which.ts
+++ b/src/Which.ts
@@ -1,5 +1,5 @@
-import { constants, existsSync } from "node:fs";
-import { access } from "node:fs/promises";
+import { constants } from "node:fs";
+import { access, stat } from "node:fs/promises";
 import { basename, delimiter, isAbsolute, join } from "node:path";
 import { env } from "node:process";
 import { isWin32 } from "./IsWin32";
@@ -21,9 +21,10 @@ export async function which(binaryOrPath: string): Promise<Maybe<string>> {
 }
 
 async function canRX(fullpath: string): Promise<boolean> {
-  if (isWin32()) return existsSync(fullpath);
   try {
-    await access(fullpath, constants.R_OK | constants.X_OK);
+    // Directories may be readable and "executable", too:
+    if (!(await stat(fullpath)).isFile()) return false;
+    if (!isWin32()) await access(fullpath, constants.R_OK | constants.X_OK);
     return true;
   } catch {
     return false;
-- 
2.43.0

