From 7d692a3597ca804f3a6cd8c01a468bacdc2785b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 01/66] fix: let a later argument take `--` when an earlier one
 is already filled

---
 packages/core/src/primitives.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 33cec13..5fc75f7 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -2507,7 +2507,9 @@ export function argument<M extends Mode, T>(
       if (localState != null) {
         return {
           success: false,
-          consumed: i,
+          // A preceding `--` has not been consumed either: another argument
+          // may still take it along with the token that follows it.
+          consumed: 0,
           error: options.errors?.multiple
             ? (typeof options.errors.multiple === "function"
               ? options.errors.multiple(valueParser.metavar)
-- 
2.43.0


From d957b074a36d907bdbfad9f8ebd0a8a7e3b8d702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:58 +0000
Subject: [PATCH 02/66] fix: count a short option split off a bundle as
 consumed in longestMatch()

---
 packages/core/src/constructs.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 347eeba..fb5de68 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -4448,7 +4448,12 @@ function createLongestMatch(
       );
 
       if (result.success) {
-        const consumed = context.buffer.length - result.next.buffer.length;
+        // A short option split off a bundle (`-a` of `-ab`) is consumed
+        // without shortening the buffer.
+        const consumed = Math.max(
+          context.buffer.length - result.next.buffer.length,
+          result.consumed.length > 0 ? 1 : 0,
+        );
         // Prefer non-provisional results over provisional ones at the
         // same consumed length, so speculative conditional() branches
         // don't shadow definitive matches at equal length.
@@ -4527,7 +4532,12 @@ function createLongestMatch(
       const result = await resultOrPromise;
 
       if (result.success) {
-        const consumed = context.buffer.length - result.next.buffer.length;
+        // A short option split off a bundle (`-a` of `-ab`) is consumed
+        // without shortening the buffer.
+        const consumed = Math.max(
+          context.buffer.length - result.next.buffer.length,
+          result.consumed.length > 0 ? 1 : 0,
+        );
         // Prefer non-provisional results over provisional ones at the
         // same consumed length, so speculative conditional() branches
         // don't shadow definitive matches at equal length.
-- 
2.43.0


From 3a3466ef4f5fe01b5413a85657bb1b14c79db958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 03/66] fix: show a help page when a withDefault() default is
 outside its value parser's type

---
 packages/core/src/primitives.ts | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 5fc75f7..425610d 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -833,6 +833,22 @@ async function* suggestArgumentAsync<T>(
   }
 }
 
+/**
+ * Formats a default value for documentation.  `withDefault()` may supply
+ * a value outside the value parser's own type, which `format()` is not required
+ * to handle; such a default is left out instead of making the help page throw.
+ */
+function formatDocDefault<M extends Mode, T>(
+  valueParser: ValueParser<M, T>,
+  defaultValue: T,
+): Message | undefined {
+  try {
+    return message`${valueParser.format(defaultValue)}`;
+  } catch {
+    return undefined;
+  }
+}
+
 /**
  * Creates a parser for various styles of command-line options that take an
  * argument value, such as `--option=value`, `-option=value`, `-o value`,
@@ -1370,7 +1386,7 @@ export function option<M extends Mode, T>(
         },
         description: options.description,
         default: defaultValue != null && valueParser != null
-          ? message`${valueParser.format(defaultValue as T)}`
+          ? formatDocDefault(valueParser, defaultValue as T)
           : undefined,
         choices: choicesMessage,
       }];
@@ -2662,7 +2678,7 @@ export function argument<M extends Mode, T>(
         description: options.description,
         default: defaultValue == null
           ? undefined
-          : message`${valueParser.format(defaultValue)}`,
+          : formatDocDefault(valueParser, defaultValue),
         choices: choicesMessage,
       }];
       return { fragments, description: options.description };
-- 
2.43.0


From 6669374a24e959824c2dc22f6fad731b9e4cef9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:31 +0000
Subject: [PATCH 04/66] fix: do not count `--` alone as a match of an optional
 group of options or an alternative

---
 packages/core/src/constructs.ts      | 23 +++++++++++++++++++----
 packages/core/src/internal/parser.ts | 16 ++++++++++++++++
 packages/core/src/modifiers.ts       |  4 +++-
 3 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index fb5de68..0cfef4c 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -78,6 +78,7 @@ import type {
 import {
   defineInheritedAnnotationParser,
   getParserSuggestRuntimeNodes,
+  isTerminatorOnlyMatch,
   unmatchedNonCliDependencySourceStateMarker,
 } from "./internal/parser.ts";
 import type { ParserDependencyMetadata } from "./dependency-metadata.ts";
@@ -1031,6 +1032,20 @@ class DuplicateCommandNameError extends TypeError {
   }
 }
 
+/**
+ * Keeps an exclusive parser from committing to a branch that has matched
+ * nothing but the options terminator (`--`) while there are tokens left.
+ */
+function keepStateOnTerminator<TState>(
+  context: ParserContext<TState>,
+  result: ParserResult<TState>,
+): ParserResult<TState> {
+  return result.success && result.next.buffer.length > 0 &&
+      isTerminatorOnlyMatch(context, result)
+    ? { ...result, next: { ...result.next, state: context.state } }
+    : result;
+}
+
 /**
  * Checks for duplicate option names across parser sources and throws an error
  * if duplicates are found. This should be called at construction time.
@@ -4009,8 +4024,8 @@ export function or(
     parse(context: ParserContext<OrState>) {
       return dispatchByMode(
         combinedMode,
-        () => parseSync(context),
-        () => parseAsync(context),
+        () => keepStateOnTerminator(context, parseSync(context)),
+        async () => keepStateOnTerminator(context, await parseAsync(context)),
       );
     },
     getSuggestRuntimeNodes(
@@ -4607,8 +4622,8 @@ function createLongestMatch(
     parse(context: ParserContext<LongestMatchState>) {
       return dispatchByMode(
         combinedMode,
-        () => parseSync(context),
-        () => parseAsync(context),
+        () => keepStateOnTerminator(context, parseSync(context)),
+        async () => keepStateOnTerminator(context, await parseAsync(context)),
       );
     },
     getSuggestRuntimeNodes(
diff --git a/packages/core/src/internal/parser.ts b/packages/core/src/internal/parser.ts
index e2aac28..c00ccba 100644
--- a/packages/core/src/internal/parser.ts
+++ b/packages/core/src/internal/parser.ts
@@ -790,6 +790,22 @@ export type ParserResult<TState> =
     readonly error: Message;
   };
 
+/**
+ * Tells whether a parser has consumed the options terminator (`--`) and
+ * nothing else, i.e. whether it has matched nothing of its own.
+ * @param context The context the parser was given.
+ * @param result The result of the parser.
+ * @returns `true` if only the options terminator was consumed.
+ * @internal
+ */
+export function isTerminatorOnlyMatch(
+  context: Pick<ParserContext<unknown>, "optionsTerminated">,
+  result: ParserResult<unknown> & { readonly success: true },
+): boolean {
+  return result.consumed.length === 1 && result.consumed[0] === "--" &&
+    result.next.optionsTerminated && !context.optionsTerminated;
+}
+
 /**
  * Infers the result value type of a {@link Parser}.
  * @template T The {@link Parser} to infer the result value type from.
diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index d4190ef..99bb1b0 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -36,6 +36,7 @@ import type { Phase2Seed } from "./phase2-seed.ts";
 import {
   defineInheritedAnnotationParser,
   defineSourceBindingOnlyAnnotationCompletionParser,
+  isTerminatorOnlyMatch,
   unmatchedNonCliDependencySourceStateMarker,
 } from "./internal/parser.ts";
 import type {
@@ -512,7 +513,8 @@ function processOptionalStyleResult<TState>(
     // or if it consumed nothing (e.g. constant parser). Internal delegated
     // annotation carriers do not count as real state changes here.
     if (
-      hasOptionalLikeParseStateChanged(innerState, result.next.state) ||
+      !isTerminatorOnlyMatch(context, result) &&
+        hasOptionalLikeParseStateChanged(innerState, result.next.state) ||
       result.consumed.length === 0
     ) {
       return {
-- 
2.43.0


From 75a74d61961c0bec24f288ec75df33f698da9a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:50 +0000
Subject: [PATCH 05/66] fix: keep a dependency source visible when it is
 wrapped in group()

---
 packages/core/src/constructs.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 0cfef4c..29d7152 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -12941,6 +12941,15 @@ export function group<M extends Mode, TValue, TState>(
       enumerable: false,
     });
   }
+  // Forward dependency metadata so that a grouped dependency source is still
+  // visible to the derived parsers next to the group.
+  if (parser.dependencyMetadata != null) {
+    Object.defineProperty(groupParser, "dependencyMetadata", {
+      value: parser.dependencyMetadata,
+      configurable: true,
+      enumerable: false,
+    });
+  }
   // Forward fallback validation as non-enumerable (see issue #414).
   // group() is a thin wrapper around its inner parser, so validateValue
   // delegates transparently.
-- 
2.43.0


From 3b47e5e669890f3e72742e478a539f75f64c2c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:33 +0000
Subject: [PATCH 06/66] fix: complete the value of an option derived from a
 single source with deriveFrom()

---
 packages/core/src/primitives.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 425610d..a0f8e9a 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -5,6 +5,7 @@ import {
   normalizeInjectedAnnotationState,
 } from "./annotation-state.ts";
 import {
+  dependencyIds,
   type DerivedValueParser,
   getDefaultValuesFunction,
   getDependencyIds,
@@ -480,7 +481,9 @@ function* getSuggestionsWithDependency<T>(
 
       // If we have at least one actual value (not just defaults), use suggestWithDependency
       if (hasAnyValue) {
-        const depValue = depIds.length === 1
+        // derive() expects a scalar; deriveFrom() expects the full tuple, even
+        // with a single dependency.
+        const depValue = derived[dependencyIds] == null
           ? dependencyValues[0]
           : dependencyValues;
         yield* suggestWithDep(prefix, depValue) as Iterable<Suggestion>;
@@ -652,7 +655,9 @@ async function* getSuggestionsWithDependencyAsync<T>(
 
       // If we have at least one actual value (not just defaults), use suggestWithDependency
       if (hasAnyValue) {
-        const depValue = depIds.length === 1
+        // derive() expects a scalar; deriveFrom() expects the full tuple, even
+        // with a single dependency.
+        const depValue = derived[dependencyIds] == null
           ? dependencyValues[0]
           : dependencyValues;
         for await (
-- 
2.43.0


From 71d56a6d0df95d5ade6f11b92ccde211fd3349c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:42 +0000
Subject: [PATCH 07/66] fix: format a file size with a unit only when it reads
 back exactly

formatWithUnits() compared in float64 arithmetic, so that e.g.
1170935903116329 was formatted as "1.04PiB", which parse(), being exact,
refuses.
---
 packages/core/src/valueparser.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/core/src/valueparser.ts b/packages/core/src/valueparser.ts
index ad4f78a..5f786fd 100644
--- a/packages/core/src/valueparser.ts
+++ b/packages/core/src/valueparser.ts
@@ -2878,8 +2878,9 @@ const FILE_SIZE_REGEX = /^([+-]?(?:\d+\.?\d*|\d*\.\d+))\s*([a-zA-Z]*)$/;
  * Falls back to `"${bytes}B"`.
  *
  * A unit is chosen only when the formatted value round-trips exactly: the
- * rounded quotient must lie in [1, 1000) and `rounded * size === bytes` must
- * hold in float64 arithmetic.  This guarantees `parse(format(x)) === x`.
+ * rounded quotient must lie in [1, 1000) and, times the unit's size, be exactly
+ * `bytes` (not only in float64 arithmetic, since `parse()` is exact).  This
+ * guarantees `parse(format(x)) === x`.
  */
 function formatWithUnits(
   bytes: number,
@@ -2892,7 +2893,10 @@ function formatWithUnits(
     const v = bytes / size;
     const rounded = Math.round(v * 100) / 100;
     const absRounded = Math.abs(rounded);
-    if (absRounded >= 1 && absRounded < 1000 && rounded * size === bytes) {
+    if (
+      absRounded >= 1 && absRounded < 1000 && Number.isInteger(bytes) &&
+      parseExactBytesRaw(`${rounded}`, BigInt(size)) === BigInt(bytes)
+    ) {
       return `${rounded}${unit}`;
     }
   }
-- 
2.43.0


From 7968915832d487b6793be59388a2483b0520f165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:44 +0000
Subject: [PATCH 08/66] fix: refuse a file size whose unit is "constructor"
 instead of throwing

The unit was looked up through the prototype of the multiplier table.
---
 packages/core/src/valueparser.ts | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/packages/core/src/valueparser.ts b/packages/core/src/valueparser.ts
index 5f786fd..ac035f0 100644
--- a/packages/core/src/valueparser.ts
+++ b/packages/core/src/valueparser.ts
@@ -3215,9 +3215,10 @@ export function fileSize(
           if (options.defaultUnit == null) return invalidFormatError(input);
           mBig = bigintMultiplierMap[options.defaultUnit.toLowerCase()];
         } else {
-          const m = bigintMultiplierMap[unitStr];
-          if (m == null) return invalidFormatError(input);
-          mBig = m;
+          if (!Object.hasOwn(bigintMultiplierMap, unitStr)) {
+            return invalidFormatError(input);
+          }
+          mBig = bigintMultiplierMap[unitStr];
         }
         const bytes = parseExactBytesRaw(numStr, mBig);
         if (bytes == null) return invalidFormatError(input);
@@ -3266,9 +3267,10 @@ export function fileSize(
         if (options.defaultUnit == null) return invalidFormatError(input);
         multiplier = multiplierMap[options.defaultUnit.toLowerCase()];
       } else {
-        const m = multiplierMap[unitStr];
-        if (m == null) return invalidFormatError(input);
-        multiplier = m;
+        if (!Object.hasOwn(multiplierMap, unitStr)) {
+          return invalidFormatError(input);
+        }
+        multiplier = multiplierMap[unitStr];
       }
       const bytes = parseExactBytes(numStr, multiplier);
       if (bytes == null) return invalidFormatError(input);
-- 
2.43.0


From 1984331469254407b72e51bc9eb69902a05f3ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:37 +0000
Subject: [PATCH 09/66] fix: format a MAC address with the separator its parser
 reads

With separator and outputSeparator set to different values, format() gave text
that parse() refuses, so that a value from bindEnv() or bindConfig() failed its
validation.
---
 packages/core/src/valueparser.ts | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/valueparser.ts b/packages/core/src/valueparser.ts
index ac035f0..ce92aef 100644
--- a/packages/core/src/valueparser.ts
+++ b/packages/core/src/valueparser.ts
@@ -7628,7 +7628,19 @@ export function macAddress(
     },
     format(value: string): string {
       if (typeof value !== "string") return metavar;
-      return normalizeMacValue(value, value);
+      const normalized = normalizeMacValue(value, value);
+      if (
+        separator === "any" || outputSeparator == null ||
+        outputSeparator === separator
+      ) {
+        return normalized;
+      }
+      // A value has the output separator, but parse() reads only the input
+      // separator, so that parse(format(x)) === x needs the latter.
+      const hex = normalized.replace(/[:.-]/g, "");
+      return /^[0-9a-fA-F]{12}$/.test(hex)
+        ? joinOctets(hex.match(/../g)!, separator)
+        : normalized;
     },
     normalize(value: string): string {
       if (typeof value !== "string") return value;
-- 
2.43.0


From 61daaae0cbc5c6abe116f18d82335c8c856a5c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:14 +0000
Subject: [PATCH 10/66] fix: report why ip() refuses an IPv6 address when
 invalidIP is customised

---
 packages/core/src/valueparser.ts | 36 +++++++++++++++++---------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/packages/core/src/valueparser.ts b/packages/core/src/valueparser.ts
index ce92aef..02b4e3c 100644
--- a/packages/core/src/valueparser.ts
+++ b/packages/core/src/valueparser.ts
@@ -8730,12 +8730,19 @@ export function ip(
   const metavar = options?.metavar ?? "IP";
   const errors = options?.errors;
 
+  // Sentinel message passed as the invalidIpv4/invalidIpv6 error hook when
+  // both versions are tried, so that a structural parse failure is told from
+  // a restriction error (private, loopback, etc.) by reference equality, and
+  // not by the text of a message which may be custom.
+  const genericIpSentinel: Message = [];
+  const invalidIP = version === "both" ? genericIpSentinel : errors?.invalidIP;
+
   // Create IPv4 parser if needed
   const ipv4Parser = (version === 4 || version === "both")
     ? ipv4({
       ...options?.ipv4,
       errors: {
-        invalidIpv4: errors?.invalidIP,
+        invalidIpv4: invalidIP,
         privateNotAllowed: errors?.privateNotAllowed,
         loopbackNotAllowed: errors?.loopbackNotAllowed,
         linkLocalNotAllowed: errors?.linkLocalNotAllowed,
@@ -8751,7 +8758,7 @@ export function ip(
     ? ipv6({
       ...options?.ipv6,
       errors: {
-        invalidIpv6: errors?.invalidIP,
+        invalidIpv6: invalidIP,
         loopbackNotAllowed: errors?.loopbackNotAllowed,
         linkLocalNotAllowed: errors?.linkLocalNotAllowed,
         uniqueLocalNotAllowed: errors?.uniqueLocalNotAllowed,
@@ -8836,23 +8843,18 @@ export function ip(
       // Both failed - return the first non-generic error
       // Prefer errors from parsers that actually tried to parse
       // (e.g., "private not allowed" over "invalid IPv4")
-      if (ipv4Error !== null && !ipv4Error.success) {
-        // Check if it's a generic "invalid" error by looking for "Expected" text
-        const isGeneric = ipv4Error.error.some((term) =>
-          term.type === "text" && term.text.includes("Expected")
-        );
-        if (!isGeneric) {
-          return ipv4Error;
-        }
+      if (
+        ipv4Error !== null && !ipv4Error.success &&
+        ipv4Error.error !== genericIpSentinel
+      ) {
+        return ipv4Error;
       }
 
-      if (ipv6Error !== null && !ipv6Error.success) {
-        const isGeneric = ipv6Error.error.some((term) =>
-          term.type === "text" && term.text.includes("Expected")
-        );
-        if (!isGeneric) {
-          return ipv6Error;
-        }
+      if (
+        ipv6Error !== null && !ipv6Error.success &&
+        ipv6Error.error !== genericIpSentinel
+      ) {
+        return ipv6Error;
       }
 
       // Return generic error if both returned generic errors or custom error is set
-- 
2.43.0


From 5fa8a43071beb2fa88429bc9af206b74599ab74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:40 +0000
Subject: [PATCH 11/66] fix: compare the domain of an address with @ in its
 quoted local part to allowedDomains

---
 packages/core/src/valueparser.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/valueparser.ts b/packages/core/src/valueparser.ts
index 02b4e3c..412122a 100644
--- a/packages/core/src/valueparser.ts
+++ b/packages/core/src/valueparser.ts
@@ -5945,7 +5945,7 @@ export function email(
 
           // Check domain restriction
           if (allowedDomains != null) {
-            const atIndex = validated.indexOf("@");
+            const atIndex = validated.lastIndexOf("@");
             const domain = validated.substring(atIndex + 1).toLowerCase();
             const isAllowed = allowedDomains.some((allowed) =>
               domain === allowed.toLowerCase()
@@ -5987,7 +5987,7 @@ export function email(
 
         // Check domain restriction
         if (allowedDomains != null) {
-          const atIndex = validated.indexOf("@");
+          const atIndex = validated.lastIndexOf("@");
           const domain = validated.substring(atIndex + 1).toLowerCase();
           const isAllowed = allowedDomains.some((allowed) =>
             domain === allowed.toLowerCase()
-- 
2.43.0


From c873239664d4e8c986660e4cfe5adb0d9a1bf57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:07 +0000
Subject: [PATCH 12/66] fix: do not split a list of e-mail addresses inside a
 quoted word of a display name

---
 packages/core/src/valueparser.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/valueparser.ts b/packages/core/src/valueparser.ts
index 412122a..a710ad3 100644
--- a/packages/core/src/valueparser.ts
+++ b/packages/core/src/valueparser.ts
@@ -5896,7 +5896,8 @@ export function email(
       } else if (char === '"' && !inAngleBrackets) {
         if (inQuotes) {
           inQuotes = false;
-        } else if (current.trim() === "") {
+        } else if (/(?:^|\s)$/.test(current)) {
+          // At the start of the address or of a word of its display name.
           inQuotes = true;
         }
       } else if (char === "<" && !inQuotes) {
-- 
2.43.0


From 2084a6f0b785ef0cb6576fb5a249c9b953f24c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:23 +0000
Subject: [PATCH 13/66] fix: let a cron range of weekdays end on Sunday written
 as 00

---
 packages/core/src/valueparser.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/valueparser.ts b/packages/core/src/valueparser.ts
index a710ad3..bceed58 100644
--- a/packages/core/src/valueparser.ts
+++ b/packages/core/src/valueparser.ts
@@ -10525,14 +10525,15 @@ function parseCronRangeEnd(
   end: string,
   spec: CronFieldSpec,
 ): number | undefined {
+  const value = parseCronValue(end, spec);
   if (
     spec.kind === "dayOfWeek" &&
     start.toUpperCase() !== "SUN" &&
-    (end.toUpperCase() === "SUN" || end === "0")
+    value === 0
   ) {
     return 7;
   }
-  return parseCronValue(end, spec);
+  return value;
 }
 
 function parseCronValue(
-- 
2.43.0


From 44776d6b16e6f914f9020eeb0ada9e7e6f5579fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:00 +0000
Subject: [PATCH 14/66] fix: keep completing after a parser that succeeds
 without consuming a word

---
 packages/core/src/internal/parser.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/core/src/internal/parser.ts b/packages/core/src/internal/parser.ts
index c00ccba..04ed0f8 100644
--- a/packages/core/src/internal/parser.ts
+++ b/packages/core/src/internal/parser.ts
@@ -1147,9 +1147,10 @@ export function suggestSync<T>(
         parser.suggest(withSuggestRuntime(parser, context), prefix),
       );
     }
-    const previousBuffer = context.buffer;
+    // A parser that succeeds without consuming anything cannot make further
+    // progress, so stop here just as on a failure.
+    if (isBufferUnchanged(context.buffer, result.next.buffer)) break;
     context = result.next;
-    if (isBufferUnchanged(previousBuffer, context.buffer)) return [];
   }
 
   // Get suggestions from the parser with the prefix
@@ -1380,9 +1381,10 @@ export async function suggestAsync<T>(
       }
       return suggestions;
     }
-    const previousBuffer = context.buffer;
+    // A parser that succeeds without consuming anything cannot make further
+    // progress, so stop here just as on a failure.
+    if (isBufferUnchanged(context.buffer, result.next.buffer)) break;
     context = result.next;
-    if (isBufferUnchanged(previousBuffer, context.buffer)) return [];
   }
 
   // Get suggestions from the parser with the prefix
-- 
2.43.0


From a5fa9b3b600790276398559ee3ba6c65c4231682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:00 +0000
Subject: [PATCH 15/66] fix: do not offer option names for completion after --

---
 packages/core/src/primitives.ts | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index a0f8e9a..b8bcc09 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -509,7 +509,8 @@ function* suggestOptionSync<T>(
   >,
   prefix: string,
 ): Generator<Suggestion> {
-  if (hidden) return;
+  // After `--` an option name would be read as a positional argument.
+  if (hidden || context.optionsTerminated) return;
 
   // Check for --option=value format
   const equalsIndex = prefix.indexOf("=");
@@ -692,7 +693,8 @@ async function* suggestOptionAsync<T>(
   >,
   prefix: string,
 ): AsyncGenerator<Suggestion> {
-  if (hidden) return;
+  // After `--` an option name would be read as a positional argument.
+  if (hidden || context.optionsTerminated) return;
 
   // Check for --option=value format
   const equalsIndex = prefix.indexOf("=");
@@ -1863,8 +1865,9 @@ export function flag(
         error: message`${eOptionNames(optionNames)}: ${state.error}`,
       };
     },
-    suggest(_context, prefix) {
-      if (isSuggestionHidden(options.hidden)) {
+    suggest(context, prefix) {
+      // After `--` an option name would be read as a positional argument.
+      if (isSuggestionHidden(options.hidden) || context.optionsTerminated) {
         return [];
       }
       const suggestions: Suggestion[] = [];
@@ -2311,8 +2314,9 @@ export function negatableFlag(
       }
       return { success: true, value: state.value };
     },
-    suggest(_context, prefix) {
-      if (isSuggestionHidden(options.hidden)) {
+    suggest(context, prefix) {
+      // After `--` an option name would be read as a positional argument.
+      if (isSuggestionHidden(options.hidden) || context.optionsTerminated) {
         return [];
       }
       const suggestions: Suggestion[] = [];
-- 
2.43.0


From 0482aef43477ff99f93119809ccee6caeeb0f628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:30 +0000
Subject: [PATCH 16/66] fix: keep control characters in a file pattern from
 splitting completion records

---
 packages/core/src/completion.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index 59ae1af..9347268 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -47,7 +47,9 @@ function validateProgramName(programName: string): void {
  * @internal
  */
 function encodePattern(pattern: string): string {
-  return pattern.replace(/%/g, "%25").replace(/:/g, "%3A");
+  return sanitizeForTransport(pattern)
+    .replace(/%/g, "%25")
+    .replace(/:/g, "%3A");
 }
 
 function encodeExtensions(
-- 
2.43.0


From 67167bc2d2e339b21a33aead32416196834eae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:30 +0000
Subject: [PATCH 17/66] fix: do not offer empty words in bash completion for
 blank separator lines

---
 packages/core/src/completion.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index 9347268..20594aa 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -319,8 +319,8 @@ function _${programName} () {
         done
         COMPREPLY=("\${filtered[@]}")
       fi
-    else
-      # Regular literal completion
+    elif [[ -n "$line" ]]; then
+      # Regular literal completion; blank lines only separate suggestions
       COMPREPLY+=("$line")
     fi
   done < <(${programName} ${escapedArgs} "\${prev[@]}" "$current" 2>/dev/null)
-- 
2.43.0


From d1c3340a9ec7f1a815730cfa089de0f8df115252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:30 +0000
Subject: [PATCH 18/66] fix: escape colons and backslashes in zsh completion
 matches

---
 packages/core/src/completion.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index 20594aa..0eeed23 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -475,6 +475,9 @@ function _${programName.replace(/[^a-zA-Z0-9]/g, "_")} () {
       else
         # Regular literal completion
         if [[ -n "\$value" ]]; then
+          # _describe splits each match at the first unescaped colon
+          value="\${value//\\\\/\\\\\\\\}"
+          value="\${value//:/\\\\:}"
           completions+=("\$value")
           descriptions+=("\$desc")
         fi
-- 
2.43.0


From 9bc648e8e39de4aa495248533195373d0e6a6dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:30 +0000
Subject: [PATCH 19/66] fix: escape backslashes in arguments of the fish
 completion script

---
 packages/core/src/completion.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index 0eeed23..63b8841 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -539,7 +539,9 @@ export const fish: ShellCompletion = {
   name: "fish",
   generateScript(programName: string, args: readonly string[] = []): string {
     validateProgramName(programName);
-    const escapedArgs = args.map((arg) => `'${arg.replace(/'/g, "\\'")}'`)
+    const escapedArgs = args.map((arg) =>
+      `'${arg.replace(/[\\']/g, "\\$&")}'`
+    )
       .join(" ");
     const functionName = `__${
       programName.replace(/[^a-zA-Z0-9]/g, "_")
-- 
2.43.0


From 87fb67b48759f78707086ac28c710f732421ba1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:36 +0000
Subject: [PATCH 20/66] fix: keep optional repeated positionals in order in a
 usage line

---
 packages/core/src/usage.ts | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/packages/core/src/usage.ts b/packages/core/src/usage.ts
index 960eede..b2ea976 100644
--- a/packages/core/src/usage.ts
+++ b/packages/core/src/usage.ts
@@ -671,18 +671,21 @@ export function normalizeUsage(usage: Usage): Usage {
   terms.sort((a, b) => {
     const aCmd = a.type === "command";
     const bCmd = b.type === "command";
-    const aArg = a.type === "argument" ||
-      (a.type === "optional" || a.type === "multiple") &&
-        a.terms.at(-1)?.type === "argument";
-    const bArg = b.type === "argument" ||
-      (b.type === "optional" || b.type === "multiple") &&
-        b.terms.at(-1)?.type === "argument";
+    const aArg = isPositionalTerm(a);
+    const bArg = isPositionalTerm(b);
     // Sort commands first and arguments last:
     return aCmd === bCmd ? aArg === bArg ? 0 : aArg ? 1 : -1 : aCmd ? -1 : 1;
   });
   return terms;
 }
 
+function isPositionalTerm(term: UsageTerm | undefined): boolean {
+  if (term?.type === "optional" || term?.type === "multiple") {
+    return isPositionalTerm(term.terms.at(-1));
+  }
+  return term?.type === "argument";
+}
+
 function normalizeUsageTerm(term: UsageTerm): UsageTerm {
   if (term.type === "optional") {
     const normalized = normalizeUsage(term.terms);
-- 
2.43.0


From 2256935414148636c5c096c442c5e5eff4f88495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:15 +0000
Subject: [PATCH 21/66] fix: put suggested names on lines of their own

---
 packages/core/src/suggestion.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages/core/src/suggestion.ts b/packages/core/src/suggestion.ts
index f1d8010..9fd43e6 100644
--- a/packages/core/src/suggestion.ts
+++ b/packages/core/src/suggestion.ts
@@ -251,8 +251,7 @@ export function createSuggestionMessage(
   const messageParts: MessageTerm[] = [text("Did you mean one of these?")];
 
   for (const suggestion of suggestions) {
-    messageParts.push(text("\n  "));
-    messageParts.push(optionName(suggestion));
+    messageParts.push(lineBreak(), text("  "), optionName(suggestion));
   }
 
   return messageParts;
-- 
2.43.0


From edc129ae41bae02950248eecbd26e6c87652e756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:15 +0000
Subject: [PATCH 22/66] fix: keep empty strings in valueSet()

---
 packages/core/src/message.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/message.ts b/packages/core/src/message.ts
index 5f5b12d..b0b7b76 100644
--- a/packages/core/src/message.ts
+++ b/packages/core/src/message.ts
@@ -505,12 +505,15 @@ export function valueSet(
     },
   );
 
-  const parts = formatter.formatToParts(values as string[]);
+  // formatToParts() leaves out empty elements, so let a placeholder stand in
+  // for them and take the values from the original list instead.
+  const parts = formatter.formatToParts(values.map((v) => v === "" ? "_" : v));
   const result: MessageTerm[] = [];
 
+  let index = 0;
   for (const part of parts) {
     if (part.type === "element") {
-      result.push({ type: "value", value: part.value });
+      result.push({ type: "value", value: values[index++] });
     } else {
       // part.type === "literal"
       result.push({ type: "text", text: part.value });
-- 
2.43.0


From 4770d7b39e6e313007a8aa64f4d94c13d6c69865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:15 +0000
Subject: [PATCH 23/66] fix: reset the color after a list of a single value

---
 packages/core/src/message.ts | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/packages/core/src/message.ts b/packages/core/src/message.ts
index b0b7b76..bae92a2 100644
--- a/packages/core/src/message.ts
+++ b/packages/core/src/message.ts
@@ -709,11 +709,9 @@ export function formatMessage(
             : term.values[i];
           yield {
             text: useColors
-              ? i <= 0
-                ? `\x1b[32m${value}`
-                : i + 1 >= term.values.length
-                ? `${value}${resetSequence}`
-                : value
+              ? `${i <= 0 ? "\x1b[32m" : ""}${value}${
+                i + 1 >= term.values.length ? resetSequence : ""
+              }`
               : value,
             width: getDisplayWidth(value),
           };
-- 
2.43.0


From 177934c8f61d968bd0a2376ec151aa3c7c436604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:02 +0000
Subject: [PATCH 24/66] fix: keep completing a command line whose parser
 succeeds without consuming a word

---
 packages/core/src/facade.ts | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/packages/core/src/facade.ts b/packages/core/src/facade.ts
index 5d1cb8f..b7284e9 100644
--- a/packages/core/src/facade.ts
+++ b/packages/core/src/facade.ts
@@ -1816,14 +1816,10 @@ function getSyncCompletionSuggestions(
         argumentContext,
       };
     }
-    const previousBuffer = context.buffer;
+    // A parser that succeeds without consuming anything cannot make further
+    // progress, so stop here just as on a failure.
+    if (isCompletionBufferUnchanged(context.buffer, result.next.buffer)) break;
     context = result.next;
-    if (isCompletionBufferUnchanged(previousBuffer, context.buffer)) {
-      return {
-        suggestions: [],
-        argumentContext: getCompletedCompletionArgumentContext(context),
-      };
-    }
   }
 
   return {
@@ -1864,14 +1860,10 @@ async function getAsyncCompletionSuggestions(
       }
       return { suggestions, argumentContext };
     }
-    const previousBuffer = context.buffer;
+    // A parser that succeeds without consuming anything cannot make further
+    // progress, so stop here just as on a failure.
+    if (isCompletionBufferUnchanged(context.buffer, result.next.buffer)) break;
     context = result.next;
-    if (isCompletionBufferUnchanged(previousBuffer, context.buffer)) {
-      return {
-        suggestions: [],
-        argumentContext: getCompletedCompletionArgumentContext(context),
-      };
-    }
   }
 
   const suggestions: Suggestion[] = [];
-- 
2.43.0


From 2bd656a58586bd293543ea01703f10652215dea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:25 +0000
Subject: [PATCH 25/66] fix: do not take inherited property names for
 completion shells

---
 packages/core/src/facade.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/facade.ts b/packages/core/src/facade.ts
index b7284e9..d2357ef 100644
--- a/packages/core/src/facade.ts
+++ b/packages/core/src/facade.ts
@@ -1625,7 +1625,9 @@ function handleCompletion<M extends Mode, THelp, TError>(
     );
   }
 
-  const shell = availableShells[shellName];
+  const shell = Object.hasOwn(availableShells, shellName)
+    ? availableShells[shellName]
+    : undefined;
 
   if (!shell) {
     const available: MessageTerm[] = [];
-- 
2.43.0


From 6ad8743a271263d0401ffe700a90dd622881ccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:25 +0000
Subject: [PATCH 26/66] fix: do not take inherited property names for
 conditional() branches

---
 packages/core/src/constructs.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 29d7152..28bed49 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -13183,7 +13183,7 @@ export function conditional<
  */
 export function conditional(
   discriminator: Parser<Mode, string, unknown>,
-  branches: Record<string, Parser<Mode, unknown, unknown>>,
+  namedBranches: Record<string, Parser<Mode, unknown, unknown>>,
   defaultBranch?: Parser<Mode, unknown, unknown>,
   options?: ConditionalOptions,
 ): FluentParser<
@@ -13191,6 +13191,10 @@ export function conditional(
   readonly [string | undefined, unknown],
   ConditionalState<string>
 > {
+  // Branches are looked up by user input, which must not find the names
+  // inherited from Object.prototype (e.g., "toString").
+  const branches: Record<string, Parser<Mode, unknown, unknown>> = Object
+    .assign(Object.create(null), namedBranches);
   const branchParsers = Object.entries(branches);
   const allBranchParsers = defaultBranch
     ? [...branchParsers.map(([_, p]) => p), defaultBranch]
-- 
2.43.0


From af743fbba736d2262b553db7aa9aee12ef7630f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:10 +0000
Subject: [PATCH 27/66] fix: let map(), group() and nonEmpty() pass annotations
 on to source-bound parsers

---
 packages/core/src/annotation-state.ts |  8 ++---
 packages/core/src/constructs.ts       |  2 ++
 packages/core/src/extension.ts        |  4 +--
 packages/core/src/internal/parser.ts  | 44 +++++++++++++++++++++++++++
 packages/core/src/modifiers.ts        |  5 +++
 5 files changed, 56 insertions(+), 7 deletions(-)

diff --git a/packages/core/src/annotation-state.ts b/packages/core/src/annotation-state.ts
index 6993ad8..7ea40d0 100644
--- a/packages/core/src/annotation-state.ts
+++ b/packages/core/src/annotation-state.ts
@@ -8,7 +8,7 @@ import {
   unwrapInjectedAnnotationWrapper,
 } from "./internal/annotations.ts";
 import {
-  inheritParentAnnotationsKey,
+  inheritsParentAnnotations,
   type Mode,
   type Parser,
 } from "./internal/parser.ts";
@@ -628,8 +628,7 @@ export function getWrappedChildParseState<TState>(
   parser: Parser<Mode, unknown, unknown>,
 ): TState {
   const annotations = getAnnotations(parentState);
-  const shouldInheritAnnotations =
-    Reflect.get(parser, inheritParentAnnotationsKey) === true;
+  const shouldInheritAnnotations = inheritsParentAnnotations(parser);
   if (childState == null) {
     if (annotations !== undefined && shouldInheritAnnotations) {
       return injectAnnotations(childState, annotations);
@@ -669,8 +668,7 @@ export function getWrappedChildState<TState>(
   parser: Parser<Mode, unknown, unknown>,
 ): TState {
   const annotations = getAnnotations(parentState);
-  const shouldInheritAnnotations =
-    Reflect.get(parser, inheritParentAnnotationsKey) === true;
+  const shouldInheritAnnotations = inheritsParentAnnotations(parser);
   if (childState == null) {
     if (annotations !== undefined && shouldInheritAnnotations) {
       return injectAnnotations(childState, annotations);
diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 28bed49..c515ad1 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -77,6 +77,7 @@ import type {
 } from "./parser.ts";
 import {
   defineInheritedAnnotationParser,
+  forwardAnnotationInheritance,
   getParserSuggestRuntimeNodes,
   isTerminatorOnlyMatch,
   unmatchedNonCliDependencySourceStateMarker,
@@ -12922,6 +12923,7 @@ export function group<M extends Mode, TValue, TState>(
     configurable: true,
     enumerable: false,
   });
+  forwardAnnotationInheritance(parser, groupParser);
   // Lazily forward placeholder from inner parser to avoid eagerly
   // evaluating derived value parser factories at construction time.
   if ("placeholder" in parser) {
diff --git a/packages/core/src/extension.ts b/packages/core/src/extension.ts
index e43fcbd..3fd1d61 100644
--- a/packages/core/src/extension.ts
+++ b/packages/core/src/extension.ts
@@ -15,7 +15,7 @@ import {
   composeWrappedSourceMetadata,
   defineInheritedAnnotationParser,
   getDelegatingSuggestRuntimeNodes,
-  inheritParentAnnotationsKey,
+  inheritsParentAnnotations,
   unmatchedNonCliDependencySourceStateMarker,
 } from "./internal/parser.ts";
 
@@ -134,7 +134,7 @@ export function defineTraits(parser: object, traits: ParserTraits): void {
  */
 export function getTraits(parser: object): ParserTraits {
   const traits: ParserTraits = {
-    ...(Reflect.get(parser, inheritParentAnnotationsKey) === true
+    ...(inheritsParentAnnotations(parser)
       ? { inheritsAnnotations: true as const }
       : {}),
     ...(Reflect.get(parser, unmatchedNonCliDependencySourceStateMarker) === true
diff --git a/packages/core/src/internal/parser.ts b/packages/core/src/internal/parser.ts
index 04ed0f8..7f06ccf 100644
--- a/packages/core/src/internal/parser.ts
+++ b/packages/core/src/internal/parser.ts
@@ -568,6 +568,16 @@ export const inheritParentAnnotationsKey: unique symbol = Symbol.for(
   "@optique/core/inheritParentAnnotations",
 );
 
+/**
+ * Internal marker for wrappers, such as `map()` and `group()`, around a parser
+ * with {@link inheritParentAnnotationsKey}, whose state they share.
+ *
+ * @internal
+ */
+export const forwardedAnnotationInheritanceKey: unique symbol = Symbol.for(
+  "@optique/core/forwardedAnnotationInheritance",
+);
+
 /**
  * Internal marker for wrapper parsers that should only treat annotation-only
  * primitive wrapper states as completable when a nested source-binding wrapper
@@ -1328,6 +1338,40 @@ export function defineSourceBindingOnlyAnnotationCompletionParser(
   });
 }
 
+/**
+ * Forwards annotation inheritance of a wrapped parser to a wrapper that
+ * shares the wrapped parser's state, so that source-binding parsers such as
+ * `bindEnv()` keep receiving annotations through the wrapper.
+ *
+ * @internal
+ */
+export function forwardAnnotationInheritance(
+  inner: object,
+  wrapper: object,
+): void {
+  if (inheritsParentAnnotations(inner)) {
+    Object.defineProperty(wrapper, forwardedAnnotationInheritanceKey, {
+      value: true,
+      configurable: true,
+      enumerable: false,
+    });
+  }
+  if (Reflect.get(inner, annotationWrapperRequiresSourceBindingKey) === true) {
+    defineSourceBindingOnlyAnnotationCompletionParser(wrapper);
+  }
+}
+
+/**
+ * Checks whether a parser, or the parser it merely wraps, inherits
+ * parent-state annotations.
+ *
+ * @internal
+ */
+export function inheritsParentAnnotations(parser: object): boolean {
+  return Reflect.get(parser, inheritParentAnnotationsKey) === true ||
+    Reflect.get(parser, forwardedAnnotationInheritanceKey) === true;
+}
+
 /**
  * Generates command-line suggestions based on current parsing state.
  * This function processes the input arguments up to the last argument,
diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index 99bb1b0..fe5307a 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -36,6 +36,7 @@ import type { Phase2Seed } from "./phase2-seed.ts";
 import {
   defineInheritedAnnotationParser,
   defineSourceBindingOnlyAnnotationCompletionParser,
+  forwardAnnotationInheritance,
   isTerminatorOnlyMatch,
   unmatchedNonCliDependencySourceStateMarker,
 } from "./internal/parser.ts";
@@ -1673,6 +1674,9 @@ export function map<M extends Mode, T, U, TState>(
       return parser.getDocFragments(state, undefined);
     },
   } as Parser<M, U, TState>;
+  // The annotation markers are non-enumerable, so the ...parser spread drops
+  // them; without them a source-bound inner parser never sees annotations.
+  forwardAnnotationInheritance(parser, mappedParser);
   // Strip any normalizeValue inherited from the inner parser via ...parser
   // spread.  The inner normalizer operates on type T, not the mapped type U,
   // so keeping it would corrupt mapped defaults.
@@ -3395,6 +3399,7 @@ export function nonEmpty<M extends Mode, T, TState>(
       return syncParser.getDocFragments(state, defaultValue);
     },
   } as Parser<M, T, TState>;
+  forwardAnnotationInheritance(parser, nonEmptyParser);
   // Forward placeholder lazily from inner parser.
   if ("placeholder" in parser) {
     Object.defineProperty(nonEmptyParser, "placeholder", {
-- 
2.43.0


From 14f40635f2fc1610f0a6f543b255786b1eced358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:10 +0000
Subject: [PATCH 28/66] fix: do not complete multiple() inside optional() with
 a state it never had

---
 packages/core/src/modifiers.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index fe5307a..4202556 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -640,6 +640,16 @@ function normalizeOptionalLikeInnerState<TState>(
     return initialState;
   }
   if (state != null && typeof state === "object") {
+    // An annotated `undefined` is the outer parser's "no state yet"; a parser
+    // whose own initial state is an object must not be handed it as its state.
+    if (
+      initialState != null &&
+      typeof initialState === "object" &&
+      isInjectedAnnotationWrapper(state) &&
+      unwrapInjectedAnnotationWrapper(state) === undefined
+    ) {
+      return getDelegatedAnnotationState(state, initialState);
+    }
     return state;
   }
   return initialState;
-- 
2.43.0


From 180abecb9faeaef30fc7a49bc21f7e8422a3afec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:10 +0000
Subject: [PATCH 29/66] fix: hand annotations to the elements of tuple() and
 concat() that were not parsed

---
 packages/core/src/constructs.ts | 58 ++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index c515ad1..ba66dd1 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -212,6 +212,24 @@ function createAnnotatedArrayStateRecord(
   return inheritAnnotations(stateArray, stateRecord);
 }
 
+/**
+ * Hands the annotations of an array state down to its element states, so that
+ * source-bound elements see them even if the array parser's own `parse()` was
+ * never called (as happens inside `object()` when it consumes nothing).
+ */
+function annotateElementStates(
+  stateArray: readonly unknown[],
+  parsers: readonly Parser<Mode, unknown, unknown>[],
+): readonly unknown[] {
+  if (getAnnotations(stateArray) === undefined) return stateArray;
+  return annotateFreshArray(
+    stateArray,
+    stateArray.map((state, index) =>
+      getAnnotatedChildState(stateArray, state, parsers[index])
+    ),
+  );
+}
+
 interface LeadingNameSource {
   readonly leadingNames: ReadonlySet<string>;
   readonly acceptingAnyToken: boolean;
@@ -8609,7 +8627,10 @@ export function tuple<
       return dispatchByMode(
         combinedMode,
         () => {
-          const stateArray = state as unknown[];
+          const stateArray = annotateElementStates(
+            state as unknown[],
+            parsers,
+          );
 
           // Phase 1: Build dependency runtime and collect/fill source values.
           const runtime = exec?.dependencyRuntime ??
@@ -8706,7 +8727,10 @@ export function tuple<
           };
         },
         async () => {
-          const stateArray = state as unknown[];
+          const stateArray = annotateElementStates(
+            state as unknown[],
+            parsers,
+          );
 
           // Phase 1: Build dependency runtime and pre-complete dependency
           // source parsers (single evaluation point for lazy defaults).
@@ -8807,7 +8831,10 @@ export function tuple<
       return dispatchByMode(
         combinedMode,
         () => {
-          const stateArray = state as unknown[];
+          const stateArray = annotateElementStates(
+            state as unknown[],
+            parsers,
+          );
           const runtime = exec?.dependencyRuntime ??
             createDependencyRuntimeContext(exec?.dependencyRegistry);
           const childExec = withDependencyRuntimeExec(
@@ -8890,7 +8917,10 @@ export function tuple<
           };
         },
         async () => {
-          const stateArray = state as unknown[];
+          const stateArray = annotateElementStates(
+            state as unknown[],
+            parsers,
+          );
           const runtime = exec?.dependencyRuntime ??
             createDependencyRuntimeContext(exec?.dependencyRegistry);
           const childExec = withDependencyRuntimeExec(
@@ -12226,7 +12256,10 @@ export function concat(
     state: readonly unknown[],
     exec?: ExecutionContext,
   ): CompleteResult => {
-    const stateArray = state as unknown[];
+    const stateArray = annotateElementStates(
+      state as unknown[],
+      parsers,
+    );
 
     // Phase 1: Build dependency runtime and pre-complete dependency
     // source parsers before resolving deferred states.
@@ -12336,7 +12369,10 @@ export function concat(
     state: readonly unknown[],
     exec?: ExecutionContext,
   ): Promise<CompleteResult> => {
-    const stateArray = state as unknown[];
+    const stateArray = annotateElementStates(
+      state as unknown[],
+      parsers,
+    );
 
     // Phase 1: Build dependency runtime and pre-complete dependency
     // source parsers before resolving deferred states.
@@ -12473,7 +12509,10 @@ export function concat(
       return dispatchByMode(
         combinedMode,
         () => {
-          const stateArray = state as unknown[];
+          const stateArray = annotateElementStates(
+            state as unknown[],
+            parsers,
+          );
           const runtime = exec?.dependencyRuntime ??
             createDependencyRuntimeContext(exec?.dependencyRegistry);
           const childExec = withDependencyRuntimeExec(
@@ -12545,7 +12584,10 @@ export function concat(
           };
         },
         async () => {
-          const stateArray = state as unknown[];
+          const stateArray = annotateElementStates(
+            state as unknown[],
+            parsers,
+          );
           const runtime = exec?.dependencyRuntime ??
             createDependencyRuntimeContext(exec?.dependencyRegistry);
           const childExec = withDependencyRuntimeExec(
-- 
2.43.0


From 499999a2677cb2e3495124c327677538419477ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:11 +0000
Subject: [PATCH 30/66] fix: only a missing configuration file itself counts as
 no configuration

An ENOENT thrown by a custom file parser (for example for a missing include)
or by the schema made the whole configuration be ignored silently, and a
SyntaxError thrown by the schema was reported as a malformed file.
---
 packages/config/src/index.ts | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/packages/config/src/index.ts b/packages/config/src/index.ts
index 7912c04..bb3bd0c 100644
--- a/packages/config/src/index.ts
+++ b/packages/config/src/index.ts
@@ -536,11 +536,22 @@ export function createConfigContext<T, TConfigMeta = ConfigMeta>(
           configPath: absoluteConfigPath,
         };
 
+        let contents: Uint8Array;
         try {
-          const contents = readFileSync(absoluteConfigPath);
+          contents = readFileSync(absoluteConfigPath);
+        } catch (error) {
+          // Missing config file is optional in single-file mode.
+          if (isErrnoException(error) && error.code === "ENOENT") {
+            return emptyAnnotations();
+          }
+          throw error;
+        }
 
-          // Parse file contents
-          let rawData: unknown;
+        // Only reading the file itself may report it as missing, and only
+        // parsing it as malformed: errors of the file parser's own file
+        // accesses and of the schema are propagated as they are.
+        let rawData: unknown;
+        try {
           if (rawFileParser) {
             rawData = rawFileParser(contents);
           } else {
@@ -548,16 +559,7 @@ export function createConfigContext<T, TConfigMeta = ConfigMeta>(
             const text = new TextDecoder().decode(contents);
             rawData = JSON.parse(text);
           }
-
-          return validateAndBuildAnnotations(
-            rawData,
-            singleFileMeta as TConfigMeta,
-          );
         } catch (error) {
-          // Missing config file is optional in single-file mode.
-          if (isErrnoException(error) && error.code === "ENOENT") {
-            return emptyAnnotations();
-          }
           if (error instanceof SyntaxError) {
             throw new Error(
               `Failed to parse config file ` +
@@ -566,6 +568,11 @@ export function createConfigContext<T, TConfigMeta = ConfigMeta>(
           }
           throw error;
         }
+
+        return validateAndBuildAnnotations(
+          rawData,
+          singleFileMeta as TConfigMeta,
+        );
       }
 
       return emptyAnnotations();
-- 
2.43.0


From 0bba0cc9efc19bcc065b7ba8aa7c690d013fd6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:54 +0000
Subject: [PATCH 31/66] fix: let Clack validate numbers and empty input

Clack calls validators synchronously, so the async validator of number
prompts refused every number and crashed while rendering the Promise as an
error; and it passes undefined instead of an empty string as long as nothing
has been typed, which made validators throw.
---
 packages/clack/src/index.ts | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/packages/clack/src/index.ts b/packages/clack/src/index.ts
index 71b522a..06e4de5 100644
--- a/packages/clack/src/index.ts
+++ b/packages/clack/src/index.ts
@@ -259,21 +259,21 @@ type RuntimePromptConfig =
   | StringPromptConfig
   | MultiselectConfig;
 
+type ClackValidate = (
+  value: string | undefined,
+) => string | void | Promise<string | void>;
+
 type ClackText = (config: {
   readonly message: string;
   readonly placeholder?: string;
   readonly initialValue?: string;
-  readonly validate?: (
-    value: string,
-  ) => string | void | Promise<string | void>;
+  readonly validate?: ClackValidate;
 }) => Promise<unknown>;
 
 type ClackPassword = (config: {
   readonly message: string;
   readonly mask?: string;
-  readonly validate?: (
-    value: string,
-  ) => string | void | Promise<string | void>;
+  readonly validate?: ClackValidate;
 }) => Promise<unknown>;
 
 type ClackConfirm = (config: {
@@ -380,14 +380,14 @@ function executeClackPrompt(
         ...(cfg.initialValue !== undefined
           ? { initialValue: cfg.initialValue }
           : {}),
-        ...(cfg.validate !== undefined ? { validate: cfg.validate } : {}),
+        ...normalizeValidate(cfg.validate),
       });
 
     case "password":
       return (prompts.password as ClackPassword)({
         message: cfg.message,
         ...(cfg.mask !== undefined ? { mask: cfg.mask } : {}),
-        ...(cfg.validate !== undefined ? { validate: cfg.validate } : {}),
+        ...normalizeValidate(cfg.validate),
       });
 
     case "confirm":
@@ -407,8 +407,9 @@ function executeClackPrompt(
         ...(cfg.initialValue !== undefined
           ? { initialValue: String(cfg.initialValue) }
           : {}),
-        validate: async (value) => {
-          const parsed = parseNumberPromptValue(value);
+        // Clack validates synchronously: a Promise would be taken for an error.
+        validate: (value) => {
+          const parsed = parseNumberPromptValue(value ?? "");
           if (parsed == null) return "Enter a number.";
           if (cfg.min !== undefined && parsed < cfg.min) {
             return `Must be at least ${cfg.min}.`;
@@ -416,7 +417,7 @@ function executeClackPrompt(
           if (cfg.max !== undefined && parsed > cfg.max) {
             return `Must be at most ${cfg.max}.`;
           }
-          return await cfg.validate?.(parsed);
+          return cfg.validate?.(parsed);
         },
       });
 
@@ -438,6 +439,18 @@ function executeClackPrompt(
   }
 }
 
+/**
+ * Clack validates `undefined` instead of an empty string as long as nothing
+ * has been typed.
+ */
+function normalizeValidate(
+  validate: TextConfig["validate"],
+): { readonly validate?: ClackValidate } {
+  return validate === undefined
+    ? {}
+    : { validate: (value) => validate(value ?? "") };
+}
+
 function normalizeNumberResult<TValue>(
   result: unknown,
 ): ValueParserResult<TValue> {
-- 
2.43.0


From 8c8533a9e5720678f68d8db5ae8192ef437c527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:42 +0000
Subject: [PATCH 32/66] fix: show the prompts of nested parsers one at a time

object() completes its own prompt() fields one after another, but its nested
parsers concurrently, so prompts in two nested objects were shown over each
other.
---
 packages/prompt/src/index.ts | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/packages/prompt/src/index.ts b/packages/prompt/src/index.ts
index 09882ca..96189fa 100644
--- a/packages/prompt/src/index.ts
+++ b/packages/prompt/src/index.ts
@@ -65,6 +65,11 @@ export interface PromptAdapter<TConfig> {
   readonly getDefaultValue?: (config: TConfig) => unknown;
 }
 
+/**
+ * The prompts being shown or waiting to be, by the runtime of their run.
+ */
+const shownPrompts = new WeakMap<object, Promise<void>>();
+
 function shouldDeferPrompt(
   parser: Parser<Mode, unknown, unknown>,
   state: unknown,
@@ -248,8 +253,24 @@ export function createPromptAdapter<TConfig>(
         hasNestedSourceBinding;
     }
 
-    function executePrompt(): Promise<ValueParserResult<TValue>> {
-      return adapter.execute<TValue>(config);
+    function executePrompt(
+      exec?: ExecutionContext,
+    ): Promise<ValueParserResult<TValue>> {
+      // object() completes its prompt() fields one after another, but nested
+      // parsers are completed concurrently, so a prompt waits for those that
+      // are already shown in the same run.
+      const run = exec?.dependencyRuntime;
+      if (run == null) return adapter.execute<TValue>(config);
+      const shown = shownPrompts.get(run);
+      const result = shown == null
+        ? adapter.execute<TValue>(config)
+        : shown.then(() => adapter.execute<TValue>(config));
+      const settled = () => {
+        if (shownPrompts.get(run) === done) shownPrompts.delete(run);
+      };
+      const done: Promise<void> = result.then(settled, settled);
+      shownPrompts.set(run, done);
+      return result;
     }
 
     const parserInheritsAnnotations = getTraits(parser).inheritsAnnotations ===
@@ -417,7 +438,7 @@ export function createPromptAdapter<TConfig>(
               value: readPlaceholder() as TValue,
             });
           }
-          return executePrompt();
+          return executePrompt(exec);
         };
 
         const hasDeferHook = typeof parser.shouldDeferCompletion === "function";
-- 
2.43.0


From b0d389245ccd049d170ca106f9e8b229955a97f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:29 +0000
Subject: [PATCH 33/66] fix: ask prompts of multiple() when annotations are
 present

---
 packages/prompt/src/index.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/prompt/src/index.ts b/packages/prompt/src/index.ts
index 96189fa..16bc397 100644
--- a/packages/prompt/src/index.ts
+++ b/packages/prompt/src/index.ts
@@ -208,6 +208,14 @@ export function createPromptAdapter<TConfig>(
       if (cliState == null) {
         return false;
       }
+      // An empty list, such as the state of multiple() without any items, has
+      // nothing that a source could complete, even if it is annotated.
+      if (
+        Array.isArray(cliState) && cliState.length === 0 &&
+        getTraits(parser).completesFromSource !== true
+      ) {
+        return false;
+      }
       const cliStateHasAnnotations = getAnnotations(cliState) != null;
       if (cliStateHasAnnotations) {
         return true;
-- 
2.43.0


From c45a39efcf73a5127844f65d436b3bf42e29b6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:46 +0000
Subject: [PATCH 34/66] fix: keep the settled values of a nested object that is
 deferred in part

---
 packages/core/src/facade.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/facade.ts b/packages/core/src/facade.ts
index d2357ef..06e4bf7 100644
--- a/packages/core/src/facade.ts
+++ b/packages/core/src/facade.ts
@@ -207,8 +207,13 @@ function prepareParsedForContexts(
       for (const key of ownKeys) {
         if (isArray && key === "length") continue;
         const desc = Object.getOwnPropertyDescriptor(parsed as object, key);
+        if (desc == null || !("value" in desc)) continue;
+        const entry = getDeferredEntry(key);
         if (
-          desc != null && "value" in desc && getDeferredEntry(key) === undefined
+          entry === undefined ||
+          // A nested object may be deferred only in part.
+          entry !== null &&
+            prepareParsedForContexts(desc.value, true, entry) !== undefined
         ) {
           allDeferred = false;
           break;
-- 
2.43.0


From 6c919074f7c572f1f6ee484cb920c89000243d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:52 +0000
Subject: [PATCH 35/66] fix: import command modules below a dot-directory by a
 relative path

A generated module map imported ".commands/x.ts" as a bare specifier when the
commands live in a directory whose name starts with a dot.
---
 packages/discover/src/generator.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/discover/src/generator.ts b/packages/discover/src/generator.ts
index 8a02e35..4932861 100644
--- a/packages/discover/src/generator.ts
+++ b/packages/discover/src/generator.ts
@@ -554,7 +554,9 @@ function displayCommandPath(path: readonly string[]): string {
 
 function relativeModuleSpecifier(fromDir: string, target: string): string {
   const relativePath = normalizeRelativePath(relative(fromDir, target));
-  return relativePath.startsWith(".") ? relativePath : `./${relativePath}`;
+  return /^\.\.?(?:\/|$)/.test(relativePath)
+    ? relativePath
+    : `./${relativePath}`;
 }
 
 function relativeImportSpecifier(fromDir: string, target: string): string {
-- 
2.43.0


From 6c2b275128f54040c066a8459ccf8324ce8d40c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:52 +0000
Subject: [PATCH 36/66] fix: let a nested command name win over the variadic
 positionals of its parent

An executable parent command with a variadic positional argument swallowed the
name of a nested command, and everything after it, when that made the longer
match.
---
 packages/discover/src/index.ts | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/packages/discover/src/index.ts b/packages/discover/src/index.ts
index 11f0974..7911fa4 100644
--- a/packages/discover/src/index.ts
+++ b/packages/discover/src/index.ts
@@ -1181,6 +1181,32 @@ function createExecutableNodeParser(
         );
       }
 
+      // A word that names a nested command selects it, even if the command of
+      // this node could take it and more words as its own arguments.
+      if (
+        !context.optionsTerminated && context.buffer.length > 0 &&
+        childParser.leadingNames.has(context.buffer[0])
+      ) {
+        const result = childParser.parse(
+          withExecutableNodeChildContext(
+            context,
+            0,
+            inheritAnnotations(context.state, childParser.initialState),
+            childParser,
+          ),
+        );
+        return mapModeValue(
+          parser.mode,
+          wrapForMode(parser.mode, result),
+          (resolved) =>
+            wrapBranchParseResult(
+              context,
+              { branch: 0, result: resolved, committed: false },
+              resolved,
+            ),
+        );
+      }
+
       const result = parser.parse({
         ...context,
         state: toExclusiveState(activeState, context.state),
-- 
2.43.0


From 1e87581d69acee509fb354467557f4628e161794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:52 +0000
Subject: [PATCH 37/66] fix: pass annotations to a command directly nested in a
 command

command(a, command(b, or(...))) lost the annotations of the session while
parsing, so that sources such as bindEnv() inside the choice were never
consulted.
---
 packages/core/src/primitives.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index b8bcc09..1d5d2c4 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -14,6 +14,7 @@ import {
   suggestWithDependency,
 } from "./internal/dependency.ts";
 import { annotateFreshArray, getAnnotations } from "./internal/annotations.ts";
+import { defineInheritedAnnotationParser } from "./internal/parser.ts";
 import { extractDependencyMetadata } from "./dependency-metadata.ts";
 import {
   replayDerivedParser,
@@ -3603,6 +3604,7 @@ export function command<M extends Mode, T, TState>(
       enumerable: false,
     });
   }
+  defineInheritedAnnotationParser(result);
   // Type assertion via 'unknown' needed because TypeScript's conditional type
   // ModeValue<M, T> cannot be verified when M is a generic type parameter.
   return fluent(result as unknown as Parser<M, T, CommandState<TState>>);
-- 
2.43.0


From 95727779cbd4f0c14a5a0567d01210521b71ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:15 +0000
Subject: [PATCH 38/66] fix: describe a choice whose state only carries
 annotations

Asking for the help page of a command holding or() or longestMatch() crashed
with a TypeError when a source context was in use.
---
 packages/core/src/constructs.ts | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index ba66dd1..144635c 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -4063,14 +4063,18 @@ export function or(
       let footer: Message | undefined;
       let fragments: readonly DocFragment[];
 
-      if (state.kind === "unavailable" || state.state == null) {
+      // A state that only carries annotations selects no branch.
+      const selected = state.kind === "available"
+        ? normalizeExclusiveState(state.state)
+        : undefined;
+      if (selected == null) {
         // When state is unavailable or null, show all parser options
         fragments = parsers.flatMap((p) =>
           p.getDocFragments({ kind: "unavailable" }, undefined).fragments
         );
       } else {
         // When state is available and has a value, show only the selected parser
-        const [index, parserResult] = state.state;
+        const [index, parserResult] = selected;
         const innerState: DocState<unknown> = parserResult.success
           ? { kind: "available", state: parserResult.next.state }
           : { kind: "unavailable" };
@@ -4084,11 +4088,11 @@ export function or(
         fragments = docFragments.fragments;
       }
       // When a single branch matched successfully, pass its fragments
-      // Only deduplicate when showing all branches.  When state.state is
-      // set, fragments come from a single branch (whether successful or
+      // Only deduplicate when showing all branches.  When a branch is
+      // selected, fragments come from a single branch (whether successful or
       // failed), so cross-branch dedup does not apply and would collapse
       // intentional duplicates (e.g., allowDuplicates).
-      if (state.kind === "unavailable" || state.state == null) {
+      if (selected == null) {
         fragments = deduplicateDocFragments(fragments);
       }
       return {
@@ -4662,14 +4666,18 @@ function createLongestMatch(
       let fragments: readonly DocFragment[];
 
       let shouldDeduplicate: boolean;
-      if (state.kind === "unavailable" || state.state == null) {
+      // A state that only carries annotations selects no branch.
+      const selected = state.kind === "available"
+        ? normalizeExclusiveState(state.state)
+        : undefined;
+      if (selected == null) {
         // When state is unavailable or null, show all parser options
         fragments = parsers.flatMap((p) =>
           p.getDocFragments({ kind: "unavailable" }).fragments
         );
         shouldDeduplicate = true;
       } else {
-        const [i, result] = state.state;
+        const [i, result] = selected;
         if (result.success) {
           const docResult = parsers[i].getDocFragments(
             { kind: "available", state: result.next.state },
-- 
2.43.0


From c211e13c35bf6fb37f86380887cf23a6eab3a907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:24 +0000
Subject: [PATCH 39/66] fix: pass annotations through an executable parent
 command

The parser of an executable parent command did not inherit annotations, so
source-bound options of the commands below it, and its own when the line ends
with its name, ignored their sources.
---
 packages/discover/src/index.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/discover/src/index.ts b/packages/discover/src/index.ts
index 7911fa4..186df4f 100644
--- a/packages/discover/src/index.ts
+++ b/packages/discover/src/index.ts
@@ -7,6 +7,7 @@ import type { DocState } from "@optique/core/parser";
 import type { DocFragment, DocFragments } from "@optique/core/doc";
 import type { RuntimeNode } from "@optique/core/dependency-runtime";
 import {
+  defineTraits,
   dispatchByMode,
   inheritAnnotations,
   mapModeValue,
@@ -1306,6 +1307,8 @@ function createExecutableNodeParser(
       return fragments;
     },
   };
+  // Spreading the parser above does not carry over its traits.
+  defineTraits(executableParser, { inheritsAnnotations: true });
   if (phase2SeedHook != null) {
     Object.defineProperty(executableParser, phase2SeedHook.key, {
       value(state: unknown, exec?: ExecutionContext) {
-- 
2.43.0


From 7d1e04f7ca38b2735514d550640996cfccf1f82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:35 +0000
Subject: [PATCH 40/66] fix: run the root command of a program when nothing is
 given

With nested commands present, a root command whose required options are all
supplied by a source was not run for an empty command line.
---
 packages/discover/src/index.ts | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/packages/discover/src/index.ts b/packages/discover/src/index.ts
index 186df4f..a435b0f 100644
--- a/packages/discover/src/index.ts
+++ b/packages/discover/src/index.ts
@@ -1182,6 +1182,28 @@ function createExecutableNodeParser(
         );
       }
 
+      // Nothing more is given, so that only the command of this node can run.
+      if (context.buffer.length < 1 && activeState == null) {
+        const result = leafParser.parse(
+          withExecutableNodeChildContext(
+            context,
+            1,
+            inheritAnnotations(context.state, leafParser.initialState),
+            leafParser,
+          ),
+        );
+        return mapModeValue(
+          parser.mode,
+          wrapForMode(parser.mode, result),
+          (resolved) =>
+            wrapBranchParseResult(
+              context,
+              { branch: 1, result: resolved, committed: false },
+              resolved,
+            ),
+        );
+      }
+
       // A word that names a nested command selects it, even if the command of
       // this node could take it and more words as its own arguments.
       if (
-- 
2.43.0


From 400f18d942fc78ab9892720eda0f97e724913fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:41 +0000
Subject: [PATCH 41/66] fix: keep the traits of a parser whose description is
 replaced

The parser of a namespace command with a description, of a command with
metadata and of the whole program lost the trait to inherit annotations, so
that sources were ignored below them.
---
 packages/discover/src/index.ts | 77 ++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 37 deletions(-)

diff --git a/packages/discover/src/index.ts b/packages/discover/src/index.ts
index a435b0f..65e1ed6 100644
--- a/packages/discover/src/index.ts
+++ b/packages/discover/src/index.ts
@@ -9,8 +9,10 @@ import type { RuntimeNode } from "@optique/core/dependency-runtime";
 import {
   defineTraits,
   dispatchByMode,
+  getTraits,
   inheritAnnotations,
   mapModeValue,
+  unwrapInjectedAnnotationState,
   wrapForMode,
 } from "@optique/core/extension";
 import { fluent, type FluentParser } from "@optique/core/fluent";
@@ -1728,20 +1730,34 @@ function createNamespaceCommandParser(
   );
   const description = metadata?.brief ?? metadata?.description;
   if (description == null) return parser;
-  return {
-    ...parser,
-    getDocFragments(state, defaultValue) {
-      const fragments = parser.getDocFragments(state, defaultValue);
-      if (
-        state.kind !== "unavailable" &&
-        (state.kind !== "available" ||
-          !Object.is(state.state, parser.initialState))
-      ) {
-        return fragments;
-      }
-      return withNamespaceListDocDescription(fragments, name, description);
-    },
-  };
+  return withDocFragments(parser, (state, defaultValue) => {
+    const fragments = parser.getDocFragments(state, defaultValue);
+    if (state.kind !== "unavailable" && !isInitialDocState(state, parser)) {
+      return fragments;
+    }
+    return withNamespaceListDocDescription(fragments, name, description);
+  });
+}
+
+/**
+ * Replaces how a parser is described, keeping its traits, which spreading the
+ * parser alone does not carry over.
+ */
+function withDocFragments(
+  parser: Parser<Mode, ProgramInvocation, unknown>,
+  getDocFragments: Parser<Mode, ProgramInvocation, unknown>["getDocFragments"],
+): Parser<Mode, ProgramInvocation, unknown> {
+  const described = { ...parser, getDocFragments };
+  defineTraits(described, getTraits(parser));
+  return described;
+}
+
+function isInitialDocState(
+  state: DocState<unknown>,
+  parser: Parser<Mode, ProgramInvocation, unknown>,
+): boolean {
+  return state.kind === "available" &&
+    Object.is(unwrapInjectedAnnotationState(state.state), parser.initialState);
 }
 
 function withNamespaceListDocDescription(
@@ -1818,13 +1834,10 @@ function createLeafParser(
     ) => void | Promise<void>,
   })) as Parser<Mode, ProgramInvocation, unknown>;
   if (!includeMetadata) return parser;
-  return {
-    ...parser,
-    getDocFragments(state, defaultValue) {
-      const fragments = parser.getDocFragments(state, defaultValue);
-      return withCommandDocMetadata(fragments, commandDefinition.metadata);
-    },
-  };
+  return withDocFragments(parser, (state, defaultValue) => {
+    const fragments = parser.getDocFragments(state, defaultValue);
+    return withCommandDocMetadata(fragments, commandDefinition.metadata);
+  });
 }
 
 function withRootDocs(
@@ -1832,7 +1845,6 @@ function withRootDocs(
   commands: readonly CommandEntry[],
   metadata: CreateProgramParserOptions,
 ): Parser<Mode, ProgramInvocation, unknown> {
-  const rootState = parser.initialState;
   const rootCommand = commands.find((entry) => entry.path.length < 1);
   const commandsByPath = new Map(
     commands.map((entry) => [commandPathKey(entry.path), entry.command]),
@@ -1868,21 +1880,12 @@ function withRootDocs(
       fragments,
     };
   };
-  return {
-    ...parser,
-    getDocFragments(
-      state: DocState<unknown>,
-      defaultValue?: ProgramInvocation,
-    ): DocFragments {
-      if (
-        state.kind === "unavailable" ||
-        (state.kind === "available" && Object.is(state.state, rootState))
-      ) {
-        return rootDocs();
-      }
-      return parser.getDocFragments(state, defaultValue);
-    },
-  };
+  return withDocFragments(parser, (state, defaultValue) => {
+    if (state.kind === "unavailable" || isInitialDocState(state, parser)) {
+      return rootDocs();
+    }
+    return parser.getDocFragments(state, defaultValue);
+  });
 }
 
 function rootListedCommands(
-- 
2.43.0


From 4c6ae442d5b07eac11f986199ab74e738abf6077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:09 +0000
Subject: [PATCH 42/66] fix: see through annotations in the state of
 negatableFlag()

---
 packages/core/src/primitives.ts | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 1d5d2c4..094d1a5 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -2117,13 +2117,14 @@ function parseMatchedNegatableFlag(
   buffer: readonly string[],
   options: NegatableFlagOptions,
 ): ParserResult<NegatableFlagState> {
-  if (context.state != null) {
+  const state = normalizeInjectedAnnotationState(context.state);
+  if (state != null) {
     return {
       success: false,
       consumed: consumedOnFailure,
-      error: context.state.value === value
+      error: state.value === value
         ? formatNegatableFlagDuplicateError(options, token)
-        : formatNegatableFlagConflictError(options, context.state.token, token),
+        : formatNegatableFlagConflictError(options, state.token, token),
     };
   }
   return {
@@ -2185,7 +2186,7 @@ export function negatableFlag(
     acceptingAnyToken: false,
     initialState: undefined,
     canSkip(state) {
-      return state != null;
+      return normalizeInjectedAnnotationState(state) != null;
     },
     parse(context) {
       if (context.optionsTerminated) {
@@ -2303,7 +2304,8 @@ export function negatableFlag(
       };
     },
     complete(state, _exec?: ExecutionContext) {
-      if (state == null) {
+      const flagState = normalizeInjectedAnnotationState(state);
+      if (flagState == null) {
         return {
           success: false,
           error: options.errors?.missing
@@ -2313,7 +2315,7 @@ export function negatableFlag(
             : message`Required flag ${eOptionNames(optionNames)} is missing.`,
         };
       }
-      return { success: true, value: state.value };
+      return { success: true, value: flagState.value };
     },
     suggest(context, prefix) {
       // After `--` an option name would be read as a positional argument.
-- 
2.43.0


From 2a8c7ca69d3b05697a6c63a8bbb8c88c72a1b392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:32 +0000
Subject: [PATCH 43/66] fix: see through annotations when completing option()
 and flag()

---
 packages/core/src/primitives.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 094d1a5..38de83c 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -1296,9 +1296,10 @@ export function option<M extends Mode, T>(
       };
     },
     complete(
-      state: ValueParserResult<T | boolean> | undefined,
+      rawState: ValueParserResult<T | boolean> | undefined,
       exec?: ExecutionContext,
     ): ModeValue<M, ValueParserResult<T | boolean>> {
+      const state = normalizeInjectedAnnotationState(rawState);
       const missing = valueParser == null
         ? { success: true as const, value: false }
         : {
@@ -1849,7 +1850,8 @@ export function flag(
         ),
       };
     },
-    complete(state, _exec?: ExecutionContext) {
+    complete(rawState, _exec?: ExecutionContext) {
+      const state = normalizeInjectedAnnotationState(rawState);
       if (state == null) {
         return {
           success: false,
-- 
2.43.0


From 35d324ea46cb8e8706893349c882ae60621529d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:32 +0000
Subject: [PATCH 44/66] fix: document optional() and withDefault() whose state
 carries annotations

---
 packages/core/src/modifiers.ts | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index 4202556..ad5bc72 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -915,11 +915,12 @@ export function optional<M extends Mode, TValue, TState>(
       state: DocState<[TState] | undefined>,
       defaultValue?: TValue,
     ) {
-      const innerState: DocState<TState> = state.kind === "unavailable"
-        ? { kind: "unavailable" }
-        : state.state === undefined
+      const wrappedState = state.kind === "unavailable"
+        ? undefined
+        : unwrapInjectedAnnotationWrapper(state.state);
+      const innerState: DocState<TState> = wrappedState === undefined
         ? { kind: "unavailable" }
-        : { kind: "available", state: state.state[0] };
+        : { kind: "available", state: wrappedState[0] };
       return syncParser.getDocFragments(innerState, defaultValue);
     },
     // Type assertion needed because TypeScript cannot verify ModeValue<M, T>
@@ -1377,11 +1378,12 @@ export function withDefault<
       state: DocState<[TState] | undefined>,
       upperDefaultValue?: TValue | TDefault,
     ) {
-      const innerState: DocState<TState> = state.kind === "unavailable"
-        ? { kind: "unavailable" }
-        : state.state === undefined
+      const wrappedState = state.kind === "unavailable"
+        ? undefined
+        : unwrapInjectedAnnotationWrapper(state.state);
+      const innerState: DocState<TState> = wrappedState === undefined
         ? { kind: "unavailable" }
-        : { kind: "available", state: state.state[0] };
+        : { kind: "available", state: wrappedState[0] };
 
       let docDefault: TValue | undefined = getDocDefaultValue(
         upperDefaultValue,
-- 
2.43.0


From 82fe09dda9fe806fc300956b0d820e743df9e4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:48 +0000
Subject: [PATCH 45/66] fix: keep annotations out of the value of constant()

---
 packages/core/src/primitives.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 38de83c..9ace49c 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -280,8 +280,9 @@ export function constant<const T>(value: T): FluentParser<"sync", T, T> {
     parse(context) {
       return { success: true, next: context, consumed: [] };
     },
-    complete(state, _exec?: ExecutionContext) {
-      return { success: true, value: state };
+    complete(_state, _exec?: ExecutionContext) {
+      // The state may carry annotations, which are not part of the value.
+      return { success: true, value };
     },
     suggest(_context, _prefix) {
       return [];
-- 
2.43.0


From 2dbb0f96ec608ca46fb1a19df0aa8255f6d0d88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:36 +0000
Subject: [PATCH 46/66] fix: see through annotation views in canSkip() of
 nonEmpty()

---
 packages/core/src/modifiers.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index ad5bc72..17b2a3f 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -3377,7 +3377,7 @@ export function nonEmpty<M extends Mode, T, TState>(
     ...(typeof parser.canSkip === "function"
       ? {
         canSkip(state: TState, exec?: ExecutionContext) {
-          const unwrappedState = unwrapInjectedAnnotationWrapper(state);
+          const unwrappedState = normalizeDelegatedAnnotationState(state);
           if (unwrappedState === initialState) return false;
           return parser.canSkip?.(unwrappedState, exec) === true;
         },
-- 
2.43.0


From 14c148142ae2cfe172f7ed3ad09cbb7e264f108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:03 +0000
Subject: [PATCH 47/66] fix: keep unrelated values of or() out of its
 dependency source

---
 packages/core/src/constructs.ts          | 7 +++++++
 packages/core/src/dependency-metadata.ts | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 144635c..f6fbe15 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -1702,6 +1702,10 @@ function composeExclusiveDependencyMetadata(
       preservesSourceValue: sourceBranches.every((parser) =>
         parser.dependencyMetadata?.source?.preservesSourceValue !== false
       ),
+      hasOtherAlternatives: sourceBranches.length < parsers.length ||
+        sourceBranches.some((parser) =>
+          parser.dependencyMetadata!.source!.hasOtherAlternatives
+        ),
       extractSourceValue(state) {
         if (
           !Array.isArray(state) || state.length !== 2 ||
@@ -5115,6 +5119,7 @@ function* pendingDependencyDefaults(
 
     if (
       fieldParser.dependencyMetadata?.source != null &&
+      !fieldParser.dependencyMetadata.source.hasOtherAlternatives &&
       isUnmatchedDependencyState(fieldState, fieldParser) &&
       (annotatedFieldState !== fieldState ||
         isNonCliBoundSourceState(fieldState, fieldParser))
@@ -5416,6 +5421,7 @@ function preCompleteAndRegisterDependencies(
 
     if (
       fieldParser.dependencyMetadata?.source != null &&
+      !fieldParser.dependencyMetadata.source.hasOtherAlternatives &&
       isUnmatchedDependencyState(fieldState, fieldParser) &&
       (annotatedFieldState !== fieldState ||
         isNonCliBoundSourceState(fieldState, fieldParser))
@@ -5548,6 +5554,7 @@ async function preCompleteAndRegisterDependenciesAsync(
 
     if (
       fieldParser.dependencyMetadata?.source != null &&
+      !fieldParser.dependencyMetadata.source.hasOtherAlternatives &&
       isUnmatchedDependencyState(fieldState, fieldParser) &&
       (annotatedFieldState !== fieldState ||
         isNonCliBoundSourceState(fieldState, fieldParser))
diff --git a/packages/core/src/dependency-metadata.ts b/packages/core/src/dependency-metadata.ts
index 6145ca3..fa5ccb5 100644
--- a/packages/core/src/dependency-metadata.ts
+++ b/packages/core/src/dependency-metadata.ts
@@ -78,6 +78,13 @@ export interface DependencySourceCapability {
    * `false` when a transform like `map()` has been applied.
    */
   readonly preservesSourceValue: boolean;
+
+  /**
+   * Whether the parser has alternatives that do not come from the source, as
+   * `or()` may.  The value such a parser completes to without having matched
+   * anything is not necessarily a value of the source.
+   */
+  readonly hasOtherAlternatives?: boolean;
 }
 
 /**
-- 
2.43.0


From d0a8cf59a1956d9741e54b349107cb89464193c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:58 +0000
Subject: [PATCH 48/66] fix: do not take added annotations for a changed state
 in object()

---
 packages/core/src/constructs.ts | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index f6fbe15..bc9a60b 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -6009,17 +6009,18 @@ export function object<
           continue;
         }
         const fieldState = getFieldState(field, parser);
-        const result = typedParser.parse(
-          withChildContext(
-            currentContext,
-            field,
-            fieldState,
-            parser,
-          ),
+        const childContext = withChildContext(
+          currentContext,
+          field,
+          fieldState,
+          parser,
         );
+        const result = typedParser.parse(childContext);
+        // The child's state may be the field's state with annotations added.
         if (
           result.success && result.consumed.length === 0 &&
-          result.next.state !== fieldState
+          result.next.state !== fieldState &&
+          result.next.state !== childContext.state
         ) {
           const mergedExec = mergeChildExec(
             currentContext.exec,
@@ -6193,18 +6194,18 @@ export function object<
           continue;
         }
         const fieldState = getFieldState(field, parser);
-        const resultOrPromise = parser.parse(
-          withChildContext(
-            currentContext,
-            field,
-            fieldState,
-            parser,
-          ),
+        const childContext = withChildContext(
+          currentContext,
+          field,
+          fieldState,
+          parser,
         );
+        const resultOrPromise = parser.parse(childContext);
         const result = await resultOrPromise;
         if (
           result.success && result.consumed.length === 0 &&
-          result.next.state !== fieldState
+          result.next.state !== fieldState &&
+          result.next.state !== childContext.state
         ) {
           const mergedExec = mergeChildExec(
             currentContext.exec,
-- 
2.43.0


From d61d3c6f9383f039a48f4645958255a278f33fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:28 +0000
Subject: [PATCH 49/66] fix: recognize states cloned for annotations in
 nonEmpty() and multiple()

---
 packages/core/src/internal/annotations.ts | 36 +++++++++++++++++++++++
 packages/core/src/modifiers.ts            | 12 +++++++-
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/internal/annotations.ts b/packages/core/src/internal/annotations.ts
index bde7a89..eac7693 100644
--- a/packages/core/src/internal/annotations.ts
+++ b/packages/core/src/internal/annotations.ts
@@ -60,6 +60,11 @@ const annotationWrapperKeys: ReadonlySet<PropertyKey> = new Set<
 
 const injectedAnnotationWrappers = new WeakSet<object>();
 
+/**
+ * Annotated clones of parser states, with the states they were cloned from.
+ */
+const annotationCloneOrigins = new WeakMap<object, unknown>();
+
 function hasInjectedAnnotationWrapperShape(
   value: object,
 ): value is Record<PropertyKey, unknown> {
@@ -207,6 +212,7 @@ export function inheritAnnotations<T>(source: unknown, target: T): T {
     (cloned as typeof cloned & { [annotationKey]?: Annotations })[
       annotationKey
     ] = annotations;
+    annotationCloneOrigins.set(cloned, target);
     return cloned as T;
   }
   if (target instanceof Date) {
@@ -214,6 +220,7 @@ export function inheritAnnotations<T>(source: unknown, target: T): T {
       [annotationKey]?: Annotations;
     };
     cloned[annotationKey] = annotations;
+    annotationCloneOrigins.set(cloned, target);
     return cloned as T;
   }
   if (target instanceof Map) {
@@ -221,6 +228,7 @@ export function inheritAnnotations<T>(source: unknown, target: T): T {
       [annotationKey]?: Annotations;
     };
     cloned[annotationKey] = annotations;
+    annotationCloneOrigins.set(cloned, target);
     return cloned as T;
   }
   if (target instanceof Set) {
@@ -228,6 +236,7 @@ export function inheritAnnotations<T>(source: unknown, target: T): T {
       [annotationKey]?: Annotations;
     };
     cloned[annotationKey] = annotations;
+    annotationCloneOrigins.set(cloned, target);
     return cloned as T;
   }
   if (target instanceof RegExp) {
@@ -236,6 +245,7 @@ export function inheritAnnotations<T>(source: unknown, target: T): T {
     };
     cloned.lastIndex = target.lastIndex;
     cloned[annotationKey] = annotations;
+    annotationCloneOrigins.set(cloned, target);
     return cloned as T;
   }
   if (
@@ -251,6 +261,7 @@ export function inheritAnnotations<T>(source: unknown, target: T): T {
     Object.getOwnPropertyDescriptors(target),
   ) as T & { [annotationKey]?: Annotations };
   cloned[annotationKey] = annotations;
+  annotationCloneOrigins.set(cloned as object, target);
   return cloned;
 }
 
@@ -327,6 +338,7 @@ export function injectAnnotations<TState>(
     (cloned as typeof cloned & { [annotationKey]?: Annotations })[
       annotationKey
     ] = annotations;
+    annotationCloneOrigins.set(cloned as object, state);
     return cloned as TState;
   }
   if (isInjectedAnnotationWrapper(state)) {
@@ -347,6 +359,7 @@ export function injectAnnotations<TState>(
       [annotationKey]?: Annotations;
     };
     cloned[annotationKey] = annotations;
+    annotationCloneOrigins.set(cloned as object, state);
     return cloned as TState;
   }
   if (state instanceof Map) {
@@ -354,6 +367,7 @@ export function injectAnnotations<TState>(
       [annotationKey]?: Annotations;
     };
     cloned[annotationKey] = annotations;
+    annotationCloneOrigins.set(cloned as object, state);
     return cloned as TState;
   }
   if (state instanceof Set) {
@@ -361,6 +375,7 @@ export function injectAnnotations<TState>(
       [annotationKey]?: Annotations;
     };
     cloned[annotationKey] = annotations;
+    annotationCloneOrigins.set(cloned as object, state);
     return cloned as TState;
   }
   if (state instanceof RegExp) {
@@ -369,6 +384,7 @@ export function injectAnnotations<TState>(
     };
     cloned.lastIndex = state.lastIndex;
     cloned[annotationKey] = annotations;
+    annotationCloneOrigins.set(cloned as object, state);
     return cloned as TState;
   }
   const proto = Object.getPrototypeOf(state);
@@ -378,6 +394,7 @@ export function injectAnnotations<TState>(
       Object.getOwnPropertyDescriptors(state as Record<PropertyKey, unknown>),
     ) as TState & { [annotationKey]?: Annotations };
     cloned[annotationKey] = annotations;
+    annotationCloneOrigins.set(cloned as object, state);
     return cloned;
   }
   const cloned = Object.create(
@@ -385,9 +402,28 @@ export function injectAnnotations<TState>(
     Object.getOwnPropertyDescriptors(state as Record<PropertyKey, unknown>),
   ) as TState & { [annotationKey]?: Annotations };
   cloned[annotationKey] = annotations;
+  annotationCloneOrigins.set(cloned as object, state);
   return cloned;
 }
 
+/**
+ * Finds the parser state that an annotated clone was made from.
+ *
+ * @param state A parser state, possibly a clone made to carry annotations.
+ * @returns The state it was cloned from; otherwise the state itself.
+ * @internal
+ */
+export function getAnnotationCloneOrigin<T>(state: T): T {
+  let origin: unknown = state;
+  while (
+    origin != null && typeof origin === "object" &&
+    annotationCloneOrigins.has(origin)
+  ) {
+    origin = annotationCloneOrigins.get(origin);
+  }
+  return origin as T;
+}
+
 /**
  * Unwraps a primitive-state annotation wrapper injected by Optique internals.
  *
diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index 17b2a3f..ea74530 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -10,6 +10,7 @@ import { formatMessage, type Message, message, text } from "./message.ts";
 import {
   annotateFreshArray,
   annotationKey,
+  getAnnotationCloneOrigin,
   getAnnotations,
   inheritAnnotations,
   isInjectedAnnotationWrapper,
@@ -132,6 +133,13 @@ function unwrapMultipleItemState(
       unwrapped = unwrapped.cliState;
       continue;
     }
+    const origin = getAnnotationCloneOrigin(
+      normalizeDelegatedAnnotationState(unwrapped),
+    );
+    if (origin !== unwrapped) {
+      unwrapped = origin;
+      continue;
+    }
     return { value: unwrapped, viaBoundCliWrapper };
   }
 }
@@ -3377,7 +3385,9 @@ export function nonEmpty<M extends Mode, T, TState>(
     ...(typeof parser.canSkip === "function"
       ? {
         canSkip(state: TState, exec?: ExecutionContext) {
-          const unwrappedState = normalizeDelegatedAnnotationState(state);
+          const unwrappedState = getAnnotationCloneOrigin(
+            normalizeDelegatedAnnotationState(state),
+          );
           if (unwrappedState === initialState) return false;
           return parser.canSkip?.(unwrappedState, exec) === true;
         },
-- 
2.43.0


From d12c812797fb5d8bcb41ad4cfa27c86d4b748ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:34 +0000
Subject: [PATCH 50/66] fix: escape backslashes in option names in man pages

---
 packages/man/src/man.ts  | 6 +++---
 packages/man/src/roff.ts | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/man/src/man.ts b/packages/man/src/man.ts
index 8f57812..06852a4 100644
--- a/packages/man/src/man.ts
+++ b/packages/man/src/man.ts
@@ -222,7 +222,7 @@ function formatUsageTermAsRoffInternal(
 
     case "option": {
       const names = term.names
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map((name) => `\\fB${escapeHyphens(escapeRoff(name))}\\fR`)
         .join(" | ");
       const metavarPart = term.metavar
         ? ` \\fI${escapeRoff(term.metavar)}\\fR`
@@ -349,7 +349,7 @@ function formatDocEntryTerm(term: UsageTerm): string {
   switch (term.type) {
     case "option": {
       const names = term.names
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map((name) => `\\fB${escapeHyphens(escapeRoff(name))}\\fR`)
         .join(", ");
       const metavarPart = term.metavar
         ? ` \\fI${escapeRoff(term.metavar)}\\fR`
@@ -413,7 +413,7 @@ function formatDocUsageTermAsRoff(term: UsageTerm): string {
 
     case "option": {
       const names = term.names
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map((name) => `\\fB${escapeHyphens(escapeRoff(name))}\\fR`)
         .join(", ");
       const metavarPart = term.metavar
         ? ` \\fI${escapeRoff(term.metavar)}\\fR`
diff --git a/packages/man/src/roff.ts b/packages/man/src/roff.ts
index 17b2181..fe1a476 100644
--- a/packages/man/src/roff.ts
+++ b/packages/man/src/roff.ts
@@ -145,12 +145,12 @@ function formatTermAsRoff(
 
     case "optionName":
       // Bold with escaped hyphens
-      return `\\fB${escapeHyphens(term.optionName)}\\fR`;
+      return `\\fB${escapeHyphens(escapeBackslashes(term.optionName))}\\fR`;
 
     case "optionNames":
       // Comma-separated bold option names
       return term.optionNames
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map((name) => `\\fB${escapeHyphens(escapeBackslashes(name))}\\fR`)
         .join(", ");
 
     case "metavar":
-- 
2.43.0


From 91fabfa91799a8062c91a4c06e3b706cb67ed09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:34 +0000
Subject: [PATCH 51/66] fix: keep an ellipsis at the start of a line in man
 pages

---
 packages/man/src/man.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/man/src/man.ts b/packages/man/src/man.ts
index 06852a4..bd6f4c0 100644
--- a/packages/man/src/man.ts
+++ b/packages/man/src/man.ts
@@ -162,6 +162,14 @@ export function formatDateForMan(
   return `${months[date.getMonth()]} ${date.getFullYear()}`;
 }
 
+/**
+ * Escapes a period or single quote at the start of an already formatted line,
+ * so that it is not interpreted as a roff request.
+ */
+function escapeLineStart(line: string): string {
+  return /^[.']/.test(line) ? `\\&${line}` : line;
+}
+
 function formatCommandNameAsRoff(name: string): string {
   return `\\fB${escapeHyphens(escapeRoff(name))}\\fR`;
 }
@@ -488,7 +496,7 @@ function formatDocSectionEntries(section: DocSection): string {
     if (termStr === "") continue;
 
     lines.push(".TP");
-    lines.push(termStr);
+    lines.push(escapeLineStart(termStr));
 
     if (entry.description) {
       let desc = formatMessageAsRoff(entry.description);
@@ -625,7 +633,7 @@ export function formatDocPageAsMan(
     lines.push(`.B "${escapeHyphens(escapeRequestArg(options.name))}"`);
     const usageStr = formatUsageAsRoff(page.usage);
     if (usageStr) {
-      lines.push(usageStr);
+      lines.push(escapeLineStart(usageStr));
     }
   }
 
-- 
2.43.0


From 02451a2fd7fcb8742056edbeda95eb9857376da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:34 +0000
Subject: [PATCH 52/66] fix: terminate the last line of man pages

---
 packages/man/src/cli.ts | 3 +--
 packages/man/src/man.ts | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/man/src/cli.ts b/packages/man/src/cli.ts
index 4e66d62..0c55956 100644
--- a/packages/man/src/cli.ts
+++ b/packages/man/src/cli.ts
@@ -609,8 +609,7 @@ export async function main(): Promise<void> {
       );
     }
   } else {
-    // deno-lint-ignore no-console
-    console.log(manPage);
+    process.stdout.write(manPage);
   }
 }
 
diff --git a/packages/man/src/man.ts b/packages/man/src/man.ts
index bd6f4c0..edbc4ae 100644
--- a/packages/man/src/man.ts
+++ b/packages/man/src/man.ts
@@ -742,5 +742,6 @@ export function formatDocPageAsMan(
     lines.push(formatMessageAsRoff(footer));
   }
 
-  return lines.join("\n");
+  // groff drops a tagged paragraph pending at the end of an unterminated line.
+  return `${lines.join("\n")}\n`;
 }
-- 
2.43.0


From 1972ec4ce89cefc93898db0fb91340ba0edf531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:40 +0000
Subject: [PATCH 53/66] fix: do not offer choices that a refinement of a Zod
 schema may refuse

---
 packages/zod/src/index.ts | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/packages/zod/src/index.ts b/packages/zod/src/index.ts
index 937396f..98c8a06 100644
--- a/packages/zod/src/index.ts
+++ b/packages/zod/src/index.ts
@@ -149,6 +149,21 @@ function analyzeBooleanSchema(
   return result;
 }
 
+/**
+ * Whether the schema definition has refinements inlined (Zod v4 only), which
+ * may narrow the accepted domain.
+ */
+function hasCustomChecks(def: ZodSchemaInternal["_def"]): boolean {
+  return Array.isArray(def?.checks) &&
+    def.checks.some((c) =>
+      c.kind === "custom" ||
+      (c as { type?: string }).type === "custom" ||
+      // Zod v4 superRefine/check stores type under _zod.def.check
+      (c as { _zod?: { def?: { check?: string } } })
+          ._zod?.def?.check === "custom"
+    );
+}
+
 function analyzeBooleanInner(
   schema: z.Schema<unknown>,
   canExposeChoices: boolean,
@@ -164,21 +179,15 @@ function analyzeBooleanInner(
   if (!def) return { isBoolean: false, exposeChoices: false, isCoerced: false };
   const typeName = def.typeName ?? def.type;
 
+  // Zod v4 inlines refinements as checks on the schema itself, including
+  // wrappers.  When custom checks are present, the accepted domain may be
+  // narrowed, so suppress choices.
+  if (hasCustomChecks(def)) canExposeChoices = false;
+
   if (typeName === "ZodBoolean" || typeName === "boolean") {
-    // Zod v4 inlines refinements as checks on the schema itself.
-    // When custom checks are present, the accepted domain may be
-    // narrowed, so suppress choices.
-    const hasCustomChecks = Array.isArray(def.checks) &&
-      def.checks.some((c) =>
-        c.kind === "custom" ||
-        (c as { type?: string }).type === "custom" ||
-        // Zod v4 superRefine/check stores type under _zod.def.check
-        (c as { _zod?: { def?: { check?: string } } })
-            ._zod?.def?.check === "custom"
-      );
     return {
       isBoolean: true,
-      exposeChoices: canExposeChoices && !hasCustomChecks,
+      exposeChoices: canExposeChoices,
       isCoerced: def.coerce === true,
     };
   }
@@ -451,6 +460,9 @@ function inferChoices(
   const def = (schema as ZodSchemaInternal)._def;
   if (!def) return undefined;
 
+  // Refinements may reject some of the values.
+  if (hasCustomChecks(def)) return undefined;
+
   const typeName = def.typeName ?? def.type;
 
   // z.enum(["a", "b"]) or z.nativeEnum(StringEnum):
-- 
2.43.0


From b6f5a989804df8bcb205d1b8846cc5111b957106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:40 +0000
Subject: [PATCH 54/66] fix: do not offer choices that a Valibot pipeline may
 refuse or change

---
 packages/valibot/src/index.ts | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/packages/valibot/src/index.ts b/packages/valibot/src/index.ts
index cb100b4..4758896 100644
--- a/packages/valibot/src/index.ts
+++ b/packages/valibot/src/index.ts
@@ -112,6 +112,15 @@ const SAFE_TRANSFORMATION_TYPES: ReadonlySet<string> = new Set([
   "flavor",
 ]);
 
+/**
+ * Valibot transformation action types that only affect the static type.
+ */
+const VALUE_PRESERVING_TYPES: ReadonlySet<string> = new Set([
+  "readonly",
+  "brand",
+  "flavor",
+]);
+
 /**
  * Checks whether a schema synchronously accepts every possible input value.
  * This includes:
@@ -495,6 +504,20 @@ function inferChoices(
   const schemaType = internalSchema.type;
   if (!schemaType) return undefined;
 
+  // Pipeline actions may reject some of the values or change them.
+  if (internalSchema.pipe != null) {
+    const [inner, ...actions] = internalSchema.pipe;
+    const valuePreserving = actions.every((action) =>
+      (action as { kind?: string }).kind === "metadata" ||
+      VALUE_PRESERVING_TYPES.has(action.type ?? "")
+    );
+    return valuePreserving
+      ? inferChoices(
+        inner as v.BaseSchema<unknown, unknown, v.BaseIssue<unknown>>,
+      )
+      : undefined;
+  }
+
   // v.picklist(["a", "b"]) → .options is primitive array.
   // Only string picklists are exposed; numeric values would fail
   // safeParse() when given as CLI strings.
-- 
2.43.0


From 46bbc73917a58a4a638ddb797eeeec23699f38f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:35 +0000
Subject: [PATCH 55/66] fix: resolve Git references and abbreviations to
 commits only

---
 packages/git/src/index.ts | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/packages/git/src/index.ts b/packages/git/src/index.ts
index df2e0b5..75bfc47 100644
--- a/packages/git/src/index.ts
+++ b/packages/git/src/index.ts
@@ -253,6 +253,27 @@ function listFailureMessage(
   return fallback;
 }
 
+/**
+ * Expands an abbreviated or full object ID to the OID of the commit it names.
+ * @throws {Error} If there is no such object, or it is not a commit.
+ */
+async function expandCommitOid(dir: string, input: string): Promise<string> {
+  if (!/^[0-9a-f]{1,40}$/i.test(input)) {
+    throw new git.Errors.NotFoundError(input);
+  }
+  const oid = await git.expandOid({ fs: gitFs, dir, oid: input });
+  return await peelToCommit(dir, oid);
+}
+
+/**
+ * Follows annotated tags to the OID of the commit they point at.
+ * @throws {Error} If the object does not exist or does not lead to a commit.
+ */
+async function peelToCommit(dir: string, oid: string): Promise<string> {
+  const commit = await git.readCommit({ fs: gitFs, dir, oid });
+  return commit.oid;
+}
+
 /** Default depth for commit suggestions. */
 const DEFAULT_SUGGESTION_DEPTH = 15;
 
@@ -717,7 +738,7 @@ export function gitCommit(
       }
 
       try {
-        const oid = await git.expandOid({ fs: gitFs, dir, oid: input });
+        const oid = await expandCommitOid(dir, input);
         return { success: true, value: oid };
       } catch (e) {
         if (
@@ -797,12 +818,10 @@ export function gitRef(
         // Not a branch or tag, will try as a commit SHA.
       }
 
-      if (resolved) {
-        return { success: true, value: resolved };
-      }
-
       try {
-        const oid = await git.expandOid({ fs: gitFs, dir, oid: input });
+        const oid = resolved
+          ? await peelToCommit(dir, resolved)
+          : await expandCommitOid(dir, input);
         return { success: true, value: oid };
       } catch (e) {
         if (
-- 
2.43.0


From 101f5efb29a3cf1ff6e4ecb2f70d4113e9d1ba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:35 +0000
Subject: [PATCH 56/66] fix: accept uppercase digits in abbreviated commits

---
 packages/git/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/git/src/index.ts b/packages/git/src/index.ts
index 75bfc47..17d1984 100644
--- a/packages/git/src/index.ts
+++ b/packages/git/src/index.ts
@@ -261,7 +261,7 @@ async function expandCommitOid(dir: string, input: string): Promise<string> {
   if (!/^[0-9a-f]{1,40}$/i.test(input)) {
     throw new git.Errors.NotFoundError(input);
   }
-  const oid = await git.expandOid({ fs: gitFs, dir, oid: input });
+  const oid = await git.expandOid({ fs: gitFs, dir, oid: input.toLowerCase() });
   return await peelToCommit(dir, oid);
 }
 
-- 
2.43.0


From 8868ab6985d7fc233354291345115c67b71c36d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:35 +0000
Subject: [PATCH 57/66] fix: suggest branches and tags when HEAD has no commits

---
 packages/git/src/index.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/git/src/index.ts b/packages/git/src/index.ts
index 17d1984..463fc45 100644
--- a/packages/git/src/index.ts
+++ b/packages/git/src/index.ts
@@ -851,7 +851,15 @@ export function gitRef(
         const [branches, tags, commits] = await Promise.all([
           git.listBranches({ fs: gitFs, dir }),
           git.listTags({ fs: gitFs, dir }),
-          git.log({ fs: gitFs, dir, depth }),
+          git.log({ fs: gitFs, dir, depth }).catch((error) => {
+            // HEAD may not have any commits yet.
+            logger.debug("Failed to list commits for suggestions.", {
+              dir,
+              prefix,
+              error,
+            });
+            return [];
+          }),
         ]);
 
         const seen = new Set<string>();
-- 
2.43.0


From 865724178028f5e98b6b5163f528217506b6ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:50 +0000
Subject: [PATCH 58/66] fix: take only identifiers for time zones

---
 packages/temporal/src/index.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/temporal/src/index.ts b/packages/temporal/src/index.ts
index 32561a0..9ded1ce 100644
--- a/packages/temporal/src/index.ts
+++ b/packages/temporal/src/index.ts
@@ -864,6 +864,10 @@ export function timeZone(
           return { success: true, value: canonical };
         }
 
+        // Temporal also takes a date-time string with a timezone in brackets,
+        // which is not an identifier.
+        if (!/^[a-z0-9._+\-/]+$/i.test(input)) throw new RangeError();
+
         // Validate by creating a ZonedDateTime with this timezone
         // This will throw if the timezone is invalid
         Temporal.ZonedDateTime.from({
-- 
2.43.0


From 7080d8640129b140009c84dc1b810a79e896cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:37 +0000
Subject: [PATCH 59/66] fix: load the configuration when the line alone is not
 enough

---
 packages/config/src/index.ts    | 27 +++++++++++++++++++++++++++
 packages/core/src/constructs.ts | 10 ++++++++--
 packages/env/src/index.ts       | 15 +++++++++++++++
 3 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/packages/config/src/index.ts b/packages/config/src/index.ts
index bb3bd0c..09de25c 100644
--- a/packages/config/src/index.ts
+++ b/packages/config/src/index.ts
@@ -28,6 +28,7 @@ import { getAnnotations } from "@optique/core/annotations";
 import {
   defineTraits,
   delegateSuggestNodes,
+  extractPhase2SeedKey,
   inheritAnnotations,
   injectAnnotations,
   mapModeValue,
@@ -893,6 +894,32 @@ export function bindConfig<
       return parser.getDocFragments(state, defaultValue);
     },
   };
+  // A value that the configuration may still provide must not keep the first
+  // pass from loading it.
+  Object.defineProperty(boundParser, extractPhase2SeedKey, {
+    value(state: TState, exec?: ExecutionContext) {
+      const hasCliValue = isConfigBindState(state) && state.hasCliValue;
+      if (!hasCliValue && shouldDeferPromptUntilConfigResolves(state)) {
+        return wrapForMode(parser.mode, {
+          value: undefined as TValue,
+          deferred: true as const,
+        });
+      }
+      const extractInnerPhase2Seed = (parser as typeof parser & {
+        readonly [extractPhase2SeedKey]?: (
+          state: TState,
+          exec?: ExecutionContext,
+        ) => ModeValue<M, unknown>;
+      })[extractPhase2SeedKey];
+      return extractInnerPhase2Seed == null
+        ? wrapForMode(parser.mode, null)
+        : wrapForMode(
+          parser.mode,
+          extractInnerPhase2Seed(getInnerState(state), exec),
+        );
+    },
+    configurable: true,
+  });
   defineTraits(boundParser, {
     inheritsAnnotations: true,
     completesFromSource: true,
diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index bc9a60b..67fed41 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -9460,7 +9460,10 @@ export function seq<
       return dispatchByMode(
         combinedMode,
         () => {
-          const stateArray = state.states as unknown[];
+          const stateArray = annotateElementStates(
+            annotateFreshArray(state, state.states),
+            parsers,
+          ) as unknown[];
           const runtime = exec?.dependencyRuntime ??
             createDependencyRuntimeContext(exec?.dependencyRegistry);
           const childExec = withDependencyRuntimeExec(
@@ -9543,7 +9546,10 @@ export function seq<
           };
         },
         async () => {
-          const stateArray = state.states as unknown[];
+          const stateArray = annotateElementStates(
+            annotateFreshArray(state, state.states),
+            parsers,
+          ) as unknown[];
           const runtime = exec?.dependencyRuntime ??
             createDependencyRuntimeContext(exec?.dependencyRegistry);
           const childExec = withDependencyRuntimeExec(
diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index ac2280b..6cc0c25 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -6,6 +6,7 @@ import {
   defineTraits,
   delegateSuggestNodes,
   dispatchByMode,
+  extractPhase2SeedKey,
   getTraits,
   inheritAnnotations,
   injectAnnotations,
@@ -883,6 +884,20 @@ export function bindEnv<
       return parser.getDocFragments(state, defaultValue);
     },
   };
+  const extractInnerPhase2Seed = (parser as typeof parser & {
+    readonly [extractPhase2SeedKey]?: (
+      state: TState,
+      exec?: ExecutionContext,
+    ) => ModeValue<M, unknown>;
+  })[extractPhase2SeedKey];
+  if (extractInnerPhase2Seed != null) {
+    Object.defineProperty(boundParser, extractPhase2SeedKey, {
+      value(state: TState, exec?: ExecutionContext) {
+        return extractInnerPhase2Seed.call(parser, getInnerState(state), exec);
+      },
+      configurable: true,
+    });
+  }
   defineTraits(boundParser, {
     inheritsAnnotations: true,
     completesFromSource: true,
-- 
2.43.0


From 4116b014cdcb7c142ee953e4d8b9cf2dcb5e6bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:37 +0000
Subject: [PATCH 60/66] fix: keep a value of the line when a sequence parses on

---
 packages/config/src/index.ts           | 8 +++++++-
 packages/derived-defaults/src/index.ts | 8 +++++++-
 packages/env/src/index.ts              | 8 +++++++-
 packages/prompt/src/index.ts           | 8 +++++++-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/packages/config/src/index.ts b/packages/config/src/index.ts
index 09de25c..df5b65c 100644
--- a/packages/config/src/index.ts
+++ b/packages/config/src/index.ts
@@ -805,6 +805,8 @@ export function bindConfig<
       // Extract annotations from context to preserve them
       const annotations = getAnnotations(context.state);
 
+      const hadCliValue = isConfigBindState(context.state) &&
+        context.state.hasCliValue;
       // Unwrap state from a previous parse() call.  After a successful
       // parse, object() stores the wrapped ConfigBindState and passes it
       // back on the next iteration.  The inner parser expects its own
@@ -831,7 +833,7 @@ export function bindConfig<
           const cliConsumed = result.consumed.length > 0;
           const newState = injectAnnotations({
             [configBindStateKey]: true as const,
-            hasCliValue: cliConsumed,
+            hasCliValue: cliConsumed || hadCliValue,
             cliState: result.next.state,
           }, annotations);
           return {
@@ -849,6 +851,10 @@ export function bindConfig<
         if (result.consumed > 0) {
           return result;
         }
+        // A value of the command line stays when nothing more is found for it.
+        if (hadCliValue) {
+          return { success: true, next: context, consumed: [] };
+        }
 
         const newState = injectAnnotations({
           [configBindStateKey]: true as const,
diff --git a/packages/derived-defaults/src/index.ts b/packages/derived-defaults/src/index.ts
index 1dae2c0..1bffb9b 100644
--- a/packages/derived-defaults/src/index.ts
+++ b/packages/derived-defaults/src/index.ts
@@ -499,6 +499,8 @@ export function bindDerivedDefault<
     },
     parse(context) {
       const annotations = getAnnotations(context.state);
+      const hadCliValue = isBindState(context.state) &&
+        context.state.hasCliValue;
       const innerState = isBindState(context.state)
         ? (context.state.hasCliValue
           ? context.state.cliState as TState
@@ -514,7 +516,7 @@ export function bindDerivedDefault<
           const cliConsumed = result.consumed.length > 0;
           const nextState = injectAnnotations({
             [bindStateKey]: true as const,
-            hasCliValue: cliConsumed,
+            hasCliValue: cliConsumed || hadCliValue,
             cliState: result.next.state,
           }, annotations);
           return {
@@ -525,6 +527,10 @@ export function bindDerivedDefault<
           };
         }
         if (result.consumed > 0) return result;
+        // A value of the command line stays when nothing more is found for it.
+        if (hadCliValue) {
+          return { success: true, next: context, consumed: [] };
+        }
         const nextState = injectAnnotations({
           [bindStateKey]: true as const,
           hasCliValue: false,
diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index 6cc0c25..051420e 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -788,6 +788,8 @@ export function bindEnv<
     parse: (context) => {
       const annotations = getAnnotations(context.state);
 
+      const hadCliValue = isEnvBindState(context.state) &&
+        context.state.hasCliValue;
       // Unwrap state from a previous parse() call.  After a successful
       // parse, object() stores the wrapped { hasCliValue, cliState }
       // state and passes it back on the next iteration.  The inner
@@ -814,7 +816,7 @@ export function bindEnv<
           const cliConsumed = result.consumed.length > 0;
           const nextState = injectAnnotations({
             [envBindStateKey]: true as const,
-            hasCliValue: cliConsumed,
+            hasCliValue: cliConsumed || hadCliValue,
             cliState: result.next.state,
           }, annotations);
           return {
@@ -832,6 +834,10 @@ export function bindEnv<
         if (result.consumed > 0) {
           return result;
         }
+        // A value of the command line stays when nothing more is found for it.
+        if (hadCliValue) {
+          return { success: true, next: context, consumed: [] };
+        }
 
         const nextState = injectAnnotations({
           [envBindStateKey]: true as const,
diff --git a/packages/prompt/src/index.ts b/packages/prompt/src/index.ts
index 16bc397..2c5f7ec 100644
--- a/packages/prompt/src/index.ts
+++ b/packages/prompt/src/index.ts
@@ -319,6 +319,8 @@ export function createPromptAdapter<TConfig>(
 
       parse: (context): ModeValue<"async", ParserResult<TState>> => {
         const annotations = getAnnotations(context.state);
+        const hadCliValue = isPromptBindState(context.state) &&
+          context.state.hasCliValue;
         const innerState = isPromptBindState(context.state)
           ? (context.state.hasCliValue
             ? (context.state.cliState as TState)
@@ -345,7 +347,7 @@ export function createPromptAdapter<TConfig>(
             const cliConsumed = result.consumed.length > 0;
             const nextState = injectAnnotations({
               [promptBindStateKey]: true as const,
-              hasCliValue: cliConsumed,
+              hasCliValue: cliConsumed || hadCliValue,
               cliState,
             }, annotations);
             return {
@@ -359,6 +361,10 @@ export function createPromptAdapter<TConfig>(
           if (result.consumed > 0) {
             return result;
           }
+          // A value of the command line stays when nothing more is found for it.
+          if (hadCliValue) {
+            return { success: true, next: context, consumed: [] };
+          }
 
           const nextState = injectAnnotations({
             [promptBindStateKey]: true as const,
-- 
2.43.0


From 892c5debd81ec0953013e9b149a4fe110e7c7bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:02 +0000
Subject: [PATCH 61/66] fix: report unknown commands before --help with
 completion on

---
 packages/core/src/facade.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/facade.ts b/packages/core/src/facade.ts
index 06e4bf7..26e69fd 100644
--- a/packages/core/src/facade.ts
+++ b/packages/core/src/facade.ts
@@ -2753,7 +2753,18 @@ export function runParser<
             );
           }
 
-          if (completionAsOption && completionParsers.completionOption) {
+          // The completion option takes arbitrary words as its arguments, so
+          // it must not take part in the validation of a command path below
+          // unless the path begins with it
+          const listsCompletionOption = requestedCommand == null ||
+            completionOptionNames.some((name) =>
+              requestedCommand === name ||
+              requestedCommand.startsWith(`${name}=`)
+            );
+          if (
+            completionAsOption && completionParsers.completionOption &&
+            listsCompletionOption
+          ) {
             addMetaOption(
               completionParsers.completionOption,
               completionOptionConfig?.group,
-- 
2.43.0


From be22956e06e9cfc61135e71ca7f86fc8931192ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:48 +0000
Subject: [PATCH 62/66] fix: hand a bound parser its own state when completing
 and documenting

---
 packages/config/src/index.ts           |  7 ++++++-
 packages/derived-defaults/src/index.ts |  7 ++++++-
 packages/env/src/index.ts              | 15 +++++++++++++--
 packages/prompt/src/index.ts           | 12 +++++++++++-
 4 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/packages/config/src/index.ts b/packages/config/src/index.ts
index df5b65c..bda7731 100644
--- a/packages/config/src/index.ts
+++ b/packages/config/src/index.ts
@@ -897,7 +897,12 @@ export function bindConfig<
     shouldDeferCompletion: shouldDeferPromptUntilConfigResolves,
     getDocFragments(state, upperDefaultValue?) {
       const defaultValue = upperDefaultValue ?? options.default;
-      return parser.getDocFragments(state, defaultValue);
+      return parser.getDocFragments(
+        state?.kind === "available"
+          ? { kind: "available", state: getInnerState(state.state) }
+          : state,
+        defaultValue,
+      );
     },
   };
   // A value that the configuration may still provide must not keep the first
diff --git a/packages/derived-defaults/src/index.ts b/packages/derived-defaults/src/index.ts
index 1bffb9b..e8b7c86 100644
--- a/packages/derived-defaults/src/index.ts
+++ b/packages/derived-defaults/src/index.ts
@@ -566,7 +566,12 @@ export function bindDerivedDefault<
     shouldDeferCompletion,
     getDocFragments(state, upperDefaultValue) {
       const defaultValue = upperDefaultValue ?? options.default;
-      const fragments = parser.getDocFragments(state, defaultValue);
+      const fragments = parser.getDocFragments(
+        state?.kind === "available"
+          ? { kind: "available", state: getInnerState(state.state) }
+          : state,
+        defaultValue,
+      );
       if (
         upperDefaultValue !== undefined || options.defaultDescription == null
       ) {
diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index 051420e..61846f0 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -876,7 +876,13 @@ export function bindEnv<
       );
     },
 
-    suggest: parser.suggest,
+    suggest: (context, prefix) => {
+      const innerState = getInnerState(context.state);
+      const innerContext = innerState !== context.state
+        ? { ...context, state: innerState }
+        : context;
+      return parser.suggest(innerContext, prefix);
+    },
     ...(typeof deferPromptUntilConfigResolves === "function"
       ? {
         shouldDeferCompletion: (
@@ -887,7 +893,12 @@ export function bindEnv<
       : {}),
     getDocFragments(state, upperDefaultValue?) {
       const defaultValue = upperDefaultValue ?? options.default;
-      return parser.getDocFragments(state, defaultValue);
+      return parser.getDocFragments(
+        state?.kind === "available"
+          ? { kind: "available", state: getInnerState(state.state) }
+          : state,
+        defaultValue,
+      );
     },
   };
   const extractInnerPhase2Seed = (parser as typeof parser & {
diff --git a/packages/prompt/src/index.ts b/packages/prompt/src/index.ts
index 2c5f7ec..fdb9739 100644
--- a/packages/prompt/src/index.ts
+++ b/packages/prompt/src/index.ts
@@ -573,7 +573,17 @@ export function createPromptAdapter<TConfig>(
       getDocFragments(state, upperDefaultValue?) {
         const defaultValue = upperDefaultValue ??
           readDefaultValue(adapter, config);
-        return parser.getDocFragments(state, defaultValue as TValue);
+        return parser.getDocFragments(
+          state?.kind === "available" && isPromptBindState(state.state)
+            ? {
+              kind: "available",
+              state: state.state.cliState === undefined
+                ? parser.initialState
+                : state.state.cliState as TState,
+            }
+            : state,
+          defaultValue as TValue,
+        );
       },
     };
     defineTraits(promptedParser, {
-- 
2.43.0


From 17a77dab3672fe4d5fb5c09aacbbe29586e6a677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:27 +0000
Subject: [PATCH 63/66] fix: do not take -- alone for a value of a bound parser

---
 packages/config/src/index.ts           | 10 ++++++++++
 packages/derived-defaults/src/index.ts | 10 ++++++++++
 packages/env/src/index.ts              | 10 ++++++++++
 packages/prompt/src/index.ts           | 10 ++++++++++
 4 files changed, 40 insertions(+)

diff --git a/packages/config/src/index.ts b/packages/config/src/index.ts
index bda7731..05dfe6a 100644
--- a/packages/config/src/index.ts
+++ b/packages/config/src/index.ts
@@ -825,6 +825,16 @@ export function bindConfig<
         result: ParserResult<TState>,
       ): ParserResult<TState> => {
         if (result.success) {
+          // `--` alone ends the options without giving a value.
+          if (
+            result.consumed.length === 1 && result.consumed[0] === "--" &&
+            result.next.optionsTerminated && !context.optionsTerminated
+          ) {
+            return {
+              ...result,
+              next: { ...result.next, state: context.state },
+            };
+          }
           // Only mark hasCliValue when the inner parser actually consumed
           // input tokens.  Wrappers like withDefault may return success
           // with consumed: [] when the CLI option is absent; treating those
diff --git a/packages/derived-defaults/src/index.ts b/packages/derived-defaults/src/index.ts
index e8b7c86..55b5078 100644
--- a/packages/derived-defaults/src/index.ts
+++ b/packages/derived-defaults/src/index.ts
@@ -513,6 +513,16 @@ export function bindDerivedDefault<
         result: ParserResult<TState>,
       ): ParserResult<TState> => {
         if (result.success) {
+          // `--` alone ends the options without giving a value.
+          if (
+            result.consumed.length === 1 && result.consumed[0] === "--" &&
+            result.next.optionsTerminated && !context.optionsTerminated
+          ) {
+            return {
+              ...result,
+              next: { ...result.next, state: context.state },
+            };
+          }
           const cliConsumed = result.consumed.length > 0;
           const nextState = injectAnnotations({
             [bindStateKey]: true as const,
diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index 61846f0..f3cba74 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -808,6 +808,16 @@ export function bindEnv<
         result: ParserResult<TState>,
       ): ParserResult<TState> => {
         if (result.success) {
+          // `--` alone ends the options without giving a value.
+          if (
+            result.consumed.length === 1 && result.consumed[0] === "--" &&
+            result.next.optionsTerminated && !context.optionsTerminated
+          ) {
+            return {
+              ...result,
+              next: { ...result.next, state: context.state },
+            };
+          }
           // Only mark hasCliValue when the inner parser actually consumed
           // input tokens.  Wrappers like bindConfig or withDefault may
           // return success with consumed: [] when the CLI option is
diff --git a/packages/prompt/src/index.ts b/packages/prompt/src/index.ts
index fdb9739..eee70fc 100644
--- a/packages/prompt/src/index.ts
+++ b/packages/prompt/src/index.ts
@@ -338,6 +338,16 @@ export function createPromptAdapter<TConfig>(
           result: ParserResult<TState>,
         ): ParserResult<TState> => {
           if (result.success) {
+            // `--` alone ends the options without giving a value.
+            if (
+              result.consumed.length === 1 && result.consumed[0] === "--" &&
+              result.next.optionsTerminated && !context.optionsTerminated
+            ) {
+              return {
+                ...result,
+                next: { ...result.next, state: context.state },
+              };
+            }
             const cliState = annotations != null &&
                 result.next.state != null &&
                 typeof result.next.state === "object" &&
-- 
2.43.0


From 381b2d104070be29378833395d433ce19059a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:52 +0000
Subject: [PATCH 64/66] fix: format a value without a prototype in Zod and
 Valibot parsers

---
 packages/valibot/src/index.ts | 13 +++++++++++--
 packages/zod/src/index.ts     | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/packages/valibot/src/index.ts b/packages/valibot/src/index.ts
index 4758896..42ca7cf 100644
--- a/packages/valibot/src/index.ts
+++ b/packages/valibot/src/index.ts
@@ -599,14 +599,23 @@ function validateOptions<T>(
   }
 }
 
+function safeString(value: unknown): string {
+  try {
+    return String(value);
+  } catch {
+    // Values without a prototype cannot be converted into a string.
+    return "[object Object]";
+  }
+}
+
 function formatValue<T>(value: T, format?: (value: T) => string): string {
   if (format) return format(value);
   if (value instanceof Date) {
     return Number.isNaN(value.getTime()) ? String(value) : value.toISOString();
   }
   if (typeof value !== "object" || value === null) return String(value);
-  if (Array.isArray(value)) return String(value);
-  const str = String(value);
+  if (Array.isArray(value)) return safeString(value);
+  const str = safeString(value);
   if (str !== "[object Object]") return str;
   const proto = Object.getPrototypeOf(value);
   if (proto === Object.prototype || proto === null) {
diff --git a/packages/zod/src/index.ts b/packages/zod/src/index.ts
index 98c8a06..675d0ea 100644
--- a/packages/zod/src/index.ts
+++ b/packages/zod/src/index.ts
@@ -594,14 +594,23 @@ function validateOptions<T>(
   }
 }
 
+function safeString(value: unknown): string {
+  try {
+    return String(value);
+  } catch {
+    // Values without a prototype cannot be converted into a string.
+    return "[object Object]";
+  }
+}
+
 function formatValue<T>(value: T, format?: (value: T) => string): string {
   if (format) return format(value);
   if (value instanceof Date) {
     return Number.isNaN(value.getTime()) ? String(value) : value.toISOString();
   }
   if (typeof value !== "object" || value === null) return String(value);
-  if (Array.isArray(value)) return String(value);
-  const str = String(value);
+  if (Array.isArray(value)) return safeString(value);
+  const str = safeString(value);
   if (str !== "[object Object]") return str;
   const proto = Object.getPrototypeOf(value);
   if (proto === Object.prototype || proto === null) {
-- 
2.43.0


From de691f05005bebdd4106eceaf96bd2b75ef5d648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:07 +0000
Subject: [PATCH 65/66] fix: show the message of withDefault() for parsers with
 sections in help

---
 packages/core/src/modifiers.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index ea74530..d1b04b8 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -1421,7 +1421,13 @@ export function withDefault<
               default: options.message,
             };
           }
-          return fragment;
+          return {
+            ...fragment,
+            entries: fragment.entries.map((entry) => ({
+              ...entry,
+              default: options.message,
+            })),
+          };
         });
         return {
           ...fragments,
-- 
2.43.0


From e5120412e2eba935aef8ea154af839e45e70af96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:12:35 +0000
Subject: [PATCH 66/66] fix: let completion go past a prompted field of seq()

---
 packages/prompt/src/index.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/prompt/src/index.ts b/packages/prompt/src/index.ts
index eee70fc..7b5f6a9 100644
--- a/packages/prompt/src/index.ts
+++ b/packages/prompt/src/index.ts
@@ -297,6 +297,11 @@ export function createPromptAdapter<TConfig>(
       shouldDeferCompletion(state: TState): boolean {
         return !isPromptBindState(state) || !state.hasCliValue;
       },
+      canSkip(state: TState, exec?: ExecutionContext) {
+        // A value that is not on the line is asked for.
+        if (!isPromptBindState(state) || !state.hasCliValue) return true;
+        return parser.canSkip?.(state.cliState as TState, exec) === true;
+      },
       getSuggestRuntimeNodes(state: TState, path: readonly PropertyKey[]) {
         const innerState = isPromptBindState(state)
           ? (state.cliState === undefined
-- 
2.43.0

