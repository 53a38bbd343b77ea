From 08c6a4399e561f28565b5eee25b4f2896f61d49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 01/50] fix: keep longestMatch() from dropping tokens consumed
 by another branch

---
 packages/core/src/constructs.ts | 134 ++++++++++++++++++++++++++------
 1 file changed, 112 insertions(+), 22 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 347eeba..64e5090 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -4419,6 +4419,33 @@ function createLongestMatch(
       })(),
   });
 
+  const isFullReplay = (
+    result: ParserResult<unknown>,
+    tokens: readonly string[],
+  ): result is ParserResult<unknown> & { success: true } =>
+    result.success && result.consumed.length === tokens.length &&
+    result.consumed.every((token, index) => token === tokens[index]);
+
+  const getExclusiveError = (
+    error: { consumed: number; error: Message },
+    previouslyConsumed: readonly string[],
+    result: ParserResult<unknown>,
+    context: ParserContext<LongestMatchState>,
+  ): { consumed: number; error: Message } => {
+    const consumed = result.success
+      ? context.buffer.length - result.next.buffer.length
+      : result.consumed;
+    if (consumed <= error.consumed) return error;
+    return {
+      consumed,
+      error: result.success
+        ? message`${values(previouslyConsumed)} and ${
+          values(result.consumed)
+        } cannot be used together.`
+        : result.error,
+    };
+  };
+
   // Sync parse implementation
   const parseSync = (
     context: ParserContext<LongestMatchState>,
@@ -4431,20 +4458,45 @@ function createLongestMatch(
     } | null = null;
     let error = getInitialError(context);
     const activeState = normalizeExclusiveState(context.state);
+    const previouslyConsumed = activeState?.[1].success
+      ? activeState[1].consumed
+      : [];
 
     // Try all parsers and find the one with longest match
     for (let i = 0; i < syncParsers.length; i++) {
       const parser = syncParsers[i];
+      let branchContext = context;
+      let branchState = activeState == null || activeState[0] !== i ||
+          !activeState[1].success
+        ? parser.initialState
+        : activeState[1].next.state;
+      if (previouslyConsumed.length > 0 && activeState?.[0] !== i) {
+        // Another branch already owns earlier input.  This branch can only
+        // take over if it accepts that input too; otherwise switching to it
+        // would silently drop the tokens consumed so far.
+        const replayed = parser.parse({
+          ...withChildContext(context, i, parser.initialState, parser),
+          buffer: previouslyConsumed,
+        });
+        if (!isFullReplay(replayed, previouslyConsumed)) {
+          const fresh = parser.parse(
+            withChildContext(context, i, parser.initialState, parser),
+          );
+          error = getExclusiveError(error, previouslyConsumed, fresh, context);
+          continue;
+        }
+        branchState = replayed.next.state;
+        const replayExec = mergeChildExec(context.exec, replayed.next.exec);
+        if (replayExec != null) {
+          branchContext = {
+            ...context,
+            exec: replayExec,
+            dependencyRegistry: replayExec.dependencyRegistry,
+          };
+        }
+      }
       const result = parser.parse(
-        withChildContext(
-          context,
-          i,
-          activeState == null || activeState[0] !== i ||
-            !activeState[1].success
-            ? parser.initialState
-            : activeState[1].next.state,
-          parser,
-        ),
+        withChildContext(branchContext, i, branchState, parser),
       );
 
       if (result.success) {
@@ -4481,7 +4533,10 @@ function createLongestMatch(
             context.state,
             bestMatch.index,
             bestMatch.parser,
-            bestMatch.result,
+            {
+              ...bestMatch.result,
+              consumed: [...previouslyConsumed, ...bestMatch.result.consumed],
+            },
           ),
           ...(mergedExec != null
             ? {
@@ -4509,22 +4564,46 @@ function createLongestMatch(
     } | null = null;
     let error = getInitialError(context);
     const activeState = normalizeExclusiveState(context.state);
+    const previouslyConsumed = activeState?.[1].success
+      ? activeState[1].consumed
+      : [];
 
     // Try all parsers and find the one with longest match
     for (let i = 0; i < parsers.length; i++) {
       const parser = parsers[i];
-      const resultOrPromise = parser.parse(
-        withChildContext(
-          context,
-          i,
-          activeState == null || activeState[0] !== i ||
-            !activeState[1].success
-            ? parser.initialState
-            : activeState[1].next.state,
-          parser,
-        ),
+      let branchContext = context;
+      let branchState = activeState == null || activeState[0] !== i ||
+          !activeState[1].success
+        ? parser.initialState
+        : activeState[1].next.state;
+      if (previouslyConsumed.length > 0 && activeState?.[0] !== i) {
+        // Another branch already owns earlier input.  This branch can only
+        // take over if it accepts that input too; otherwise switching to it
+        // would silently drop the tokens consumed so far.
+        const replayed = await parser.parse({
+          ...withChildContext(context, i, parser.initialState, parser),
+          buffer: previouslyConsumed,
+        });
+        if (!isFullReplay(replayed, previouslyConsumed)) {
+          const fresh = await parser.parse(
+            withChildContext(context, i, parser.initialState, parser),
+          );
+          error = getExclusiveError(error, previouslyConsumed, fresh, context);
+          continue;
+        }
+        branchState = replayed.next.state;
+        const replayExec = mergeChildExec(context.exec, replayed.next.exec);
+        if (replayExec != null) {
+          branchContext = {
+            ...context,
+            exec: replayExec,
+            dependencyRegistry: replayExec.dependencyRegistry,
+          };
+        }
+      }
+      const result = await parser.parse(
+        withChildContext(branchContext, i, branchState, parser),
       );
-      const result = await resultOrPromise;
 
       if (result.success) {
         const consumed = context.buffer.length - result.next.buffer.length;
@@ -4560,7 +4639,10 @@ function createLongestMatch(
             context.state,
             bestMatch.index,
             bestMatch.parser,
-            bestMatch.result,
+            {
+              ...bestMatch.result,
+              consumed: [...previouslyConsumed, ...bestMatch.result.consumed],
+            },
           ),
           ...(mergedExec != null
             ? {
@@ -4585,6 +4667,14 @@ function createLongestMatch(
     leadingNames: unionLeadingNames(parsers),
     acceptingAnyToken: parsers.some((p) => p.acceptingAnyToken),
     initialState: undefined,
+    canSkip(state: LongestMatchState, exec?: ExecutionContext) {
+      const activeState = normalizeExclusiveState(state);
+      return activeState != null && activeState[1].success &&
+        parsers[activeState[0]]?.canSkip?.(
+            activeState[1].next.state,
+            exec,
+          ) === true;
+    },
     complete: createExclusiveComplete(
       parsers,
       options,
-- 
2.43.0


From 98f16e4e67451a4f4cf37b2753856098eb8d0a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 02/50] fix: keep or() from dropping tokens when switching
 branches after several steps

---
 packages/core/src/constructs.ts | 47 ++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 64e5090..e333158 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -1242,6 +1242,27 @@ function createExclusiveState(
   ) as ExclusiveState;
 }
 
+/**
+ * Prepends the tokens the branch already consumed in earlier steps, so that a
+ * later branch switch has to account for all of them.
+ * @internal
+ */
+function withEarlierConsumed(
+  activeState: ExclusiveState,
+  index: number,
+  result: ParserResult<unknown> & { success: true },
+): ParserResult<unknown> & { success: true } {
+  if (
+    activeState == null || activeState[0] !== index || !activeState[1].success
+  ) {
+    return result;
+  }
+  return {
+    ...result,
+    consumed: [...activeState[1].consumed, ...result.consumed],
+  };
+}
+
 /**
  * Creates a complete() method shared by or() and longestMatch().
  * @internal
@@ -3418,7 +3439,12 @@ export function or(
             ...context,
             buffer: result.next.buffer,
             optionsTerminated: result.next.optionsTerminated,
-            state: createExclusiveState(context.state, i, parser, result),
+            state: createExclusiveState(
+              context.state,
+              i,
+              parser,
+              withEarlierConsumed(activeState, i, result),
+            ),
             ...(mergedExec != null
               ? {
                 exec: mergedExec,
@@ -3509,7 +3535,11 @@ export function or(
               context.state,
               provisionalConsuming.index,
               provisionalConsuming.parser,
-              provisionalConsuming.result,
+              withEarlierConsumed(
+                activeState,
+                provisionalConsuming.index,
+                provisionalConsuming.result,
+              ),
             ),
             ...(mergedExec != null
               ? {
@@ -3800,7 +3830,12 @@ export function or(
             ...context,
             buffer: result.next.buffer,
             optionsTerminated: result.next.optionsTerminated,
-            state: createExclusiveState(context.state, i, parser, result),
+            state: createExclusiveState(
+              context.state,
+              i,
+              parser,
+              withEarlierConsumed(activeState, i, result),
+            ),
             ...(mergedExec != null
               ? {
                 exec: mergedExec,
@@ -3880,7 +3915,11 @@ export function or(
               context.state,
               provisionalConsuming.index,
               provisionalConsuming.parser,
-              provisionalConsuming.result,
+              withEarlierConsumed(
+                activeState,
+                provisionalConsuming.index,
+                provisionalConsuming.result,
+              ),
             ),
             ...(mergedExec != null
               ? {
-- 
2.43.0


From 5fd6a2a90d65e1474ebddbaf84f947f8a0498e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:21 +0000
Subject: [PATCH 03/50] fix: do not resolve conditional() branches through
 Object.prototype

---
 packages/core/src/constructs.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index e333158..953d0d4 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -13286,6 +13286,9 @@ export function conditional(
   readonly [string | undefined, unknown],
   ConditionalState<string>
 > {
+  // Look branches up by own key only: a discriminator value such as
+  // "constructor" must not resolve to an inherited Object.prototype member.
+  branches = Object.assign(Object.create(null), branches);
   const branchParsers = Object.entries(branches);
   const allBranchParsers = defaultBranch
     ? [...branchParsers.map(([_, p]) => p), defaultBranch]
-- 
2.43.0


From 0e06e4c6e2b28248529268efc2d5d086d54a274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:21 +0000
Subject: [PATCH 04/50] fix: report inherited Object.prototype names as
 unsupported completion shells

---
 packages/core/src/facade.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/facade.ts b/packages/core/src/facade.ts
index 5d1cb8f..b17bb52 100644
--- a/packages/core/src/facade.ts
+++ b/packages/core/src/facade.ts
@@ -1625,7 +1625,9 @@ function handleCompletion<M extends Mode, THelp, TError>(
     );
   }
 
-  const shell = availableShells[shellName];
+  const shell = Object.hasOwn(availableShells, shellName)
+    ? availableShells[shellName]
+    : undefined;
 
   if (!shell) {
     const available: MessageTerm[] = [];
-- 
2.43.0


From 87c8ea0405ad935171618442dbfe2dc2ba458963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 05/50] fix: do not split short option bundles into an option
 terminator

---
 packages/core/src/primitives.ts | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 33cec13..43cfd5e 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -48,6 +48,15 @@ import { validateCommandNames, validateOptionNames } from "./validate.ts";
  */
 const EMPTY_LEADING_NAMES: ReadonlySet<string> = new Set();
 
+/**
+ * Checks whether a token is a bundle of short options starting with the given
+ * one, e.g., `-abc` for `-a`.  A bundle has no inner hyphen: splitting `-a-`
+ * would otherwise leave a `--` behind, which reads as an option terminator.
+ */
+function isShortOptionBundle(token: string, shortOption: string): boolean {
+  return token.startsWith(shortOption) && token[2] !== "-";
+}
+
 /** @internal */
 export type OptionState<T> = ValueParserResult<T> | undefined;
 
@@ -1201,7 +1210,7 @@ export function option<M extends Mode, T>(
           (name) => name.match(/^-[^-]$/),
         );
         for (const shortOption of shortOptions) {
-          if (!context.buffer[0].startsWith(shortOption)) continue;
+          if (!isShortOptionBundle(context.buffer[0], shortOption)) continue;
           if (hasParsedOptionValue(context.state, valueParser)) {
             return {
               success: false,
@@ -1756,7 +1765,7 @@ export function flag(
         (name) => name.match(/^-[^-]$/),
       );
       for (const shortOption of shortOptions) {
-        if (!context.buffer[0].startsWith(shortOption)) continue;
+        if (!isShortOptionBundle(context.buffer[0], shortOption)) continue;
         if (context.state?.success) {
           return {
             success: false,
@@ -2231,7 +2240,7 @@ export function negatableFlag(
 
       for (const shortOption of optionNames) {
         if (!shortOption.match(/^-[^-]$/)) continue;
-        if (!context.buffer[0].startsWith(shortOption)) continue;
+        if (!isShortOptionBundle(context.buffer[0], shortOption)) continue;
         return parseMatchedNegatableFlag(
           context,
           shortOption,
-- 
2.43.0


From eb452479280b48f9032a54c60a336a26c378cd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:23 +0000
Subject: [PATCH 06/50] fix: keep argument() from taking joined options of its
 own grammar as positional values

---
 packages/core/src/primitives.ts | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 43cfd5e..db6b2ae 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -2421,6 +2421,23 @@ export interface ArgumentErrorOptions {
   multiple?: Message | ((metavar: string) => Message);
 }
 
+/**
+ * Checks whether a token is an option declared in the grammar joined with
+ * a value (`--name=value`).
+ */
+function isDeclaredJoinedOption(token: string, usage: Usage): boolean {
+  if (!token.startsWith("-") || !token.includes("=")) return false;
+  for (const name of extractOptionNames(usage, true)) {
+    if (
+      (name.startsWith("--") || (name.startsWith("-") && name.length > 2)) &&
+      token.startsWith(`${name}=`)
+    ) {
+      return true;
+    }
+  }
+  return false;
+}
+
 /**
  * Creates a parser that expects a single argument value.
  * This parser is typically used for positional arguments
@@ -2494,7 +2511,10 @@ export function argument<M extends Mode, T>(
         if (context.buffer[i] === "--") {
           optionsTerminated = true;
           i++;
-        } else if (context.buffer[i].match(optionPattern)) {
+        } else if (
+          context.buffer[i].match(optionPattern) ||
+          isDeclaredJoinedOption(context.buffer[i], context.usage)
+        ) {
           return {
             success: false,
             consumed: i,
-- 
2.43.0


From 427533df4828ca5c8d90c19656ef74600dbaf5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:32 +0000
Subject: [PATCH 07/50] fix: let seq() treat input after the options terminator
 verbatim

---
 packages/core/src/constructs.ts | 44 +++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 953d0d4..86bc0ee 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -7269,6 +7269,33 @@ function leadingCandidatesAfter(
   return sequenceLeadingCandidates(parsers.slice(startIndex));
 }
 
+/**
+ * Like {@link leadingCandidatesAfter}, but for input after the options
+ * terminator, where only commands can be recognized by their name.
+ */
+function leadingCommandsAfter(
+  parsers: readonly Parser<Mode, unknown, unknown>[],
+  startIndex: number,
+): SeqLeadingCandidates {
+  const later = parsers.slice(startIndex);
+  const optionNames = new Set(
+    later.flatMap((parser) => [...extractOptionNames(parser.usage, true)]),
+  );
+  return {
+    optionNames: EMPTY_LEADING_NAMES,
+    joinedOptionNames: EMPTY_LEADING_NAMES,
+    commandNames: new Set(
+      [...sequenceLeadingCandidates(later).commandNames].filter((name) =>
+        !optionNames.has(name)
+      ),
+    ),
+  };
+}
+
+function isSeqTerminator(context: ParserContext<SeqState>): boolean {
+  return context.buffer[0] === "--" && !context.optionsTerminated;
+}
+
 function checkSequentialDuplicateOptionNames(
   parsers: readonly Parser<Mode, unknown, unknown>[],
 ): void {
@@ -7460,14 +7487,17 @@ function shouldAdvanceSeqBeforeParse(
   parsers: readonly Parser<Mode, unknown, unknown>[],
 ): boolean {
   const token = currentContext.buffer[0];
-  if (token !== "--") {
-    const laterLeadingCandidates = leadingCandidatesAfter(parsers, index + 1);
+  const isTerminator = isSeqTerminator(currentContext);
+  if (!isTerminator) {
+    const laterLeadingCandidates = currentContext.optionsTerminated
+      ? leadingCommandsAfter(parsers, index + 1)
+      : leadingCandidatesAfter(parsers, index + 1);
     if (!tokenMatchesLeadingName(token, laterLeadingCandidates)) return false;
   }
   if (!parserCanSkipAt(parser, parserState, currentContext.exec, index)) {
     return false;
   }
-  if (token === "--") return true;
+  if (isTerminator) return true;
   if (currentContext.state.states[index] === initialParserState) {
     const currentLeadingCandidates = sequenceLeadingCandidates([parser]);
     return !tokenMatchesLeadingName(token, currentLeadingCandidates);
@@ -7553,7 +7583,7 @@ function advanceSeqSuggestContextSync(
         parsers,
       )
     ) {
-      const consumedTerminator = currentContext.buffer[0] === "--";
+      const consumedTerminator = isSeqTerminator(currentContext);
       currentContext = advanceSeqContext(
         currentContext,
         index + 1,
@@ -7608,7 +7638,7 @@ async function advanceSeqSuggestContextAsync(
         parsers,
       )
     ) {
-      const consumedTerminator = currentContext.buffer[0] === "--";
+      const consumedTerminator = isSeqTerminator(currentContext);
       currentContext = advanceSeqContext(
         currentContext,
         index + 1,
@@ -9334,7 +9364,7 @@ export function seq<
           syncParsers,
         )
       ) {
-        const consumedTerminator = currentContext.buffer[0] === "--";
+        const consumedTerminator = isSeqTerminator(currentContext);
         if (consumedTerminator) allConsumed.push("--");
         currentContext = advanceSeqContext(
           currentContext,
@@ -9412,7 +9442,7 @@ export function seq<
           parsers,
         )
       ) {
-        const consumedTerminator = currentContext.buffer[0] === "--";
+        const consumedTerminator = isSeqTerminator(currentContext);
         if (consumedTerminator) allConsumed.push("--");
         currentContext = advanceSeqContext(
           currentContext,
-- 
2.43.0


From 27357dc5f6d2e6041487cfe6cd0b99f96c7a0117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 08/50] fix: let multiple() extend commands wrapped in group()
 or nonEmpty()

---
 packages/core/src/constructs.ts | 5 +++++
 packages/core/src/modifiers.ts  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 86bc0ee..a0d58df 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -12922,6 +12922,11 @@ export function group<M extends Mode, TValue, TState>(
     leadingNames: parser.leadingNames,
     acceptingAnyToken: parser.acceptingAnyToken,
     initialState: parser.initialState,
+    // Forward the command() brand so that multiple(group(..., command(...)))
+    // keeps extending a command that has just been matched.
+    ...(Reflect.get(parser, Symbol.for("@optique/core/commandParser")) === true
+      ? { [Symbol.for("@optique/core/commandParser")]: true }
+      : {}),
     // Forward field parser pairs from inner parser so that merge()
     // can pre-complete dependency source fields from grouped children.
     // See: https://github.com/dahlia/optique/issues/681
diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index d4190ef..88f5d14 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -3356,6 +3356,11 @@ export function nonEmpty<M extends Mode, T, TState>(
     leadingNames: parser.leadingNames,
     acceptingAnyToken: parser.acceptingAnyToken,
     initialState,
+    // Forward the command() brand so that multiple(nonEmpty(command(...)))
+    // keeps extending a command that has just been matched.
+    ...(Reflect.get(parser, Symbol.for("@optique/core/commandParser")) === true
+      ? { [Symbol.for("@optique/core/commandParser")]: true }
+      : {}),
     ...(typeof parser.canSkip === "function"
       ? {
         canSkip(state: TState, exec?: ExecutionContext) {
-- 
2.43.0


From 673e43490fb2f0692726f2ff940a9e608cc0d505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 09/50] fix: complete unparsed options and arguments whose
 initial state carries annotations

With a two-pass source context, option(), flag(), negatableFlag(), and
argument() at the top level were completed on an annotation-wrapped initial
state, so a missing value crashed instead of being reported.
---
 packages/core/src/primitives.ts | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index db6b2ae..81569f6 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -1295,7 +1295,9 @@ export function option<M extends Mode, T>(
             : message`Missing option ${eOptionNames(optionNames)}.`,
         };
       const completeSync = (): ValueParserResult<T | boolean> => {
-        if (state == null) return missing;
+        if (state == null || isAnnotationWrappedInitialState(state)) {
+          return missing;
+        }
         const resolvedState = valueParser != null &&
             dependencyMetadata?.derived != null
           ? resolveDerivedCompletionSync(
@@ -1312,7 +1314,9 @@ export function option<M extends Mode, T>(
       const completeAsync = async (): Promise<
         ValueParserResult<T | boolean>
       > => {
-        if (state == null) return missing;
+        if (state == null || isAnnotationWrappedInitialState(state)) {
+          return missing;
+        }
         if (valueParser == null || dependencyMetadata?.derived == null) {
           return completeSync();
         }
@@ -1835,7 +1839,7 @@ export function flag(
       };
     },
     complete(state, _exec?: ExecutionContext) {
-      if (state == null) {
+      if (state == null || isAnnotationWrappedInitialState(state)) {
         return {
           success: false,
           error: options.errors?.missing
@@ -2287,7 +2291,7 @@ export function negatableFlag(
       };
     },
     complete(state, _exec?: ExecutionContext) {
-      if (state == null) {
+      if (state == null || isAnnotationWrappedInitialState(state)) {
         return {
           success: false,
           error: options.errors?.missing
@@ -2610,7 +2614,9 @@ export function argument<M extends Mode, T>(
           }, but too few arguments.`,
       };
       const completeSync = (): ValueParserResult<T> => {
-        if (state == null) return missing;
+        if (state == null || isAnnotationWrappedInitialState(state)) {
+          return missing;
+        }
         const resolvedState = dependencyMetadata?.derived != null
           ? resolveDerivedCompletionSync(dependencyMetadata, state, exec)
           : state;
@@ -2620,7 +2626,9 @@ export function argument<M extends Mode, T>(
         };
       };
       const completeAsync = async (): Promise<ValueParserResult<T>> => {
-        if (state == null) return missing;
+        if (state == null || isAnnotationWrappedInitialState(state)) {
+          return missing;
+        }
         if (dependencyMetadata?.derived == null) return completeSync();
         const resolved = await resolveDerivedCompletionAsync(
           dependencyMetadata,
-- 
2.43.0


From ab7c2f11fcc6a8014103760e18cbfbd5ed5d120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 10/50] fix: let bindConfig() fall back to the parser it wraps

When neither the config nor a configured default has a value, a wrapped
parser that can complete without input, such as bindEnv() or withDefault(),
is now consulted, as the outer-to-inner priority order promises.
---
 packages/config/src/index.ts | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/packages/config/src/index.ts b/packages/config/src/index.ts
index 7912c04..39741ff 100644
--- a/packages/config/src/index.ts
+++ b/packages/config/src/index.ts
@@ -870,7 +870,15 @@ export function bindConfig<
       // No CLI value, check config.  Thread the inner parser through so
       // that fallback values are re-validated against its constraints
       // (see issue #414).
-      return getConfigOrDefault(state, options, parser.mode, parser);
+      return getConfigOrDefault(state, options, parser.mode, parser, () => {
+        // Neither the config nor a configured default has a value: an inner
+        // parser that can complete without input (e.g., bindEnv() with a set
+        // variable, or withDefault()) is consulted next.
+        const innerState = getInnerState(state);
+        return parser.canSkip?.(innerState, exec) === true
+          ? parser.complete(innerState, exec)
+          : undefined;
+      });
     },
 
     suggest: (context, prefix) => {
@@ -1014,6 +1022,7 @@ function getConfigOrDefault<
   options: BindConfigOptions<T, TValue, TConfigMeta>,
   mode: M,
   innerParser?: Parser<M, TValue, unknown>,
+  completeInner?: () => ModeValue<M, Result<TValue>> | undefined,
 ): ModeValue<M, Result<TValue>> {
   // Read from the per-instance context id so that the correct config data is
   // selected even when annotations from multiple config contexts are merged.
@@ -1072,6 +1081,9 @@ function getConfigOrDefault<
     return validateFallbackValue(mode, innerParser, options.default);
   }
 
+  const innerResult = completeInner?.();
+  if (innerResult !== undefined) return innerResult;
+
   // Distinguish between the config context not being registered at all
   // (key absent from annotations) and a registered context with no matching
   // value (file not found, key absent in config data, etc.).
-- 
2.43.0


From bb72007975b08ddd222216328ccbe99f151de76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:03 +0000
Subject: [PATCH 11/50] fix: pass parent annotations through map() and group()
 so that bound sources are read

---
 packages/core/src/annotation-state.ts |  6 ++--
 packages/core/src/constructs.ts       |  9 ++++++
 packages/core/src/extension.ts        |  4 +--
 packages/core/src/internal/parser.ts  | 41 +++++++++++++++++++++++++++
 packages/core/src/modifiers.ts        |  6 ++++
 5 files changed, 61 insertions(+), 5 deletions(-)

diff --git a/packages/core/src/annotation-state.ts b/packages/core/src/annotation-state.ts
index 6993ad8..f8ceb14 100644
--- a/packages/core/src/annotation-state.ts
+++ b/packages/core/src/annotation-state.ts
@@ -8,7 +8,7 @@ import {
   unwrapInjectedAnnotationWrapper,
 } from "./internal/annotations.ts";
 import {
-  inheritParentAnnotationsKey,
+  inheritsParentAnnotations,
   type Mode,
   type Parser,
 } from "./internal/parser.ts";
@@ -629,7 +629,7 @@ export function getWrappedChildParseState<TState>(
 ): TState {
   const annotations = getAnnotations(parentState);
   const shouldInheritAnnotations =
-    Reflect.get(parser, inheritParentAnnotationsKey) === true;
+    inheritsParentAnnotations(parser);
   if (childState == null) {
     if (annotations !== undefined && shouldInheritAnnotations) {
       return injectAnnotations(childState, annotations);
@@ -670,7 +670,7 @@ export function getWrappedChildState<TState>(
 ): TState {
   const annotations = getAnnotations(parentState);
   const shouldInheritAnnotations =
-    Reflect.get(parser, inheritParentAnnotationsKey) === true;
+    inheritsParentAnnotations(parser);
   if (childState == null) {
     if (annotations !== undefined && shouldInheritAnnotations) {
       return injectAnnotations(childState, annotations);
diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index a0d58df..411231c 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -77,6 +77,7 @@ import type {
 } from "./parser.ts";
 import {
   defineInheritedAnnotationParser,
+  forwardParentAnnotationInheritance,
   getParserSuggestRuntimeNodes,
   unmatchedNonCliDependencySourceStateMarker,
 } from "./internal/parser.ts";
@@ -12937,6 +12938,11 @@ export function group<M extends Mode, TValue, TState>(
         )[fieldParsersKey],
       }
       : {}),
+    // Forward source-backed completion from inner parser so that
+    // optional(group("label", bindEnv(...))) consults the source.
+    ...(parser[unmatchedNonCliDependencySourceStateMarker] === true
+      ? { [unmatchedNonCliDependencySourceStateMarker]: true as const }
+      : {}),
     // Forward completion deferral hook from inner parser so that
     // prompt(group("label", bindConfig(...))) defers correctly.
     ...(typeof parser.shouldDeferCompletion === "function"
@@ -13054,6 +13060,9 @@ export function group<M extends Mode, TValue, TState>(
       };
     },
   };
+  // A group shares the inner parser's state, so it has to receive parent
+  // annotations exactly when the inner parser does.
+  forwardParentAnnotationInheritance(parser, groupParser);
   Object.defineProperty(groupParser, extractPhase2SeedKey, {
     value(state: TState, exec?: ExecutionContext) {
       return extractPhase2Seed(parser, state, exec);
diff --git a/packages/core/src/extension.ts b/packages/core/src/extension.ts
index e43fcbd..3fd1d61 100644
--- a/packages/core/src/extension.ts
+++ b/packages/core/src/extension.ts
@@ -15,7 +15,7 @@ import {
   composeWrappedSourceMetadata,
   defineInheritedAnnotationParser,
   getDelegatingSuggestRuntimeNodes,
-  inheritParentAnnotationsKey,
+  inheritsParentAnnotations,
   unmatchedNonCliDependencySourceStateMarker,
 } from "./internal/parser.ts";
 
@@ -134,7 +134,7 @@ export function defineTraits(parser: object, traits: ParserTraits): void {
  */
 export function getTraits(parser: object): ParserTraits {
   const traits: ParserTraits = {
-    ...(Reflect.get(parser, inheritParentAnnotationsKey) === true
+    ...(inheritsParentAnnotations(parser)
       ? { inheritsAnnotations: true as const }
       : {}),
     ...(Reflect.get(parser, unmatchedNonCliDependencySourceStateMarker) === true
diff --git a/packages/core/src/internal/parser.ts b/packages/core/src/internal/parser.ts
index e2aac28..758f49b 100644
--- a/packages/core/src/internal/parser.ts
+++ b/packages/core/src/internal/parser.ts
@@ -1295,6 +1295,47 @@ export function defineInheritedAnnotationParser(
   });
 }
 
+/**
+ * Internal marker for wrappers that share their inner parser's state and thus
+ * receive parent annotations on its behalf.
+ */
+const forwardParentAnnotationsKey: unique symbol = Symbol(
+  "@optique/core/forwardParentAnnotations",
+);
+
+/**
+ * Makes a wrapper that shares its inner parser's state receive parent
+ * annotations exactly when the inner parser does.
+ *
+ * @param parser The wrapped parser.
+ * @param wrapper The wrapper to mark.
+ * @internal
+ */
+export function forwardParentAnnotationInheritance(
+  parser: object,
+  wrapper: object,
+): void {
+  if (!inheritsParentAnnotations(parser)) return;
+  Object.defineProperty(wrapper, forwardParentAnnotationsKey, {
+    value: true,
+    configurable: true,
+    enumerable: false,
+  });
+}
+
+/**
+ * Checks whether a parser receives its parent's annotations.
+ *
+ * @param parser The parser to inspect.
+ * @returns `true` when parent annotations have to be injected into the
+ *          parser's state.
+ * @internal
+ */
+export function inheritsParentAnnotations(parser: object): boolean {
+  return Reflect.get(parser, inheritParentAnnotationsKey) === true ||
+    Reflect.get(parser, forwardParentAnnotationsKey) === true;
+}
+
 /**
  * Marks a wrapper parser as requiring a real source-binding state before
  * annotation-only primitive wrappers should trigger completion.
diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index 88f5d14..97c1f68 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -36,6 +36,7 @@ import type { Phase2Seed } from "./phase2-seed.ts";
 import {
   defineInheritedAnnotationParser,
   defineSourceBindingOnlyAnnotationCompletionParser,
+  forwardParentAnnotationInheritance,
   unmatchedNonCliDependencySourceStateMarker,
 } from "./internal/parser.ts";
 import type {
@@ -1680,6 +1681,11 @@ export function map<M extends Mode, T, U, TState>(
   // retaining it would attempt to format mapped outputs through the
   // inner ValueParser and produce wrong results or crashes.
   delete (mappedParser as { validateValue?: unknown }).validateValue;
+  // Unlike the traits copied by the ...parser spread, annotation inheritance
+  // is non-enumerable.  The mapped parser shares the inner parser's state, so
+  // it has to receive parent annotations exactly when the inner parser does;
+  // otherwise source bindings such as bindEnv() would miss their values.
+  forwardParentAnnotationInheritance(parser, mappedParser);
   // Lazily compute the mapped placeholder.  Non-enumerable so that
   // further ...parser spreads in downstream wrappers do not eagerly
   // evaluate the getter and trigger inner factory side effects.
-- 
2.43.0


From 04bb1fefb7cbe3ef3f13b605abd00cc1be8eb3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:03 +0000
Subject: [PATCH 12/50] fix: let unparsed elements of nested tuple() and
 concat() read their bound sources

---
 packages/core/src/constructs.ts | 61 ++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 411231c..570d3b1 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -553,6 +553,25 @@ function prepareStateForCompletion(
   return fieldState;
 }
 
+/**
+ * Prepares the state of a `tuple()`/`concat()` element for completion.
+ *
+ * An element that has not been parsed still has its initial state, so the
+ * annotations of the enclosing state have to be propagated into it here for
+ * source bindings to complete from their sources.
+ */
+function prepareArrayElementState(
+  stateArray: readonly unknown[],
+  elementState: unknown,
+  parser: Parser<Mode, unknown, unknown>,
+): unknown {
+  return getAnnotatedChildState(
+    stateArray,
+    prepareStateForCompletion(elementState, parser),
+    parser,
+  );
+}
+
 /**
  * Returns the field state with parent annotations inherited, respecting
  * the parser's annotation-inheritance contract. This is the same logic as
@@ -8795,7 +8814,8 @@ export function tuple<
             if (preCompletedResult !== undefined) {
               valueResult = unwrapCompleteResult(preCompletedResult);
             } else {
-              const elementState = prepareStateForCompletion(
+              const elementState = prepareArrayElementState(
+                stateArray,
                 resolvedArray[i],
                 elementParser,
               );
@@ -8891,7 +8911,8 @@ export function tuple<
             if (preCompletedResult !== undefined) {
               valueResult = unwrapCompleteResult(preCompletedResult);
             } else {
-              const elementState = prepareStateForCompletion(
+              const elementState = prepareArrayElementState(
+                stateArray,
                 resolvedArray[i],
                 elementParser,
               );
@@ -8984,13 +9005,21 @@ export function tuple<
             const seed = preCompletedResult !== undefined
               ? reusePreCompletedPhase2Seed(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                prepareArrayElementState(
+                  stateArray,
+                  resolvedArray[i],
+                  elementParser,
+                ),
                 preCompletedResult,
                 childExec,
               )
               : completeOrExtractPhase2Seed(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                prepareArrayElementState(
+                  stateArray,
+                  resolvedArray[i],
+                  elementParser,
+                ),
                 childExec,
               );
             if (seed == null) continue;
@@ -9067,13 +9096,21 @@ export function tuple<
             const seed = preCompletedResult !== undefined
               ? await reusePreCompletedPhase2SeedAsync(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                prepareArrayElementState(
+                  stateArray,
+                  resolvedArray[i],
+                  elementParser,
+                ),
                 preCompletedResult,
                 childExec,
               )
               : await completeOrExtractPhase2Seed(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                prepareArrayElementState(
+                  stateArray,
+                  resolvedArray[i],
+                  elementParser,
+                ),
                 childExec,
               );
             if (seed == null) continue;
@@ -12407,7 +12444,7 @@ export function concat(
         ? unwrapCompleteResult(preCompletedResult)
         : unwrapCompleteResult(
           parser.complete(
-            prepareStateForCompletion(resolvedArray[i], parser),
+            prepareArrayElementState(stateArray, resolvedArray[i], parser),
             withChildExecPath(phase3Exec, i),
           ),
         );
@@ -12517,7 +12554,7 @@ export function concat(
         ? unwrapCompleteResult(preCompletedResult)
         : unwrapCompleteResult(
           await parser.complete(
-            prepareStateForCompletion(resolvedArray[i], parser),
+            prepareArrayElementState(stateArray, resolvedArray[i], parser),
             withChildExecPath(phase3Exec, i),
           ),
         );
@@ -12650,13 +12687,13 @@ export function concat(
             const seed = preCompletedResult !== undefined
               ? reusePreCompletedPhase2Seed(
                 parser,
-                prepareStateForCompletion(resolvedArray[i], parser),
+                prepareArrayElementState(stateArray, resolvedArray[i], parser),
                 preCompletedResult,
                 childExec,
               )
               : completeOrExtractPhase2Seed(
                 parser,
-                prepareStateForCompletion(resolvedArray[i], parser),
+                prepareArrayElementState(stateArray, resolvedArray[i], parser),
                 childExec,
               );
             if (seed == null) continue;
@@ -12722,13 +12759,13 @@ export function concat(
             const seed = preCompletedResult !== undefined
               ? await reusePreCompletedPhase2SeedAsync(
                 parser,
-                prepareStateForCompletion(resolvedArray[i], parser),
+                prepareArrayElementState(stateArray, resolvedArray[i], parser),
                 preCompletedResult,
                 childExec,
               )
               : await completeOrExtractPhase2Seed(
                 parser,
-                prepareStateForCompletion(resolvedArray[i], parser),
+                prepareArrayElementState(stateArray, resolvedArray[i], parser),
                 childExec,
               );
             if (seed == null) continue;
-- 
2.43.0


From abf42ad3cdf7571c8dd275bc047c6c3ac7738c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:03 +0000
Subject: [PATCH 13/50] fix: let optional() and withDefault() tell invalid
 source values from missing ones

---
 packages/core/src/modifiers.ts | 128 ++++++++++++++++++++++++++-------
 1 file changed, 101 insertions(+), 27 deletions(-)

diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index 97c1f68..821cc07 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -164,14 +164,44 @@ function shouldRetryOptionalLikeCompatibilityError(
     isInjectedAnnotationWrapper(state);
 }
 
+/**
+ * Checks whether a source binding (e.g., `bindEnv()`) has a value to complete
+ * from, so that its failure means an invalid value rather than a missing one.
+ */
+function hasSourceBoundValue<TState>(
+  parser: Parser<Mode, unknown, TState>,
+  state: TState,
+  exec?: ExecutionContext,
+): boolean {
+  return parser[unmatchedNonCliDependencySourceStateMarker] === true &&
+    parser.canSkip?.(state, exec) === true;
+}
+
+/**
+ * Checks whether a source binding matched nothing on the command line and has
+ * no source value either, so that its wrapper's fallback applies.
+ */
+function isSourceBoundValueMissing<TState>(
+  parser: Parser<Mode, unknown, TState>,
+  state: TState,
+  exec?: ExecutionContext,
+): boolean {
+  return parser[unmatchedNonCliDependencySourceStateMarker] === true &&
+    isBoundCliWrapperState(state) && !state.hasCliValue &&
+    parser.canSkip?.(state, exec) !== true;
+}
+
 function completeOptionalLikeSync<TValue, TState>(
   parser: Parser<"sync", TValue, TState>,
   state: TState,
   exec?: ExecutionContext,
 ): ValueParserResult<TValue> {
   const hasCarrier = hasDelegatedAnnotationCarrier(state);
+  // A source binding that fails has read its source through the annotations;
+  // retrying without them would hide an invalid source value.
   const shouldRetryFalseResult = hasCarrier &&
-    isAnnotationWrappedInitialState(state);
+    isAnnotationWrappedInitialState(state) &&
+    parser[unmatchedNonCliDependencySourceStateMarker] !== true;
   const run = (candidate: TState, shouldNormalize: boolean) =>
     normalizeOptionalLikeCompleteResult(
       parser.complete(candidate, exec),
@@ -197,8 +227,11 @@ async function completeOptionalLikeAsync<TValue, TState>(
   exec?: ExecutionContext,
 ): Promise<ValueParserResult<TValue>> {
   const hasCarrier = hasDelegatedAnnotationCarrier(state);
+  // A source binding that fails has read its source through the annotations;
+  // retrying without them would hide an invalid source value.
   const shouldRetryFalseResult = hasCarrier &&
-    isAnnotationWrappedInitialState(state);
+    isAnnotationWrappedInitialState(state) &&
+    parser[unmatchedNonCliDependencySourceStateMarker] !== true;
   const run = async (candidate: TState, shouldNormalize: boolean) =>
     normalizeOptionalLikeCompleteResult(
       await parser.complete(candidate, exec),
@@ -781,9 +814,9 @@ export function optional<M extends Mode, TValue, TState>(
     complete(state: [TState] | undefined, exec?: ExecutionContext) {
       if (!Array.isArray(state)) {
         // Helper: delegate to inner.complete() with the optional's
-        // inner state shape, wrapping any inner failure as
-        // `{ success: true, value: undefined }` so optional always
-        // reports success upstream.
+        // inner state shape, wrapping an inner failure as
+        // `{ success: true, value: undefined }` unless a source binding
+        // did supply a value, which is then invalid.
         const delegateToInner = (
           resolvedInnerState: TState,
         ): ModeValue<M, ValueParserResult<TValue | undefined>> => {
@@ -802,7 +835,8 @@ export function optional<M extends Mode, TValue, TState>(
             parser.mode,
             innerResult,
             (result) =>
-              result.success
+              result.success ||
+                hasSourceBoundValue(parser, resolvedInnerState, exec)
                 ? result
                 : { success: true, value: undefined } as ValueParserResult<
                   TValue | undefined
@@ -855,8 +889,8 @@ export function optional<M extends Mode, TValue, TState>(
         // runWithAsync) also inject annotations onto the outer state,
         // so by the time optional.complete() sees a non-array state
         // with source-resolvable data, that state is an annotation
-        // wrapper (a non-null object).  If the inner parser fails or
-        // returns undefined, we fall back to optional's undefined
+        // wrapper (a non-null object).  If the inner parser has no value
+        // or returns undefined, we fall back to optional's undefined
         // result as before.
         if (
           parser[unmatchedNonCliDependencySourceStateMarker] === true &&
@@ -877,16 +911,26 @@ export function optional<M extends Mode, TValue, TState>(
         parser.initialState,
         parser,
       );
-      return dispatchByMode(
+      return mapModeValue(
         parser.mode,
-        () =>
-          completeOptionalLikeSync(syncParser, innerElement as TState, exec),
-        async () =>
-          await completeOptionalLikeAsync(
-            parser,
-            innerElement as TState,
-            exec,
-          ) as ValueParserResult<TValue | undefined>,
+        dispatchByMode(
+          parser.mode,
+          () =>
+            completeOptionalLikeSync(syncParser, innerElement as TState, exec),
+          async () =>
+            await completeOptionalLikeAsync(
+              parser,
+              innerElement as TState,
+              exec,
+            ) as ValueParserResult<TValue | undefined>,
+        ),
+        (result) =>
+          !result.success &&
+            isSourceBoundValueMissing(parser, innerElement as TState, exec)
+            ? { success: true, value: undefined } as ValueParserResult<
+              TValue | undefined
+            >
+            : result,
       );
     },
     suggest(
@@ -1293,7 +1337,11 @@ export function withDefault<
           const handleInnerResult = (
             result: ValueParserResult<TValue>,
           ): ValueParserResult<TValue | TDefault> => {
-            if (result.success && result.value !== undefined) {
+            if (
+              result.success
+                ? result.value !== undefined
+                : hasSourceBoundValue(parser, innerState, exec)
+            ) {
               return result;
             }
             // Inner source binding returned nothing → fall back to the
@@ -1339,16 +1387,42 @@ export function withDefault<
         parser.initialState,
         parser,
       );
-      return dispatchByMode(
+      return mapModeValue<
+        M,
+        ValueParserResult<TValue>,
+        ValueParserResult<TValue | TDefault>
+      >(
         parser.mode,
-        () =>
-          completeOptionalLikeSync(syncParser, innerElement as TState, exec),
-        async () =>
-          await completeOptionalLikeAsync(
-            parser,
-            innerElement as TState,
-            exec,
-          ) as ValueParserResult<TValue | TDefault>,
+        dispatchByMode(
+          parser.mode,
+          () =>
+            completeOptionalLikeSync(syncParser, innerElement as TState, exec),
+          async () =>
+            await completeOptionalLikeAsync(
+              parser,
+              innerElement as TState,
+              exec,
+            ) as ValueParserResult<TValue>,
+        ),
+        (result) => {
+          if (
+            result.success ||
+            typeof parser.shouldDeferCompletion === "function" ||
+            !isSourceBoundValueMissing(parser, innerElement as TState, exec)
+          ) {
+            return result;
+          }
+          try {
+            return { success: true as const, value: evaluateDefault() };
+          } catch (error) {
+            return {
+              success: false as const,
+              error: error instanceof WithDefaultError
+                ? error.errorMessage
+                : message`${text(String(error))}`,
+            };
+          }
+        },
       );
     },
     suggest(
-- 
2.43.0


From ae8a201ea4d341b6bca1244fbac9e765becfa36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:03 +0000
Subject: [PATCH 14/50] fix: complete bindConfig() and bindDerivedDefault()
 around parsers with non-scalar states

---
 packages/config/src/index.ts           | 8 ++++++--
 packages/derived-defaults/src/index.ts | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/packages/config/src/index.ts b/packages/config/src/index.ts
index 39741ff..364c18e 100644
--- a/packages/config/src/index.ts
+++ b/packages/config/src/index.ts
@@ -30,6 +30,7 @@ import {
   delegateSuggestNodes,
   inheritAnnotations,
   injectAnnotations,
+  isInjectedAnnotationState,
   mapModeValue,
   mapSourceMetadata,
   type ParserSourceMetadata,
@@ -712,8 +713,11 @@ export function bindConfig<
   // wrappers from invoking it without the annotation context it requires.
 
   function getInnerState(state: TState): TState {
-    if (!isConfigBindState(state)) return state;
-    if (state.cliState !== undefined) return state.cliState as TState;
+    if (isConfigBindState(state)) {
+      if (state.cliState !== undefined) return state.cliState as TState;
+    } else if (state != null && !isInjectedAnnotationState(state)) {
+      return state;
+    }
     const initialState = parser.initialState;
     if (initialState != null && typeof initialState !== "object") {
       return initialState;
diff --git a/packages/derived-defaults/src/index.ts b/packages/derived-defaults/src/index.ts
index 1dae2c0..e6001bd 100644
--- a/packages/derived-defaults/src/index.ts
+++ b/packages/derived-defaults/src/index.ts
@@ -14,6 +14,7 @@ import {
   extractPhase2SeedKey,
   inheritAnnotations,
   injectAnnotations,
+  isInjectedAnnotationState,
   mapModeValue,
   mapSourceMetadata,
   type ParserSourceMetadata,
@@ -325,8 +326,11 @@ export function bindDerivedDefault<
   }
 
   function getInnerState(state: TState): TState {
-    if (!isBindState(state)) return state;
-    if (state.cliState !== undefined) return state.cliState as TState;
+    if (isBindState(state)) {
+      if (state.cliState !== undefined) return state.cliState as TState;
+    } else if (state != null && !isInjectedAnnotationState(state)) {
+      return state;
+    }
     const initialState = parser.initialState;
     if (initialState != null && typeof initialState !== "object") {
       return initialState;
-- 
2.43.0


From f7db8460708fab5d4f285ab69f0f7ba461de56e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:20 +0000
Subject: [PATCH 15/50] fix: let optional() and withDefault() be skipped when
 their source binding has no value

---
 packages/core/src/modifiers.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index 821cc07..f3b305c 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -769,7 +769,8 @@ export function optional<M extends Mode, TValue, TState>(
         parser.initialState,
         parser,
       );
-      return parser.canSkip?.(innerState, exec) === true;
+      return parser.canSkip?.(innerState, exec) === true ||
+        isSourceBoundValueMissing(parser, innerState, exec);
     },
     // Forward completion deferral hook from inner parser, adapting the
     // outer state shape ([TState] | undefined) to the inner TState.
@@ -1207,7 +1208,9 @@ export function withDefault<
         parser.initialState,
         parser,
       );
-      return parser.canSkip?.(innerState, exec) === true;
+      return parser.canSkip?.(innerState, exec) === true ||
+        typeof parser.shouldDeferCompletion !== "function" &&
+          isSourceBoundValueMissing(parser, innerState, exec);
     },
     // Forward completion deferral hook from inner parser, adapting the
     // outer state shape ([TState] | undefined) to the inner TState.
-- 
2.43.0


From 6d4286c628ebe82d10025cc230b1b4d7e1af793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:20 +0000
Subject: [PATCH 16/50] fix: keep values that source bindings took from the
 command line when visited again

---
 packages/config/src/index.ts           | 14 +++++++++++---
 packages/derived-defaults/src/index.ts | 16 ++++++++++++----
 packages/env/src/index.ts              | 25 ++++++++++++++++++-------
 3 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/packages/config/src/index.ts b/packages/config/src/index.ts
index 364c18e..34b37f8 100644
--- a/packages/config/src/index.ts
+++ b/packages/config/src/index.ts
@@ -784,7 +784,7 @@ export function bindConfig<
         return parser.canSkip?.(getInnerState(state), exec) === true;
       }
       if (hasConfigFallback(state)) return true;
-      return parser.canSkip?.(state, exec) === true;
+      return parser.canSkip?.(getInnerState(state), exec) === true;
     },
     getSuggestRuntimeNodes(state: TState, path: readonly PropertyKey[]) {
       const innerState = getInnerState(state);
@@ -806,10 +806,12 @@ export function bindConfig<
       // back on the next iteration.  The inner parser expects its own
       // native state, so we unwrap cliState before delegating, mirroring
       // the pattern used by bindEnv.
+      const hadCliValue = isConfigBindState(context.state) &&
+        context.state.hasCliValue;
       const innerState = isConfigBindState(context.state)
         ? (context.state.hasCliValue
           ? (context.state.cliState as TState)
-          : parser.initialState)
+          : inheritAnnotations(context.state, parser.initialState))
         : context.state;
       const innerContext = innerState !== context.state
         ? { ...context, state: innerState }
@@ -827,7 +829,7 @@ export function bindConfig<
           const cliConsumed = result.consumed.length > 0;
           const newState = injectAnnotations({
             [configBindStateKey]: true as const,
-            hasCliValue: cliConsumed,
+            hasCliValue: hadCliValue || cliConsumed,
             cliState: result.next.state,
           }, annotations);
           return {
@@ -846,6 +848,12 @@ export function bindConfig<
           return result;
         }
 
+        // A later pass that matches nothing keeps the value that an earlier
+        // pass took from the command line.
+        if (hadCliValue) {
+          return { success: true, next: context, consumed: [] };
+        }
+
         const newState = injectAnnotations({
           [configBindStateKey]: true as const,
           hasCliValue: false,
diff --git a/packages/derived-defaults/src/index.ts b/packages/derived-defaults/src/index.ts
index e6001bd..6898702 100644
--- a/packages/derived-defaults/src/index.ts
+++ b/packages/derived-defaults/src/index.ts
@@ -489,7 +489,7 @@ export function bindDerivedDefault<
         return parser.canSkip?.(getInnerState(state), exec) === true;
       }
       if (hasDerivedFallback(state)) return true;
-      return parser.canSkip?.(state, exec) === true;
+      return parser.canSkip?.(getInnerState(state), exec) === true;
     },
     getSuggestRuntimeNodes(state, path) {
       const innerState = getInnerState(state);
@@ -503,10 +503,12 @@ export function bindDerivedDefault<
     },
     parse(context) {
       const annotations = getAnnotations(context.state);
+      const hadCliValue = isBindState(context.state) &&
+        context.state.hasCliValue;
       const innerState = isBindState(context.state)
         ? (context.state.hasCliValue
-          ? context.state.cliState as TState
-          : parser.initialState)
+          ? (context.state.cliState as TState)
+          : inheritAnnotations(context.state, parser.initialState))
         : context.state;
       const innerContext = innerState !== context.state
         ? { ...context, state: innerState }
@@ -518,7 +520,7 @@ export function bindDerivedDefault<
           const cliConsumed = result.consumed.length > 0;
           const nextState = injectAnnotations({
             [bindStateKey]: true as const,
-            hasCliValue: cliConsumed,
+            hasCliValue: hadCliValue || cliConsumed,
             cliState: result.next.state,
           }, annotations);
           return {
@@ -529,6 +531,12 @@ export function bindDerivedDefault<
           };
         }
         if (result.consumed > 0) return result;
+
+        // A later pass that matches nothing keeps the value that an earlier
+        // pass took from the command line.
+        if (hadCliValue) {
+          return { success: true, next: context, consumed: [] };
+        }
         const nextState = injectAnnotations({
           [bindStateKey]: true as const,
           hasCliValue: false,
diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index ac2280b..bd7d6eb 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -10,6 +10,7 @@ import {
   inheritAnnotations,
   injectAnnotations,
   isInjectedAnnotationState,
+  isInjectedAnnotationState,
   mapModeValue,
   mapSourceMetadata,
   type ParserSourceMetadata,
@@ -745,10 +746,12 @@ export function bindEnv<
   }
 
   function getInnerState(state: TState): TState {
-    if (!isEnvBindState(state)) return state;
-    return state.cliState === undefined
-      ? inheritAnnotations(state, parser.initialState)
-      : state.cliState as TState;
+    if (isEnvBindState(state)) {
+      if (state.cliState !== undefined) return state.cliState as TState;
+    } else if (state != null && !isInjectedAnnotationState(state)) {
+      return state;
+    }
+    return inheritAnnotations(state, parser.initialState);
   }
 
   const boundParser: Parser<M, TValue, TState> = {
@@ -771,7 +774,7 @@ export function bindEnv<
         return parser.canSkip?.(getInnerState(state), exec) === true;
       }
       if (hasEnvFallback(state)) return true;
-      return parser.canSkip?.(state, exec) === true;
+      return parser.canSkip?.(getInnerState(state), exec) === true;
     },
     getSuggestRuntimeNodes(state: TState, path: readonly PropertyKey[]) {
       const innerState = getInnerState(state);
@@ -792,10 +795,12 @@ export function bindEnv<
       // state and passes it back on the next iteration.  The inner
       // parser expects its own native state, so we unwrap cliState
       // before delegating.
+      const hadCliValue = isEnvBindState(context.state) &&
+        context.state.hasCliValue;
       const innerState = isEnvBindState(context.state)
         ? (context.state.hasCliValue
           ? (context.state.cliState as TState)
-          : parser.initialState)
+          : inheritAnnotations(context.state, parser.initialState))
         : context.state;
       const innerContext = innerState !== context.state
         ? { ...context, state: innerState }
@@ -813,7 +818,7 @@ export function bindEnv<
           const cliConsumed = result.consumed.length > 0;
           const nextState = injectAnnotations({
             [envBindStateKey]: true as const,
-            hasCliValue: cliConsumed,
+            hasCliValue: hadCliValue || cliConsumed,
             cliState: result.next.state,
           }, annotations);
           return {
@@ -832,6 +837,12 @@ export function bindEnv<
           return result;
         }
 
+        // A later pass that matches nothing keeps the value that an earlier
+        // pass took from the command line.
+        if (hadCliValue) {
+          return { success: true, next: context, consumed: [] };
+        }
+
         const nextState = injectAnnotations({
           [envBindStateKey]: true as const,
           hasCliValue: false,
-- 
2.43.0


From a4fa6a3ed3764ee567df5089970a13b249b54b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:16 +0000
Subject: [PATCH 17/50] fix: let bindEnv() pass annotations on to wrapped
 parsers with list states

---
 packages/env/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index bd7d6eb..1f884dd 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -1138,7 +1138,8 @@ function getEnvOrDefault<M extends Mode, TValue>(
   if (innerParser != null) {
     const completeState = innerState ??
       (annotations != null &&
-          innerParser.initialState == null &&
+          (innerParser.initialState == null ||
+            typeof innerParser.initialState === "object") &&
           getTraits(innerParser).inheritsAnnotations === true
         ? injectAnnotations(innerParser.initialState, annotations)
         : innerParser.initialState);
-- 
2.43.0


From 9a3fe889df5a56c83256b9389f413f4f3acd01b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:16 +0000
Subject: [PATCH 18/50] fix: keep the dependency metadata of a parser inside
 group()

---
 packages/core/src/constructs.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 570d3b1..2047de8 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -12980,6 +12980,11 @@ export function group<M extends Mode, TValue, TState>(
     ...(parser[unmatchedNonCliDependencySourceStateMarker] === true
       ? { [unmatchedNonCliDependencySourceStateMarker]: true as const }
       : {}),
+    // Forward dependency metadata from inner parser so that a grouped
+    // dependency source or derived parser still takes part in resolution.
+    ...(parser.dependencyMetadata != null
+      ? { dependencyMetadata: parser.dependencyMetadata }
+      : {}),
     // Forward completion deferral hook from inner parser so that
     // prompt(group("label", bindConfig(...))) defers correctly.
     ...(typeof parser.shouldDeferCompletion === "function"
-- 
2.43.0


From 029481f69a45af128b192abc969247751f5c6f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:16 +0000
Subject: [PATCH 19/50] fix: see the fallback of withDefault() around a bound
 source in a tuple()

---
 packages/core/src/constructs.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 2047de8..5b57808 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -167,7 +167,8 @@ function isUnmatchedDependencyState(
   if (
     Array.isArray(state) &&
     state.length === 1 &&
-    isPendingDependencySourceState(state[0])
+    (isPendingDependencySourceState(state[0]) ||
+      isNonCliBoundSourceState(state[0], parser))
   ) {
     return true;
   }
-- 
2.43.0


From 736bc86c70492c03ab6e49d7cf82a757bb41b704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:16 +0000
Subject: [PATCH 20/50] fix: resolve dependencies on defaulted sources in a
 tuple() when annotations are present

---
 packages/core/src/constructs.ts         | 3 ++-
 packages/core/src/dependency-runtime.ts | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 5b57808..e06953c 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -2,6 +2,7 @@ import {
   annotationViewTargets,
   getWrappedChildParseState as getParseChildState,
   getWrappedChildState as getAnnotatedChildState,
+  isAnnotationWrappedInitialState,
   reconcileObjectChildState,
   unwrapAnnotationView,
 } from "./annotation-state.ts";
@@ -163,7 +164,7 @@ function isUnmatchedDependencyState(
     readonly [unmatchedNonCliDependencySourceStateMarker]?: true;
   },
 ): boolean {
-  if (state === undefined) return true;
+  if (isAnnotationWrappedInitialState(state)) return true;
   if (
     Array.isArray(state) &&
     state.length === 1 &&
diff --git a/packages/core/src/dependency-runtime.ts b/packages/core/src/dependency-runtime.ts
index 59936c0..dd05b52 100644
--- a/packages/core/src/dependency-runtime.ts
+++ b/packages/core/src/dependency-runtime.ts
@@ -10,6 +10,7 @@
  * @since 1.0.0
  * @module
  */
+import { isAnnotationWrappedInitialState } from "./annotation-state.ts";
 import {
   type DeferredParseState,
   dependencyId as dependencyIdSymbol,
@@ -1263,7 +1264,7 @@ function isMatchedState(
     readonly [unmatchedNonCliDependencySourceStateMarker]?: true;
   },
 ): boolean {
-  if (fieldState === undefined) return false;
+  if (isAnnotationWrappedInitialState(fieldState)) return false;
   const innerState = Array.isArray(fieldState) && fieldState.length === 1
     ? fieldState[0]
     : fieldState;
-- 
2.43.0


From faaa0834fbe5e8ad0f6a1dff0795240b8bed369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:16 +0000
Subject: [PATCH 21/50] fix: let dependents see source values given inside
 later nested constructs

---
 packages/core/src/constructs.ts         | 17 +++++++++++
 packages/core/src/dependency-runtime.ts | 40 ++++++++++++++++++++++++-
 2 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index e06953c..84caa8f 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -8760,6 +8760,13 @@ export function tuple<
         () => parseAsync(context),
       );
     },
+    getSuggestRuntimeNodes(state: TupleState, path: readonly PropertyKey[]) {
+      return buildSuggestRuntimeNodesFromArray(
+        parsers,
+        Array.isArray(state) ? state : tupleParser.initialState,
+        path,
+      );
+    },
     complete(state: TupleState, exec?: ExecutionContext) {
       return dispatchByMode(
         combinedMode,
@@ -12636,6 +12643,16 @@ export function concat(
       }
       return parseSync(context);
     },
+    getSuggestRuntimeNodes(
+      state: readonly unknown[],
+      path: readonly PropertyKey[],
+    ) {
+      return buildSuggestRuntimeNodesFromArray(
+        parsers,
+        Array.isArray(state) ? state : initialState,
+        path,
+      );
+    },
     complete(state, exec?) {
       if (isAsync) {
         return completeAsync(state, exec);
diff --git a/packages/core/src/dependency-runtime.ts b/packages/core/src/dependency-runtime.ts
index dd05b52..cd2cdef 100644
--- a/packages/core/src/dependency-runtime.ts
+++ b/packages/core/src/dependency-runtime.ts
@@ -156,9 +156,10 @@ export interface RuntimeNode {
   /** Path from root to this parser node. */
   readonly path: readonly PropertyKey[];
 
-  /** The parser (only the metadata field is inspected). */
+  /** The parser (only the metadata and initial state are inspected). */
   readonly parser: {
     readonly dependencyMetadata?: ParserDependencyMetadata;
+    readonly initialState?: unknown;
   };
 
   /** The parser's current state. */
@@ -1284,6 +1285,37 @@ function isMatchedState(
   return true;
 }
 
+type NestedRuntimeNodes = (
+  // deno-lint-ignore no-explicit-any
+  state: any,
+  path: readonly PropertyKey[],
+) => readonly RuntimeNode[];
+
+/**
+ * Builds {@link RuntimeNode}s for the dependency sources nested in a child
+ * construct, so that their explicit values are known before any sibling is
+ * completed.  Unmatched sources are left out: their values are evaluated only
+ * once, when the child construct itself completes.
+ */
+function buildNestedRuntimeNodes(
+  parser: {
+    readonly dependencyMetadata?: ParserDependencyMetadata;
+    readonly getSuggestRuntimeNodes?: NestedRuntimeNodes;
+  },
+  state: unknown,
+  path: readonly PropertyKey[],
+): readonly RuntimeNode[] {
+  if (
+    state == null || parser.dependencyMetadata?.source != null ||
+    typeof parser.getSuggestRuntimeNodes !== "function"
+  ) {
+    return [];
+  }
+  return parser.getSuggestRuntimeNodes(state, path).filter((node) =>
+    isMatchedState(node.state, node.parser)
+  );
+}
+
 /**
  * Builds {@link RuntimeNode}s from field→parser pairs and a state record.
  *
@@ -1303,6 +1335,7 @@ export function buildRuntimeNodesFromPairs(
       {
         readonly dependencyMetadata?: ParserDependencyMetadata;
         readonly initialState?: unknown;
+        readonly getSuggestRuntimeNodes?: NestedRuntimeNodes;
       },
     ]
   >,
@@ -1321,6 +1354,9 @@ export function buildRuntimeNodesFromPairs(
       state: fieldState,
       matched: isMatchedState(fieldState, parser),
     });
+    nodes.push(
+      ...buildNestedRuntimeNodes(parser, fieldState, [...prefix, field]),
+    );
   }
   return nodes;
 }
@@ -1342,6 +1378,7 @@ export function buildRuntimeNodesFromArray(
     {
       readonly dependencyMetadata?: ParserDependencyMetadata;
       readonly initialState?: unknown;
+      readonly getSuggestRuntimeNodes?: NestedRuntimeNodes;
     }
   >,
   stateArray: readonly unknown[],
@@ -1358,6 +1395,7 @@ export function buildRuntimeNodesFromArray(
       state: elemState,
       matched: isMatchedState(elemState, parser),
     });
+    nodes.push(...buildNestedRuntimeNodes(parser, elemState, [...prefix, i]));
   }
   return nodes;
 }
-- 
2.43.0


From 3c4517ebcaa89beb51ccdb0e71cf3413a1302b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:11 +0000
Subject: [PATCH 22/50] fix: do not assume a bare array when looking for
 sources inside multiple()

---
 packages/core/src/modifiers.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index f3b305c..6d3d8ae 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -2714,7 +2714,10 @@ export function multiple<M extends Mode, TValue, TState>(
       );
     },
     getSuggestRuntimeNodes(state: MultipleState, path: readonly PropertyKey[]) {
-      const innerNodes = state.flatMap((item, i) => [
+      const innerNodes = (Array.isArray(state) ? state : []).flatMap((
+        item,
+        i,
+      ) => [
         ...getInnerSuggestRuntimeNodes(item as TState, [...path, i]),
       ]);
       return resultParser.dependencyMetadata?.source != null
-- 
2.43.0


From 58c35452f2c100aa1dedabc6f22a9804e5eeb306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:11 +0000
Subject: [PATCH 23/50] fix: let prompt() see missing source values through
 optional() and withDefault()

---
 packages/core/src/internal/parser.ts |  9 +++++++++
 packages/core/src/modifiers.ts       | 20 +++++++++++++-------
 packages/prompt/src/index.ts         | 18 ++++++++++++++++--
 3 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/packages/core/src/internal/parser.ts b/packages/core/src/internal/parser.ts
index 758f49b..a504ce6 100644
--- a/packages/core/src/internal/parser.ts
+++ b/packages/core/src/internal/parser.ts
@@ -523,6 +523,15 @@ export interface ExecutionContext {
    */
   readonly preCompletedByParser?: ReadonlyMap<string | symbol, unknown>;
 
+  /**
+   * Set while a wrapper with a fallback of its own (e.g., `prompt()`)
+   * completes its inner parser: `optional()` and `withDefault()` then report a
+   * missing source value instead of replacing it by their own fallback.
+   *
+   * @internal
+   */
+  readonly reportMissingSource?: boolean;
+
   /**
    * Field names that should be ignored when a construct seeds dependency
    * sources from child state during completion.
diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index 6d3d8ae..bd1f008 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -186,7 +186,8 @@ function isSourceBoundValueMissing<TState>(
   state: TState,
   exec?: ExecutionContext,
 ): boolean {
-  return parser[unmatchedNonCliDependencySourceStateMarker] === true &&
+  return exec?.reportMissingSource !== true &&
+    parser[unmatchedNonCliDependencySourceStateMarker] === true &&
     isBoundCliWrapperState(state) && !state.hasCliValue &&
     parser.canSkip?.(state, exec) !== true;
 }
@@ -763,7 +764,9 @@ export function optional<M extends Mode, TValue, TState>(
     acceptingAnyToken: false,
     initialState: undefined,
     canSkip(state: [TState] | undefined, exec?: ExecutionContext) {
-      if (!Array.isArray(state)) return true;
+      if (!Array.isArray(state) && exec?.reportMissingSource !== true) {
+        return true;
+      }
       const innerState = normalizeOptionalLikeInnerState(
         state,
         parser.initialState,
@@ -1202,15 +1205,16 @@ export function withDefault<
     acceptingAnyToken: false,
     initialState: undefined,
     canSkip(state: [TState] | undefined, exec?: ExecutionContext) {
-      if (!Array.isArray(state)) return true;
+      if (!Array.isArray(state) && exec?.reportMissingSource !== true) {
+        return true;
+      }
       const innerState = normalizeOptionalLikeInnerState(
         state,
         parser.initialState,
         parser,
       );
       return parser.canSkip?.(innerState, exec) === true ||
-        typeof parser.shouldDeferCompletion !== "function" &&
-          isSourceBoundValueMissing(parser, innerState, exec);
+        isSourceBoundValueMissing(parser, innerState, exec);
     },
     // Forward completion deferral hook from inner parser, adapting the
     // outer state shape ([TState] | undefined) to the inner TState.
@@ -1279,6 +1283,8 @@ export function withDefault<
         // it can resolve from config during phase-two completion.
         if (
           typeof parser.shouldDeferCompletion === "function" &&
+          (exec?.reportMissingSource === true ||
+            parser[unmatchedNonCliDependencySourceStateMarker] !== true) &&
           state != null &&
           typeof state === "object"
         ) {
@@ -1343,7 +1349,8 @@ export function withDefault<
             if (
               result.success
                 ? result.value !== undefined
-                : hasSourceBoundValue(parser, innerState, exec)
+                : exec?.reportMissingSource === true ||
+                  hasSourceBoundValue(parser, innerState, exec)
             ) {
               return result;
             }
@@ -1410,7 +1417,6 @@ export function withDefault<
         (result) => {
           if (
             result.success ||
-            typeof parser.shouldDeferCompletion === "function" ||
             !isSourceBoundValueMissing(parser, innerElement as TState, exec)
           ) {
             return result;
diff --git a/packages/prompt/src/index.ts b/packages/prompt/src/index.ts
index 09882ca..94eb9d3 100644
--- a/packages/prompt/src/index.ts
+++ b/packages/prompt/src/index.ts
@@ -420,6 +420,16 @@ export function createPromptAdapter<TConfig>(
           return executePrompt();
         };
 
+        // The prompt is the only fallback: fallbacks inside must not hide that
+        // the source bindings have no value.
+        const sourceExec: ExecutionContext = {
+          usage: parser.usage,
+          phase: "complete",
+          path: [],
+          ...exec,
+          reportMissingSource: true,
+        };
+
         const hasDeferHook = typeof parser.shouldDeferCompletion === "function";
 
         const decideFromParse = (
@@ -444,7 +454,10 @@ export function createPromptAdapter<TConfig>(
           const completeState = parseResult.success
             ? parseResult.next.state
             : effectiveInitialState;
-          const innerR = parser.complete(completeState as TState, exec);
+          const innerR = parser.complete(
+            completeState as TState,
+            sourceExec,
+          );
           const handleCompleteResult = (
             res: ValueParserResult<TValue>,
           ): Promise<ValueParserResult<TValue>> => {
@@ -473,7 +486,8 @@ export function createPromptAdapter<TConfig>(
           const innerR = withAnnotatedInnerState(
             state,
             effectiveInitialState,
-            (annotatedInnerState) => parser.complete(annotatedInnerState, exec),
+            (annotatedInnerState) =>
+              parser.complete(annotatedInnerState, sourceExec),
             parserInheritsAnnotations,
           );
           const handleDeferHookResult = (
-- 
2.43.0


From 62cd03487d3c18f274a93dbca8216826adccbb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:11 +0000
Subject: [PATCH 24/50] fix: report invalid source values instead of prompting
 for them

---
 packages/prompt/src/index.ts | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/packages/prompt/src/index.ts b/packages/prompt/src/index.ts
index 94eb9d3..fb4a7a5 100644
--- a/packages/prompt/src/index.ts
+++ b/packages/prompt/src/index.ts
@@ -430,6 +430,11 @@ export function createPromptAdapter<TConfig>(
           reportMissingSource: true,
         };
 
+        // A completion that fails although the inner parser needs no further
+        // input means that a source supplied an invalid value.
+        const hasInvalidValue = (innerState: unknown): boolean =>
+          parser.canSkip?.(innerState as TState, sourceExec) === true;
+
         const hasDeferHook = typeof parser.shouldDeferCompletion === "function";
 
         const decideFromParse = (
@@ -469,7 +474,7 @@ export function createPromptAdapter<TConfig>(
             ) {
               return finalizePrompt();
             }
-            if (!unwrapped.success) {
+            if (!unwrapped.success && !hasInvalidValue(completeState)) {
               return finalizePrompt();
             }
             return Promise.resolve(unwrapped);
@@ -497,7 +502,14 @@ export function createPromptAdapter<TConfig>(
             if (unwrapped.success && unwrapped.value === undefined) {
               return finalizePrompt();
             }
-            if (!unwrapped.success) {
+            if (
+              !unwrapped.success && !withAnnotatedInnerState(
+                state,
+                effectiveInitialState,
+                hasInvalidValue,
+                parserInheritsAnnotations,
+              )
+            ) {
               return finalizePrompt();
             }
             return Promise.resolve(unwrapped);
-- 
2.43.0


From a2306b1e4702b5be4a237ca56adc3a4fd4a7aa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:58 +0000
Subject: [PATCH 25/50] fix: complete bindEnv() suggestions with the inner
 parser's state

---
 packages/env/src/index.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index 1f884dd..421dc5d 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -880,7 +880,13 @@ export function bindEnv<
       );
     },
 
-    suggest: parser.suggest,
+    suggest: (context, prefix) => {
+      const innerState = getInnerState(context.state);
+      const innerContext = innerState !== context.state
+        ? { ...context, state: innerState }
+        : context;
+      return parser.suggest(innerContext, prefix);
+    },
     ...(typeof deferPromptUntilConfigResolves === "function"
       ? {
         shouldDeferCompletion: (
-- 
2.43.0


From abc1118b92cb0ef609b87e425900719c31b8183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:58 +0000
Subject: [PATCH 26/50] fix: validate late source values around prompt() with
 the inner parser

---
 packages/prompt/src/index.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/prompt/src/index.ts b/packages/prompt/src/index.ts
index fb4a7a5..26c9709 100644
--- a/packages/prompt/src/index.ts
+++ b/packages/prompt/src/index.ts
@@ -594,6 +594,13 @@ export function createPromptAdapter<TConfig>(
         enumerable: false,
       });
     }
+    if (typeof parser.validateValue === "function") {
+      Object.defineProperty(promptedParser, "validateValue", {
+        value: async (value: TValue) => await parser.validateValue!(value),
+        configurable: true,
+        enumerable: false,
+      });
+    }
     const dependencyMetadata = mapSourceMetadata(
       parser,
       (source: ParserSourceMetadata<M, TValue, TState>) => ({
-- 
2.43.0


From 2365d2ef1eb577629e7d3a2829721e9e21034109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:58 +0000
Subject: [PATCH 27/50] fix: do not take the empty state of multiple() for a
 source value in prompt()

---
 packages/prompt/src/index.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/packages/prompt/src/index.ts b/packages/prompt/src/index.ts
index 26c9709..f69ab51 100644
--- a/packages/prompt/src/index.ts
+++ b/packages/prompt/src/index.ts
@@ -449,10 +449,11 @@ export function createPromptAdapter<TConfig>(
           const cliStateIsInjected = cliState != null &&
             typeof cliState === "object" &&
             unwrapInjectedAnnotationState(cliState) !== cliState;
-          const isSourceBinding = shouldCompleteFromSourceBinding(
-            cliState,
-            state,
-          );
+          // The empty state of multiple() carries no value from any source.
+          const rawCliState = unwrapInjectedAnnotationState(cliState);
+          const isSourceBinding =
+            !(Array.isArray(rawCliState) && rawCliState.length === 0) &&
+            shouldCompleteFromSourceBinding(cliState, state);
           if (!isSourceBinding) {
             return finalizePrompt();
           }
-- 
2.43.0


From 8bfd745447e4a345ae6a809dff246f035bc1d992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:58 +0000
Subject: [PATCH 28/50] fix: keep the CLI values of prompted parsers nested in
 concat() and tuple()

---
 packages/prompt/src/index.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/prompt/src/index.ts b/packages/prompt/src/index.ts
index f69ab51..8b32b9a 100644
--- a/packages/prompt/src/index.ts
+++ b/packages/prompt/src/index.ts
@@ -306,6 +306,15 @@ export function createPromptAdapter<TConfig>(
         const processResult = (
           result: ParserResult<TState>,
         ): ParserResult<TState> => {
+          // What does not consume anything must not discard a CLI value that
+          // has been parsed before.
+          if (
+            isPromptBindState(context.state) && context.state.hasCliValue &&
+            (result.success ? result.consumed.length : result.consumed) === 0
+          ) {
+            return { success: true, next: context, consumed: [] };
+          }
+
           if (result.success) {
             const cliState = annotations != null &&
                 result.next.state != null &&
-- 
2.43.0


From 3b55aa0ccfcc20cec39be12ec22e7d368ba0e25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:34 +0000
Subject: [PATCH 29/50] fix: complete dependent values with the source defaults
 of nested constructs

---
 packages/core/src/constructs.ts | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 84caa8f..606e7f9 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -627,6 +627,24 @@ function buildSuggestRuntimeNodesFromPairs(
   return nodes;
 }
 
+/**
+ * Builds the runtime nodes of everything below the given fields, without the
+ * fields themselves.
+ */
+function buildNestedSuggestRuntimeNodes(
+  context: ParserContext<unknown>,
+  pairs: readonly (readonly [string | symbol, Parser<Mode, unknown, unknown>])[],
+): readonly RuntimeNode[] {
+  const fields = new Set<unknown>(pairs.map(([, parser]) => parser));
+  return buildSuggestRuntimeNodesFromPairs(
+    pairs,
+    (context.state && typeof context.state === "object"
+      ? context.state
+      : {}) as Record<PropertyKey, unknown>,
+    context.exec?.path,
+  ).filter((node) => !fields.has(node.parser));
+}
+
 function buildSuggestRuntimeNodesFromArray(
   parsers: readonly Parser<Mode, unknown, unknown>[],
   stateArray: readonly unknown[],
@@ -4950,6 +4968,11 @@ function* suggestObjectSync<
     runtime.registry,
     context.exec,
   );
+  // Sources of nested constructs are not completed above.
+  fillMissingSourceDefaults(
+    buildNestedSuggestRuntimeNodes(context, sourceParserPairs),
+    runtime,
+  );
 
   // Expose the populated registry for child parsers' suggest() calls.
   const contextWithRegistry = {
@@ -5069,6 +5092,11 @@ async function* suggestObjectAsync<
     runtime.registry,
     context.exec,
   );
+  // Sources of nested constructs are not completed above.
+  await fillMissingSourceDefaultsAsync(
+    buildNestedSuggestRuntimeNodes(context, sourceParserPairs),
+    runtime,
+  );
 
   // Expose the populated registry for child parsers' suggest() calls.
   const contextWithRegistry = {
-- 
2.43.0


From 5e8a5cc63175e38a63b933edf2c34c16435ec9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:34 +0000
Subject: [PATCH 30/50] fix: do not suggest options after -- or in place of an
 option value

---
 packages/core/src/constructs.ts      | 43 +++---------------
 packages/core/src/primitives.ts      | 67 +++++++++++++++++++++++-----
 packages/core/src/usage-internals.ts | 37 +++++++++++++++
 3 files changed, 99 insertions(+), 48 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 606e7f9..b7c69c4 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -691,7 +691,10 @@ import {
   type Usage,
   type UsageTerm,
 } from "./usage.ts";
-import { collectLeadingCandidates } from "./usage-internals.ts";
+import {
+  collectLeadingCandidates,
+  isOptionRequiringValue,
+} from "./usage-internals.ts";
 import { validateLabel } from "./validate.ts";
 
 function createUnexpectedInputErrorWithScopedSuggestions(
@@ -819,38 +822,6 @@ function applyHiddenToDocFragments(
   return result;
 }
 
-/**
- * Checks if the given token is an option name that requires a value
- * (i.e., has a metavar) within the given usage terms.
- * @param usage The usage terms to search through.
- * @param token The token to check.
- * @returns `true` if the token is an option that requires a value, `false` otherwise.
- */
-function isOptionRequiringValue(usage: Usage, token: string): boolean {
-  function traverse(terms: Usage): boolean {
-    if (!terms || !Array.isArray(terms)) return false;
-    for (const term of terms) {
-      if (term.type === "option") {
-        // Option requires a value if it has a metavar
-        if (term.metavar && term.names.includes(token)) {
-          return true;
-        }
-      } else if (
-        term.type === "optional" || term.type === "multiple" ||
-        term.type === "sequence"
-      ) {
-        if (traverse(term.terms)) return true;
-      } else if (term.type === "exclusive") {
-        for (const exclusiveUsage of term.terms) {
-          if (traverse(exclusiveUsage)) return true;
-        }
-      }
-    }
-    return false;
-  }
-
-  return traverse(usage);
-}
 import type { DeferredMap, ValueParserResult } from "./valueparser.ts";
 
 /**
@@ -4959,9 +4930,9 @@ function* suggestObjectSync<
   }
 
   // Pre-complete dependency source defaults (old-protocol bridge).
-  // This is the single evaluation point for lazy defaults in the
-  // suggest path—do NOT also call fillMissingSourceDefaults which
-  // would evaluate the same defaults a second time.
+  // This is the single evaluation point for lazy defaults of own fields
+  // in the suggest path—do NOT also call fillMissingSourceDefaults on them
+  // which would evaluate the same defaults a second time.
   completeDependencySourceDefaults(
     context,
     sourceParserPairs,
diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 81569f6..adabf89 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -259,7 +259,10 @@ import {
   isDocHidden,
   isSuggestionHidden,
 } from "./usage.ts";
-import { extractLeadingCommandNames } from "./usage-internals.ts";
+import {
+  extractLeadingCommandNames,
+  isOptionRequiringValue,
+} from "./usage-internals.ts";
 import {
   isValueParser,
   type ValueParser,
@@ -502,6 +505,19 @@ function* getSuggestionsWithDependency<T>(
   yield* valueParser.suggest(prefix);
 }
 
+/**
+ * Whether the word being completed is the value of an option: then neither
+ * option names nor positional arguments nor commands can be given.
+ * @internal
+ */
+function awaitsOptionValue(context: ParserContext<unknown>): boolean {
+  return context.buffer.length > 0 &&
+    isOptionRequiringValue(
+      context.usage,
+      context.buffer[context.buffer.length - 1],
+    );
+}
+
 /**
  * Internal sync helper for option suggest functionality.
  * @internal
@@ -515,11 +531,11 @@ function* suggestOptionSync<T>(
   >,
   prefix: string,
 ): Generator<Suggestion> {
-  if (hidden) return;
+  if (hidden || context.optionsTerminated) return;
 
   // Check for --option=value format
   const equalsIndex = prefix.indexOf("=");
-  if (equalsIndex >= 0) {
+  if (equalsIndex >= 0 && !awaitsOptionValue(context)) {
     // Handle --option=value completion
     const optionPart = prefix.slice(0, equalsIndex);
     const valuePart = prefix.slice(equalsIndex + 1);
@@ -561,7 +577,7 @@ function* suggestOptionSync<T>(
 
     // If the prefix looks like an option prefix, suggest matching option names
     if (
-      !expectingValue &&
+      !expectingValue && !awaitsOptionValue(context) &&
       (prefix.startsWith("--") || prefix.startsWith("-") ||
         prefix.startsWith("/") || prefix.startsWith("+"))
     ) {
@@ -696,11 +712,11 @@ async function* suggestOptionAsync<T>(
   >,
   prefix: string,
 ): AsyncGenerator<Suggestion> {
-  if (hidden) return;
+  if (hidden || context.optionsTerminated) return;
 
   // Check for --option=value format
   const equalsIndex = prefix.indexOf("=");
-  if (equalsIndex >= 0) {
+  if (equalsIndex >= 0 && !awaitsOptionValue(context)) {
     // Handle --option=value completion
     const optionPart = prefix.slice(0, equalsIndex);
     const valuePart = prefix.slice(equalsIndex + 1);
@@ -741,7 +757,7 @@ async function* suggestOptionAsync<T>(
 
     // If the prefix looks like an option prefix, suggest matching option names
     if (
-      !expectingValue &&
+      !expectingValue && !awaitsOptionValue(context) &&
       (prefix.startsWith("--") || prefix.startsWith("-") ||
         prefix.startsWith("/") || prefix.startsWith("+"))
     ) {
@@ -1855,8 +1871,11 @@ export function flag(
         error: message`${eOptionNames(optionNames)}: ${state.error}`,
       };
     },
-    suggest(_context, prefix) {
-      if (isSuggestionHidden(options.hidden)) {
+    suggest(context, prefix) {
+      if (
+        isSuggestionHidden(options.hidden) || context.optionsTerminated ||
+        awaitsOptionValue(context)
+      ) {
         return [];
       }
       const suggestions: Suggestion[] = [];
@@ -2303,8 +2322,11 @@ export function negatableFlag(
       }
       return { success: true, value: state.value };
     },
-    suggest(_context, prefix) {
-      if (isSuggestionHidden(options.hidden)) {
+    suggest(context, prefix) {
+      if (
+        isSuggestionHidden(options.hidden) || context.optionsTerminated ||
+        awaitsOptionValue(context)
+      ) {
         return [];
       }
       const suggestions: Suggestion[] = [];
@@ -2652,7 +2674,10 @@ export function argument<M extends Mode, T>(
       >,
       prefix: string,
     ) {
-      if (normalizeInjectedAnnotationState(context.state) != null) {
+      if (
+        normalizeInjectedAnnotationState(context.state) != null ||
+        awaitsOptionValue(context)
+      ) {
         return dispatchIterableByMode<M, Suggestion>(
           valueParser.mode,
           function* () {},
@@ -3044,6 +3069,15 @@ function* suggestCommandSync<T, TState>(
 
   const state = normalizeCommandState(context.state);
 
+  // An option outside of this command is waiting for its value
+  if (
+    awaitsOptionValue(context) &&
+    (state === undefined ||
+      !awaitsOptionValue({ ...context, usage: parser.usage }))
+  ) {
+    return;
+  }
+
   // Handle different command states
   if (state === undefined) {
     // Command not yet matched - suggest command name if it matches prefix
@@ -3095,6 +3129,15 @@ async function* suggestCommandAsync<T, TState>(
 
   const state = normalizeCommandState(context.state);
 
+  // An option outside of this command is waiting for its value
+  if (
+    awaitsOptionValue(context) &&
+    (state === undefined ||
+      !awaitsOptionValue({ ...context, usage: parser.usage }))
+  ) {
+    return;
+  }
+
   // Handle different command states
   if (state === undefined) {
     // Command not yet matched - suggest command name if it matches prefix
diff --git a/packages/core/src/usage-internals.ts b/packages/core/src/usage-internals.ts
index 0298b18..7b8c431 100644
--- a/packages/core/src/usage-internals.ts
+++ b/packages/core/src/usage-internals.ts
@@ -130,3 +130,40 @@ export function extractLeadingCommandNames(usage: Usage): Set<string> {
   collectLeadingCandidates(usage, options, commands);
   return commands;
 }
+
+/**
+ * Checks if the given token is an option name that requires a value
+ * (i.e., has a metavar) within the given usage terms.
+ * @param usage The usage terms to search through.
+ * @param token The token to check.
+ * @returns `true` if the token is an option that requires a value, `false` otherwise.
+ */
+export function isOptionRequiringValue(usage: Usage, token: string): boolean {
+  function traverse(terms: Usage): boolean {
+    if (!terms || !Array.isArray(terms)) return false;
+    for (const [index, term] of terms.entries()) {
+      if (term.type === "option") {
+        // Option requires a value if it has a metavar, or if its value is
+        // spelled out as in the branches of conditional()
+        if (
+          (term.metavar || terms[index + 1]?.type === "literal") &&
+          term.names.includes(token)
+        ) {
+          return true;
+        }
+      } else if (
+        term.type === "optional" || term.type === "multiple" ||
+        term.type === "sequence"
+      ) {
+        if (traverse(term.terms)) return true;
+      } else if (term.type === "exclusive") {
+        for (const exclusiveUsage of term.terms) {
+          if (traverse(exclusiveUsage)) return true;
+        }
+      }
+    }
+    return false;
+  }
+
+  return traverse(usage);
+}
-- 
2.43.0


From 536ca2c8c1616667a01df0d4c6ba78bf709d91f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:09 +0000
Subject: [PATCH 31/50] fix: keep the contents of hidden commands and values of
 hidden options out of usage

---
 packages/core/src/internal/parser.ts | 11 +++++-
 packages/core/src/primitives.ts      |  4 ++
 packages/core/src/usage-internals.ts | 57 +++++++++++++++++++++++++++-
 packages/core/src/usage.ts           | 18 +++++++--
 4 files changed, 84 insertions(+), 6 deletions(-)

diff --git a/packages/core/src/internal/parser.ts b/packages/core/src/internal/parser.ts
index a504ce6..7ef79e8 100644
--- a/packages/core/src/internal/parser.ts
+++ b/packages/core/src/internal/parser.ts
@@ -10,10 +10,12 @@ import { cloneMessage, type Message, message } from "../message.ts";
 import type { DependencyRegistryLike } from "../registry-types.ts";
 import {
   cloneUsage,
+  isUsageHidden,
   normalizeUsage,
   type Usage,
   type UsageTerm,
 } from "../usage.ts";
+import { dropHiddenCommands } from "../usage-internals.ts";
 import type { DeferredMap, ValueParserResult } from "../valueparser.ts";
 import {
   hasMeaningfulAnnotations,
@@ -1943,7 +1945,14 @@ function buildDocPage(
     }
   }
   const sections: DocSection[] = buildingSections;
-  const usage = [...normalizeUsage(parser.usage)];
+  const usage = [
+    ...normalizeUsage(dropHiddenCommands(
+      parser.usage,
+      (term) =>
+        isUsageHidden(term.hidden) &&
+        !effectiveArgs.some((arg) => commandTermMatches(term, arg)),
+    )),
+  ];
   const maybeApplyCommandUsageLine = (
     term: UsageTerm | undefined,
     arg: string,
diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index adabf89..7810e2f 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -258,8 +258,10 @@ import {
   extractOptionNames,
   isDocHidden,
   isSuggestionHidden,
+  isUsageHidden,
 } from "./usage.ts";
 import {
+  commandContentsKey,
   extractLeadingCommandNames,
   isOptionRequiringValue,
 } from "./usage-internals.ts";
@@ -3226,6 +3228,8 @@ export function command<M extends Mode, T, TState>(
         ...(hiddenAliases.length > 0 && { hiddenAliases }),
         ...(options.usageLine != null && { usageLine: options.usageLine }),
         ...(options.hidden != null && { hidden: options.hidden }),
+        ...(isUsageHidden(options.hidden) &&
+          { [commandContentsKey]: parser.usage.length }),
       },
       ...parser.usage,
     ],
diff --git a/packages/core/src/usage-internals.ts b/packages/core/src/usage-internals.ts
index 7b8c431..81e2e94 100644
--- a/packages/core/src/usage-internals.ts
+++ b/packages/core/src/usage-internals.ts
@@ -5,7 +5,62 @@
  * without notice.  Import them only from within the `@optique/core` package
  * sources; do not re-export them from any public subpath.
  */
-import { isSuggestionHidden, type Usage } from "./usage.ts";
+import {
+  isSuggestionHidden,
+  isUsageHidden,
+  type Usage,
+  type UsageTerm,
+} from "./usage.ts";
+
+/**
+ * On the usage term of a hidden command: how many of the terms that follow it
+ * are the contents of the command.
+ */
+export const commandContentsKey: unique symbol = Symbol.for(
+  "@optique/core/commandContents",
+);
+
+function contentsOf(term: UsageTerm): number | undefined {
+  return (term as { [commandContentsKey]?: number })[commandContentsKey];
+}
+
+/**
+ * Removes hidden commands along with their contents.
+ *
+ * @param usage  The usage to filter.
+ * @param isHidden  Which commands are hidden.
+ * @returns The usage without hidden commands and their contents.
+ */
+export function dropHiddenCommands(
+  usage: Usage,
+  isHidden: (term: UsageTerm & { readonly type: "command" }) => boolean = (
+    term,
+  ) => isUsageHidden(term.hidden),
+): Usage {
+  const terms: UsageTerm[] = [];
+  for (let i = 0; i < usage.length; i++) {
+    const term = usage[i];
+    const contents = contentsOf(term);
+    if (term.type === "command" && contents != null && isHidden(term)) {
+      i += contents;
+    } else if (
+      term.type === "optional" || term.type === "multiple" ||
+      term.type === "sequence"
+    ) {
+      const inner = dropHiddenCommands(term.terms, isHidden);
+      if (inner.length > 0 || term.terms.length < 1) {
+        terms.push({ ...term, terms: inner });
+      }
+    } else if (term.type === "exclusive") {
+      const branches = term.terms.map((b) => dropHiddenCommands(b, isHidden))
+        .filter((b, i) => b.length > 0 || term.terms[i].length < 1);
+      if (branches.length > 0) terms.push({ ...term, terms: branches });
+    } else {
+      terms.push(term);
+    }
+  }
+  return terms;
+}
 
 /**
  * Collects option names and command names that are valid as the *immediate*
diff --git a/packages/core/src/usage.ts b/packages/core/src/usage.ts
index 960eede..6ca3d10 100644
--- a/packages/core/src/usage.ts
+++ b/packages/core/src/usage.ts
@@ -1,5 +1,6 @@
 import { getDisplayWidth } from "./displaywidth.ts";
 import type { NonEmptyString } from "./nonempty.ts";
+import { commandContentsKey, dropHiddenCommands } from "./usage-internals.ts";
 import { validateProgramName } from "./validate.ts";
 
 /**
@@ -556,7 +557,7 @@ export function formatUsage(
   options: UsageFormatOptions = {},
 ): string {
   validateProgramName(programName);
-  usage = normalizeUsage(filterUsageForDisplay(usage));
+  usage = normalizeUsage(filterUsageForDisplay(dropHiddenCommands(usage)));
   if (options.expandCommands) {
     const lastTerm = usage.at(-1)!;
     if (
@@ -727,10 +728,14 @@ function normalizeUsageTerm(term: UsageTerm): UsageTerm {
     if (term.type === "option") {
       return { ...term, names: [...term.names] };
     } else if (term.type === "command") {
-      if (term.usageLine == null || typeof term.usageLine === "function") {
-        return { ...term };
+      // Sorting terms takes the contents of a command away from it.
+      const { [commandContentsKey]: _contents, ...rest } = term as
+        & typeof term
+        & { [commandContentsKey]?: number };
+      if (rest.usageLine == null || typeof rest.usageLine === "function") {
+        return rest;
       }
-      return { ...term, usageLine: cloneUsage(term.usageLine) };
+      return { ...rest, usageLine: cloneUsage(rest.usageLine) };
     }
     return { ...term };
   }
@@ -843,14 +848,19 @@ function filterUsageForDisplay(
   isHidden: (hidden?: HiddenVisibility) => boolean = isUsageHidden,
 ): Usage {
   const terms: UsageTerm[] = [];
+  let hiddenOption = false;
   for (const term of usage) {
     if (
       (term.type === "argument" || term.type === "option" ||
         term.type === "command" || term.type === "passthrough") &&
       isHidden(term.hidden)
     ) {
+      hiddenOption = term.type === "option";
       continue;
     }
+    // The literal value of a hidden option is hidden as well.
+    if (term.type === "literal" && term.optionValue && hiddenOption) continue;
+    hiddenOption = false;
     // Skip degenerate zero-width leaf terms
     if (term.type === "option" && term.names.length === 0) continue;
     if (term.type === "command" && term.name === "") continue;
-- 
2.43.0


From ba0ecdd6a82dcbcc1b109cdfb5d3f24c36d2b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:09 +0000
Subject: [PATCH 32/50] fix: dispatch to a nested command even when its parent
 takes more tokens

---
 packages/discover/src/index.ts | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/packages/discover/src/index.ts b/packages/discover/src/index.ts
index 11f0974..a7975e8 100644
--- a/packages/discover/src/index.ts
+++ b/packages/discover/src/index.ts
@@ -1152,6 +1152,12 @@ function createExecutableNodeParser(
     childParser,
     leafParser,
   ) as Parser<Mode, ProgramInvocation, unknown>;
+  // A nested command takes precedence over the arguments of its parent, no
+  // matter how many tokens either of them consumes.
+  const entryParser = or(
+    childParser,
+    leafParser,
+  ) as Parser<Mode, ProgramInvocation, unknown>;
   const phase2SeedHook = findPhase2SeedHook(parser);
   const executableParser: Parser<
     Mode,
@@ -1181,10 +1187,28 @@ function createExecutableNodeParser(
         );
       }
 
-      const result = parser.parse({
+      const exclusiveContext = {
         ...context,
         state: toExclusiveState(activeState, context.state),
-      });
+      };
+      const result = dispatchByMode(
+        parser.mode,
+        () => {
+          const entered = wrapForMode(
+            "sync",
+            entryParser.parse(exclusiveContext),
+          );
+          return isCommittedResult(entered)
+            ? entered
+            : wrapForMode("sync", parser.parse(exclusiveContext));
+        },
+        async () => {
+          const entered = await entryParser.parse(exclusiveContext);
+          return isCommittedResult(entered)
+            ? entered
+            : await parser.parse(exclusiveContext);
+        },
+      );
       return mapModeValue(
         parser.mode,
         wrapForMode(parser.mode, result),
-- 
2.43.0


From 41d0521357b413c4831f25ca3b6dbdfb81d075ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:30 +0000
Subject: [PATCH 33/50] fix: generate relative import specifiers for names that
 start with a dot

---
 packages/discover/src/generator.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/discover/src/generator.ts b/packages/discover/src/generator.ts
index 8a02e35..4932861 100644
--- a/packages/discover/src/generator.ts
+++ b/packages/discover/src/generator.ts
@@ -554,7 +554,9 @@ function displayCommandPath(path: readonly string[]): string {
 
 function relativeModuleSpecifier(fromDir: string, target: string): string {
   const relativePath = normalizeRelativePath(relative(fromDir, target));
-  return relativePath.startsWith(".") ? relativePath : `./${relativePath}`;
+  return /^\.\.?(?:\/|$)/.test(relativePath)
+    ? relativePath
+    : `./${relativePath}`;
 }
 
 function relativeImportSpecifier(fromDir: string, target: string): string {
-- 
2.43.0


From ece455a987c5026dcff656372b373c2c5f3bcfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:53 +0000
Subject: [PATCH 34/50] fix: keep control characters out of encoded file
 suggestions

---
 packages/core/src/completion.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index 59ae1af..a220c67 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -47,13 +47,18 @@ function validateProgramName(programName: string): void {
  * @internal
  */
 function encodePattern(pattern: string): string {
-  return pattern.replace(/%/g, "%25").replace(/:/g, "%3A");
+  return sanitizeForTransport(pattern).replace(/%/g, "%25").replace(
+    /:/g,
+    "%3A",
+  );
 }
 
 function encodeExtensions(
   extensions: readonly string[] | undefined,
 ): string {
-  return extensions?.map((ext) => ext.replace(/^\./, "")).join(",") ?? "";
+  return sanitizeForTransport(
+    extensions?.map((ext) => ext.replace(/^\./, "")).join(",") ?? "",
+  );
 }
 
 /**
-- 
2.43.0


From 82577198fb988a0607be826310e3999a783b23d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:53 +0000
Subject: [PATCH 35/50] fix: print encoded completions without blank lines
 between them

---
 packages/core/src/completion.ts | 28 ++++++++++++++--------------
 packages/core/src/facade.ts     | 28 +++++++++++++++++++---------
 2 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index a220c67..edd0133 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -117,7 +117,7 @@ function _${programName} () {
   COMPREPLY=()
   local current="\${COMP_WORDS[COMP_CWORD]}"
   local prev=("\${COMP_WORDS[@]:1:COMP_CWORD-1}")
-  while IFS= read -r line; do
+  while IFS= read -r line || [[ -n "$line" ]]; do
     if [[ "$line" == __FILE__:* ]]; then
       # Parse file completion directive: __FILE__:type:extensions:pattern:hidden
       IFS=':' read -r _ type extensions pattern hidden <<< "$line"
@@ -383,16 +383,18 @@ function _${programName.replace(/[^a-zA-Z0-9]/g, "_")} () {
 
   # Split output into lines and process each line
   local -a completions descriptions
-  local line value desc
+  local value desc
   local has_file_completion=0
 
-  while IFS= read -r line; do
-    if [[ -n "\$line" ]]; then
-      # Split by null character - first part is value, second is description
-      value=\${line%%\$'\\0'*}
-      desc=\${line#*\$'\\0'}
-      desc=\${desc%%\$'\\0'*}
-
+  # Split by null character - each record is a value and a description, both
+  # terminated by a null character, optionally followed by a newline
+  local -a fields
+  fields=("\${(@ps:\\0:)output}")
+  local -i field
+  for (( field=1; field < \${#fields[@]}; field+=2 )); do
+    value="\${fields[field]#\$'\\n'}"
+    desc="\${fields[field+1]}"
+    if [[ -n "\$value" ]]; then
       if [[ "\$value" == __FILE__:* ]]; then
         # Parse file completion directive: __FILE__:type:extensions:pattern:hidden
         local type extensions pattern hidden
@@ -477,13 +479,11 @@ function _${programName.replace(/[^a-zA-Z0-9]/g, "_")} () {
         if [[ "\$__was_glob_dots" == "1" ]]; then setopt glob_dots; else unsetopt glob_dots; fi
       else
         # Regular literal completion
-        if [[ -n "\$value" ]]; then
-          completions+=("\$value")
-          descriptions+=("\$desc")
-        fi
+        completions+=("\$value")
+        descriptions+=("\$desc")
       fi
     fi
-  done <<< "\$output"
+  done
 
   # Add literal completions with descriptions if we have any
   if (( \${#completions[@]} > 0 )); then
diff --git a/packages/core/src/facade.ts b/packages/core/src/facade.ts
index b17bb52..87033de 100644
--- a/packages/core/src/facade.ts
+++ b/packages/core/src/facade.ts
@@ -1696,9 +1696,7 @@ function handleCompletion<M extends Mode, THelp, TError>(
         rootOptionSuggestions,
         completionSuggestions.argumentContext,
       );
-      for (const chunk of shell.encodeSuggestions(suggestions)) {
-        stdout(chunk);
-      }
+      printEncodedSuggestions(shell.encodeSuggestions(suggestions), stdout);
       const result = callOnCompletion(0);
       if (result instanceof Promise) {
         throw new RunParserError("Synchronous parser returned async result.");
@@ -1712,23 +1710,35 @@ function handleCompletion<M extends Mode, THelp, TError>(
         args,
         rootOptionSuggestions,
       );
-      for (
-        const chunk of shell.encodeSuggestions(
+      printEncodedSuggestions(
+        shell.encodeSuggestions(
           withRootOptionSuggestions(
             completionSuggestions.suggestions,
             args,
             rootOptionSuggestions,
             completionSuggestions.argumentContext,
           ),
-        )
-      ) {
-        stdout(chunk);
-      }
+        ),
+        stdout,
+      );
       return callOnCompletion(0);
     },
   );
 }
 
+/**
+ * Prints the encoded suggestions at once.  The chunks have to be joined without
+ * any separator, whereas `stdout` terminates whatever it is given with
+ * a newline.
+ */
+function printEncodedSuggestions(
+  chunks: Iterable<string>,
+  stdout: (text: string) => void,
+): void {
+  const output = [...chunks].join("");
+  if (output !== "") stdout(output);
+}
+
 function withRootOptionSuggestions(
   suggestions: readonly Suggestion[],
   args: readonly string[],
-- 
2.43.0


From fb16c9d5fad39b2cb4cef0e06a91684ca1c489f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:53 +0000
Subject: [PATCH 36/50] fix: do not complete hidden files below "./" in bash

---
 packages/core/src/completion.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index edd0133..4b50bd9 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -199,7 +199,7 @@ function _${programName} () {
       # checked against the expanded path, not the literal ~ string.
       local __inside_hidden_path=0
       case "/\${__glob_current%/}/" in
-        */.[!.]*/*|*/..?*/*) __inside_hidden_path=1 ;;
+        */.[!./]*/*|*/..[!/]*/*) __inside_hidden_path=1 ;;
       esac
       # Also check if the current prefix explicitly targets hidden entries
       # (e.g., user typed "." or ".e" to complete .env)
-- 
2.43.0


From 1afd2b79a7381055acd45db636a8988c1d3983b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:53 +0000
Subject: [PATCH 37/50] fix: escape colons and backslashes in zsh completions

---
 packages/core/src/completion.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index 4b50bd9..696b9cd 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -478,9 +478,11 @@ function _${programName.replace(/[^a-zA-Z0-9]/g, "_")} () {
         if [[ "\$__was_sh_glob" == "1" ]]; then setopt sh_glob; else unsetopt sh_glob; fi
         if [[ "\$__was_glob_dots" == "1" ]]; then setopt glob_dots; else unsetopt glob_dots; fi
       else
-        # Regular literal completion
-        completions+=("\$value")
-        descriptions+=("\$desc")
+        # Regular literal completion - _describe separates the description
+        # with a colon, hence colons and backslashes have to be escaped
+        value="\${value//\\\\/\\\\\\\\}"
+        completions+=("\${value//:/\\\\:}")
+        descriptions+=("\${desc//\\\\/\\\\\\\\}")
       fi
     fi
   done
-- 
2.43.0


From 92bffe8a9fc157a049736dd9e0ce28687b179eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:53 +0000
Subject: [PATCH 38/50] fix: do not suggest hidden files for "./"

---
 packages/logtape/src/output.ts  | 3 ++-
 packages/run/src/valueparser.ts | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/logtape/src/output.ts b/packages/logtape/src/output.ts
index ded7d40..ebc4cc5 100644
--- a/packages/logtape/src/output.ts
+++ b/packages/logtape/src/output.ts
@@ -184,7 +184,8 @@ function logOutputValueParser(
         type: "file",
         pattern: prefix,
         includeHidden: basename(prefix).startsWith(".") &&
-          basename(prefix) !== "..",
+          basename(prefix) !== ".." &&
+          !/(^|[\\/])\.[\\/]+$/.test(prefix),
       };
     },
   };
diff --git a/packages/run/src/valueparser.ts b/packages/run/src/valueparser.ts
index 600a5ec..929f2da 100644
--- a/packages/run/src/valueparser.ts
+++ b/packages/run/src/valueparser.ts
@@ -435,7 +435,8 @@ export function path(options: PathOptions = {}): ValueParser<"sync", string> {
         type: type === "either" ? "any" : type,
         extensions,
         includeHidden: basename(prefix).startsWith(".") &&
-          basename(prefix) !== "..",
+          basename(prefix) !== ".." &&
+          !/(^|[\\/])\.[\\/]+$/.test(prefix),
         description: type === "directory"
           ? message`Directory`
           : type === "file"
-- 
2.43.0


From b8e3c06fb3bcaeb822e4b62eea3abc3ab1808c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:53 +0000
Subject: [PATCH 39/50] fix: fileSize() rejects units that are names of object
 members

---
 packages/core/src/valueparser.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/valueparser.ts b/packages/core/src/valueparser.ts
index ad4f78a..5b14776 100644
--- a/packages/core/src/valueparser.ts
+++ b/packages/core/src/valueparser.ts
@@ -3211,7 +3211,9 @@ export function fileSize(
           if (options.defaultUnit == null) return invalidFormatError(input);
           mBig = bigintMultiplierMap[options.defaultUnit.toLowerCase()];
         } else {
-          const m = bigintMultiplierMap[unitStr];
+          const m = Object.hasOwn(bigintMultiplierMap, unitStr)
+            ? bigintMultiplierMap[unitStr]
+            : undefined;
           if (m == null) return invalidFormatError(input);
           mBig = m;
         }
@@ -3262,7 +3264,9 @@ export function fileSize(
         if (options.defaultUnit == null) return invalidFormatError(input);
         multiplier = multiplierMap[options.defaultUnit.toLowerCase()];
       } else {
-        const m = multiplierMap[unitStr];
+        const m = Object.hasOwn(multiplierMap, unitStr)
+          ? multiplierMap[unitStr]
+          : undefined;
         if (m == null) return invalidFormatError(input);
         multiplier = m;
       }
-- 
2.43.0


From 0b3a23fd6d1f53e83734b68fef7f6dd37e3a1ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:53 +0000
Subject: [PATCH 40/50] fix: fileSize() formats sizes as text that denotes them
 exactly

---
 packages/core/src/valueparser.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/valueparser.ts b/packages/core/src/valueparser.ts
index 5b14776..8d87960 100644
--- a/packages/core/src/valueparser.ts
+++ b/packages/core/src/valueparser.ts
@@ -2892,7 +2892,13 @@ function formatWithUnits(
     const v = bytes / size;
     const rounded = Math.round(v * 100) / 100;
     const absRounded = Math.abs(rounded);
-    if (absRounded >= 1 && absRounded < 1000 && rounded * size === bytes) {
+    // The written decimal itself, not only its floating-point approximation,
+    // has to denote the given bytes, because parse() reads it exactly.
+    if (
+      absRounded >= 1 && absRounded < 1000 && rounded * size === bytes &&
+      (!Number.isInteger(bytes) ||
+        parseExactBytesRaw(rounded.toString(), BigInt(size)) === BigInt(bytes))
+    ) {
       return `${rounded}${unit}`;
     }
   }
-- 
2.43.0


From 328ba6d64efe751789c8b1d279291a0d7b381e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:53 +0000
Subject: [PATCH 41/50] fix: email() looks for the domain after a quoted local
 part

---
 packages/core/src/valueparser.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/valueparser.ts b/packages/core/src/valueparser.ts
index 8d87960..499dd04 100644
--- a/packages/core/src/valueparser.ts
+++ b/packages/core/src/valueparser.ts
@@ -5949,7 +5949,7 @@ export function email(
 
           // Check domain restriction
           if (allowedDomains != null) {
-            const atIndex = validated.indexOf("@");
+            const atIndex = validated.lastIndexOf("@");
             const domain = validated.substring(atIndex + 1).toLowerCase();
             const isAllowed = allowedDomains.some((allowed) =>
               domain === allowed.toLowerCase()
@@ -5991,7 +5991,7 @@ export function email(
 
         // Check domain restriction
         if (allowedDomains != null) {
-          const atIndex = validated.indexOf("@");
+          const atIndex = validated.lastIndexOf("@");
           const domain = validated.substring(atIndex + 1).toLowerCase();
           const isAllowed = allowedDomains.some((allowed) =>
             domain === allowed.toLowerCase()
-- 
2.43.0


From db3f2102c684eaa37420a1539146c608c3041a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:53 +0000
Subject: [PATCH 42/50] fix: macAddress() formats addresses in an accepted
 notation

---
 packages/core/src/valueparser.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/valueparser.ts b/packages/core/src/valueparser.ts
index 499dd04..78cb547 100644
--- a/packages/core/src/valueparser.ts
+++ b/packages/core/src/valueparser.ts
@@ -7632,7 +7632,18 @@ export function macAddress(
     },
     format(value: string): string {
       if (typeof value !== "string") return metavar;
-      return normalizeMacValue(value, value);
+      const normalized = normalizeMacValue(value, value);
+      if (
+        outputSeparator == null || separator === "any" ||
+        separator === outputSeparator
+      ) {
+        return normalized;
+      }
+      // The output notation is not an accepted input notation here: write the
+      // address with the separator that parse() accepts.
+      const digits = normalized.replace(/[:.-]/g, "");
+      if (!noneRegex.test(digits)) return normalized;
+      return joinOctets(digits.match(/../g)!, separator);
     },
     normalize(value: string): string {
       if (typeof value !== "string") return value;
-- 
2.43.0


From 833c09a009d887b7c4fe0d66f29c5665f27700c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:22 +0000
Subject: [PATCH 43/50] fix: gitCommit() accepts only commits

Any object's SHA was accepted, so a blob or a tree passed as a commit,
an annotated tag object was returned instead of its commit, and SHAs
written in upper case were refused although their format is accepted.
---
 packages/git/src/index.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/packages/git/src/index.ts b/packages/git/src/index.ts
index df2e0b5..4b784ff 100644
--- a/packages/git/src/index.ts
+++ b/packages/git/src/index.ts
@@ -717,8 +717,15 @@ export function gitCommit(
       }
 
       try {
-        const oid = await git.expandOid({ fs: gitFs, dir, oid: input });
-        return { success: true, value: oid };
+        const oid = await git.expandOid({
+          fs: gitFs,
+          dir,
+          oid: input.toLowerCase(),
+        });
+        // Blobs and trees are not commits, and annotated tags stand for
+        // the commits they point to.
+        const commit = await git.readCommit({ fs: gitFs, dir, oid });
+        return { success: true, value: commit.oid };
       } catch (e) {
         if (
           hasErrorCode(e, "AmbiguousShortOidError") ||
-- 
2.43.0


From a112a8b9f6b53346d72425b35fb4bbfa83f3bbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:22 +0000
Subject: [PATCH 44/50] fix: gitRef() returns existing commits

An annotated tag resolved to the tag object instead of its commit, and
SHAs of blobs, of trees and of nothing at all were accepted.
---
 packages/git/src/index.ts | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/packages/git/src/index.ts b/packages/git/src/index.ts
index 4b784ff..5dd0219 100644
--- a/packages/git/src/index.ts
+++ b/packages/git/src/index.ts
@@ -804,13 +804,16 @@ export function gitRef(
         // Not a branch or tag, will try as a commit SHA.
       }
 
-      if (resolved) {
-        return { success: true, value: resolved };
-      }
-
       try {
-        const oid = await git.expandOid({ fs: gitFs, dir, oid: input });
-        return { success: true, value: oid };
+        const oid = resolved ?? await git.expandOid({
+          fs: gitFs,
+          dir,
+          oid: input.toLowerCase(),
+        });
+        // Annotated tags stand for the commits they point to, and a full SHA
+        // resolves to itself even if there is no such commit.
+        const commit = await git.readCommit({ fs: gitFs, dir, oid });
+        return { success: true, value: commit.oid };
       } catch (e) {
         if (
           hasErrorCode(e, "AmbiguousShortOidError") ||
-- 
2.43.0


From da4437080dc537e416334c80ee1d3f6e59ba35db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:44 +0000
Subject: [PATCH 45/50] fix: reset the color after a single value of values()

The color of a values() term with only one value was never reset, so
everything printed after it was green as well.
---
 packages/core/src/message.ts | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/packages/core/src/message.ts b/packages/core/src/message.ts
index 5f5b12d..0a9077f 100644
--- a/packages/core/src/message.ts
+++ b/packages/core/src/message.ts
@@ -706,11 +706,9 @@ export function formatMessage(
             : term.values[i];
           yield {
             text: useColors
-              ? i <= 0
-                ? `\x1b[32m${value}`
-                : i + 1 >= term.values.length
-                ? `${value}${resetSequence}`
-                : value
+              ? `${i <= 0 ? "\x1b[32m" : ""}${value}${
+                i + 1 >= term.values.length ? resetSequence : ""
+              }`
               : value,
             width: getDisplayWidth(value),
           };
-- 
2.43.0


From 30df258e97ed3e1d3b5331d452668a83c87ad7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:44 +0000
Subject: [PATCH 46/50] fix: keep paragraph breaks after text that follows
 lineBreak()

The first paragraph break of a text after lineBreak() was reduced to a
line break even if it did not directly follow the lineBreak().
---
 packages/core/src/message.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/core/src/message.ts b/packages/core/src/message.ts
index 0a9077f..0e95964 100644
--- a/packages/core/src/message.ts
+++ b/packages/core/src/message.ts
@@ -625,10 +625,12 @@ export function formatMessage(
           ) {
             if (paragraphIndex > 0) {
               // Yield paragraph break with -1 as special marker.
-              // When preceded by lineBreak() (isAfterLineBreak && first break),
-              // that term already emitted one \n, so emit only one more to total
-              // two (\n\n).  Otherwise emit \n\n directly.
-              const breakText = isAfterLineBreak && paragraphIndex === 1
+              // When it directly follows lineBreak() (isAfterLineBreak && first
+              // break && nothing in between), that term already emitted one \n,
+              // so emit only one more to total two (\n\n).  Otherwise emit \n\n
+              // directly.
+              const breakText = isAfterLineBreak && paragraphIndex === 1 &&
+                  paragraphs[0].trim() === ""
                 ? "\n"
                 : "\n\n";
               yield { text: breakText, width: -1 };
-- 
2.43.0


From 810fc42d174096ce37ff0953937236586addbc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:21 +0000
Subject: [PATCH 47/50] fix: keep a group's label when its commands are in a
 titled section

---
 packages/core/src/constructs.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index b7c69c4..13c3580 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -13097,7 +13097,10 @@ export function group<M extends Mode, TValue, TState>(
       // True only when the visible commands are the group's own top-level
       // commands (same set as the initial state), not inner subcommands
       // that surfaced after a command was selected.
-      const currentCommandsAreGroupOwn = allEntries.some(
+      const currentCommandsAreGroupOwn = [
+        ...allEntries,
+        ...titledSections.flatMap((s) => s.entries),
+      ].some(
         (e) =>
           e.term.type === "command" && initialCommandNames.has(e.term.name),
       );
-- 
2.43.0


From 2a01bbd8b9ed4b92f8b2bc9aceeb4860a1122499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:21 +0000
Subject: [PATCH 48/50] fix: drop the rest of a hidden alternative from usage

When normalizeUsage() distributes the terms next to a choice over its
alternatives, an alternative that is hidden left these terms behind as
an alternative of their own, which the page of a parser then offered.
---
 packages/core/src/usage.ts | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/usage.ts b/packages/core/src/usage.ts
index 6ca3d10..0ef2f77 100644
--- a/packages/core/src/usage.ts
+++ b/packages/core/src/usage.ts
@@ -708,7 +708,13 @@ function normalizeUsageTerm(term: UsageTerm): UsageTerm {
       const normalized = normalizeUsage(usage);
       if (normalized.length >= 1 && normalized[0].type === "exclusive") {
         const rest = normalized.slice(1);
-        for (const subUsage of normalized[0].terms) {
+        // An alternative that is hidden must not leave the rest behind.
+        const shown = rest.length > 0
+          ? normalized[0].terms.filter((t) => !isHiddenAlternative(t))
+          : [];
+        for (
+          const subUsage of shown.length > 0 ? shown : normalized[0].terms
+        ) {
           terms.push([...subUsage, ...rest]);
         }
       } else if (normalized.length > 0 || !containsMalformedLeaf(usage)) {
@@ -741,6 +747,29 @@ function normalizeUsageTerm(term: UsageTerm): UsageTerm {
   }
 }
 
+function isHiddenAlternative(usage: Usage): boolean {
+  let hiddenOption = false;
+  return usage.length > 0 && usage.every((term) => {
+    if (term.type === "literal") return term.optionValue && hiddenOption;
+    hiddenOption = false;
+    if (
+      term.type === "option" || term.type === "argument" ||
+      term.type === "passthrough"
+    ) {
+      hiddenOption = term.type === "option";
+      return isUsageHidden(term.hidden);
+    }
+    if (
+      term.type === "optional" || term.type === "multiple" ||
+      term.type === "sequence"
+    ) {
+      return isHiddenAlternative(term.terms);
+    }
+    return term.type === "exclusive" && term.terms.length > 0 &&
+      term.terms.every(isHiddenAlternative);
+  });
+}
+
 function isNonDegenerateTerm(term: UsageTerm): boolean {
   if (term.type === "option") return term.names.length > 0;
   if (term.type === "command") return term.name !== "";
-- 
2.43.0


From 16179a8e76c6069e409be41d68780cf5d47d4709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:04 +0000
Subject: [PATCH 49/50] fix: no blank lines between wrapped values

When a line was full behind one of several values, the space that
separates it from the next one began a line of its own.
---
 packages/core/src/message.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/core/src/message.ts b/packages/core/src/message.ts
index 0e95964..c3b4f30 100644
--- a/packages/core/src/message.ts
+++ b/packages/core/src/message.ts
@@ -778,6 +778,8 @@ export function formatMessage(
     ) {
       output += "\n";
       totalWidth = 0;
+      // What separates values does not begin a line.
+      if (text === " ") continue;
     }
     output += text;
     totalWidth += width;
-- 
2.43.0


From 81a9d2e27af4505fada507567cb6d569eeddd2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:28 +0000
Subject: [PATCH 50/50] fix: keep hidden alternatives in normalized usage

normalizeUsage() keeps every option of the usage it is given, hidden
or not; only the usage of a page drops hidden alternatives before.
---
 packages/core/src/internal/parser.ts |  9 ++++--
 packages/core/src/usage-internals.ts | 48 ++++++++++++++++++++++++++++
 packages/core/src/usage.ts           | 31 +-----------------
 3 files changed, 55 insertions(+), 33 deletions(-)

diff --git a/packages/core/src/internal/parser.ts b/packages/core/src/internal/parser.ts
index 7ef79e8..6271b8a 100644
--- a/packages/core/src/internal/parser.ts
+++ b/packages/core/src/internal/parser.ts
@@ -15,7 +15,10 @@ import {
   type Usage,
   type UsageTerm,
 } from "../usage.ts";
-import { dropHiddenCommands } from "../usage-internals.ts";
+import {
+  dropHiddenAlternatives,
+  dropHiddenCommands,
+} from "../usage-internals.ts";
 import type { DeferredMap, ValueParserResult } from "../valueparser.ts";
 import {
   hasMeaningfulAnnotations,
@@ -1946,12 +1949,12 @@ function buildDocPage(
   }
   const sections: DocSection[] = buildingSections;
   const usage = [
-    ...normalizeUsage(dropHiddenCommands(
+    ...normalizeUsage(dropHiddenAlternatives(dropHiddenCommands(
       parser.usage,
       (term) =>
         isUsageHidden(term.hidden) &&
         !effectiveArgs.some((arg) => commandTermMatches(term, arg)),
-    )),
+    ))),
   ];
   const maybeApplyCommandUsageLine = (
     term: UsageTerm | undefined,
diff --git a/packages/core/src/usage-internals.ts b/packages/core/src/usage-internals.ts
index 81e2e94..54172fe 100644
--- a/packages/core/src/usage-internals.ts
+++ b/packages/core/src/usage-internals.ts
@@ -62,6 +62,54 @@ export function dropHiddenCommands(
   return terms;
 }
 
+function isHiddenAlternative(usage: Usage): boolean {
+  let hiddenOption = false;
+  return usage.length > 0 && usage.every((term) => {
+    if (term.type === "literal") return term.optionValue && hiddenOption;
+    hiddenOption = false;
+    if (
+      term.type === "option" || term.type === "argument" ||
+      term.type === "passthrough"
+    ) {
+      hiddenOption = term.type === "option";
+      return isUsageHidden(term.hidden);
+    }
+    if (
+      term.type === "optional" || term.type === "multiple" ||
+      term.type === "sequence"
+    ) {
+      return isHiddenAlternative(term.terms);
+    }
+    return term.type === "exclusive" && term.terms.length > 0 &&
+      term.terms.every(isHiddenAlternative);
+  });
+}
+
+/**
+ * Removes the hidden alternatives of choices that have visible ones as well,
+ * so that nothing that stands next to them is left in their place.
+ *
+ * @param usage  The usage to filter.
+ * @returns The usage without these alternatives.
+ */
+export function dropHiddenAlternatives(usage: Usage): Usage {
+  return usage.map((term) => {
+    if (
+      term.type === "optional" || term.type === "multiple" ||
+      term.type === "sequence"
+    ) {
+      return { ...term, terms: dropHiddenAlternatives(term.terms) };
+    }
+    if (term.type !== "exclusive") return term;
+    const shown = term.terms.filter((branch) => !isHiddenAlternative(branch));
+    return {
+      ...term,
+      terms: (shown.length > 0 ? shown : term.terms)
+        .map(dropHiddenAlternatives),
+    };
+  });
+}
+
 /**
  * Collects option names and command names that are valid as the *immediate*
  * next token at the current parse position ("leading candidates").
diff --git a/packages/core/src/usage.ts b/packages/core/src/usage.ts
index 0ef2f77..6ca3d10 100644
--- a/packages/core/src/usage.ts
+++ b/packages/core/src/usage.ts
@@ -708,13 +708,7 @@ function normalizeUsageTerm(term: UsageTerm): UsageTerm {
       const normalized = normalizeUsage(usage);
       if (normalized.length >= 1 && normalized[0].type === "exclusive") {
         const rest = normalized.slice(1);
-        // An alternative that is hidden must not leave the rest behind.
-        const shown = rest.length > 0
-          ? normalized[0].terms.filter((t) => !isHiddenAlternative(t))
-          : [];
-        for (
-          const subUsage of shown.length > 0 ? shown : normalized[0].terms
-        ) {
+        for (const subUsage of normalized[0].terms) {
           terms.push([...subUsage, ...rest]);
         }
       } else if (normalized.length > 0 || !containsMalformedLeaf(usage)) {
@@ -747,29 +741,6 @@ function normalizeUsageTerm(term: UsageTerm): UsageTerm {
   }
 }
 
-function isHiddenAlternative(usage: Usage): boolean {
-  let hiddenOption = false;
-  return usage.length > 0 && usage.every((term) => {
-    if (term.type === "literal") return term.optionValue && hiddenOption;
-    hiddenOption = false;
-    if (
-      term.type === "option" || term.type === "argument" ||
-      term.type === "passthrough"
-    ) {
-      hiddenOption = term.type === "option";
-      return isUsageHidden(term.hidden);
-    }
-    if (
-      term.type === "optional" || term.type === "multiple" ||
-      term.type === "sequence"
-    ) {
-      return isHiddenAlternative(term.terms);
-    }
-    return term.type === "exclusive" && term.terms.length > 0 &&
-      term.terms.every(isHiddenAlternative);
-  });
-}
-
 function isNonDegenerateTerm(term: UsageTerm): boolean {
   if (term.type === "option") return term.names.length > 0;
   if (term.type === "command") return term.name !== "";
-- 
2.43.0

