import * as core from "@optique/core";
import { getAnnotations } from "@optique/core/annotations";
import { defineTraits } from "@optique/core/extension";
import { runWith, runWithAsync, runWithSync } from "@optique/core/facade";
import { run, runAsync, runSync } from "@optique/run";
import { assert, equal, show } from "../lib/harness.mjs";
import { toAsync } from "../lib/grammar.mjs";

const KEYS = ["a", "b", "c", "d"].map((k) => Symbol(k));
const IDS = [0, 1, 2, 3, 4, 5].map((i) => Symbol(`ctx${i}`));
const plain = (annotations) => Object.fromEntries(KEYS.map((k, i) => [i, annotations?.[k]]).filter(([, v]) => v !== undefined));

/** Something in one case out of n. */
const rarely = (fc, n, arb, nil) => fc.oneof({ weight: n - 1, arbitrary: fc.constant(nil) }, { weight: 1, arbitrary: arb });
const pairsArb = (fc) => fc.array(fc.tuple(fc.nat(3), fc.nat(9)), { maxLength: 3 });
const ctxArb = (fc) => fc.record({
  id: fc.nat(5), phase: fc.constantFrom("single-pass", "two-pass", "two-pass"), invalid: rarely(fc, 40, fc.constantFrom("", "once", null), undefined),
  later: fc.nat(7), one: pairsArb(fc), two: pairsArb(fc), internal: rarely(fc, 3, pairsArb(fc), null),
  fails: fc.constantFrom(0, 0, 0, 0, 0, 0, 1, 2), dispose: fc.nat(6), disposeFails: fc.constantFrom(false, false, false, true), disposeLater: fc.boolean(),
});
const caseArb = (fc) => fc.record({
  ctxs: fc.uniqueArray(ctxArb(fc), { minLength: 1, maxLength: 5, selector: (c) => c.id }), dup: rarely(fc, 20, fc.nat(4), null),
  line: fc.constantFrom("ok", "ok", "ok", "ok", "bad", "missing", "help", "help2", "version", "completion"), x: fc.nat(9), isAsync: fc.boolean(), how: fc.nat(5), layout: fc.nat(2), slow: fc.nat(3),
});

/** A promise nobody may await: a synchronous runner drops it. */
const quiet = (p) => { p.catch(() => {}); return p; };

/** What is merged from several lists of [key, value]: the first list to have a key wins, in a list the last entry. */
function merged(lists) {
  const out = {};
  for (const l of [...lists].reverse()) Object.assign(out, Object.fromEntries(l));
  return out;
}

export default {
  id: "C24",
  title: "Source contexts are collected, merged and disposed exactly as promised",
  statement: "A runner collects every context once in order, and two-pass contexts a second time with the value parsed meanwhile; that second snapshot replaces the context's first, and earlier contexts win over later ones for the same key. The second collection is skipped when help, version or completion is asked for or nothing usable was parsed. Whatever happens, every context is disposed exactly once, in order, after everything else, and no error is lost: the failure is thrown as is, disposal failures alone or aggregated, and both together as SuppressedError.",
  quantifier: [["histories", "faults"], "up to five contexts of either phase, failing or answering late at any point, with any kind of disposal, overlapping keys, duplicate or invalid declarations, on lines that parse, fail or ask for help"],
  why: "The order of calls, merging and error handling depend on the combination of all contexts; tests fix one or two contexts and one fault.",
  files: ["packages/core/src/facade.ts", "packages/core/src/context.ts", "packages/run/src/run.ts"],
  mechanism: [["runWith(), runWithSync(), collectPhase1Annotations(), collectFinalAnnotations(), disposeContexts()", "packages/core/src/facade.ts"], ["run(), runSync(), runAsync() with contexts", "packages/run/src/run.ts"]],
  observe: ["the sequence of calls the contexts receive, annotations a parser sees, and the outcome of the runner"],
  rule: "two or more contexts, or one with a second pass, a fault or a disposer.",
  parts: [{
    name: "lifecycle", runs: { quick: 40000, thorough: 1000000 }, async: true,
    arb: caseArb,
    async check(c, ctx) {
      const log = [], specs = c.ctxs.map((s) => ({ ...s }));
      if (c.dup !== null && specs.length > 1 && c.dup < specs.length - 1) specs[specs.length - 1].id = specs[c.dup].id;
      const isRun = c.how >= 3;
      let how = c.how;
      if (c.isAsync && how % 3 === 1) how++;
      const sync = how % 3 === 1; // runWithSync, runSync
      // run() of a sync parser works synchronously as long as it can; with contexts it is always asynchronous
      const options = { secret: {} };
      const errors = specs.map((s, i) => ({ phase1: new Error(`phase1 of ${i}`), phase2: new Error(`phase2 of ${i}`), dispose: new Error(`dispose of ${i}`) }));
      const contexts = specs.map((s, i) => {
        const o = {
          id: IDS[s.id], phase: s.invalid === undefined ? s.phase : s.invalid,
          getAnnotations(request, opts) {
            log.push(["collect", i, request.phase, ...(request.phase === "phase2" ? [request.parsed] : [])]);
            assert(opts === options, () => `context ${i} is not given the context options but ${show(opts)}`);
            const p = request.phase === "phase2" ? 2 : 1;
            const answer = () => { if (s.fails === p) throw errors[i][request.phase]; return Object.fromEntries((p === 1 ? s.one : s.two).map(([k, v]) => [KEYS[k], v])); };
            if (!(s.later & p)) return answer();
            return quiet(new Promise((resolve, reject) => { const go = () => { log.push(["ready", i, request.phase]); try { resolve(answer()); } catch (e) { reject(e); } }; let n = (i * 7 + s.later) % 4; const tick = () => n-- > 0 ? queueMicrotask(tick) : go(); tick(); }));
          },
        };
        if (s.internal) o.getInternalAnnotations = (request, annotations) => { log.push(["internal", i, request.phase, plain(annotations)]); return Object.fromEntries(s.internal.map(([k, v]) => [KEYS[k], v + 100])); };
        const disposer = (kind) => () => {
          log.push(["dispose", i, kind]);
          if (s.disposeFails && !(kind === "async" && s.disposeLater)) throw errors[i].dispose;
          if (kind === "async" && s.disposeLater) return quiet(new Promise((resolve, reject) => queueMicrotask(() => queueMicrotask(() => { log.push(["disposed", i]); s.disposeFails ? reject(errors[i].dispose) : resolve(); }))));
        };
        if (s.dispose & 1) o[Symbol.dispose] = disposer("sync");
        if (s.dispose & 2) o[Symbol.asyncDispose] = disposer("async");
        return o;
      });
      // A parser that notes the annotations it sees.
      const probe = {
        ...core.constant("probe"), initialState: undefined, parse: (context) => ({ success: true, next: context, consumed: [] }),
        complete(state) { log.push(["complete", plain(getAnnotations(state))]); return { success: true, value: "probe" }; },
      };
      defineTraits(probe, { inheritsAnnotations: true });
      const vp = c.isAsync ? toAsync(core.integer(), () => c.slow) : core.integer();
      const fields = { x: core.option("--x", vp), probe };
      const parser = c.layout === 0 ? core.object(fields) : c.layout === 1 ? core.object({ in: core.object(fields) }) : core.merge(core.object({ x: fields.x }), core.object({ probe }));
      const value = (v) => c.layout === 1 ? { in: v } : v;
      const args = { ok: ["--x", String(c.x)], bad: ["--x", String(c.x), "--nope"], missing: [], help: ["--help"], help2: ["--x", String(c.x), "--help"], version: ["--version"], completion: ["completion", "bash"] }[c.line];
      class Exit extends Error { constructor(code) { super(`exit ${code}`); this.code = code; } }
      const shown = [];
      const opts = isRun
        ? { programName: "prog", args, contexts, contextOptions: options, help: "both", version: { value: "1.0", option: true }, completion: "both", stdout: () => {}, stderr: () => {}, onExit: (code) => { throw new Exit(code); } }
        : { args, contextOptions: options, stdout: () => {}, stderr: () => {}, help: { option: true, command: true, onShow: () => { shown.push("help"); return "help"; } }, version: { value: "1.0", option: true, onShow: () => { shown.push("version"); return "version"; } }, completion: { command: true, option: true, onShow: () => { shown.push("completion"); return "completion"; } }, onError: () => { shown.push("error"); return "error"; } };
      let result, thrown, threw = false, returnedPromise;
      try {
        const r = isRun ? [run, runSync, runAsync][how % 3](parser, opts) : [runWith, runWithSync, runWithAsync][how % 3](parser, "prog", contexts, opts);
        returnedPromise = r instanceof Promise;
        result = await r;
      } catch (e) { threw = true; thrown = e; }
      const what = `${["runWith", "runWithSync", "runWithAsync", "run", "runSync", "runAsync"][how]}() of ${args.join(" ")}${c.isAsync ? " (async)" : ""}`;

      // The model.
      const want = [];
      let failure = null, failed = false; // thrown by the body
      const one = [], fail = (e) => { failure = e; failed = true; };
      const dup = specs.some((s, i) => specs.findIndex((t) => t.id === s.id) !== i);
      const TYPE = Symbol("a TypeError");
      let finalSeen = null, secondPass = false, outcome = null;
      const meta = ["help", "help2", "version", "completion"].includes(c.line);
      const collect = (i, phase, lists) => {
        const s = specs[i], p = phase === "phase1" ? 1 : 2;
        want.push(["collect", i, phase]);
        if (s.later & p) { if (sync) { want.push(["?ready", i, phase]); fail(TYPE); return; } want.push(["ready", i, phase]); }
        if (s.fails === p) { fail(errors[i][phase]); return; }
        const main = p === 1 ? s.one : s.two;
        if (s.internal) want.push(["internal", i, phase, merged([main])]);
        lists.push(Object.entries(merged([main, ...(s.internal ? [s.internal.map(([k, v]) => [k, v + 100])] : [])])));
      };
      if (dup || specs.some((s) => s.invalid !== undefined)) fail(TYPE);
      for (let i = 0; i < specs.length && !failed; i++) collect(i, "phase1", one);
      if (!failed) {
        const two = specs.some((s) => s.phase === "two-pass");
        finalSeen = merged(one);
        if (meta) outcome = c.line === "help2" ? "help" : c.line;
        else {
          if (two) {
            secondPass = true;
            const lists = [];
            for (let i = 0; i < specs.length && !failed; i++) {
              if (specs[i].phase === "single-pass") { lists.push(one[i]); continue; }
              collect(i, "phase2", lists);
            }
            finalSeen = merged(lists);
          }
          if (!failed) outcome = c.line === "ok" ? "value" : "error";
        }
      }
      const disposeErrors = [];
      specs.forEach((s, i) => {
        const kind = sync ? (s.dispose & 1 ? "sync" : s.dispose & 2 ? "async" : null) : (s.dispose & 2 ? "async" : s.dispose & 1 ? "sync" : null);
        if (!kind) return;
        want.push(["dispose", i, kind]);
        if (kind === "async" && s.disposeLater) {
          if (sync) { want.push(["?disposed", i]); disposeErrors.push(TYPE); return; }
          want.push(["disposed", i]);
        }
        if (s.disposeFails) disposeErrors.push(errors[i].dispose);
      });
      if (specs.length === 1 && specs[0].phase === "single-pass" && !failed && !disposeErrors.length && specs[0].dispose % 4 === 0) ctx.trivial("one plain context");
      else ctx.label(failed ? "fails" : outcome, secondPass ? "second pass" : "one pass", disposeErrors.length ? "disposal fails" : "disposed");

      // Compare the histories, leaving the parser's own entries aside.
      const completes = [];
      const calls = [];
      log.forEach((e) => { if (e[0] === "complete") completes.push(e[1]); else calls.push(e); });
      const strip = (e) => e[0] === "collect" ? e.slice(0, 3) : e;
      equal(calls.filter((e) => !(sync && (e[0] === "ready" || e[0] === "disposed"))).map(strip), want.filter((e) => !e[0].startsWith("?")), `${what}: calls`);
      const firstDispose = log.findIndex((e) => e[0] === "dispose");
      assert(firstDispose < 0 || !log.slice(firstDispose).some((e) => e[0] !== "dispose" && e[0] !== "disposed" && !(sync && e[0] === "ready")), () => `${what}: something happens after disposal began: ${show(log)}`);
      for (const e of calls) if (e[0] === "collect" && e[2] === "phase2") equal(e[3], value({ ...(c.line === "missing" ? {} : { x: c.x }), probe: "probe" }), `${what}: value handed to the second pass`);
      // The outcome.
      const matches = (e, t) => t === TYPE ? e instanceof TypeError : e === t;
      if (!isRun && how % 3 !== 1) assert(threw || returnedPromise, () => `${what} does not return a Promise`);
      if (!failed && isRun && outcome !== "value") { failure = outcome === "error" ? 1 : 0; failed = true; }
      const matchesPrimary = (e) => typeof failure === "number" ? e instanceof Exit && e.code === failure : matches(e, failure);
      const matchesDispose = (e) => disposeErrors.length === 1 ? matches(e, disposeErrors[0]) : e instanceof AggregateError && e.errors.length === disposeErrors.length && e.errors.every((x, i) => matches(x, disposeErrors[i]));
      if (failed && disposeErrors.length) assert(threw && thrown?.name === "SuppressedError" && matchesPrimary(thrown.suppressed) && matchesDispose(thrown.error), () => `${what}: both fail, but ${threw ? "throws" : "returns"} ${show(threw ? thrown : result)} (suppressed ${show(thrown?.suppressed)}, error ${show(thrown?.error)})`);
      else if (failed) assert(threw && matchesPrimary(thrown), () => `${what} should fail with ${String(failure)}, but ${threw ? "throws" : "returns"} ${show(threw ? thrown : result)}`);
      else if (disposeErrors.length) assert(threw && matchesDispose(thrown), () => `${what}: disposal fails, but ${threw ? "throws" : "returns"} ${show(threw ? thrown : result)}`);
      else if (outcome === "value") {
        assert(!threw, () => `${what} throws ${show(thrown)}`);
        equal(result, value({ x: c.x, probe: "probe" }), what);
        assert(completes.length > 0, () => `${what}: never completed`);
      } else {
        assert(!threw, () => `${what} throws ${show(thrown)}`);
        equal(result, outcome, what);
      }
      if (!isRun && outcome && !(failed && typeof failure !== "number")) equal(shown, outcome === "value" ? [] : [outcome], `${what}: callbacks called`);
      if (outcome === "value" && completes.length) {
        equal(completes.at(-1), finalSeen, `${what}: annotations at the end`);
        equal(completes[0], secondPass ? merged(one) : finalSeen, `${what}: annotations in the first pass`);
      }
    },
  }],
};
