import * as core from "@optique/core";
import { runParser } from "@optique/core/facade";
import { formatUsage } from "@optique/core/usage";
import { suggestAsync, suggestSync } from "@optique/core/parser";
import { assert, equal, show } from "../lib/harness.mjs";
import { Tape, build, caseArb, editTokens, editsArb, optionNamesOf, planCase } from "../lib/grammar.mjs";

const outcome = (r) => r.success ? { ok: true, value: r.value } : { ok: false, error: core.formatMessage(r.error) };

/** Arbitrary words, biased to the grammar's names and to what confuses scanners. */
const junkArb = (fc) => fc.array(fc.oneof(
  { weight: 3, arbitrary: fc.record({ name: fc.nat(20), form: fc.nat(9), tail: fc.string({ unit: "grapheme", maxLength: 4 }) }) },
  { weight: 2, arbitrary: fc.string({ unit: "binary", maxLength: 12 }) },
  { weight: 2, arbitrary: fc.string({ unit: fc.constantFrom("-", "=", "/", ":", "+", "a", "1", "\n", " ", "\\", "'", "\"", "$", "\0", "\ud800", "\u200b"), maxLength: 8 }) },
  { weight: 1, arbitrary: fc.constantFrom("--", "-", "--=", "-=", "/", "/:", "+", "--__proto__", "__proto__", "constructor", "--constructor", "toString", "--toString=1", "hasOwnProperty", "-\ud83d\ude00", "--no-", "--no") },
), { maxLength: 10 });
const junkTokens = (names, junk) => junk.map((j) => {
  if (typeof j === "string") return j;
  const n = names.length ? names[j.name % names.length] : "--x";
  switch (j.form) {
    case 0: return n;
    case 1: return `${n}=${j.tail}`;
    case 2: return `${n}${j.tail}`;
    case 3: return n.toUpperCase();
    case 4: return n.slice(0, -1);
    case 5: return `-${n}`;
    case 6: return `${n}:${j.tail}`;
    case 7: return n.replace(/^--?/, "-");
    case 8: return j.tail + n;
    default: return j.tail;
  }
});

const PLAIN = ["a", "plain"], INHERITED = ["toString", "constructor", "valueOf", "hasOwnProperty", "isPrototypeOf"];

const OPS = ["parse", "parse", "parse", "parseSync", "suggest", "suggest", "doc", "usage"];
function perform(parser, op, line, isAsync) {
  switch (op) {
    case "parse": return Promise.resolve(core.parse(parser, line)).then(outcome);
    case "parseSync": return isAsync ? core.parseAsync(parser, line).then(outcome) : Promise.resolve(outcome(core.parseSync(parser, line)));
    case "suggest": {
      const l = line.length ? line : [""];
      return isAsync ? suggestAsync(parser, l) : Promise.resolve(suggestSync(parser, l));
    }
    case "doc": return Promise.resolve(core.getDocPage(parser, line)).then((d) => structuredClone(d ?? null));
    case "usage": return Promise.resolve(formatUsage("prog", parser.usage));
  }
}

export default {
  id: "C04",
  title: "Parsers are pure, reentrant values that never throw on a command line",
  statement: "Parsing, suggesting completions and building help pages with one parser object, any number of times, in any order and (with asynchronous value parsers) overlapping in time, gives for each command line exactly what a freshly built parser gives, and does not modify the argument array. For every list of strings as the command line, parsing terminates and returns a success or a failure with a non-empty message, and never throws.",
  quantifier: [["programs", "histories", "schedules", "inputs"], "all compositions of the combinators, all histories of operations on one parser object, all overlaps of asynchronous operations, all lists of strings"],
  why: "Tests build a parser, use it once and throw it away; leaks of state between runs, and exceptions for command lines nobody would type, need histories and hostile strings.",
  files: ["packages/core/src/constructs.ts", "packages/core/src/modifiers.ts", "packages/core/src/primitives.ts", "packages/core/src/parser.ts"],
  mechanism: [["parser state is threaded through results, not stored in the parser", "packages/core/src/constructs.ts"], ["caches of phase-two completion are created per parse", "packages/core/src/modifiers.ts"]],
  rule: "part robust: random grammars get frozen lists of hostile strings (names of the grammar misspelt, glued and cut; binary strings; control characters; lone surrogates). Part history: a random history of parse/suggest/help/usage operations on one parser, each compared with a fresh parser. Part overlap: the same with asynchronous value parsers and all operations started before any is awaited. Part inherited: names that objects inherit (toString, constructor, ...) as branch keys, choices, fields, commands, options and shells. Part long: repeated parts with hundreds of tokens. Non-trivial: the list is not empty, respectively the history has two operations or more.",
  parts: [
    {
      // names that every object inherits are names like any other
      name: "inherited", async: true,
      runs: { quick: 4000, thorough: 60000 },
      arb: (fc) => fc.record({ keys: fc.uniqueArray(fc.constantFrom(...PLAIN, ...INHERITED), { minLength: 1, maxLength: 4 }), pick: fc.nat(15), asArg: fc.boolean(), def: fc.boolean(), eq: fc.boolean(), kind: fc.constantFrom("cond", "cond", "choice", "fields", "commands", "options", "shell"), more: fc.boolean(), isAsync: fc.boolean() }),
      async check({ keys, pick, asArg, def, eq, kind, more, isAsync }, ctx) {
        const word = [...PLAIN, ...INHERITED][pick % (PLAIN.length + INHERITED.length)], known = keys.includes(word);
        const str = core.string();
        const vp = isAsync ? { ...str, mode: "async", parse: async (v) => str.parse(v), async *suggest() {} } : str;
        if (INHERITED.includes(word) || keys.some((k) => INHERITED.includes(k))) ctx.label(`${kind} ${known}`); else ctx.trivial("plain names");
        let parser, line, want;
        if (kind === "cond") {
          parser = core.conditional(asArg ? core.argument(vp) : core.option("--kind", vp), Object.fromEntries(keys.map((k) => [k, core.object({ is: core.constant(k), n: core.optional(core.option("--n", core.integer())) })])), ...(def ? [core.object({ n: core.optional(core.option("--n", core.integer())) })] : []));
          line = [...(asArg ? [word] : eq ? [`--kind=${word}`] : ["--kind", word]), ...(more ? ["--n", "3"] : [])];
          want = known ? [word, { is: word, n: more ? 3 : undefined }] : null;
        } else if (kind === "choice") {
          parser = core.object({ v: core.argument(core.choice(keys)) }); line = [word]; want = known ? { v: word } : null;
        } else if (kind === "fields") {
          parser = core.object(Object.fromEntries(keys.map((k, i) => [k, core.optional(core.option(`--f${i}`, vp))])));
          line = known ? [`--f${keys.indexOf(word)}`, word] : []; want = Object.fromEntries(keys.map((k) => [k, k === word ? word : undefined]));
        } else if (kind === "commands") {
          parser = keys.length > 1 ? core.or(...keys.map((k) => core.command(k, core.object({ is: core.constant(k) })))) : core.command(keys[0], core.object({ is: core.constant(keys[0]) }));
          line = [word]; want = known ? { is: word } : null;
        } else if (kind === "options") {
          parser = core.object(Object.fromEntries(keys.map((k, i) => [`f${i}`, core.optional(core.option(`--${k}`, vp))])));
          line = [`--${word}`, "v"]; want = known ? Object.fromEntries(keys.map((k, i) => [`f${i}`, k === word ? "v" : undefined])) : null;
        } else {
          const calls = [];
          const shells = Object.fromEntries(keys.map((k) => [k, { name: k, generateScript: () => `script ${k}`, *encodeSuggestions() {} }]));
          const out = [], err = [];
          const v = runParser(core.object({ o: core.optional(core.option("--o", core.string())) }), "prog", ["completion", word, ...(more ? ["--"] : [])], { completion: { command: true, shells }, stdout: (s) => out.push(s), stderr: (s) => err.push(s), onError: () => "error" });
          if (known) { if (!more) equal(out, [`script ${word}`], `script of ${word}`); assert(!err.length, () => `error for ${word}: ${show(err)}`); } else { equal(v, "error", `result for the unknown shell ${word}`); assert(!out.length && err.length, () => `output for the unknown shell ${word}: ${show(out)}`); }
          return;
        }
        const r = await (isAsync ? core.parseAsync(parser, line) : core.parse(parser, line));
        if (want === null) { assert(!r.success, () => `${show(line)} gives ${show(r.value)}`); return; }
        assert(r.success, () => `${show(line)}: ${core.formatMessage(r.error)}`);
        equal(r.value, want, `value of ${show(line)}`);
        const s = isAsync ? await suggestAsync(parser, [...line, ""]) : suggestSync(parser, [...line, ""]);
        assert(Array.isArray(s), "suggestions are not an array");
        await core.getDocPage(parser, line);
      },
    },
    {
      name: "robust", async: true,
      runs: { quick: 12000, thorough: 400000 },
      arb: (fc) => fc.record({ c: caseArb(fc), edits: editsArb(fc, 2), junk: junkArb(fc), at: fc.nat(12) }),
      async check({ c, edits, junk, at }, ctx) {
        const p = planCase(c);
        if (!p) return ctx.trivial("no plan");
        const base = editTokens(p, edits);
        const i = base.length ? at % (base.length + 1) : 0;
        const line = [...base.slice(0, i), ...junkTokens(optionNamesOf(p.spec), junk), ...base.slice(i)];
        Object.freeze(line);
        const copy = [...line];
        const parser = build(p.spec);
        const r = core.parse(parser, line);
        equal(line, copy, "the command line was modified");
        ctx.label(r.success ? "accept" : "reject");
        if (!r.success) {
          const text = core.formatMessage(r.error);
          assert(typeof text === "string" && text.trim() !== "", () => `empty message for ${show(line)}`);
        } else assert("value" in r, "no value");
        const s = suggestSync(parser, line.length ? line : [""]);
        assert(Array.isArray(s), "suggestions are not an array");
        core.getDocPageSync(parser, line);
        equal(line, copy, "the command line was modified by suggest or getDocPage");
        if (!line.length) ctx.trivial("empty line");
      },
    },
    {
      name: "history", async: true,
      runs: { quick: 3000, thorough: 90000 },
      arb: (fc) => fc.record({ c: caseArb(fc), ops: fc.array(fc.record({ op: fc.nat(OPS.length - 1), edits: editsArb(fc, 3), cut: fc.nat(20) }), { minLength: 1, maxLength: 8 }) }),
      async check({ c, ops }, ctx) {
        const p = planCase(c);
        if (!p) return ctx.trivial("no plan");
        const shared = build(p.spec);
        const done = [];
        for (const { op, edits, cut } of ops) {
          let line = editTokens(p, edits);
          if (OPS[op] === "suggest" || OPS[op] === "doc") line = line.slice(0, line.length ? cut % (line.length + 1) : 0);
          done.push([OPS[op], line]);
          const got = await perform(shared, OPS[op], Object.freeze([...line]), false);
          const want = await perform(build(p.spec), OPS[op], line, false);
          equal(got, want, `after ${show(done)}, the shared parser differs from a fresh one\n  spec ${show(p.spec)}`);
        }
        if (ops.length < 2) ctx.trivial("one operation");
      },
    },
    {
      name: "overlap", async: true,
      runs: { quick: 2500, thorough: 80000 },
      arb: (fc) => fc.record({ c: caseArb(fc), bits: fc.array(fc.nat(1), { maxLength: 10 }), ticks: fc.array(fc.nat(5), { maxLength: 40 }), ops: fc.array(fc.record({ op: fc.nat(OPS.length - 1), edits: editsArb(fc, 2) }), { minLength: 2, maxLength: 6 }) }),
      async check({ c, bits, ticks, ops }, ctx) {
        const p = planCase(c);
        if (!p) return ctx.trivial("no plan");
        const t = new Tape(bits), k = new Tape(ticks);
        const env = { isAsync: () => t.pick(2) === 0, ticks: () => k.pick(6) };
        const shared = build(p.spec, env);
        const list = ops.map(({ op, edits }) => [OPS[op], editTokens(p, edits)]);
        const got = await Promise.all(list.map(([op, line]) => perform(shared, op, Object.freeze([...line]), shared.mode === "async")));
        const fresh = build(p.spec);
        for (let i = 0; i < list.length; i++) {
          equal(got[i], await perform(fresh, list[i][0], list[i][1], false), `operation ${i} of ${show(list)} started together differs from the same alone\n  spec ${show(p.spec)}`);
        }
        if (shared.mode !== "async") ctx.trivial("no asynchronous value parser");
      },
    },
    {
      name: "long",
      runs: { quick: 60, thorough: 600 },
      arb: (fc) => fc.record({ n: fc.integer({ min: 50, max: 400 }), kind: fc.nat(5), opts: fc.nat(5) }),
      check({ n, kind, opts }, ctx) {
        const extra = {};
        for (let i = 0; i < opts; i++) extra[`o${i}`] = core.option(`--opt${i}`);
        const words = Array.from({ length: n }, (_, i) => `w${i}`);
        let parser, line, want;
        switch (kind) {
          case 0: parser = core.object({ ...extra, a: core.multiple(core.argument(core.string())) }); line = words; want = words; break;
          case 1: parser = core.object({ ...extra, a: core.multiple(core.option("-x", core.string())) }); line = words.flatMap((w) => ["-x", w]); want = words; break;
          case 2: parser = core.object({ ...extra, a: core.map(core.multiple(core.flag("-v")), (x) => x.length) }); line = [`-${"v".repeat(n)}`]; want = n; break;
          case 3: parser = core.object({ ...extra, a: core.map(core.multiple(core.flag("-v")), (x) => x.length) }); line = words.map(() => "-v"); want = n; break;
          case 4: parser = core.object({ ...extra, a: core.multiple(core.argument(core.string())) }); line = ["--", ...words]; want = words; break;
          default: parser = core.object({ ...extra, a: core.passThrough({ format: "greedy" }) }); line = words.map((w) => `--${w}`); want = line;
        }
        const r = core.parse(parser, Object.freeze(line));
        assert(r.success, () => `rejected: ${core.formatMessage(r.error)}`);
        equal(r.value.a, want, "wrong value");
      },
    },
  ],
};
