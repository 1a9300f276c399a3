import * as core from "@optique/core";
import { parseAsync, parseSync } from "@optique/core/parser";
import { findSimilar, levenshteinDistance } from "@optique/core/suggestion";
import { assert, equal, show } from "../lib/harness.mjs";
import { dress } from "../lib/dress.mjs";
import { build, caseArb, nodeArbs, nodes, planCase } from "../lib/grammar.mjs";

function distance(a, b) {
  const d = Array.from({ length: a.length + 1 }, (_, i) => [i, ...Array(b.length).fill(0)]);
  for (let j = 0; j <= b.length; j++) d[0][j] = j;
  for (let i = 1; i <= a.length; i++) for (let j = 1; j <= b.length; j++) d[i][j] = Math.min(d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + (a[i - 1] === b[j - 1] ? 0 : 1));
  return d[a.length][b.length];
}
const dist = (a, b) => distance(a.toLowerCase(), b.toLowerCase());
/** The names to propose for a word, nearest first; equally near ones by length, then alphabet. */
function nearest(word, names, { maxDistance = 3, maxDistanceRatio = 0.5, maxSuggestions = 3, caseSensitive = false } = {}) {
  if (!word) return [];
  const d = caseSensitive ? distance : dist;
  const uniq = [...new Set(names)];
  const same = uniq.find((n) => d(word, n) === 0);
  if (same !== undefined) return [same];
  return uniq.filter((n) => d(word, n) <= maxDistance && d(word, n) / word.length <= maxDistanceRatio)
    .sort((a, b) => d(word, a) - d(word, b) || Math.abs(a.length - word.length) - Math.abs(b.length - word.length) || a.localeCompare(b))
    .slice(0, maxSuggestions);
}
/** What an error message proposes, or null. */
function proposed(error) {
  const at = error.findIndex((t) => t.type === "text" && t.text.includes("Did you mean"));
  return at < 0 ? null : error.slice(at).filter((t) => t.type === "optionName" || t.type === "value").map((t) => t.optionName ?? t.value);
}
/** A slip of the pen. */
function slip(word, [kind, at, ch]) {
  const i = Math.min(at, word.length);
  const c = "abcdeorstxyz-"[ch % 13];
  switch (kind % 5) {
    case 0: return word.slice(0, i) + c + word.slice(i);
    case 1: return word.slice(0, i) + word.slice(i + 1);
    case 2: return word.slice(0, i) + c + word.slice(i + 1);
    case 3: return word.slice(0, i) + word.slice(i + 1, i + 2) + word.slice(i, i + 1) + word.slice(i + 2);
    default: return word.slice(0, i) + word.slice(i).toUpperCase();
  }
}
const slips = (fc) => fc.array(fc.tuple(fc.nat(4), fc.nat(10), fc.nat(12)), { minLength: 1, maxLength: 4 });
const WORDS = ["verbose", "version", "verify", "color", "colour", "output", "input", "add", "added", "remove", "remote", "rename", "commit", "commits", "x"];
const LONG = WORDS.map((w) => `--${w}`).concat("-v", "-V", "--no-color", "/out", "--Verbose");
const hideOf = (h) => h === undefined ? {} : { hidden: h };
const HIDE = [undefined, undefined, undefined, true, "usage", "doc", "help"];

export default {
  id: "C21",
  title: "A mistyped name gets the nearest existing names, and only those, proposed",
  statement: "When an option, command or choice is mistyped, the names in the error's \"Did you mean\" are existing names within edit distance 3 and half the length of what was typed, ignoring case: at most three, nearest first, never one hidden from everything. In an object of options or a choice of commands all near names are candidates, and an alias is proposed along with its command. choice() with suggest follows its own limits or function, and findSimilar() its options.",
  quantifier: [["programs", "inputs"], "random sets of options, commands, aliases, visibilities and choices with random slips; random grammars and mistyped lines for soundness; random words, candidates and limits for findSimilar()"],
  why: "Tests try a handful of typos; which names are in range, their order and their visibility depend on all names at once.",
  files: ["packages/core/src/suggestion.ts", "packages/core/src/constructs.ts", "packages/core/src/primitives.ts", "packages/core/src/usage.ts", "packages/core/src/usage-internals.ts", "packages/core/src/valueparser.ts"],
  mechanism: [["findSimilar(), createErrorWithSuggestions(), expandCommandAliasSuggestions()", "packages/core/src/suggestion.ts"], ["createUnexpectedInputErrorWithScopedSuggestions()", "packages/core/src/constructs.ts"], ["choice() with suggest", "packages/core/src/valueparser.ts"]],
  observe: ["the error of a failed parse", "findSimilar() result"],
  rule: "similar, options, commands, choice: at least one name is near enough; sound: the error proposes something.",
  assumptions: ["Completeness is claimed for an object of options and for or()/longestMatch() of commands; merge(), tuple() and the inside of a chosen command give no or fewer proposals by design."],
  parts: [
    {
      name: "similar", runs: { quick: 20000, thorough: 500000 },
      arb: (fc) => {
        const w = fc.oneof(fc.constantFrom(...WORDS, ...LONG), fc.string({ unit: fc.constantFrom("a", "b", "A", "-"), maxLength: 6 }), fc.tuple(fc.constantFrom(...LONG), slips(fc)).map(([s, sl]) => sl.reduce(slip, s)));
        return w.chain((word) => fc.record({ word: fc.constant(word), names: fc.array(fc.oneof(w, slips(fc).map((sl) => sl.reduce(slip, word))), { maxLength: 10 }), maxDistance: fc.constantFrom(undefined, 0, 1, 2, 5, 100), maxDistanceRatio: fc.constantFrom(undefined, 0.2, 0.34, 1, 100), maxSuggestions: fc.constantFrom(undefined, 0, 1, 2, 10), caseSensitive: fc.constantFrom(undefined, true, false) }));
      },
      check({ word, names, ...o }, ctx) {
        const opt = Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined));
        const want = nearest(word, names, opt);
        if (!want.length) ctx.trivial("nothing near");
        equal(findSimilar(word, names, opt), want, `names similar to ${word} among ${show(names)} with ${show(opt)}`);
        equal(findSimilar(word, new Set(names), opt), want, "the same from a set");
        equal(levenshteinDistance(word, names[0] ?? ""), distance(word, names[0] ?? ""), "edit distance");
      },
    },
    {
      name: "options", runs: { quick: 10000, thorough: 200000 },
      arb: (fc) => fc.record({
        opts: fc.uniqueArray(fc.record({ name: fc.constantFrom(...LONG), kind: fc.nat(4), wrap: fc.nat(2), hide: fc.constantFrom(...HIDE) }), { minLength: 1, maxLength: 7, selector: (o) => o.name }),
        pick: fc.nat(6), slips: slips(fc), before: fc.nat(2), arg: fc.boolean(), custom: fc.boolean(), async: fc.boolean(),
      }),
      async: true,
      async check(c, ctx) {
        const typed = c.slips.reduce(slip, c.opts[c.pick % c.opts.length].name);
        if (!typed.startsWith("-") || typed.length < 2 || /^--?$/.test(typed)) return ctx.trivial("not like an option");
        if (c.opts.some((o) => typed === o.name || typed.startsWith(`${o.name}=`) || (o.name.length === 2 && typed.startsWith(o.name)) || o.name.startsWith("/"))) return ctx.trivial("matches an option");
        if (/^-[a-z-]/i.test(typed) && !typed.startsWith("--") && c.opts.some((o) => o.name.length === 2)) return ctx.trivial("may be a bundle");
        const fields = {};
        const str = c.async ? { mode: "async", metavar: "S", placeholder: "", parse: (s) => Promise.resolve({ success: true, value: s }), format: (v) => v } : core.string();
        c.opts.forEach((o, i) => {
          const h = hideOf(o.hide);
          const p = o.kind === 0 ? core.option(o.name, h) : o.kind === 1 ? core.option(o.name, str, h) : o.kind === 2 ? core.flag(o.name, h) : o.kind === 3 ? core.option(o.name, core.integer(), h) : core.negatableFlag({ positive: o.name, negative: `--off-it-${i}-${"zyx".repeat(3)}` }, h);
          fields[`f${i}`] = o.wrap === 0 ? core.optional(p) : o.wrap === 1 && o.kind > 0 && o.kind < 4 ? core.multiple(p) : p;
        });
        if (c.arg) fields.arg = core.argument(core.string());
        const seen = [];
        const parser = c.custom ? core.object(fields, { errors: { suggestions: (l) => { seen.push([...l]); return [{ type: "text", text: "Did you mean" }, ...l.map((v) => ({ type: "value", value: v }))]; } } }) : core.object(fields);
        const names = c.opts.flatMap((o) => o.hide === true ? [] : [o.name]);
        const want = nearest(typed, names);
        const args = [typed];
        if (c.before === 1 && c.arg) args.unshift("plain");
        const r = c.async ? await parseAsync(parser, args) : parseSync(parser, args);
        assert(!r.success, () => `${show(args)} is accepted as ${show(r.value)}`);
        if (!want.length) ctx.trivial("nothing near");
        equal(proposed(r.error) ?? [], want, `names proposed for ${typed} among ${show(names)}: ${core.formatMessage(r.error)}`);
        if (c.custom) equal(seen.at(-1), want, "names given to the custom message");
        if (want.length === 1 && !c.custom) assert(core.formatMessage(r.error).endsWith(`Did you mean \`${want[0]}\`?`), () => `${want[0]} is not asked for in ${show(core.formatMessage(r.error))}`);
        // printed one per line
        if (want.length > 1 && !c.custom) { const lines = core.formatMessage(r.error).split("\n").map((l) => l.trim()); for (const w of want) assert(lines.includes(`\`${w}\``), () => `${w} has no line of its own in ${show(lines)}`); }
      },
    },
    {
      name: "commands", runs: { quick: 10000, thorough: 200000 },
      arb: (fc) => {
        const name = fc.constantFrom(...WORDS.slice(0, -1));
        return fc.record({
          cmds: fc.uniqueArray(name, { minLength: 2, maxLength: 9 }).chain((ns) => fc.tuple(...ns.map(() => fc.tuple(fc.nat(5), fc.constantFrom(...HIDE)))).map((t) => {
            const out = [];
            ns.forEach((n, i) => {
              const [k, hide] = t[i], last = out.at(-1);
              if (k >= 4 && last) last.aliases.push(n); else out.push({ name: n, hide, aliases: [] });
            });
            return out;
          })),
          pick: fc.tuple(fc.nat(6), fc.nat(2)), slips: slips(fc), how: fc.nat(3),
        });
      },
      check(c, ctx) {
        const all = c.cmds.flatMap((q) => [q.name, ...q.aliases]);
        const q = c.cmds[c.pick[0] % c.cmds.length];
        const of = [q.name, ...q.aliases];
        const typed = c.slips.reduce(slip, of[c.pick[1] % of.length]);
        if (all.includes(typed) || typed === "" || typed.startsWith("-")) return ctx.trivial("not a typo");
        const cmds = c.cmds.map((q) => core.command(q.name, core.object({ inner: core.optional(core.option(`--${"qj".repeat(9)}`)) }), { ...(q.aliases.length ? { aliases: q.aliases } : {}), ...hideOf(q.hide) }));
        const choice = cmds.length === 1 ? cmds[0] : c.how % 2 ? core.longestMatch(...cmds) : core.or(...cmds);
        const parser = c.how < 2 ? choice : core.object({ global: core.optional(core.option("--quite-another-thing")), cmd: choice });
        const usable = c.cmds.filter((q) => q.hide !== true);
        const names = usable.flatMap((q) => [q.name, ...q.aliases]);
        const near = nearest(typed, names);
        const want = [...new Set(near.flatMap((n) => { const q = usable.find((q) => q.name === n || q.aliases.includes(n)); return q.name === n ? [q.name] : [q.name, n]; }))];
        const r = parseSync(parser, [typed]);
        assert(!r.success, () => `${typed} is accepted`);
        if (!want.length) ctx.trivial("nothing near");
        equal(proposed(r.error) ?? [], want, `commands proposed for ${typed} among ${show(c.cmds)}: ${core.formatMessage(r.error)}`);
      },
    },
    {
      name: "choice", runs: { quick: 8000, thorough: 100000 },
      arb: (fc) => fc.record({
        list: fc.uniqueArray(fc.constantFrom(...WORDS, "dev", "prod", "production", "staging"), { minLength: 1, maxLength: 8 }), pick: fc.nat(7), slips: slips(fc), ci: fc.boolean(),
        suggest: fc.oneof(fc.constantFrom("nearest", "never", null), fc.record({ maxDistance: fc.nat(6), maxSuggestions: fc.integer({ min: 1, max: 4 }) }, { requiredKeys: [] }), fc.record({ give: fc.option(fc.array(fc.constantFrom("this", "that"), { maxLength: 3 }), { nil: undefined }) })),
      }),
      check(c, ctx) {
        const typed = c.slips.reduce(slip, c.list[c.pick % c.list.length]);
        if (c.list.some((x) => x.toLowerCase() === typed.toLowerCase())) return ctx.trivial("a choice");
        if (c.ci && new Set(c.list.map((x) => x.toLowerCase())).size < c.list.length) return ctx.trivial("ambiguous");
        const calls = [];
        const fn = c.suggest && typeof c.suggest === "object" && "give" in c.suggest;
        const suggest = fn ? (input, choices) => { calls.push([input, [...choices]]); return c.suggest.give; } : c.suggest;
        const r = core.choice(c.list, { ...(c.suggest === null ? {} : { suggest }), ...(c.ci ? { caseInsensitive: true } : {}) }).parse(typed);
        assert(!r.success, () => `${typed} is a choice of ${show(c.list)}`);
        const want = c.suggest === null || c.suggest === "never" ? [] : fn ? c.suggest.give ?? [] : nearest(typed, c.list, c.suggest === "nearest" ? {} : c.suggest);
        if (!want.length) ctx.trivial("nothing near");
        equal(proposed(r.error) ?? [], want, `choices proposed for ${typed}`);
        if (fn) equal(calls, [[typed, c.list]], "what the function is given");
      },
    },
    {
      name: "sound", runs: { quick: 10000, thorough: 300000 },
      arb: (fc) => fc.record({ c: caseArb(fc, nodeArbs(fc).root), hid: fc.array(fc.nat(7), { maxLength: 8 }), at: fc.nat(8), slips: slips(fc) }),
      check({ c, hid, at, slips }, ctx) {
        const p = planCase(c);
        if (!p) return ctx.trivial("no plan");
        const where = p.roles.flatMap((r, i) => r?.name ? [i] : []);
        if (!where.length) return ctx.trivial("no name in the line");
        const i = where[at % where.length];
        const tokens = [...p.tokens];
        tokens[i] = slips.reduce(slip, tokens[i]);
        const spec = dress(p.spec, hid);
        const r = parseSync(build(spec), tokens);
        if (r.success) return ctx.trivial("accepted all the same");
        const got = proposed(r.error);
        if (!got) return ctx.trivial("nothing proposed");
        const names = new Map();
        for (const n of nodes(spec)) {
          for (const x of n.names ?? []) names.set(x, n.hidden);
          for (const x of [...(n.pos ?? []), ...(n.neg ?? [])]) names.set(x, n.hidden);
          if (n.k === "cond") for (const x of n.names ?? []) names.set(x, n.hidden);
          if (n.k === "cmds") for (const q of n.list) for (const x of [q.name, ...(q.aliases ?? [])]) names.set(x, q.hidden);
        }
        const head = r.error.slice(0, r.error.findIndex((t) => t.text?.includes("Did you mean")));
        const word = head.findLast((t) => t.type === "value") ?? head.find((t) => t.type === "optionName");
        const typed = word?.value ?? word?.optionName;
        assert(typed && tokens.some((t) => t === typed || (t[0] === "-" && t.endsWith(typed.slice(1)))), () => `the error ${core.formatMessage(r.error)} quotes none of ${show(tokens)}`);
        for (const g of got) {
          assert(names.has(g), () => `${g} is proposed for ${typed} but does not exist\n  spec ${show(spec)}`);
          assert(names.get(g) !== true, () => `${g} is proposed for ${typed} but hidden\n  spec ${show(spec)}`);
        }
        const aliases = new Set([...nodes(spec)].flatMap((n) => n.k === "cmds" ? n.list.flatMap((q) => q.aliases ?? []) : []));
        const near = got.filter((g) => dist(typed, g) <= 3 && dist(typed, g) / typed.length <= 0.5);
        assert(near.length > 0 && (near.length <= 3 || got.some((g) => aliases.has(g))), () => `${show(got)} proposed for ${typed}`);
        if (!got.some((g) => aliases.has(g))) for (let k = 1; k < near.length; k++) assert(dist(typed, near[k - 1]) <= dist(typed, near[k]), () => `${show(got)} proposed for ${typed} in this order`);
      },
    },
  ],
};
