import * as core from "@optique/core";
import { dependency, deriveFrom, deriveFromAsync, deriveFromSync } from "@optique/core/dependency";
import { assert, equal, show } from "../lib/harness.mjs";
import { Tape, tapeArb } from "../lib/grammar.mjs";

// Sources have the domain s0..s2; what a derived option accepts is a function of
// the values of its sources: "d<id>-<values>" plus a word shared by some values.
const DOM = ["s0", "s1", "s2"];
const allowedFor = (id, deps, vals) => {
  const out = [`d${id}-${vals.join("-")}`];
  if (vals.every((v) => v !== "s0")) out.push(`d${id}-not0`);
  if (vals[0] === "s1" || vals.length > 1 && vals[1] === "s0") out.push(`d${id}-odd`);
  return out;
};
const wrapAsync = (vp) => ({ ...vp, mode: "async", parse: (x) => Promise.resolve(vp.parse(x)), suggest: vp.suggest && (async function* (p) { yield* vp.suggest(p); }), validate: undefined });

function specArb(fc) {
  return fc.record({
    sources: fc.array(fc.record({
      given: fc.option(fc.nat(2), { nil: null, freq: 3 }),
      wrap: fc.constantFrom("optional", "default", "default", "bare", "groupOptional", "fn"),
      def: fc.nat(2), async: fc.constantFrom(false, false, false, true), pos: fc.constantFrom(0, 0, 0, 1),
    }), { minLength: 1, maxLength: 3 }),
    derived: fc.array(fc.record({
      deps: fc.uniqueArray(fc.nat(2), { minLength: 1, maxLength: 3 }),
      via: fc.constantFrom("derive", "derive", "deriveFrom", "explicit"),
      defs: fc.array(fc.nat(2), { minLength: 3, maxLength: 3 }),
      async: fc.constantFrom(false, false, false, true),
      wrap: fc.constantFrom("bare", "optional", "multiple", "group"),
      // What is put on the line: an index into candidates, mostly acceptable ones.
      given: fc.array(fc.record({ ok: fc.integer({ min: 0, max: 9 }), pick: fc.nat(7) }), { minLength: 0, maxLength: 2 }),
      join: fc.boolean(),
    }), { minLength: 1, maxLength: 3 }),
    shape: fc.constantFrom("object", "object", "merge", "mergeRev", "tuple", "concat", "command", "group", "or", "nested", "conditional"),
    order: tapeArb(fc, 8),
  });
}

function model(spec) {
  const S = spec.sources.length;
  const sources = spec.sources.map((s, i) => ({
    ...s, i, name: `--src${i}`,
    wrap: s.wrap === "bare" && s.given == null ? "optional" : s.wrap,
  }));
  const effective = (i, d) => {
    const s = sources[i];
    if (s.given != null) return DOM[s.given];
    if (s.wrap === "default" || s.wrap === "fn") return DOM[s.def];
    return DOM[d];
  };
  const derived = spec.derived.map((d, id) => {
    const deps = [...new Set(d.deps.map((k) => k % S))];
    const use = d.via === "derive" ? deps.slice(0, 1) : deps;
    const vals = use.map((k, j) => effective(k, d.defs[j]));
    const ok = allowedFor(id, use, vals);
    let given = d.wrap === "multiple" ? d.given : d.given.slice(0, 1);
    if ((d.wrap === "bare" || d.wrap === "group") && !given.length) given = [{ ok: 1, pick: 0 }];
    const tokens = given.map((g) => {
      if (g.ok > 0) return ok[g.pick % ok.length];
      const cand = [`d${id}-${use.map((_, j) => DOM[(g.pick + j) % 3]).join("-")}`, `d${id}-not0`, `d${id}-odd`, "zzz"];
      return cand[g.pick % 4];
    });
    return { ...d, id, use, vals, ok, tokens, name: `--drv${id}`, good: tokens.every((t) => ok.includes(t)) };
  });
  return { sources, derived };
}

function build(m, log) {
  const vps = m.sources.map((s) => dependency(s.async ? wrapAsync(core.choice(DOM)) : core.choice(DOM)));
  const src = m.sources.map((s, i) => {
    const p = s.pos ? core.option(s.name, vps[i]) : core.option(s.name, `-${"xyz"[i]}`, vps[i]);
    switch (s.wrap) {
      case "optional": return core.optional(p);
      case "default": return core.withDefault(p, DOM[s.def]);
      case "fn": return core.withDefault(p, () => DOM[s.def]);
      case "groupOptional": return core.group("G", core.optional(p));
      default: return p;
    }
  });
  const drv = m.derived.map((d) => {
    const factory = (...vals) => {
      log?.push([d.id, vals]);
      const c = core.choice(allowedFor(d.id, d.use, vals));
      return d.async ? wrapAsync(c) : c;
    };
    const mode = d.async ? "async" : "sync";
    const defs = d.use.map((_, j) => DOM[d.defs[j]]);
    const metavar = "DRV";
    let vp;
    const one = d.use.length === 1;
    if (one && d.via === "derive") vp = vps[d.use[0]].derive({ metavar, mode, factory, defaultValue: () => defs[0] });
    else if (one && d.via === "explicit") vp = vps[d.use[0]][d.async ? "deriveAsync" : "deriveSync"]({ metavar, factory, defaultValue: () => defs[0] });
    else {
      const o = { metavar, dependencies: d.use.map((k) => vps[k]), factory, defaultValues: () => defs };
      vp = d.via === "explicit" ? (d.async ? deriveFromAsync : deriveFromSync)(o) : deriveFrom({ ...o, mode });
    }
    const p = core.option(d.name, vp);
    switch (d.wrap) {
      case "optional": return core.optional(p);
      case "multiple": return core.multiple(p);
      case "group": return core.group("D", p);
      default: return p;
    }
  });
  return { src, drv };
}

const values = (m) => ({
  src: m.sources.map((s) => (s.given != null ? DOM[s.given] : s.wrap === "default" || s.wrap === "fn" ? DOM[s.def] : undefined)),
  drv: m.derived.map((d) => (d.wrap === "multiple" ? d.tokens : d.tokens[0])),
});

/** The whole program and how to read the two lists out of its value. */
function assemble(m, shape, log) {
  const { src, drv } = build(m, log);
  const so = Object.fromEntries(src.map((p, i) => [`s${i}`, p]));
  const dobj = Object.fromEntries(drv.map((p, i) => [`d${i}`, p]));
  const fromObj = (v) => ({ src: src.map((_, i) => v[`s${i}`]), drv: drv.map((_, i) => v[`d${i}`]) });
  switch (shape) {
    case "object": return { p: core.object({ ...dobj, ...so }), get: fromObj, pre: [] };
    case "merge": return { p: core.merge(core.object(so), core.object(dobj)), get: fromObj, pre: [] };
    case "mergeRev": return { p: core.merge(core.object(dobj), core.object(so)), get: fromObj, pre: [] };
    case "tuple": return { p: core.tuple([...drv, ...src]), get: (v) => ({ src: v.slice(drv.length), drv: v.slice(0, drv.length) }), pre: [] };
    case "concat": return { p: core.concat(core.tuple(src), core.tuple(drv)), get: (v) => ({ src: v.slice(0, src.length), drv: v.slice(src.length) }), pre: [] };
    case "concatRev": return { p: core.concat(core.tuple(drv), core.tuple(src)), get: (v) => ({ src: v.slice(drv.length), drv: v.slice(0, drv.length) }), pre: [] };
    case "command": return { p: core.command("go", core.object({ ...so, ...dobj })), get: fromObj, pre: ["go"] };
    case "group": return { p: core.group("G", core.object({ ...so, ...dobj })), get: fromObj, pre: [] };
    case "or": return { p: core.or(core.command("no", core.object({})), core.command("go", core.object({ ...dobj, ...so }))), get: fromObj, pre: ["go"] };
    case "nested": return { p: core.object({ a: core.object(so), b: core.object(dobj) }), get: (v) => fromObj({ ...v.a, ...v.b }), pre: [] };
    case "nestedRev": return { p: core.object({ a: core.object(dobj), b: core.object(so) }), get: (v) => fromObj({ ...v.a, ...v.b }), pre: [] };
    case "conditional": return { p: core.conditional(core.option("--kind", core.choice(["k", "l"])), { k: core.object({ ...dobj, ...so }), l: core.object({}) }), get: (v) => fromObj(v[1]), pre: ["--kind", "k"] };
  }
}

function line(m, order) {
  const tape = new Tape(order);
  const blocks = [
    ...m.sources.filter((s) => s.given != null).map((s) => [s.name, DOM[s.given]]),
    ...m.derived.flatMap((d) => d.tokens.map((t, k) => (d.join ? [`${d.name}=${t}`] : [d.name, t]))),
  ];
  // Shuffle, but keep the repetitions of one option in their order.
  const queues = new Map();
  for (const b of blocks) { const k = b[0].split("=")[0]; queues.set(k, [...(queues.get(k) ?? []), b]); }
  const keys = blocks.map((b) => b[0].split("=")[0]);
  const out = [];
  while (keys.length) { const [k] = keys.splice(tape.pick(keys.length), 1); out.push(queues.get(k).shift()); }
  return out.flat();
}

export default {
  id: "C10",
  title: "Dependent options are validated against the final values of their sources",
  statement: "An option derived from other options (derive(), deriveFrom() and their explicit-mode variants) accepts exactly the values its factory's parser accepts for the values the sources end up with: the one given on the line, wherever it stands, else the default of withDefault(), else the derivation's own default value. This holds in any arrangement by object(), tuple(), merge(), concat(), command(), or(), conditional() and group(), for any number of sources and consumers and sync or async parsers; completions of a derived option's value are exactly that accepted set.",
  quantifier: [["programs", "inputs"], "all arrangements of up to three sources and three derived options, all orders of their tokens, all combinations of presence"],
  why: "Resolution depends on the order of tokens, on which sources are present and on the composition; each test covers one of those combinations.",
  files: ["packages/core/src/dependency.ts", "packages/core/src/dependency-runtime.ts", "packages/core/src/constructs.ts", "packages/core/src/dependency-metadata.ts"],
  mechanism: [["derive()/deriveFrom()", "packages/core/src/dependency.ts"], ["replay with the resolved values", "packages/core/src/dependency-runtime.ts"]],
  observe: ["results of parse() and suggest()"],
  rule: "part replay: random specs; the acceptable set of each derived option is a table over source values, and acceptance and value must agree with it. Part suggest: the line is cut before the value of one derived option and the suggested values must equal the table's set. Non-trivial: always (at least one source and one derived option on the line).",
  parts: [
    {
      name: "replay",
      runs: { quick: 12000, thorough: 300000 },
      async: true,
      arb: specArb,
      async check(spec, ctx) {
        const m = model(spec);
        if (spec.shape === "nested" && !spec.force && m.sources.some((s) => s.async)) return ctx.trivial("known finding: asynchronous source in a sub-object");
        const { p, get, pre } = assemble(m, spec.shape);
        const toks = [...pre, ...line(m, spec.order)];
        const good = m.derived.every((d) => d.good);
        ctx.label(`${spec.shape}: ${good ? "accept" : "refuse"}`, p.mode);
        if (!m.derived.some((d) => d.tokens.length)) ctx.trivial("no derived option on the line");
        const r = p.mode === "sync" ? core.parseSync(p, toks) : await core.parseAsync(p, toks);
        const info = () => `${show(toks)} in ${spec.shape}\n  sources ${show(m.sources)}\n  derived ${show(m.derived)}`;
        if (good) {
          assert(r.success, () => `refused ${info()}: ${core.formatMessage(r.error)}`);
          equal(get(r.value), values(m), `wrong values for ${info()}`);
        } else assert(!r.success, () => `accepted as ${show(r.value)}: ${info()}`);
      },
    },
    {
      name: "suggest",
      runs: { quick: 8000, thorough: 200000 },
      async: true,
      arb: (fc) => fc.record({ spec: specArb(fc), which: fc.nat(2), prefix: fc.constantFrom("", "", "d", "d0", "d1-", "zz"), join: fc.boolean() }),
      async check({ spec, which, prefix, join }, ctx) {
        const m = model(spec);
        const d = m.derived[which % m.derived.length];
        if (spec.shape === "nested" && m.sources.some((s) => s.given == null && s.wrap !== "optional" && s.wrap !== "groupOptional")) return ctx.trivial("defaulted source in a sub-object");
        d.tokens = [];
        // Other derived options are left out when unacceptable: the line so far is to be a good one.
        for (const x of m.derived) if (!x.good) x.tokens = [];
        const { p, pre } = assemble(m, spec.shape);
        const before = [...pre, ...line(m, spec.order)];
        const pfx = `d${d.id}`.startsWith(prefix) || prefix.startsWith(`d${d.id}`) ? prefix : "";
        const args = join ? [...before, `${d.name}=${pfx}`] : [...before, d.name, pfx];
        const got = p.mode === "sync" ? core.suggestSync(p, args) : await core.suggestAsync(p, args);
        ctx.label(spec.shape, p.mode);
        const texts = got.map((s) => s.text).sort();
        const want = d.ok.filter((v) => v.startsWith(pfx)).map((v) => (join ? `${d.name}=${v}` : v)).sort();
        equal(texts, want, `suggestions for ${show(args)} in ${spec.shape}\n  sources ${show(m.sources)}\n  derived ${show(m.derived)}`);
      },
    },
  ],
};
