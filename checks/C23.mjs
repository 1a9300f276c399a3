import { writeFileSync } from "node:fs";
import { join } from "node:path";
import * as core from "@optique/core";
import { runWith, runWithAsync, runWithSync } from "@optique/core/facade";
import { bindConfig, createConfigContext } from "@optique/config";
import { bindDerivedDefault, createDerivedDefaults } from "@optique/derived-defaults";
import { bindEnv, bool, createEnvContext } from "@optique/env";
import { run, runAsync, runSync } from "@optique/run";
import { assert, equal, show } from "../lib/harness.mjs";
import { toAsync } from "../lib/grammar.mjs";
import { scratch } from "../lib/scratch.mjs";

// Kinds of values: what the option accepts, what an environment variable may
// say (looser), and for each a value that fits, one that only the looser
// parser accepts, and a text no parser accepts.
const VPS = [
  { strict: () => core.integer({ min: 0, max: 50 }), loose: () => core.integer(), good: (i) => i % 51, bad: (i) => 51 + (i % 20), malformed: "x1", text: String },
  { strict: () => core.string({ pattern: /^[a-z]+$/ }), loose: () => core.string({ pattern: /^[A-Za-z]+$/ }), good: (i) => "abcdefgh"[i % 8].repeat(1 + (i % 3)), bad: (i) => "ABCDEFGH"[i % 8], malformed: "12", text: String },
  { strict: () => core.choice(["red", "green", "blue"]), loose: () => core.choice(["red", "green", "blue", "none"]), good: (i) => ["red", "green", "blue"][i % 3], bad: () => "none", malformed: "purple", text: String },
  { strict: null, loose: bool, good: (i) => i % 2 === 0, malformed: "maybe", text: (v, i) => v ? ["true", "1", "YES", "On"][i % 4] : ["false", "0", "no", "OFF"][i % 4] },
];
const SOURCES = ["env", "file", "config", "derived"];

const fieldArb = (fc) => fc.record({
  vp: fc.nat(3), leaf: fc.constantFrom("opt", "opt", "opt", "arg", "fail", "multi"), isAsync: fc.boolean(),
  inner: fc.constantFrom("none", "none", "none", "optional", "group", "withDefault"), outer: fc.constantFrom("none", "none", "none", "optional", "withDefault", "group", "map"),
  srcs: fc.array(fc.record({ s: fc.constantFrom(...SOURCES), has: fc.constantFrom(0, 0, 1, 1, 2, 3), def: fc.constantFrom(0, 0, 0, 1, 1, 2), fn: fc.boolean(), v: fc.nat(60), d: fc.nat(60) }), { minLength: 1, maxLength: 3 }),
  cli: fc.constantFrom(0, 0, 0, 0, 1, 1, 2), c: fc.nat(60), id: fc.nat(60),
});
const caseArb = (fc) => fc.record({
  fields: fc.array(fieldArb(fc), { minLength: 1, maxLength: 4 }), layout: fc.constantFrom("flat", "flat", "nested", "command", "merge", "tuple", "or"),
  base: fc.constantFrom("cli", "cli", "env", "none"), order: fc.nat(23), how: fc.nat(5), config: fc.constantFrom("object", "object", "promise", "path", "parsed", "missing", "null"), asyncDerived: fc.boolean(), meta: fc.boolean(), dash: fc.constantFrom(false, false, true),
});

const GOOD = 1, BAD = 2, MALFORMED = 3, FAIL = Symbol("fails");
const valueOf = (vp, kind, i) => kind === GOOD ? vp.good(i) : vp.bad(i);

/** What a source that has something gives: a value, or failure. */
function judge(f, vp, src, n) {
  if (src.has === MALFORMED && (src.s === "env" || src.s === "file")) return FAIL;
  // fail() has no constraints of its own: what it accepts is any value
  if (src.has === BAD) return f.leaf === "fail" ? n(vp.bad(src.v)) : FAIL;
  return n(vp.good(src.v));
}
function model(f, present) {
  const vp = VPS[f.vp], n = f.leaf === "multi" ? (v) => [v] : (v) => v;
  if (f.cli) return f.cli === 1 ? n(vp.good(f.c)) : FAIL;
  for (const src of f.srcs) {
    if (present(src)) return judge(f, vp, src, n);
    if (src.def) return src.def === 1 ? n(vp.good(src.d)) : f.leaf === "fail" ? n(vp.bad(src.d)) : FAIL;
    if (src.s === "config") return undefined;
  }
  if (f.inner === "withDefault") return n(vp.good(f.id));
  if (f.inner === "optional") return null;
  return f.leaf === "multi" ? [] : undefined;
}

/** Fields the documentation says nothing about are turned into ones it does. */
function normal(f0) {
  const f = { ...f0, srcs: [] };
  const vp = VPS[f.vp];
  if (!vp.bad && f.cli === 2) f.cli = 1;
  if (f.leaf === "fail") { f.cli = 0; f.inner = "none"; }
  if (f.vp === 3) { if (f.leaf !== "fail") f.leaf = "opt"; if (f.cli === 1) f.c = 0; }
  for (const s0 of f0.srcs) {
    const s = { ...s0 };
    if (f.srcs.some((p) => p.s === s.s)) continue; // one wrapper of each kind
    if (!vp.bad) { if (s.has === 2) s.has = 1; if (s.def === 2) s.def = 1; }
    if (f.leaf === "multi" && (s.s === "env" || s.s === "file")) s.has = s.has === MALFORMED ? MALFORMED : s.has;
    if (s.has === MALFORMED && s.s !== "env" && s.s !== "file") s.has = vp.bad ? BAD : GOOD;
    f.srcs.push(s);
  }
  // a configuration wrapper ends the chain; put it last
  const at = f.srcs.findIndex((s) => s.s === "config");
  if (at >= 0) f.srcs.push(...f.srcs.splice(at, 1));
  if (at >= 0) f.inner = f.inner === "group" ? "group" : "none";
  return f;
}

export default {
  id: "C23",
  title: "Every value comes from the first of its sources that has one",
  statement: "A parser wrapped in bindEnv(), bindConfig() and bindDerivedDefault() in any nesting takes its value from the command line if it is there, else from the outermost source that has one (environment before .env file), else from that wrapper's default, else from the next wrapper inside, and fails when nothing is left. A source's value or default that its text parser or the wrapped parser would refuse is an error, never skipped. Order of the contexts, entry point, sync or async, and the place in the program make no difference.",
  quantifier: [["programs", "environments", "configurations"], "stacks of up to three source wrappers on several fields, every combination of present, refused and malformed values"],
  why: "The packages are tested one source and one field at a time; precedence and validation must hold for every stack, placement and combination of what is present.",
  files: ["packages/env/src/index.ts", "packages/config/src/index.ts", "packages/derived-defaults/src/index.ts", "packages/core/src/facade.ts", "packages/run/src/run.ts"],
  mechanism: [["bindEnv(), getEnvOrDefault()", "packages/env/src/index.ts"], ["bindConfig(), getConfigOrDefault()", "packages/config/src/index.ts"], ["bindDerivedDefault()", "packages/derived-defaults/src/index.ts"], ["two-phase collection of annotations in runWith()", "packages/core/src/facade.ts"]],
  observe: ["the value or failure of runWith() and run()"],
  rule: "a field takes its value from a source or default, or is refused.",
  assumptions: ["bindConfig() without a value or default fails without asking the parser it wraps (its documented behaviour), so it is generated innermost."],
  parts: [{
    name: "stack", runs: { quick: 16000, thorough: 500000 }, async: true,
    arb: caseArb,
    async check(c, ctx) {
      const fields = c.fields.map(normal);
      // only one field may be positional, so that the line is unambiguous
      let argSeen = false;
      for (const f of fields) if (f.leaf === "arg") { if (argSeen) f.leaf = "opt"; argSeen = true; }
      const env = {}, fileLines = [], data = {};
      const resolvers = {}, plans = [];
      const envCtx = createEnvContext({ prefix: "APP_", source: (k) => env[k] });
      let fileCtx;
      const usesFile = fields.some((f) => f.srcs.some((s) => s.s === "file"));
      fields.forEach((f, i) => f.srcs.forEach((s, j) => {
        const vp = VPS[f.vp], key = `F${i}_${j}`;
        if (s.s === "env" && s.has) env[`APP_${key}`] = s.has === MALFORMED ? vp.malformed : vp.text(valueOf(vp, s.has, s.v), s.d);
        if (s.s === "file") {
          // real variables win over the file: a file value under a real one is never seen
          if (s.has) { fileLines.push(`${key}=${s.fn ? (s.has === MALFORMED ? vp.malformed : vp.text(valueOf(vp, s.has, s.v), s.d)) : "shadowed by the environment"}`); if (!s.fn) env[key] = s.has === MALFORMED ? vp.malformed : vp.text(valueOf(vp, s.has, s.v), s.d); }
        }
        const wrap = (v) => f.leaf === "multi" ? [v] : v;
        if (s.s === "config" && s.has) data[s.fn ? `n${i}` : key] = s.fn ? { deep: wrap(valueOf(vp, s.has, s.v)) } : wrap(valueOf(vp, s.has, s.v));
        if (s.s === "derived") resolvers[key] = (parsed) => { const got = s.has && parsed?.base === "on" ? wrap(valueOf(vp, s.has, s.v)) : undefined; return c.asyncDerived ? Promise.resolve(got) : got; };
      }));
      if (usesFile) {
        const path = join(scratch(), ".env.case");
        writeFileSync(path, `${fileLines.join("\n")}\n`);
        fileCtx = createEnvContext({ source: (k) => env[k], envFile: path });
      } else fileCtx = createEnvContext({ source: (k) => env[k] });
      const schema = { "~standard": { version: 1, vendor: "test", validate: (value) => c.config === "promise" ? Promise.resolve({ value }) : { value } } };
      const cfgCtx = createConfigContext({ schema });
      const derived = createDerivedDefaults(resolvers);
      const baseOn = c.base === "cli" || c.base === "env";
      if (c.base === "env") env.APP_BASE = "on";
      const configOn = c.config !== "missing" && c.config !== "null";
      const present = (s) => s.has && (s.s === "config" ? configOn : s.s === "derived" ? baseOn : true);
      // What optional() and withDefault() make of a source-bound parser inside
      // them that fails depends on the place in the program: known findings.
      if (!c.pin) {
        for (const f of fields) {
          if ((f.outer !== "optional" && f.outer !== "withDefault") || f.cli) continue;
          const v = model(f, present);
          if (v === FAIL || (v == null || v.length === 0) && (f.leaf !== "opt" || f.srcs.some((s) => s.s === "config" || s.s === "derived"))) f.outer = "none";
        }
      }
      const anyAsync = fields.some((f) => f.isAsync && VPS[f.vp].strict && f.leaf !== "fail");
      const build = (f, i) => {
        const vp = VPS[f.vp];
        const mk = () => f.isAsync && vp.strict ? toAsync(vp.strict(), () => 1) : vp.strict?.();
        let p = f.leaf === "fail" ? core.fail() : f.leaf === "arg" && vp.strict ? core.argument(mk()) : vp.strict ? core.option(`--f${i}`, mk()) : core.option(`--f${i}`);
        if (f.leaf === "multi") p = core.multiple(p);
        if (f.inner === "optional") p = core.optional(p);
        if (f.inner === "withDefault") p = core.withDefault(p, f.leaf === "multi" ? [vp.good(f.id)] : vp.good(f.id));
        if (f.inner === "group") p = core.group("G", p);
        for (let j = f.srcs.length - 1; j >= 0; j--) {
          const s = f.srcs[j], key = `F${i}_${j}`;
          const wrap = (v) => f.leaf === "multi" ? [v] : v;
          const d = s.def ? { default: wrap(valueOf(vp, s.def, s.d)) } : {};
          const loose = vp.loose();
          const text = f.leaf === "multi" ? { ...loose, parse: (x) => { const r = loose.parse(x); return r.success ? { success: true, value: [r.value] } : r; }, format: (v) => loose.format(v[0]) } : loose;
          if (s.s === "env") p = bindEnv(p, { context: envCtx, key, parser: text, ...d });
          else if (s.s === "file") p = bindEnv(p, { context: fileCtx, key, parser: text, ...d });
          else if (s.s === "config") p = bindConfig(p, { context: cfgCtx, key: s.fn ? (cfg, meta) => { if (c.meta && c.config === "path" && meta?.configPath === undefined) throw new Error("no meta"); return cfg[`n${i}`]?.deep; } : key, ...d });
          else p = bindDerivedDefault(p, { context: derived.context, key, ...d });
        }
        if (f.outer === "optional") p = core.optional(p);
        if (f.outer === "withDefault") p = core.withDefault(p, "outer default");
        if (f.outer === "group") p = core.group("H", p);
        if (f.outer === "map") p = core.map(p, (v) => ({ mapped: v }));
        return p;
      };
      const base = bindEnv(core.option("--base", core.choice(["on", "off"])), { context: envCtx, key: "BASE", parser: core.string(), default: "off" });
      const head = { base, ...(c.config === "parsed" ? { config: core.option("--config", core.string()) } : {}) };
      const fs = Object.fromEntries(fields.map((f, i) => [`f${i}`, build(f, i)]));
      // Expected values.
      let expect = {}, refused = false, touched = false;
      const usesConfig = fields.some((f) => f.srcs.some((s) => s.s === "config"));
      fields.forEach((f, i) => {
        let v = model(f, present);
        if (!f.cli || v === FAIL) touched = true;
        const plain = v === undefined && !f.cli;
        if (v === null) v = f.outer === "withDefault" ? "outer default" : undefined;
        else if (plain && f.vp === 3 && f.leaf === "opt" && !f.srcs.some((s) => s.s === "config")) v = false; // a Boolean option left out
        else if (plain && f.outer === "optional") v = undefined;
        else if (plain && f.outer === "withDefault") v = "outer default";
        else if (plain) { refused = true; return; }
        if (v === FAIL) { refused = true; return; }
        expect[`f${i}`] = f.outer === "map" ? { mapped: v } : v;
      });
      let parser, wrapValue = (v) => v;
      const rest = Object.entries(fs);
      const half = Math.ceil(rest.length / 2);
      const headObj = core.object(head);
      switch (c.layout) {
        case "nested": parser = core.object({ ...head, inner: core.object(fs) }); wrapValue = ({ base, config, ...v }) => ({ base, ...(config !== undefined ? { config } : {}), inner: v }); break;
        case "command": parser = core.object({ ...head, cmd: core.command("go", core.object(fs)) }); wrapValue = ({ base, config, ...v }) => ({ base, ...(config !== undefined ? { config } : {}), cmd: v }); break;
        case "merge": parser = core.merge(headObj, core.object(Object.fromEntries(rest.slice(0, half))), core.object(Object.fromEntries(rest.slice(half)))); break;
        case "tuple": parser = core.object({ ...head, inner: core.tuple([core.object(Object.fromEntries(rest.slice(0, half))), core.object(Object.fromEntries(rest.slice(half)))]) }); wrapValue = ({ base, config, ...v }) => ({ base, ...(config !== undefined ? { config } : {}), inner: [Object.fromEntries(Object.entries(v).slice(0, half)), Object.fromEntries(Object.entries(v).slice(half))] }); break;
        case "or": parser = core.object({ ...head, cmd: core.or(core.command("stop", core.object({ z: core.constant(1) })), core.command("go", core.object(fs))) }); wrapValue = ({ base, config, ...v }) => ({ base, ...(config !== undefined ? { config } : {}), cmd: v }); break;
        default: parser = core.object({ ...head, ...fs });
      }
      const line = [];
      if (c.base === "cli") line.push("--base", "on");
      let load;
      const cfgPath = join(scratch(), "config.json");
      if (c.config === "parsed") line.push("--config", cfgPath);
      if (c.layout === "command" || c.layout === "or") line.push("go");
      const args = [];
      fields.forEach((f, i) => {
        if (!f.cli) return;
        const vp = VPS[f.vp];
        if (f.vp === 3) { line.push(`--f${i}`); return; }
        const t = vp.text(valueOf(vp, f.cli, f.c));
        if (f.leaf === "arg") args.push(t); else line.push(`--f${i}`, t);
      });
      if (c.dash) line.push("--");
      line.push(...args);
      if (c.config === "path" || c.config === "parsed") {
        writeFileSync(cfgPath, JSON.stringify(data));
        load = { getConfigPath: (parsed) => c.config === "path" ? cfgPath : parsed?.config };
      } else if (c.config === "missing") load = { getConfigPath: () => join(scratch(), "no-such.json") };
      else if (c.config === "null") load = { load: () => null };
      else load = { load: () => { const r = { config: data, meta: undefined }; return c.config === "promise" ? Promise.resolve(r) : r; } };
      // contexts in any order
      const all = [envCtx, fileCtx, cfgCtx, derived.context], contexts = [];
      let o = c.order;
      for (let k = all.length; k > 0; k--) { contexts.push(...all.splice(o % k, 1)); o = Math.floor(o / k); }
      const full = { base: baseOn ? "on" : "off", ...(c.config === "parsed" ? { config: cfgPath } : {}), ...expect };
      const needsAsync = anyAsync || c.config === "promise" || c.asyncDerived;
      let how = c.how;
      if (needsAsync && (how === 1 || how === 4)) how--;
      if (!touched) ctx.trivial("all from the command line"); else ctx.label(refused ? "refused" : "resolved", ...new Set(fields.flatMap((f) => f.srcs.map((s) => s.s))), c.layout);
      let got, failed = false;
      const errors = [];
      const opts = { args: line, contextOptions: load, stderr: (s) => errors.push(s), stdout() {}, ...(c.meta ? { help: { option: true, command: true }, version: { value: "1", option: true } } : {}) };
      class Exit extends Error {}
      try {
        const r = how === 0 ? runWith(parser, "prog", contexts, { ...opts, onError: () => { throw new Exit(); } })
          : how === 1 ? runWithSync(parser, "prog", contexts, { ...opts, onError: () => { throw new Exit(); } })
          : how === 2 ? runWithAsync(parser, "prog", contexts, { ...opts, onError: () => { throw new Exit(); } })
          : (how === 3 ? runAsync : how === 4 ? runSync : run)(parser, { ...opts, programName: "prog", contexts, onExit: () => { throw new Exit(); } });
        got = await r;
      } catch (e) { if (!(e instanceof Exit)) throw e; failed = true; }
      const what = `prog ${line.join(" ")} with env ${show(env)}, file ${show(fileLines)}, config ${c.config} ${show(data)}`;
      if (refused) { assert(failed, () => `${what} gives ${show(got)}, but should be refused`); assert(errors.length > 0, () => `${what}: refused without a word`); return; }
      assert(!failed, () => `${what} is refused: ${show(errors)}\n  expected ${show(wrapValue(full))}`);
      equal(got, wrapValue(full), what);
    },
  }, {
    // Nothing on the line and no default anywhere: all there is comes from the sources.
    name: "alone", runs: { quick: 8000, thorough: 200000 }, async: true,
    arb: (fc) => fc.record({
      fields: fc.array(fc.record({ s: fc.array(fc.record({ s: fc.constantFrom("env", "config", "derived"), has: fc.constantFrom(true, true, true, false) }), { minLength: 1, maxLength: 3 }), kind: fc.constantFrom("opt", "opt", "arg", "multi", "fail"), given: fc.constantFrom(false, false, false, true), wrap: fc.constantFrom("none", "none", "none", "map", "group") }), { minLength: 1, maxLength: 3 }),
      layout: fc.constantFrom("object", "object", "bare", "tuple", "concat", "seq", "merge", "command", "group", "nested"), how: fc.nat(4), isAsync: fc.boolean(), later: fc.boolean(), key: fc.boolean(),
    }),
    async check(c, ctx) {
      const env = {}, data = {}, resolvers = {};
      const fields = (c.layout === "bare" || c.layout === "group" ? c.fields.slice(0, 1) : c.fields).map((f, i, all) => {
        // what is positional cannot be told apart from what is left out
        const kind = f.kind === "arg" && all.findIndex((x) => x.kind === "arg") !== i ? "opt" : f.kind;
        const s = f.s.filter((x, k) => f.s.findIndex((y) => y.s === x.s) === k);
        s.sort((a, b) => (a.s === "config") - (b.s === "config"));
        return { ...f, kind, s, given: f.given && kind !== "fail" };
      });
      const envCtx = createEnvContext({ source: (k) => env[k] });
      const cfgCtx = createConfigContext({ schema: { "~standard": { version: 1, vendor: "test", validate: (value) => c.later ? Promise.resolve({ value }) : { value } } } });
      fields.forEach((f, i) => f.s.forEach((s) => {
        const v = `${s.s}${i}`, w = f.kind === "multi" ? [v] : v;
        if (s.s === "derived") resolvers[`k${i}`] = () => s.has ? c.later ? Promise.resolve(w) : w : undefined;
        else if (s.has) (s.s === "env" ? env : data)[`k${i}`] = s.s === "env" ? v : w;
      }));
      const derived = createDerivedDefaults(resolvers);
      const parsers = fields.map((f, i) => {
        const vp = c.isAsync ? toAsync(core.string(), () => 1) : core.string();
        let p = f.kind === "fail" ? core.fail() : f.kind === "arg" ? core.argument(vp) : core.option(`--f${i}`, vp);
        if (f.kind === "multi") p = core.multiple(p, { min: 1 });
        const text = f.kind === "multi" ? { ...core.string(), parse: (x) => ({ success: true, value: [x] }), format: (v) => v[0] } : core.string();
        for (const s of [...f.s].reverse()) p = s.s === "env" ? bindEnv(p, { context: envCtx, key: `k${i}`, parser: text }) : s.s === "config" ? bindConfig(p, { context: cfgCtx, key: c.key ? (d) => d[`k${i}`] : `k${i}` }) : bindDerivedDefault(p, { context: derived.context, key: `k${i}` });
        return f.wrap === "map" ? core.map(p, (v) => ({ mapped: v })) : f.wrap === "group" ? core.group("G", p) : p;
      });
      const values = fields.map((f, i) => {
        const from = f.s.find((s) => s.has), raw = f.given ? "line" : from && `${from.s}${i}`;
        if (raw === undefined) return FAIL;
        const v = f.kind === "multi" ? [raw] : raw;
        return f.wrap === "map" ? { mapped: v } : v;
      });
      const args = fields.flatMap((f, i) => !f.given ? [] : f.kind === "arg" ? ["line"] : [`--f${i}`, "line"]);
      const rec = (l) => Object.fromEntries(l.map((p, i) => [`f${i}`, p]));
      let parser, want;
      switch (c.layout) {
        case "bare": parser = parsers[0]; want = values[0]; break;
        case "group": parser = core.group("All", parsers[0]); want = values[0]; break;
        case "tuple": parser = core.tuple(parsers); want = values; break;
        case "concat": parser = core.concat(...parsers.map((p) => core.tuple([p]))); want = values; break;
        case "seq": parser = core.seq(...parsers); want = values; break;
        case "merge": parser = core.merge(...parsers.map((p, i) => core.object({ [`f${i}`]: p }))); want = rec(values); break;
        case "command": parser = core.command("go", core.object(rec(parsers))); args.unshift("go"); want = rec(values); break;
        case "nested": parser = core.object({ in: core.object({ deep: core.object(rec(parsers)) }) }); want = { in: { deep: rec(values) } }; break;
        default: parser = core.object(rec(parsers)); want = rec(values);
      }
      if (values.includes(FAIL)) want = "refused";
      const err = [], options = { args, contextOptions: { load: () => c.later ? Promise.resolve({ config: data }) : { config: data } }, stderr: (x) => err.push(x), onError: () => "refused" };
      const contexts = [envCtx, cfgCtx, derived.context], sync = !c.isAsync && !c.later;
      let got;
      if (c.how === 1 && sync) got = runWithSync(parser, "prog", contexts, options);
      else if (c.how === 2) got = await runWithAsync(parser, "prog", contexts, options);
      else if (c.how === 3) got = await runAsync(parser, { ...options, programName: "prog", contexts, help: undefined, stdout: () => {}, onExit: () => { throw "refused"; } }).catch((e) => { if (e !== "refused") throw e; return e; });
      else got = await runWith(parser, "prog", contexts, options);
      if (fields.every((f) => f.given)) ctx.trivial("all on the line"); else ctx.label(want === "refused" ? "refused" : "from the sources");
      equal(got, want, `${c.layout} of ${fields.map((f) => `${f.kind}<${f.s.map((s) => s.s + (s.has ? "+" : "-"))}>`).join(", ")} on ${show(args)} (${err.slice(0, 2).join(" ")})`);
    },
  }],
};
