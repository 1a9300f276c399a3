import { createRequire } from "node:module";
import { PassThrough, Writable } from "node:stream";
import { pathToFileURL } from "node:url";
import * as core from "@optique/core";
import { runWith } from "@optique/core/facade";
import { parseAsync, suggestAsync } from "@optique/core/parser";
import { createPromptAdapter } from "@optique/prompt";
import { prompt as clackPrompt } from "@optique/clack";
import { prompt as inquirerPrompt } from "@optique/inquirer";
import { bindConfig, createConfigContext } from "@optique/config";
import { bindEnv, bool, createEnvContext } from "@optique/env";
import { assert, equal, show, Violation } from "../lib/harness.mjs";
import { ROOT } from "../lib/loader.mjs";

// What a field holds: how it is written on the line, in the environment and in a configuration, and what a prompt answers.
const KINDS = {
  string: { make: (n) => core.option(`--${n}`, core.string()), args: (n) => [`--${n}`, "line"], line: "line", env: "env", envParser: core.string(), cfg: "cfg", answer: (k) => `answer${k}`, types: { inquirer: "input", clack: "text" } },
  integer: { make: (n) => core.option(`--${n}`, core.integer({ min: 0, max: 1000 })), args: (n) => [`--${n}=1`], line: 1, env: 2, envParser: core.integer(), cfg: 3, answer: (k) => 100 + k, types: { inquirer: "number", clack: "number" } },
  choice: { make: (n) => core.option(`--${n}`, core.choice(["a", "b", "c"])), args: (n) => [`--${n}`, "a"], line: "a", env: "b", envParser: core.string(), cfg: "c", answer: () => "b", types: { inquirer: "select", clack: "select" } },
  flag: { make: (n) => core.flag(`--${n}`), args: (n) => [`--${n}`], line: true, env: false, envParser: bool(), cfg: false, answer: (k) => k % 2 === 0, types: { inquirer: "confirm", clack: "confirm" } },
  multiple: { make: (n) => core.multiple(core.option(`--${n}`, core.string())), args: (n) => [`--${n}`, "x", `--${n}`, "y"], line: ["x", "y"], answer: (k) => [`m${k}`], types: { inquirer: "checkbox", clack: "multiselect" }, plain: true },
  optional: { make: (n) => core.optional(core.option(`--${n}`, core.string())), args: (n) => [`--${n}=o`], line: "o", answer: (k) => `opt${k}`, types: { inquirer: "password", clack: "password" }, plain: true },
  default: { make: (n) => core.withDefault(core.option(`--${n}`, core.string()), "dflt"), args: (n) => [`--${n}=o`], line: "o", answer: (k) => `def${k}`, types: { inquirer: "editor", clack: "text" }, plain: true },
  // See known-findings.json: not asked when annotations are present.
  optmultiple: { make: (n) => core.optional(core.multiple(core.option(`--${n}`, core.string()))), args: (n) => [`--${n}`, "x"], line: ["x"], answer: (k) => [`m${k}`], types: { inquirer: "checkbox", clack: "multiselect" }, plain: true, pinned: true },
  fail: { make: () => core.fail(), args: () => [], never: true, env: "env", envParser: core.string(), cfg: "cfg", answer: (k) => `only${k}`, types: { inquirer: "rawlist", clack: "text" } },
};
const NAMES = ["alpha", "beta", "gamma", "delta"];
const fieldArb = (fc) => fc.record({
  kind: fc.constantFrom(...Object.keys(KINDS).filter((k) => !KINDS[k].pinned)), source: fc.constantFrom("none", "none", "env", "config", "both", "outer"), has: fc.nat(3), dflt: fc.constantFrom(false, false, true), given: fc.constantFrom(true, false, false),
  adapter: fc.constantFrom("own", "inquirer", "clack"), answer: fc.constantFrom("value", "value", "value", "value", "value", "value", "value", "fails", "throws", "nothing"), slow: fc.nat(6), place: fc.nat(3), mapped: fc.constantFrom(0, 0, 1, 2),
});

/* Terminals made of streams for the real prompt libraries, one per prompt, found by its message. */
const terminals = new Map();
let real;
class Screen extends Writable { constructor() { super(); Object.assign(this, { columns: 80, rows: 24, isTTY: true }); } _write(_chunk, _e, cb) { cb(); } }
const terminal = () => ({ input: Object.assign(new PassThrough(), { isTTY: true, setRawMode() {} }), output: new Screen() });
async function connect() {
  const load = (pkg, lib) => import(pathToFileURL(createRequire(`${ROOT}/packages/${pkg}/package.json`).resolve(lib)).href);
  const clack = await load("clack", "@clack/prompts"), inquirer = await load("inquirer", "@inquirer/prompts");
  // Clack takes whatever a validator returns for an error message.
  const guarded = ({ validate, ...cfg }) => validate ? { ...cfg, validate: (v) => { const r = validate(v); if (typeof r?.then === "function") { terminals.get(cfg.message).promised = true; return "promise"; } return r; } } : cfg;
  globalThis[Symbol.for("@optique/clack/prompt-functions")] = { ...Object.fromEntries(["text", "password", "confirm", "select", "multiselect"].map((k) => [k, (cfg) => clack[k]({ ...guarded(cfg), ...streams(cfg.message) })])), isCancel: clack.isCancel };
  globalThis[Symbol.for("@optique/inquirer/prompt-functions")] = Object.fromEntries(["confirm", "number", "input", "password", "select", "rawlist", "expand", "checkbox"].map((k) => [k, (cfg) => inquirer[k](cfg, streams(cfg.message))]));
  const t = terminal(), p = clack.text({ message: "x", ...t });
  t.input.write(CTRL_C);
  real = { clack, inquirer, cancel: await p };
}
const streams = (message) => { const { input, output } = terminals.get(message); return { input, output }; };
const DOWN = "\x1b[B", UP = "\x1b[A", DEL = "\x7f", CTRL_C = "\x03", ENTER = "\r";
const turn = () => new Promise((r) => setImmediate(r));
/* Types the keys into a running prompt, and Ctrl-C when it is still open after them. */
async function type(promise, input, keys) {
  let done = false;
  const outcome = promise.then((value) => { done = true; return { value }; }, (error) => { done = true; return { error }; });
  for (const key of [...keys, ENTER, CTRL_C]) {
    for (let i = 0; i < 6 && !done; i++) await turn();
    if (done) break;
    input.write(key);
  }
  return await outcome;
}
const WORDS = ["red", "green", "blue", "cyan"];
const promptArb = (fc) => fc.record({
  kind: fc.constantFrom("inquirer input", "inquirer password", "inquirer number", "inquirer confirm", "inquirer select", "inquirer rawlist", "inquirer expand", "inquirer checkbox", "clack text", "clack password", "clack number", "clack number", "clack confirm", "clack select", "clack multiselect"),
  dflt: fc.oneof(fc.constant(null), fc.nat(5)), min: fc.oneof(fc.constant(null), fc.integer({ min: -3, max: 12 })), span: fc.oneof(fc.constant(null), fc.nat(30)), step: fc.constantFrom(null, "any", 1, 2, 0.5),
  validate: fc.constantFrom("none", "none", "sync", "async"), required: fc.constantFrom(null, true, false), choices: fc.array(fc.record({ plain: fc.boolean(), named: fc.boolean(), disabled: fc.constantFrom(false, false, true, "why"), checked: fc.boolean() }), { minLength: 2, maxLength: 4 }),
  keys: fc.array(fc.oneof({ weight: 6, arbitrary: fc.constantFrom("1", "2", "0", "5", "-", ".", "e", "a", "b", "y", "n", "x", "é") }, { weight: 4, arbitrary: fc.constantFrom(DOWN, UP, " ", DEL, ENTER, ENTER) }, { weight: 1, arbitrary: fc.constantFrom(CTRL_C, "\t", "i") }), { maxLength: 8 }),
});

export default {
  id: "C27",
  title: "A prompt is shown exactly when nothing else gives the value",
  statement: "A parser wrapped in prompt() asks the user once per parsing pass when neither the command line nor a source within gives its value, with its answer as the value, and never otherwise: not when the line is refused, for help, completion or branches not chosen, nor while two prompts would overlap. Fields of one object are asked in order. A cancelled or failing prompt is a parse error, an unexpected error is thrown. With the real Inquirer and Clack the keys typed give the documented answer.",
  quantifier: [["inputs", "schedules", "faults"], "objects of up to four prompted fields, nested, in commands and alternatives, with environment and configuration inside or outside, answering late, failing or throwing; keystrokes for every prompt type"],
  why: "Whether to ask depends on the interplay of wrappers, passes and runners, and an unwanted or doubled prompt hangs scripts; tests fix one field at a time.",
  files: ["packages/prompt/src/index.ts", "packages/inquirer/src/index.ts", "packages/clack/src/index.ts", "packages/core/src/constructs.ts"],
  mechanism: [["createPromptAdapter()", "packages/prompt/src/index.ts"], ["executePromptRaw()", "packages/inquirer/src/index.ts"], ["executeClackPrompt(), normalizeNumberResult()", "packages/clack/src/index.ts"], ["object() completion of deferred fields", "packages/core/src/constructs.ts"]],
  observe: ["the prompts started and ended, in order, and the parse result"],
  rule: "some field is not on the line, or the line is refused.",
  assumptions: ["in a two-pass run a prompt that no configuration can answer is shown once per pass (fixed by the existing tests)", "environment values are well-formed"],
  parts: [{
    name: "ask", runs: { quick: 50000, thorough: 800000 }, async: true,
    arb: (fc) => fc.record({ fields: fc.array(fieldArb(fc), { minLength: 1, maxLength: 4 }), wrap: fc.constantFrom("object", "object", "command", "or", "merge", "tuple", "group"), line: fc.constantFrom("ok", "ok", "ok", "ok", "ok", "ok", "unknown", "missing", "help", "suggest"), run: fc.boolean(), env: fc.constantFrom(true, true, false), slowLoad: fc.boolean(), dash: fc.constantFrom(false, false, true) }),
    async check(c, ctx) {
      const log = [], errors = [];
      let showing = null;
      const counts = NAMES.map(() => 0);
      const env = {}, cfg = {};
      // Sources need a runner that collects them.
      const fields = c.fields.map((f, i) => {
        const k = KINDS[f.kind];
        const source = k.plain ? "none" : !c.run && (f.source === "config" || f.source === "both") ? "env" : f.source === "outer" && f.kind === "fail" ? "env" : f.source;
        return { ...f, k, source, name: NAMES[i], i, given: f.given && !k.never, dflt: f.dflt && source !== "none", envHas: (f.has & 1) && ["env", "both", "outer"].includes(source), cfgHas: (f.has & 2) && ["config", "both"].includes(source) };
      });
      for (const f of fields) { if (f.envHas) env[`E_${f.name}`] = String(f.k.env); if (f.cfgHas) cfg[f.name] = f.k.cfg; }
      const envContext = createEnvContext({ prefix: "E_", source: (key) => env[key] });
      const configContext = createConfigContext({ schema: { "~standard": { version: 1, vendor: "test", validate: (value) => ({ value }) } } });
      const own = createPromptAdapter({ execute: (config) => config.prompter() });
      const parsers = fields.map((f) => {
        errors[f.i] = new Error(`prompt ${f.name} broke`);
        const cancelled = Object.assign(new Error("cancelled"), { name: "ExitPromptError" });
        const prompter = async () => {
          assert(showing === null, () => `prompt ${f.name} is shown while prompt ${showing} is`);
          showing = f.name;
          log.push(f.name);
          const n = ++counts[f.i];
          for (let t = 0; t < f.slow; t++) await null;
          showing = null;
          if (f.answer === "throws") throw errors[f.i];
          if (f.adapter === "own") return f.answer === "fails" ? { success: false, error: core.message`Prompt cancelled.` } : { success: true, value: f.answer === "nothing" ? undefined : f.k.answer(n) };
          if (f.answer === "fails") { if (f.adapter === "inquirer") throw cancelled; return real.cancel; }
          return f.answer === "nothing" ? undefined : f.k.answer(n);
        };
        const wrap = f.adapter === "own" ? own : f.adapter === "inquirer" ? inquirerPrompt : clackPrompt;
        const dflt = f.dflt ? { default: f.k.line } : {};
        const bindE = (p) => bindEnv(p, { context: envContext, key: f.name, parser: f.k.envParser, ...dflt });
        const bindC = (p) => bindConfig(p, { context: configContext, key: f.name, ...dflt });
        let p = f.k.make(f.name);
        if (f.source === "config") p = bindC(p);
        else if (f.source === "both") p = bindEnv(bindC(p), { context: envContext, key: f.name, parser: f.k.envParser });
        else if (f.source === "env") p = bindE(p);
        p = wrap(p, { type: f.adapter === "own" ? "own" : f.k.types[f.adapter], message: f.name, choices: ["a"], options: ["a"], prompter });
        if (f.source === "outer") p = bindE(p);
        if (f.mapped === 1) p = core.map(p, (v) => [v]);
        if (f.mapped === 2) p = core.group("G", p);
        return p;
      });
      const members = (place) => Object.fromEntries(fields.filter((f) => f.place === place).map((f) => [f.name, parsers[f.i]]));
      const missing = c.line === "missing" ? { req: core.option("--req", core.string()) } : {};
      // Places: 0 and 1 in the object itself, 2 and 3 in nested objects.
      const nest = (o, place) => fields.some((f) => f.place === place) ? { ...o, [`n${place}`]: core.object(members(place)) } : o;
      const flat = { ...members(0), ...members(1), ...missing };
      const other = clackPrompt(core.option("--other", core.string()), { type: "text", message: "other", prompter: () => { log.push("other"); return Promise.resolve("o"); } });
      let parser, args = fields.flatMap((f) => f.given ? f.k.args(f.name) : []), value = (v) => v;
      const whole = core.object(nest(nest(flat, 2), 3));
      if (c.wrap === "command") { parser = core.command("go", whole); args.unshift("go"); }
      else if (c.wrap === "or") { parser = core.or(core.command("stay", core.object({ other })), core.command("go", whole)); args.unshift("go"); }
      else if (c.wrap === "merge") parser = core.merge(core.object({ ...members(0), ...missing }), core.object(nest(nest(members(1), 2), 3)));
      else if (c.wrap === "tuple") { parser = core.tuple([whole, core.object({ z: core.flag("--zzz").map(() => 1).optional() })]); value = (v) => [v, {}]; }
      else if (c.wrap === "group") parser = core.group("All", whole);
      else parser = whole;
      if (c.line === "unknown") args.push("--nope");
      if (c.line === "help") args.push("--help");
      if (c.line === "ok" && c.dash && fields.some((f) => f.kind !== "fail")) args.push("--");
      const what = () => `${args.join(" ")} for ${fields.map((f) => `${f.name}: ${f.kind}/${f.source}/${f.adapter}/${f.answer}@${f.place}`).join(", ")} in ${c.wrap}${c.run ? " (run)" : ""}`;
      const useEnv = c.env || !c.run;
      const twoPass = c.run && fields.some((f) => ["config", "both"].includes(f.source));
      let result, thrown;
      const told = [];
      try {
        if (c.line === "suggest") { for (const prefix of ["", "--", "x"]) await suggestAsync(parser, [...args, prefix]); result = "none"; } else if (c.run) {
          const contexts = [...(useEnv ? [envContext] : []), ...(twoPass ? [configContext] : [])];
          const r = await runWith(parser, "prog", contexts, { args, help: { option: true, onShow: () => "help" }, stdout: () => {}, stderr: () => {}, onError: () => "refused", contextOptions: { load: (parsed) => { told.push(parsed); const r = { config: { ...cfg }, meta: undefined }; return c.slowLoad ? Promise.resolve(r) : r; } } });
          result = r;
        } else {
          const r = await parseAsync(parser, args, { annotations: envContext.getAnnotations() });
          result = r.success ? r.value : "refused";
        }
      } catch (e) { if (e instanceof Violation) throw e; thrown = e; }

      const flatOrder = (pass) => pass.filter((n) => fields.find((f) => f.name === n).place < 2);
      // The model: which fields get their value elsewhere, and where from.
      const has = (f) => f.given ? f.k.line : useEnv && f.envHas ? f.k.env : f.cfgHas ? f.k.cfg : f.dflt ? f.k.line : undefined;
      const asked = fields.filter((f) => has(f) === undefined);
      if (!asked.length && c.line !== "unknown") ctx.trivial("nothing to ask");
      assert(thrown === undefined || errors.includes(thrown), () => `${what()}: throws ${thrown?.stack}`);
      assert(!log.includes("other"), () => `${what()}: the branch not chosen is asked`);
      if (c.line === "suggest" || (c.line === "help" && c.run) || (!twoPass && c.line !== "ok")) {
        ctx.label("never asks");
        // Parsers nested beside a missing field are completed at the same time as it.
        equal(c.line === "missing" ? flatOrder(log) : log, [], `prompts of ${what()}`);
        if (c.line === "suggest") return;
        if (!thrown || c.line !== "missing" || flatOrder(log).length === log.length) equal(thrown ?? result, c.line === "help" && c.run ? "help" : "refused", what());
        return;
      }
      for (const f of fields) if (!asked.includes(f)) equal(counts[f.i], 0, `prompts for ${f.name} in ${what()}, which has the value ${show(has(f))}`);
      if (c.line !== "ok") { assert(result === "refused" || thrown, () => `${what()} gives ${show(result)}`); ctx.label("refused"); return; }
      const config = (f) => ["config", "both"].includes(f.source);
      const nothing = (f) => f.answer === "nothing" && (f.adapter === "inquirer" ? f.kind === "integer" : f.adapter === "clack" && f.kind === "integer");
      const broken = asked.filter((f) => f.answer === "throws" || f.answer === "fails" || nothing(f));
      const last = (list) => asked.filter((f) => list.includes(f.place) && !broken.includes(f)).map((f) => f.name);
      if (broken.length) {
        ctx.label("failing prompt");
        assert(result === "refused" || broken.some((f) => f.answer === "throws" && thrown === errors[f.i]), () => `${what()}: gives ${show(thrown ?? result)} although ${broken.map((f) => f.name)} fail`);
        if (result === "refused") assert(broken.some((f) => f.answer !== "throws"), () => `${what()}: an unexpected error is reported as a parse error`);
        return;
      }
      ctx.label(twoPass ? "two passes" : "one pass", asked.length ? "asks" : "silent");
      // A field nothing else can answer in the first pass is asked in both.
      for (const f of asked) equal(counts[f.i], twoPass && !config(f) ? 2 : 1, `prompts for ${f.name} of ${what()} (${log.join(" ")})`);
      const order = (list) => list.sort((a, b) => a.place - b.place || a.i - b.i).map((f) => f.name);
      const firstPass = twoPass ? asked.filter((f) => !config(f)) : [];
      if (c.wrap !== "merge") {
        equal(flatOrder(log.slice(0, firstPass.length)), order(firstPass.filter((f) => f.place < 2)), `order of the prompts of the first pass of ${what()}`);
        equal(flatOrder(log.slice(firstPass.length)), order(asked.filter((f) => f.place < 2)), `order of the prompts of ${what()}`);
      }
      const final = (f) => { let v = asked.includes(f) ? f.answer === "nothing" ? f.kind === "multiple" && f.adapter === "clack" ? [] : undefined : f.k.answer(counts[f.i]) : has(f); return f.mapped === 1 ? [v] : v; };
      const want = {};
      for (const f of fields) (f.place < 2 ? want : (want[`n${f.place}`] ??= {}))[f.name] = final(f);
      assert(!thrown, () => `${what()}: throws ${thrown.stack}`);
      const norm = (o) => JSON.stringify(o, (_k, v) => v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).filter(([, x]) => x !== undefined).sort(([a], [b]) => a < b ? -1 : 1)) : v);
      equal(norm(result), norm(value(want)), `value of ${what()}`);
      if (twoPass) {
        equal(told.length, 1, `configuration loads of ${what()}`);
        const at = (f) => { const v = c.wrap === "tuple" ? told[0]?.[0] : told[0]; return (f.place < 2 ? v : v?.[`n${f.place}`])?.[f.name]; };
        for (const f of fields) if (f.given && f.mapped !== 1) equal(at(f), f.k.line, `${f.name} of the value handed to the configuration by ${what()}`);
        else if (asked.includes(f) && config(f) && f.mapped === 0) equal(at(f), undefined, `${f.name} of the value handed to the configuration by ${what()}, which is still to be asked`);
      }
    },
    setup: connect,
  }, {
    name: "keys", runs: { quick: 9000, thorough: 120000 }, async: true,
    arb: (fc) => fc.record({ prompts: fc.array(promptArb(fc), { minLength: 1, maxLength: 6 }), annotated: fc.boolean() }),
    setup: connect,
    async check(c, ctx) {
      terminals.clear();
      let typed = 0;
      const judged = await Promise.allSettled(c.prompts.map(async (s, at) => {
        const [lib, kind] = s.kind.split(" "), name = `${s.kind} ${at}`, rawName = `${name} raw`;
        // Clack itself has no asynchronous validation; see known-findings.json.
        const asyncValidate = s.validate === "async" && (lib === "inquirer" || c.pin);
        const numeric = kind === "number", max = s.min !== null && s.span !== null ? s.min + s.span : s.span;
        const refuses = (v) => numeric ? v % 5 === 0 ? "not a multiple of five" : undefined : v.length === 2 ? "not two" : undefined;
        const validate = s.validate === "none" ? undefined : (v) => { const r = lib === "inquirer" ? refuses(v) ?? true : refuses(v); return asyncValidate ? Promise.resolve(r) : r; };
        const picked = s.choices.map((x, i) => i === 0 ? { ...x, disabled: false } : x), noDisabled = kind === "rawlist" || kind === "expand";
        const choices = picked.map((x, i) => kind === "expand" ? { key: "abxy"[i], value: WORDS[i], ...(x.named ? { name: `The ${WORDS[i]}` } : {}) } : x.plain ? WORDS[i] : { value: WORDS[i], ...(x.named ? lib === "clack" ? { label: `The ${WORDS[i]}`, hint: "h" } : { name: `The ${WORDS[i]}`, description: "d" } : {}), ...(x.disabled && !noDisabled ? { disabled: x.disabled } : {}), ...(x.checked && kind === "checkbox" ? { checked: true } : {}) });
        const full = choices.map((x) => typeof x === "string" ? lib === "clack" ? { value: x, label: x } : { value: x, name: x } : x);
        const enabled = full.filter((x) => !x.disabled).map((x) => x.value);
        const some = (list) => list[s.dflt % list.length], d = s.dflt === null ? {} : undefined;
        const config = {
          "inquirer input": () => ({ ...(d ?? { default: `d${s.dflt}` }), ...(validate ? { validate } : {}) }),
          "inquirer password": () => ({ mask: s.dflt !== null, ...(validate ? { validate } : {}) }),
          "inquirer number": () => ({ ...(d ?? { default: s.dflt }), ...(s.min !== null ? { min: s.min } : {}), ...(max !== null ? { max } : {}), ...(s.step !== null ? { step: s.step } : {}) }),
          "inquirer confirm": () => ({ ...(d ?? { default: s.dflt % 2 === 0 }) }),
          "inquirer select": () => ({ choices, ...(d ?? { default: some(enabled) }) }), "inquirer rawlist": () => ({ choices, ...(d ?? { default: some(enabled) }) }),
          "inquirer expand": () => ({ choices, ...(d ?? { default: some(full).key }) }), "inquirer checkbox": () => ({ choices }),
          "clack text": () => ({ ...(d ?? { initialValue: `d${s.dflt}` }), ...(s.min !== null ? { placeholder: "ph" } : {}), ...(validate ? { validate } : {}) }),
          "clack password": () => ({ ...(d ?? { mask: "#" }), ...(validate ? { validate } : {}) }),
          "clack number": () => ({ ...(d ?? { initialValue: s.dflt }), ...(s.min !== null ? { min: s.min } : {}), ...(max !== null ? { max } : {}), ...(validate ? { validate } : {}) }),
          "clack confirm": () => ({ ...(d ?? { initialValue: s.dflt % 2 === 0 }) }),
          "clack select": () => ({ options: choices, ...(d ?? { initialValue: some(enabled) }) }),
          "clack multiselect": () => ({ options: choices, ...(s.required === null ? {} : { required: s.required }) }),
        }[s.kind]();
        const line = `--${["zero", "one", "two", "three", "four", "five"][at]}`;
        const inner = kind === "confirm" ? core.flag(line) : numeric ? core.option(line, core.float()) : kind === "checkbox" || kind === "multiselect" ? core.multiple(core.option(line, core.string())) : core.option(line, core.string());
        const parser = core.object({ v: (lib === "clack" ? clackPrompt : inquirerPrompt)(inner, { type: kind, message: name, ...config }) });
        const mine = terminal(), theirs = terminal();
        terminals.set(name, mine).set(rawName, theirs);
        // What the library itself gives for the same keys.
        const plain = { message: rawName, ...theirs, ...config, ...(config.choices ? { choices: full } : {}), ...(config.options ? { options: full } : {}) };
        const { input, output, ...inquirerConfig } = plain;
        const number = (v) => (v ?? "").trim() === "" ? NaN : Number(v);
        const raw = lib === "inquirer" ? real.inquirer[kind](inquirerConfig, { input, output })
          : numeric ? real.clack.text({ ...plain, ...(d ?? { initialValue: `${s.dflt}` }), validate: (v) => { const n = number(v); return !Number.isFinite(n) ? "no number" : n < (s.min ?? -Infinity) || n > (max ?? Infinity) ? "out of range" : s.validate === "none" ? undefined : refuses(n); } })
            : real.clack[kind]({ ...plain, ...(config.validate ? { validate: (v) => refuses(v ?? "") } : {}) });
        const [got, want] = await Promise.all([type(parseAsync(parser, [], c.annotated ? { annotations: { [Symbol.for("other")]: 1 } } : {}), mine.input, s.keys), type(raw, theirs.input, s.keys)]);
        const what = () => `${s.kind} prompt ${show(config)} after the keys ${JSON.stringify(s.keys)}`;
        assert(!mine.promised, () => `${what()}: the promise of the validator is taken for a refusal`);
        assert(!got.error, () => `${what()} throws ${got.error?.stack}`);
        const cancelled = want.error?.name === "ExitPromptError" || real.clack.isCancel(want.value);
        assert(cancelled || !want.error, () => `the library itself fails: ${want.error?.stack}`);
        typed += !cancelled && s.keys.length > 0;
        ctx.label(`${s.kind} ${cancelled ? "cancelled" : "answered"}`);
        const expected = cancelled ? { error: "Prompt cancelled." } : numeric && want.value === undefined ? { error: "No number provided." } : { value: numeric ? Number(want.value) : want.value };
        equal(got.value.success ? { value: got.value.value.v } : { error: core.formatMessage(got.value.error) }, expected, what());
        if (!got.value.success) return;
        const v = got.value.value.v;
        if (numeric) assert(Number.isFinite(v) && v >= (s.min ?? -Infinity) && v <= (max ?? Infinity) || (s.dflt !== null && lib === "inquirer"), () => `${what()} gives ${v}`);
        if (config.validate) assert(refuses(v) === undefined, () => `${what()} gives ${show(v)}, which its validator refuses`);
        if (["select", "rawlist", "expand"].includes(kind)) assert(enabled.includes(v), () => `${what()} gives ${show(v)}, which cannot be chosen`);
        if (config.required) assert(v.length > 0, () => `${what()} gives nothing`);
      }));
      const bad = judged.find((r) => r.status === "rejected");
      if (bad) throw bad.reason;
      if (!typed) ctx.trivial("no prompt is answered");
    },
  }],
};
