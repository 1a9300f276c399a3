import { mkdirSync, rmSync, writeFileSync } from "node:fs";
import { relative } from "node:path";
import * as core from "@optique/core";
import { runWith, runWithAsync, runWithSync } from "@optique/core/facade";
import { bindConfig, createConfigContext } from "@optique/config";
import { bindEnv, createEnvContext } from "@optique/env";
import { assert, equal, show } from "../lib/harness.mjs";
import { scratch } from "../lib/scratch.mjs";
import { toAsync } from "../lib/grammar.mjs";

const STRINGS = ["x", "", "é 𝕏", "with \"quotes\"\n", "--a"];
const dataArb = (fc) => fc.record({ a: fc.option(fc.constantFrom(...STRINGS), { nil: undefined }), deep: fc.option(fc.record({ n: fc.option(fc.integer({ min: -5, max: 15 }), { nil: undefined }) }), { nil: undefined }), 7: fc.option(fc.boolean(), { nil: undefined }), bad: fc.constantFrom(undefined, undefined, undefined, undefined, undefined, "refused", "thrown", "syntax", "enoent", "null", "undef") });
const fileArb = (fc) => fc.record({
  kind: fc.constantFrom("good", "good", "good", "good", "good", "good", "missing", "directory", "malformed", "truncated", "array", "empty", "include"), data: dataArb(fc), pretty: fc.boolean(), bom: fc.boolean(),
});
// What load() answers: a description instead of the thing itself.
const LOADED = ["good", "good", "good", "good", "nometa", "null", "undefined", "throws", "rejects", "string", "array", "noconfig", "promise-config", "promise-meta", "thenable", "null-config"];
const runArb = (fc) => fc.record({
  file: fc.option(fc.nat(3), { nil: null }), a: fc.constantFrom(undefined, undefined, "cli", "é"), n: fc.constantFrom(undefined, undefined, 3, 0), flag: fc.boolean(), how: fc.nat(2), mode: fc.constantFrom("path", "load", "load"), loaded: fc.constantFrom(...LOADED), later: fc.option(fc.nat(4), { nil: null }), env: fc.boolean(),
});

export default {
  id: "C26",
  title: "Configuration files reach the run that names them, validated, and no other",
  statement: "Each run with a configuration context gets the values of the file or loader its own command line selects, exactly as the schema returns them and with the right metadata, below the command line and above defaults, however many runs share the context, parser and process at the same time. A missing file or an empty answer counts as no configuration. Malformed files, refused data and wrong answers of a loader end the run with an error that says so, and never with silently used or half-read values.",
  quantifier: [["schedules", "faults", "inputs"], "up to five concurrent runs over four files of every condition, loaders answering at any time or wrongly, sync or async schemas and parsers"],
  why: "Runs share contexts and parsers; leaks between them and the handling of each fault depend on the interleaving.",
  files: ["packages/config/src/index.ts", "packages/core/src/facade.ts", "packages/core/src/annotations.ts"],
  mechanism: [["createConfigContext().getAnnotations(), validateLoadResult(), bindConfig()", "packages/config/src/index.ts"], ["annotation snapshots of each run", "packages/core/src/facade.ts"]],
  observe: ["each run's value or error, and what the schema, loader and accessors are given"],
  rule: "two or more runs, or one that reads a configuration or fails.",
  parts: [{
    name: "runs", runs: { quick: 16000, thorough: 300000 }, async: true,
    arb: (fc) => fc.record({ files: fc.array(fileArb(fc), { minLength: 4, maxLength: 4 }), runs: fc.array(runArb(fc), { minLength: 1, maxLength: 5 }), schemaLater: fc.constantFrom(null, null, 0, 2), asyncParser: fc.boolean(), defaults: fc.boolean(), custom: fc.constantFrom(false, false, true), rel: fc.boolean(), nest: fc.boolean() }),
    async check(c, ctx) {
      const dir = `${scratch()}/config`;
      rmSync(dir, { recursive: true, force: true });
      mkdirSync(`${dir}/sub`, { recursive: true });
      const abs = c.files.map((_, i) => i % 2 ? `${dir}/sub/${i}.json` : `${dir}/${i}.json`);
      // A custom file format: the JSON text reversed.
      const encode = (t) => c.custom ? [...t].reverse().join("") : t;
      c.files.forEach((f, i) => {
        if (f.kind === "missing") return;
        if (f.kind === "directory") return mkdirSync(abs[i]);
        const json = JSON.stringify({ ...f.data, id: i }, null, f.pretty ? 2 : 0);
        const text = f.kind === "good" ? json : f.kind === "malformed" ? json + "}" : f.kind === "truncated" ? json.slice(0, -1) : f.kind === "array" ? "[1]" : f.kind === "include" ? "include" : "";
        writeFileSync(abs[i], (f.bom && !c.custom ? "\ufeff" : "") + encode(text));
      });
      const ticks = (n, f) => new Promise((resolve, reject) => { let k = n; const go = () => { if (k-- > 0) queueMicrotask(go); else try { resolve(f()); } catch (e) { reject(e); } }; go(); });
      const boom = new Error("loader failed"), refuse = new RangeError("schema threw"), odd = new SyntaxError("schema syntax"), absent = Object.assign(new Error("no such include"), { code: "ENOENT" });
      const validate = (raw) => {
        if (raw === null || typeof raw !== "object" || Array.isArray(raw)) return { issues: [{ message: "not an object" }, { message: "second" }] };
        if (raw.bad === "refused") return { issues: [{ message: `refused ${raw.id}`, path: ["bad"] }] };
        if (raw.bad === "thrown") throw refuse;
        if (raw.bad === "syntax") throw odd;
        if (raw.bad === "enoent") throw absent;
        if (raw.bad === "null") return { value: null };
        if (raw.bad === "undef") return { value: undefined };
        return { value: { ...raw, a: raw.a === undefined ? undefined : `${raw.a}!`, 7: raw[7], [SYM]: raw.id } };
      };
      const SYM = Symbol("id");
      const schema = { "~standard": { version: 1, vendor: "test", validate: (raw) => c.schemaLater === null ? validate(raw) : ticks(c.schemaLater, () => validate(raw)) } };
      const context = createConfigContext({ schema, ...(c.custom ? { fileParser: (bytes) => {
        const text = [...new TextDecoder().decode(bytes)].reverse().join("");
        if (text === "include") throw absent;
        return JSON.parse(text);
      } } : {}) });
      const envContext = createEnvContext({ prefix: "P_", source: (k) => k === "P_N" ? "9" : undefined });
      const vp = (p) => c.asyncParser ? toAsync(p, () => 1) : p;
      const seen = [];
      const dflt = (v) => c.defaults ? { default: v } : {};
      const fields = {
        file: core.optional(core.option("--file", core.string())),
        a: bindConfig(core.option("--a", vp(core.string())), { context, key: "a", ...dflt("dflt") }),
        n: bindEnv(bindConfig(core.option("--n", core.integer({ min: 0, max: 10 })), { context, key: (d, m) => { seen.push([d, m]); return d.deep?.n; }, default: 5 }), { context: envContext, key: "N", parser: core.integer() }),
        flag: bindConfig(core.flag("--flag"), { context, key: 7, default: false }),
        sym: bindConfig(core.fail(), { context, key: SYM, default: -1 }),
      };
      const parser = c.nest ? core.merge(core.object({ file: fields.file, n: fields.n }), core.object({ a: fields.a, flag: fields.flag, sym: fields.sym })) : core.object(fields);

      const one = (r, i) => {
        const args = [];
        if (r.file !== null) args.push("--file", String(r.file));
        if (r.a !== undefined) args.push("--a", r.a);
        if (r.n !== undefined) args.push(`--n=${r.n}`);
        if (r.flag) args.push("--flag");
        const sync = r.how === 1 && !c.asyncParser;
        const runner = sync ? runWithSync : r.how === 0 ? runWith : runWithAsync;
        const told = [];
        const meta = { run: i };
        const raw = r.file === null ? undefined : { ...c.files[r.file].data, id: r.file };
        const answer = () => {
          if (r.loaded === "throws" || r.loaded === "rejects") throw boom;
          return { good: { config: raw, meta }, nometa: { config: raw }, null: null, undefined: undefined, string: "x", array: [], noconfig: { meta }, "promise-config": { config: Promise.resolve(raw), meta }, "promise-meta": { config: raw, meta: Promise.resolve(meta) }, thenable: { then() {} }, "null-config": { config: null, meta } }[r.loaded];
        };
        const later = r.mode === "load" && (r.loaded === "rejects" || (r.later !== null && r.loaded !== "thenable"));
        const contextOptions = r.mode === "path"
          ? { getConfigPath: (p) => { told.push(p); return p.file === undefined ? (r.later === 0 ? "" : undefined) : c.rel ? relative(process.cwd(), abs[p.file]) : abs[p.file]; } }
          : { load: (p) => { told.push(p); if (!later) return answer(); const q = ticks(r.later ?? 1, answer); q.catch(() => {}); return q; }, getConfigPath: () => { throw new Error("load() comes first"); } };
        const options = { args, contextOptions, stderr: () => {}, onError: () => "refused" };
        const contexts = r.env ? [envContext, context] : [context];
        let result;
        try { result = runner(parser, "prog", contexts, options); } catch (e) { result = { thrown: e }; }
        if (result instanceof Promise) result = result.then((v) => v, (e) => ({ thrown: e }));

        // The model.
        const given = { ...(r.file === null ? {} : { file: String(r.file) }) };
        let data, want = null, m, bad = null; // bad: a test for the error thrown
        const fails = (what, test) => { bad = { what, test }; };
        const typed = (e) => e instanceof TypeError;
        const check = (rawData) => {
          if (sync && c.schemaLater !== null) return fails("a TypeError for the asynchronous schema", typed);
          let v;
          try { v = validate(rawData); } catch (e) { return fails("the schema's error", (x) => x === e); }
          if (v.issues) return fails("a refusal", (e) => e.message === `Config validation failed: ${v.issues[0].message}`);
          data = v.value;
        };
        if (r.mode === "path") {
          const f = r.file === null ? null : c.files[r.file];
          if (f && f.kind !== "missing") {
            m = { configPath: abs[r.file], configDir: abs[r.file].slice(0, abs[r.file].lastIndexOf("/")) };
            if (f.kind === "directory") fails("EISDIR", (e) => e.code === "EISDIR");
            else if (f.kind === "include" && c.custom) fails("the file parser's error", (e) => e === absent);
            else if (["malformed", "truncated", "empty", "include"].includes(f.kind)) fails("a parse error with the path", (e) => e.message.startsWith(`Failed to parse config file ${abs[r.file]}: `));
            else check(f.kind === "array" ? [1] : JSON.parse(JSON.stringify(raw)));
          }
        } else if (sync && later) fails("a TypeError for the Promise", typed);
        else if (r.loaded === "throws" || r.loaded === "rejects") fails("the loader's error", (e) => e === boom);
        else if (["string", "array", "noconfig", "promise-config", "promise-meta", "thenable"].includes(r.loaded)) fails(`a TypeError for the answer (${r.loaded})`, typed);
        else if (r.loaded === "null-config") check(null);
        else if (r.loaded === "good" || r.loaded === "nometa") { m = r.loaded === "good" ? meta : undefined; check(raw); }
        if (!bad) {
          const n = r.n ?? (r.env ? 9 : undefined) ?? data?.deep?.n ?? 5;
          const a = r.a ?? data?.a ?? (c.defaults ? "dflt" : undefined);
          want = n < 0 || n > 10 || a === undefined ? "refused" : { file: given.file, n, a, flag: r.flag || (data?.[7] ?? false), sym: data ? r.file : -1 };
          if (data && raw === undefined) want = "never";
        }
        return { result, want, bad, data, m, told, args, r };
      };
      // Start all runs before waiting for any.
      const all = c.runs.map(one);
      let interesting = all.length > 1;
      for (const x of all) {
        const got = await x.result;
        const what = `run of ${x.args.join(" ")} (${all.length} runs, ${x.r.mode === "path" ? `file ${x.r.file === null ? "none" : c.files[x.r.file].kind}` : `load ${x.r.loaded}`})`;
        if (x.bad) { interesting = true; assert(got?.thrown && x.bad.test(got.thrown), () => `${what} should end with ${x.bad.what}, but gives ${show(got)} ${got?.thrown?.stack ?? ""}`); }
        else {
          if (x.data) interesting = true;
          assert(!got?.thrown, () => `${what} throws ${got.thrown.stack}`);
          equal(got, x.want, what);
        }
        ctx.label(x.bad ? x.bad.what.replace(/\(.*/, "") : x.data ? "configured" : "not configured");
        equal(x.told.length, 1, `${what}: times the configuration was asked for`);
        if (x.r.file !== null) equal(x.told[0].file, String(x.r.file), `${what}: value handed to the loader`);
        if (x.r.a !== undefined) equal(x.told[0].a, x.r.a, `${what}: value handed to the loader`);
      }
      // Accessors only ever see validated data with its own metadata.
      const pairs = all.filter((x) => x.data).map((x) => [x.data, x.m]);
      for (const [d, m] of seen) assert(pairs.some(([pd, pm]) => { try { equal(d, pd, ""); equal(m, pm, ""); return true; } catch { return false; } }), () => `an accessor sees ${show(d)} with ${show(m)}, expected one of ${show(pairs)}`);
      if (!interesting) ctx.trivial("one run without configuration");
    },
  }, {
    // A schema may make anything of a file, not only an object.
    name: "scalars", runs: { quick: 3000, thorough: 60000 },
    arb: (fc) => fc.record({ v: fc.constantFrom(0, -0, "", false, true, "x", 12, [], ["a"], 0n, { a: 0 }, { a: "" }, { a: false }, { a: [] }, { a: null }, { a: undefined }, {}), key: fc.constantFrom("a", "all", "wrap", "nothing"), dflt: fc.boolean(), given: fc.boolean(), later: fc.boolean(), meta: fc.constantFrom(undefined, 0, "", false, { x: 1 }) }),
    async: true,
    async check(c, ctx) {
      const context = createConfigContext({ schema: { "~standard": { version: 1, vendor: "test", validate: () => ({ value: c.v }) } } });
      const seen = [], NOTHING = "default!";
      const key = c.key === "a" ? "a" : (data, meta) => { seen.push([data, meta]); return c.key === "all" ? data : c.key === "wrap" ? [data] : undefined; };
      const p = core.object({ x: bindConfig(core.option("--x", core.string()).map((v) => v), { context, key, ...(c.dflt ? { default: NOTHING } : {}) }) });
      const loaded = { config: 1, ...(c.meta === undefined ? {} : { meta: c.meta }) };
      const got = await runWith(p, "prog", [context], { args: c.given ? ["--x=line"] : [], contextOptions: { load: () => c.later ? Promise.resolve(loaded) : loaded }, stderr: () => {}, onError: () => "refused" });
      const data = c.key === "a" ? Object(c.v) === c.v && Object.hasOwn(c.v, "a") ? c.v.a : undefined : c.key === "all" ? c.v : c.key === "wrap" ? [c.v] : undefined;
      const want = c.given ? { x: "line" } : data !== undefined ? { x: data } : c.dflt ? { x: NOTHING } : "refused";
      if (c.given) ctx.trivial("on the line"); else ctx.label(data === undefined ? "nothing" : data ? "something" : "falsy");
      equal(got, want, `${show(c.v)} by ${c.key}`);
      for (const [d, m] of seen) { assert(Object.is(d, c.v), () => `the accessor gets ${show(d)}, not ${show(c.v)}`); assert(Object.is(m, c.meta), () => `the accessor gets the metadata ${show(m)}, not ${show(c.meta)}`); }
    },
  }],
};
