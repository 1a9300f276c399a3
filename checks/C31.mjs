import { createRequire } from "node:module";
import { inspect, isDeepStrictEqual } from "node:util";
import * as core from "@optique/core";
import { getDocPageSync, parseAsync, parseSync, suggestAsync, suggestSync } from "@optique/core/parser";
import { standardSchema, standardSchemaAsync } from "@optique/standard-schema";
import { valibot, valibotAsync } from "@optique/valibot";
import { zod, zodAsync } from "@optique/zod";
import { assert, equal, show } from "../lib/harness.mjs";
import { ROOT } from "../lib/loader.mjs";

const load = (pkg, id) => import(createRequire(`${ROOT}/packages/${pkg}/_.mjs`).resolve(id).replace(/\.cjs$/, (x) => pkg === "valibot" ? ".mjs" : ".js"));
const libs = {};
async function setup() {
  if (libs.z4) return;
  libs.z4 = (await load("zod", "zod")).z; libs.z3 = (await load("zod", "zod/v3")).z;
  libs.v = await load("valibot", "valibot");
}
let asked = 0;
const later = (f) => async (...a) => { asked++; await null; return f(...a); };
const even = (x) => String(x).length % 2 === 0;
const short = (x) => String(x).length < 4;
const PRED = [even, short, () => true, (x) => x !== "b" && x !== false && x !== "abcd"];
const tag = (x) => ["t", x];
const flip = (s) => typeof s === "string" ? s.trim().toUpperCase() : s;
const ENUMS = [["a", "b"], ["a", "abcd", "ab"], ["x"], ["true", "false"], ["", "B"]];
const NATIVE = [{ A: "a", B: "abcd" }, { X: 0, 0: "X", Y: 1, 1: "Y" }, { P: "p", Q: 2, 2: "Q" }];
const LITS = [["a"], ["abcd"], [1], [true], ["a", "b"], [null], ["x", 2]];
const TRUE = ["true", "1", "yes", "on"], FALSE = ["false", "0", "no", "off"];

// ---------------------------------------------------------------- zod
function zodOf(n, z, four) {
  const in1 = () => zodOf(n.p, z, four);
  switch (n.k) {
    case "str": return z.string(); case "email": return z.string().email(); case "uuid": return z.string().uuid(); case "min": return z.string().min(2).max(3);
    case "num": return z.coerce.number().min(-2).max(1000); case "int": return z.coerce.number().int(); case "rawnum": return z.number();
    case "bool": return z.boolean(); case "cbool": return z.coerce.boolean(); case "date": return z.coerce.date(); case "big": return z.string().regex(/^\d+$/).transform((s) => BigInt(s));
    case "enum": return z.enum(ENUMS[n.n % ENUMS.length]); case "native": return z.nativeEnum(NATIVE[n.n % NATIVE.length]);
    case "lit": { const l = LITS[n.n % LITS.length]; return l.length === 1 ? z.literal(l[0]) : four ? z.literal(l) : z.union(l.map((x) => z.literal(x))); }
    case "any": return z.any(); case "json": return z.string().transform((s, c) => { try { return JSON.parse(s); } catch { c.addIssue({ code: "custom", message: "Not JSON." }); return z.NEVER; } });
    case "optional": return in1().optional(); case "nullable": return in1().nullable(); case "default": return in1().default("dflt"); case "readonly": return in1().readonly();
    case "prefault": return four ? in1().prefault("a") : in1(); case "nonoptional": return four ? z.nonoptional(in1()) : in1();
    case "lazy": { let made; return z.lazy(() => made ??= in1()); }
    case "refine": return in1().refine(PRED[n.n % PRED.length], "refined away");
    case "super": return in1().superRefine((x, c) => { if (!PRED[n.n % PRED.length](x)) c.addIssue({ code: "custom", message: "super refused" }); });
    case "catch": return in1().catch("caught"); case "brand": return in1().brand("X"); case "transform": return in1().transform(tag); case "pipe": return in1().pipe(z.any());
    case "pre": return z.preprocess(flip, in1()); case "union": return z.union(n.list.map((q) => zodOf(q, z, four)));
    case "arefine": return in1().refine(later(PRED[n.n % PRED.length]), "asynchronously refined away"); case "atransform": return in1().transform(later(tag));
  }
}
// ---------------------------------------------------------------- valibot
/** With hide, wrappers do not tell of asynchronous parts in them, as JavaScript code may have it. */
function valOf(n, v, hide = false) {
  const in1 = () => valOf(n.p, v, hide);
  const later1 = n.p && hasAsync(n.p) && !hide, V = (name) => later1 ? v[`${name}Async`] : v[name];
  const pipe = (...a) => n.p && (hide ? wild(n.p) : hasAsync(n.p)) ? v.pipeAsync(...a) : v.pipe(...a);
  switch (n.k) {
    case "str": return v.string(); case "email": return v.pipe(v.string(), v.email()); case "uuid": return v.pipe(v.string(), v.uuid()); case "min": return v.pipe(v.string(), v.minLength(2), v.maxLength(3));
    case "num": return v.pipe(v.string(), v.transform(Number), v.number(), v.minValue(-2), v.maxValue(1000)); case "int": return v.pipe(v.string(), v.transform(Number), v.number(), v.integer()); case "rawnum": return v.number();
    case "bool": return v.boolean(); case "cbool": return v.pipe(v.string(), v.transform((s) => s === "yes"), v.boolean()); case "date": return v.pipe(v.string(), v.transform((s) => new Date(s)), v.date()); case "big": return v.pipe(v.string(), v.regex(/^\d+$/), v.transform((s) => BigInt(s)));
    case "enum": return v.picklist(ENUMS[n.n % ENUMS.length]); case "native": return v.enum(NATIVE[n.n % NATIVE.length]);
    case "lit": { const l = LITS[n.n % LITS.length].filter((x) => x !== null); return l.length === 1 ? v.literal(l[0]) : l.length ? v.union(l.map((x) => v.literal(x))) : v.null(); }
    case "any": return v.any(); case "json": return v.pipe(v.string(), v.rawTransform(({ dataset, addIssue, NEVER }) => { try { return JSON.parse(dataset.value); } catch { addIssue({ message: "Not JSON." }); return NEVER; } }));
    case "optional": return V("optional")(in1()); case "nullable": return V("nullable")(in1()); case "default": return V("optional")(in1(), "dflt"); case "prefault": return V("nullish")(in1()); case "nonoptional": return V("nonOptional")(in1());
    case "lazy": return V("lazy")(() => in1());
    case "refine": case "super": return pipe(in1(), v.check(PRED[n.n % PRED.length], "refined away"));
    case "catch": return V("fallback")(in1(), "caught"); case "brand": return pipe(in1(), v.brand("X")); case "readonly": return pipe(in1(), v.readonly()); case "transform": return pipe(in1(), v.transform(tag)); case "pipe": return pipe(in1(), v.any());
    case "pre": return pipe(v.string(), v.trim(), v.toUpperCase(), in1()); case "union": return (n.list.some(hasAsync) && !hide ? v.unionAsync : v.union)(n.list.map((q) => valOf(q, v, hide)));
    case "arefine": return v.pipeAsync(in1(), v.checkAsync(later(PRED[n.n % PRED.length]), "asynchronously refined away")); case "atransform": return v.pipeAsync(in1(), v.transformAsync(later(tag)));
  }
}
/** Whether a part of a valibot schema is itself asynchronous (only wrappers and unions hide it). */
const wild = (n) => n.k === "arefine" || n.k === "atransform" || (["refine", "super", "brand", "readonly", "transform", "pipe", "pre"].includes(n.k) && wild(n.p));
const has = (n, f) => f(n) || (n.p && has(n.p, f)) || (n.list ?? []).some((q) => has(q, f));
const hasAsync = (n) => has(n, (q) => q.k === "arefine" || q.k === "atransform");

// ---------------------------------------------------------------- what the parts mean
const KEEP = ["optional", "nullable", "default", "readonly", "prefault", "nonoptional", "lazy"];
const NARROW = ["refine", "super", "catch", "brand", "transform", "pipe", "arefine", "atransform"];
/** The Boolean at the heart of a wholly Boolean zod schema. */
function boolean(n, four) {
  if (n.k === "bool" || n.k === "cbool") return { coerce: n.k === "cbool", pure: true };
  if (KEEP.includes(n.k)) return boolean(n.p, four);
  if (NARROW.includes(n.k)) { const b = boolean(n.p, four); return b && { ...b, pure: false }; }
  return null;
}
/** The words of a schema that is nothing but a choice of strings. */
function plainChoices(n, lib) {
  if (n.k === "enum") return ENUMS[n.n % ENUMS.length];
  if (n.k === "native" && lib !== "valibot") { const vs = Object.values(NATIVE[n.n % NATIVE.length]); return vs.every((x) => typeof x === "string") ? vs : null; }
  if (n.k === "lit") { const l = LITS[n.n % LITS.length]; return l.every((x) => typeof x === "string") ? l : null; }
  if (["optional", "nullable", "default"].includes(n.k)) return plainChoices(n.p, lib);
  if (n.k === "union") { const all = n.list.map((q) => plainChoices(q, lib)); return all.every(Boolean) ? [...new Set(all.flat())] : null; }
  return null;
}
const exact = (n) => ["enum", "native", "lit"].includes(n.k) || ["optional", "nullable", "default"].includes(n.k) && exact(n.p) || n.k === "union" && n.list.every(exact);

const schemaArb = (fc, withAsync) => fc.letrec((tie) => ({
  leaf: fc.record({ k: fc.constantFrom("str", "email", "uuid", "min", "num", "int", "rawnum", "bool", "bool", "cbool", "cbool", "date", "big", "enum", "enum", "native", "lit", "lit", "any", "json"), n: fc.nat(6) }),
  node: fc.oneof({ depthSize: "small" }, { weight: 3, arbitrary: tie("leaf") },
    { weight: 3, arbitrary: fc.record({ k: fc.constantFrom(...KEEP, "refine", "super", "catch", "brand", "transform", "pipe", "pre", ...(withAsync ? ["arefine", "arefine", "atransform"] : [])), n: fc.nat(3), p: tie("node") }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant("union"), list: fc.array(tie("node"), { minLength: 1, maxLength: 3 }) }) }),
})).node;
const WORDS = ["", "a", "b", "ab", "abcd", "x", "B", "A", "p", "X", "0", "1", "2", "7", "-3", "3.5", "1e3", "true", "TRUE", " true ", "false", "yes", "No", "on", "OFF", "o", "t", "2020-01-02", "nope", "a@b.co", "null", "[1]", "{\"a\":1}", "f47ac10b-58cc-4372-a567-0e02b2c3d479", "NaN"];
const wordArb = (fc) => fc.oneof({ weight: 5, arbitrary: fc.constantFrom(...WORDS) }, { weight: 1, arbitrary: fc.string({ maxLength: 4 }) });
const caseArb = (lib, withAsync) => (fc) => fc.record({ lib: fc.constantFrom(...lib), spec: schemaArb(fc, withAsync), words: fc.array(wordArb(fc), { minLength: 1, maxLength: 6 }), custom: fc.constantFrom("none", "none", "function", "static"), format: fc.boolean(), hide: fc.boolean() });

const text = (m) => core.formatMessage(m, { quotes: false });
const run = (f) => { try { return { r: f() }; } catch (e) { return { e }; } };
const same = (a, b) => isDeepStrictEqual(a, b);
function make(c) {
  const { lib, spec } = c;
  if (lib === "valibot") return { schema: valOf(spec, libs.v), sync: valibot, async: valibotAsync, key: "valibotError", safe: (s, x) => { const r = libs.v.safeParse(s, x); return r.success ? { ok: true, value: r.output } : { ok: false, issues: r.issues }; }, safeAsync: async (s, x) => { const r = await libs.v.safeParseAsync(s, x); return r.success ? { ok: true, value: r.output } : { ok: false, issues: r.issues }; } };
  const four = lib === "zod4";
  const norm = (r) => r.success ? { ok: true, value: r.data } : { ok: false, issues: r.error.issues };
  return { schema: zodOf(spec, four ? libs.z4 : libs.z3, four), sync: zod, async: zodAsync, key: "zodError", safe: (s, x) => norm(s.safeParse(x)), safeAsync: async (s, x) => norm(await s.safeParseAsync(x)), bool: boolean(spec, four) };
}
/** What the schema library says of a word on a command line. */
function input(m, word) {
  if (!m.bool) return { x: word };
  const w = word.trim().toLowerCase();
  if (TRUE.includes(w)) return { x: true };
  if (FALSE.includes(w)) return { x: false };
  return m.bool.coerce ? { refused: true } : { x: word };
}
function options(c, m, seen) {
  const o = { placeholder: "ph" };
  if (c.custom === "function") o.errors = { [m.key]: (e, x) => { seen.push([e.issues ?? e, x]); return core.message`custom ${x}`; } };
  if (c.custom === "static") o.errors = { [m.key]: core.message`static` };
  if (c.format) o.format = (x) => { seen.formatted ??= []; seen.formatted.push(x); return "formatted"; };
  return o;
}
function judge(c, got, want, word, what, seen) {
  if (want.refused || !want.ok) {
    assert(!got.success, () => `${what}: ${show(word)} is accepted as ${show(got.value)}, the schema refuses it`);
    const msg = text(got.error);
    if (c.custom === "function") equal(msg, `custom ${word}`, `${what}: error for ${show(word)}`);
    else if (c.custom === "static") equal(msg, "static", `${what}: error for ${show(word)}`);
    else if (!want.refused) assert(msg.includes(want.issues[0]?.message ?? ""), () => `${what}: error ${show(msg)} for ${show(word)}, issues ${show(want.issues)}`);
    if (c.custom === "function") { equal(seen.at(-1)?.[1], word, `${what}: input given to the error callback`); if (!want.refused) equal(seen.at(-1)[0].map((i) => i.message), want.issues.map((i) => i.message), `${what}: issues given to the error callback`); }
  } else {
    assert(got.success, () => `${what}: ${show(word)} is refused: ${show(text(got.error))}, the schema accepts it as ${inspect(want.value)}`);
    assert(same(got.value, want.value), () => `${what}: ${show(word)} is ${inspect(got.value)}, the schema makes it ${inspect(want.value)}`);
  }
}

// ---------------------------------------------------------------- values as text
class Point { constructor(x) { this.x = x; } }
class Named { constructor(x) { this.x = x; } toString() { return `<${this.x}>`; } }
const PLAIN = ["bag", "record", "json"];
const valueArb = (fc) => fc.record({
  k: fc.constantFrom("any", "any", "date", "baddate", "array", "record", "bag", "bag", "point", "named", "json", "loop", "map", "url", "regexp", "function"),
  v: fc.oneof(fc.constantFrom(null, undefined, "", 0, -0, NaN, 1e21, true, false, 12n, "null", "a b"), fc.integer(), fc.double(), fc.string()),
  keys: fc.array(fc.tuple(fc.constantFrom("a", "b", "toString", "then", "x y"), fc.oneof(fc.string(), fc.integer(), fc.boolean(), fc.constant(null))), { maxLength: 3 }),
  at: fc.integer({ min: -8.64e15, max: 8.64e15 }),
});
/** The value, and what it is as text; undefined where any text will do. */
function valueOf(n) {
  const own = Object.fromEntries(n.keys.filter(([k]) => k !== "toString"));
  switch (n.k) {
    case "any": return [n.v, String(n.v)];
    case "date": { const d = new Date(n.at); return [d, d.toISOString()]; }
    case "baddate": return [new Date(NaN), "Invalid Date"];
    case "array": { const a = n.keys.map(([, v]) => v); return [a, String(a)]; }
    case "record": return [own, JSON.stringify(own)];
    case "bag": { const o = Object.assign(Object.create(null), Object.fromEntries(n.keys)); return [o, JSON.stringify(o)]; }
    case "point": return [new Point(n.v), "[object Object]"];
    case "named": return [new Named(n.v), `<${n.v}>`];
    case "json": { const o = { toJSON: () => n.keys.map(([k]) => k) }; return [o, JSON.stringify(o)]; }
    case "loop": { const o = { ...own }; o.self = o; return [o, undefined]; }
    case "map": return [new Map(), "[object Map]"];
    case "url": return [new URL("http://a/b"), "http://a/b"];
    case "regexp": return [/a b/u, "/a b/u"];
    case "function": { const f = () => n; return [f, String(f)]; }
  }
}

export default {
  id: "C31",
  title: "A schema decides values exactly as its own library does",
  statement: "A value parser made from a Zod (3 and 4), Valibot or other Standard Schema schema accepts a word exactly if the schema accepts it and gives the schema's own output, or its issues through the error hook; wholly Boolean Zod schemas read true, 1, yes, on, false, 0, no, off instead. The asynchronous variants agree with the synchronous ones; a synchronous parser never skips an asynchronous check but throws a TypeError, and takes every schema without one. Choices shown and words completed are accepted by the parser, and are all words of a plain enumeration; help for a schema never fails. A value is shown in its usual form: a Date in ISO form, a plain object as JSON, all else as String() has it, and never with an error.",
  quantifier: [["programs", "inputs"], "random schemas of nested wrappers, refinements, transformations, unions, with asynchronous parts, in three libraries; random words; custom errors"],
  why: "The integrations read private structure of schemas to find Booleans, choices and asynchronous parts; every nesting is a different shape, tests try a few.",
  files: ["packages/zod/src/index.ts", "packages/valibot/src/index.ts", "packages/standard-schema/src/index.ts"],
  mechanism: [["zod(), zodAsync(), analyzeBooleanSchema() and inferChoices()", "packages/zod/src/index.ts"], ["valibot(), containsAsyncSchema()", "packages/valibot/src/index.ts"], ["standardSchema()", "packages/standard-schema/src/index.ts"]],
  observe: ["value parser results against safeParse() of the schema", "choices, suggestions, metavar and help"],
  rule: "trivial if no word of the case is accepted by the schema; format: trivial with only primitive values or the parser's own format()",
  parts: [
    {
      name: "sync", runs: { quick: 20000, thorough: 400000 }, setup, async: true,
      arb: caseArb(["zod4", "zod4", "zod3", "valibot"], false),
      async check(c, ctx) {
        const m = make(c), seen = [];
        const vp = m.sync(m.schema, options(c, m, seen)), avp = m.async(m.schema, options(c, m, seen));
        const what = `${c.lib}`;
        let ok = 0;
        for (const word of c.words) {
          const i = input(m, word);
          const want = i.refused ? i : m.safe(m.schema, i.x);
          if (want.ok) ok++;
          judge(c, vp.parse(word), want, word, what, seen);
          judge(c, await avp.parse(word), want, word, `${what} (async)`, seen);
        }
        equal(avp.metavar, vp.metavar, "metavar of the asynchronous parser"); equal(avp.choices, vp.choices, "choices of the asynchronous parser"); equal(vp.placeholder, "ph", "placeholder");
        assert(vp.metavar.length > 0, "empty metavar");
        const plain = exact(c.spec) && plainChoices(c.spec, c.lib);
        if (plain) equal([...vp.choices ?? []].sort(), [...plain].sort(), "choices of a plain enumeration");
        if (m.bool?.pure && !m.bool.coerce && c.spec.k === "bool") equal(vp.choices, [true, false], "choices of a Boolean");
        if (vp.choices) {
          ctx.label(m.bool ? "Boolean choices" : "choices");
          equal(vp.metavar, m.bool ? "BOOLEAN" : "CHOICE", "metavar of a parser with choices");
          for (const ch of vp.choices) { const r = vp.parse(String(ch)); assert(r.success, () => `${what}: choice ${show(ch)} is refused: ${text(r.error)}`); }
        }
        for (const prefix of ["", ...c.words.slice(0, 2)]) {
          const s = [...vp.suggest?.(prefix) ?? []].map((x) => x.text), t = [];
          for await (const x of avp.suggest?.(prefix) ?? []) t.push(x.text);
          equal(t, s, "suggestions of the asynchronous parser");
          if (plain) equal([...s].sort(), plain.filter((w) => w.startsWith(prefix)).sort(), `suggestions for ${show(prefix)}`);
          for (const w of s) { const r = vp.parse(w); assert(r.success, () => `${what}: suggestion ${show(w)} is refused: ${text(r.error)}`); assert(w.startsWith(prefix.toLowerCase()) || w.startsWith(prefix), () => `${what}: suggestion ${show(w)} for ${show(prefix)}`); }
        }
        // the whole parser
        const p = core.option("-o", vp), word = c.words[0], i = input(m, word), want = i.refused ? i : m.safe(m.schema, i.x);
        const r = parseSync(p, ["-o", word]);
        assert(r.success === Boolean(want.ok), () => `${what}: -o ${show(word)} gives ${show(r)}`);
        if (r.success) assert(same(r.value, want.value), () => `${what}: -o ${show(word)} gives ${inspect(r.value)}`);
        const doc = run(() => core.formatDocPage("app", getDocPageSync(core.object({ o: p })), { showChoices: true, showDefault: true }));
        assert(!doc.e, () => `${what}: help fails: ${doc.e?.stack}`);
        for (const x of seen.formatted ?? []) assert((vp.choices ?? []).some((ch) => { const q = vp.parse(String(ch)); return q.success && same(q.value, x); }), () => `${what}: help formats ${inspect(x)}, which no choice stands for`);
        const w = want.ok ? run(() => vp.format(want.value)) : null;
        if (w) assert(!w.e && typeof w.r === "string", () => `${what}: format(${inspect(want.value)}) fails: ${w.e}`);
        if (w && !c.format && want.value instanceof Date && !Number.isNaN(+want.value)) equal(w.r, want.value.toISOString(), "format of a Date");
        if (ok === 0) ctx.trivial("nothing accepted");
      },
    },
    {
      name: "async", runs: { quick: 15000, thorough: 300000 }, setup, async: true,
      arb: caseArb(["zod4", "zod3", "valibot", "valibot"], true),
      async check(c, ctx) {
        const m = make(c), seen = [];
        const avp = m.async(m.schema, options(c, m, seen));
        const hidden = c.hide && c.lib === "valibot" && hasAsync(c.spec);
        if (hidden) m.schema = valOf(c.spec, libs.v, true);
        const made = run(() => m.sync(m.schema, options(c, m, seen)));
        if (hidden) { ctx.label(made.e ? "hidden, refused" : "hidden, taken"); if (made.e) { assert(made.e instanceof TypeError, () => `valibot(): ${made.e.stack}`); return; } }
        if (made.e) { assert(made.e instanceof TypeError && /[Aa]sync/.test(made.e.message), () => `${c.lib}: ${made.e.stack}`); assert(hasAsync(c.spec), () => `${c.lib}: a schema without asynchronous parts is refused: ${made.e}`); ctx.label("refused at construction"); }
        let ok = 0;
        for (const word of c.words) {
          if (hidden) {
            asked = 0;
            const got = run(() => made.r.parse(word));
            if (got.r) { assert(asked === 0, () => `valibot(): ${show(word)} gives ${inspect(got.r)} although an asynchronous check was asked`); ctx.label("decided synchronously"); ok++; }
            continue;
          }
          const i = input(m, word);
          const want = i.refused ? i : await m.safeAsync(m.schema, i.x);
          if (want.ok) ok++;
          judge(c, await avp.parse(word), want, word, `${c.lib} (async)`, seen);
          if (made.e) continue;
          const got = run(() => made.r.parse(word));
          if (got.e) { assert(got.e instanceof TypeError && /[Aa]sync/.test(got.e.message), () => `${c.lib}: parse(${show(word)}) throws ${got.e.stack}`); assert(hasAsync(c.spec), () => `${c.lib}: a schema without asynchronous parts: ${got.e}`); ctx.label("refused while parsing"); }
          else { judge(c, got.r, want, word, `${c.lib} (sync parser of a schema with asynchronous parts)`, seen); if (hasAsync(c.spec)) ctx.label("decided synchronously"); }
        }
        if (!hasAsync(c.spec)) ctx.label("without asynchronous parts");
        if (ok === 0) ctx.trivial("nothing accepted");
      },
    },
    {
      name: "standard", runs: { quick: 8000, thorough: 150000 }, setup, async: true,
      arb: caseArb(["zod4", "zod3", "valibot"], true),
      async check(c, ctx) {
        const m = make(c), std = m.schema["~standard"], seen = [];
        const o = { placeholder: "ph" };
        if (c.custom === "function") o.errors = { schemaError: (e, x) => { seen.push([e, x]); return core.message`custom ${x}`; } };
        if (c.custom === "static") o.errors = { schemaError: core.message`static` };
        const vp = standardSchema(m.schema, o), avp = standardSchemaAsync(m.schema, o);
        let ok = 0;
        for (const word of c.words) {
          const probe = run(() => std.validate(word));
          let full; try { full = await std.validate(word); } catch (e) { full = { thrown: e }; }
          if (full.thrown) { let e; try { await avp.parse(word); } catch (x) { e = x; } assert(e, () => `standardSchemaAsync(): ${show(word)} does not throw as the schema does: ${full.thrown}`); ctx.label("schema throws"); continue; }
          const want = full.issues ? { ok: false, issues: full.issues } : { ok: true, value: full.value };
          if (want.ok) ok++;
          judge(c, await avp.parse(word), want, word, "standardSchemaAsync()", seen);
          const got = run(() => vp.parse(word));
          if (typeof probe.r?.then === "function") { assert(got.e instanceof TypeError, () => `standardSchema(): ${show(word)} gives ${show(got)} for an asynchronous answer`); ctx.label("asynchronous answer"); }
          else { assert(!got.e, () => `standardSchema(): ${got.e?.stack}`); judge(c, got.r, want, word, "standardSchema()", seen); }
        }
        if (ok === 0) ctx.trivial("nothing accepted");
      },
    },
    {
      name: "format", runs: { quick: 6000, thorough: 100000 }, setup, async: true,
      arb: (fc) => fc.record({ values: fc.array(valueArb(fc), { minLength: 1, maxLength: 4 }), own: fc.boolean() }),
      check(c, ctx) {
        const seen = [], o = { placeholder: "ph", ...(c.own ? { format: (x) => { seen.push(x); return "own"; } } : {}) };
        const makers = { zod: () => zod(libs.z4.any(), o), zodAsync: () => zodAsync(libs.z3.any(), o), valibot: () => valibot(libs.v.any(), o), valibotAsync: () => valibotAsync(libs.v.any(), o), standardSchema: () => standardSchema(libs.z4.any(), o), standardSchemaAsync: () => standardSchemaAsync(libs.v.any(), o) };
        for (const n of c.values) {
          const [v, want] = valueOf(n);
          ctx.label(n.k);
          for (const [name, f] of Object.entries(makers)) {
            const got = run(() => f().format(v));
            assert(!got.e && typeof got.r === "string", () => `${name}(): format(${inspect(v)}) fails: ${got.e?.stack ?? inspect(got.r)}`);
            if (c.own) { equal(got.r, "own", `${name}(): text of the own format()`); assert(Object.is(seen.at(-1), v), () => `${name}(): format() is given ${inspect(seen.at(-1))} for ${inspect(v)}`); }
            else if (want !== undefined) equal(got.r, want, `${name}(): text of ${inspect(v)}`);
          }
        }
        if (c.own || c.values.every((n) => n.k === "any")) ctx.trivial("own format, or only primitives");
      },
    },
  ],
};
