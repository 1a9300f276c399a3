import * as core from "@optique/core";
import { isDeepStrictEqual } from "node:util";
import { bool } from "@optique/env";
import { assert, equal, show } from "../lib/harness.mjs";
import { KINDS, vpCase } from "../lib/vps.mjs";

const hooks = new Proxy({}, { get: (_, name) => () => [{ type: "text", text: String(name) }] });
const why = (r) => (r.success ? { value: r.value } : { refused: r.error.map((t) => t.text ?? show(t)).join("") });
const no = (name) => ({ refused: name });
const isDigits = (s) => s !== undefined && s !== "" && [...s].every((c) => c >= "0" && c <= "9");
const isHex = (s) => [...s].every((c) => "0123456789abcdefABCDEF".includes(c));

// ---- cron
const MONTHS = "JAN FEB MAR APR MAY JUN JUL AUG SEP OCT NOV DEC".split(" "), DAYS = "SUN MON TUE WED THU FRI SAT".split(" ");
const FIELDS = { second: [0, 59], minute: [0, 59], hour: [0, 23], dayOfMonth: [1, 31], month: [1, 12, MONTHS, 1], dayOfWeek: [0, 7, DAYS, 0], year: [1970, 2099] };
function cronField(name, text, quartz) {
  const [lo, hi, names, base] = FIELDS[name];
  const num = (s) => { const i = names ? names.indexOf(s.toUpperCase()) : -1; if (i >= 0) return i + base; return isDigits(s) && BigInt(s) >= lo && BigInt(s) <= hi ? Number(s) : undefined; };
  if (quartz) {
    const u = text.toUpperCase(), day = (s) => DAYS.includes(s) || (s.length === 1 && s >= "1" && s <= "7");
    if (name === "dayOfMonth" && (u === "?" || u === "L" || u === "LW" || (u.at(-1) === "W" && u.length <= 3 && num(u.slice(0, -1)) !== undefined))) return true;
    if (name === "dayOfWeek" && (u === "?" || u === "L" || (u.at(-1) === "L" && day(u.slice(0, -1))) || (u.at(-2) === "#" && "12345".includes(u.at(-1)) && day(u.slice(0, -2))))) return true;
  }
  return text.split(",").every((part) => {
    const [range, step, ...more] = part.split("/");
    if (more.length || (step !== undefined && !(isDigits(step) && BigInt(step) > 0n))) return false;
    if (range === "*") return true;
    const [a, b, ...rest] = range.split("-").map(num);
    if (rest.length) return false;
    if (a === undefined) return false;
    if (!range.includes("-")) return true;
    // A range may end on Sunday, whatever its number.
    return b !== undefined && (a <= b || (name === "dayOfWeek" && b === 0));
  });
}
function refCron(s, o) {
  const f = s.trim() === "" ? [] : s.trim().split(/\s+/);
  const names = [...(o.seconds ? ["second"] : []), "minute", "hour", "dayOfMonth", "month", "dayOfWeek", ...(o.years ? ["year"] : [])];
  if (f.length !== names.length || !names.every((n, i) => cronField(n, f[i], o.quartz))) return no("invalidCron");
  const value = Object.fromEntries(names.map((n, i) => [n, f[i]]));
  return o.quartz && value.dayOfMonth === "?" && value.dayOfWeek === "?" ? no("invalidCron") : { value };
}

// ---- versions, UUIDs, JSON
function refSemVer(s, o) {
  const bad = no("invalidSemVer"), num = (t) => isDigits(t) && (t === "0" || t[0] !== "0");
  const ident = (t) => t !== "" && [...t].every((c) => /[0-9A-Za-z-]/.test(c));
  let t = s;
  if (t[0] === "v") { if (!o.allowPrefix) return bad; t = t.slice(1); }
  const plus = t.indexOf("+"), meta = plus < 0 ? undefined : t.slice(plus + 1);
  if (plus >= 0) t = t.slice(0, plus);
  const dash = t.indexOf("-"), pre = dash < 0 ? undefined : t.slice(dash + 1);
  if (dash >= 0) t = t.slice(0, dash);
  const nums = t.split(".");
  if (nums.length !== 3 || !nums.every(num)) return bad;
  if (pre !== undefined && !pre.split(".").every((x) => ident(x) && (!isDigits(x) || num(x)))) return bad;
  if (meta !== undefined && !meta.split(".").every(ident)) return bad;
  if (o.type !== "object") return { value: s[0] === "v" ? s.slice(1) : s };
  if (nums.some((n) => BigInt(n) > BigInt(Number.MAX_SAFE_INTEGER))) return bad;
  return { value: { major: Number(nums[0]), minor: Number(nums[1]), patch: Number(nums[2]), ...(pre === undefined ? {} : { preRelease: pre }), ...(meta === undefined ? {} : { metadata: meta }) } };
}
function refUuid(s, o) {
  const g = s.split("-");
  if (g.length !== 5 || !isHex(g.join("")) || ![8, 4, 4, 4, 12].every((n, i) => g[i].length === n)) return no("invalidUuid");
  const n = BigInt(`0x${g.join("")}`);
  if (n === 0n || n === (1n << 128n) - 1n) return { value: s };
  const version = Number((n >> 76n) & 15n), variant = Number((n >> 62n) & 3n);
  const versions = o.allowedVersions?.length ? o.allowedVersions : o.strict === false ? undefined : [1, 2, 3, 4, 5, 6, 7, 8];
  if (versions && !versions.includes(version)) return no("disallowedVersion");
  if (o.strict !== false && variant !== 2) return no("invalidVariant");
  return { value: s };
}
function refJson(s, o) {
  let v, finite = true;
  try { v = JSON.parse(s); JSON.parse(s, (_, x) => { if (typeof x === "number" && !Number.isFinite(x)) finite = false; return x; }); } catch { return no("invalidJson"); }
  if (!finite) return no("invalidJson");
  const type = v === null ? "null" : Array.isArray(v) ? "array" : typeof v;
  return o.rootType && o.rootType !== type ? no("invalidRootType") : { value: v };
}

// ---- choices
/** The exact value of a decimal text, as a normal form. */
function exact(s) {
  const m = /^([+-]?)([0-9]*)(\.([0-9]*))?(?:[eE]([+-]?[0-9]+))?$/.exec(s);
  if (!m || !(m[2] || m[4])) return undefined;
  let digits = (m[2] + (m[4] ?? "")).replace(/^0+/, ""), exp = BigInt(m[5] ?? 0) - BigInt((m[4] ?? "").length);
  while (digits.at(-1) === "0") { digits = digits.slice(0, -1); exp += 1n; }
  return { neg: m[1] === "-", zero: digits === "", text: `${digits}e${exp}`, sci: m[5] !== undefined };
}
function refChoiceNum(s, o) {
  const x = exact(s);
  if (!x) return no("invalidChoice");
  for (const v of o.of) {
    const canon = Object.is(v, -0) ? "-0" : String(v), y = exact(canon);
    if (s === canon) return { value: v };
    if (x.sci && !/e/.test(canon)) continue;
    if (x.zero && y.zero ? x.neg === y.neg || (x.neg && !o.of.some((w) => Object.is(w, -0))) : !x.zero && !y.zero && x.neg === y.neg && x.text === y.text) return { value: v };
  }
  return no("invalidChoice");
}
function refChoice(s, o) {
  const i = o.of.findIndex((v) => (o.ci ? v.toLowerCase() === s.toLowerCase() : v === s));
  return i < 0 ? no("invalidChoice") : { value: o.of[i] };
}

// ---- colours
const NAMED = { red: [255, 0, 0], rebeccapurple: [102, 51, 153], grey: [128, 128, 128], gray: [128, 128, 128], aqua: [0, 255, 255], cyan: [0, 255, 255], magenta: [255, 0, 255], fuchsia: [255, 0, 255] };
/** A colour, with each channel exact or as an interval when exact arithmetic says so. Undefined: refused. `null`: not judged. */
function refColor(input, o) {
  const s = input.trim(), f = o.formats ?? ["hex", "rgb", "hsl", "named"], l = s.toLowerCase();
  if (s[0] === "#" && isHex(s.slice(1)) && [3, 4, 6, 8].includes(s.length - 1)) {
    if (!f.includes("hex")) return undefined;
    const h = s.slice(1), w = h.length <= 4 ? 1 : 2, ch = h.match(w === 1 ? /./g : /../g).map((x) => parseInt(w === 1 ? x + x : x, 16));
    return { rgb: ch.slice(0, 3), a: ch.length === 4 ? ch[3] : 255 };
  }
  const num = (t) => (t !== undefined && /^([0-9]+\.?[0-9]*|\.[0-9]+)$/.test(t) ? Number(t) : undefined);
  const m = /^(rgb|hsl)a?\((.*)\)$/s.exec(l);
  if (m) {
    const a = m[2].split(",").map((t) => t.trim()), alpha = a.length === 4 ? num(a[3]) : 1;
    if (!f.includes(m[1]) || a.length < 3 || a.length > 4 || alpha === undefined || alpha > 1) return undefined;
    const al = Math.round(alpha * 255);
    if (m[1] === "rgb") {
      const ch = a.slice(0, 3);
      return ch.every((t) => isDigits(t) && t.length <= 3 && Number(t) <= 255) ? { rgb: ch.map(Number), a: al } : undefined;
    }
    const neg = a[0][0] === "-", h = num(neg ? a[0].slice(1) : a[0]), [sat, lig] = a.slice(1, 3).map((t) => (t.at(-1) === "%" ? num(t.slice(0, -1)) : undefined));
    if (h === undefined || sat === undefined || lig === undefined || sat > 100 || lig > 100) return undefined;
    // The chroma construction of CSS, piece by piece.
    const hue = (((neg ? -h : h) % 360) + 360) % 360 / 60, C = (1 - Math.abs(2 * (lig / 100) - 1)) * (sat / 100), X = C * (1 - Math.abs((hue % 2) - 1)), base = lig / 100 - C / 2;
    const [r, g, b] = [[C, X, 0], [X, C, 0], [0, C, X], [0, X, C], [X, 0, C], [C, 0, X]][Math.floor(hue) % 6];
    return { near: [r, g, b].map((x) => (x + base) * 255), a: al };
  }
  if (Object.hasOwn(NAMED, l)) return f.includes("named") ? { rgb: NAMED[l], a: 255 } : undefined;
  if (l === "transparent") return null;
  return undefined;
}

const REF = { cron: refCron, semVer: refSemVer, uuid: refUuid, json: refJson, choiceNum: refChoiceNum, choice: refChoice };

export default {
  id: "C15",
  title: "Structured texts: cron, versions, UUIDs, JSON, choices, colors, pairs",
  statement: "cron(), semVer(), uuid(), json(), choice(), biject(), color(), keyValue(), bool() of @optique/env and string() with a pattern accept exactly the texts their documentation and options describe and return exactly what the text says, with the error of the rule broken otherwise. A numeric choice is matched by its exact decimal value, never by a rounded one; a key-value pair is cut at the first (or last) separator and each half read by its own parser; the state of a regular expression or of an earlier call has no influence.",
  quantifier: [["inputs"], "all strings and all option combinations"],
  why: "Each of these is a small language with many special cases (names, wrap-around ranges, exponents, overlapping separators); unit tests name a handful of texts of each.",
  files: ["packages/core/src/valueparser.ts", "packages/env/src/index.ts"],
  mechanism: [["cron(), semVer(), uuid(), json(), choice(), biject(), color(), keyValue(), string()", "packages/core/src/valueparser.ts"]],
  observe: ["parse() result and the error hook used"],
  rule: "references written from the documentation (character scanners, exact decimals, the CSS chroma construction); inputs biased to and around the valid texts. Non-trivial: accepted, or refused for a reason other than being malformed at first sight.",
  parts: [
    {
      name: "reference",
      runs: { quick: 200000, thorough: 4000000 },
      arb: (fc) => vpCase(fc, Object.keys(REF)),
      check(c, ctx) {
        const what = `${c.kind}(${show(c.opts)}) on ${show(c.input)}`, want = REF[c.kind](c.input, c.opts);
        const vp = c.kind.startsWith("choice") ? core.choice(c.opts.of, { ...(c.opts.ci ? { caseInsensitive: true } : {}), errors: hooks }) : KINDS[c.kind].make({ ...c.opts, errors: hooks });
        const got = why(vp.parse(c.input));
        const m = want.refused ?? "accepted";
        ctx.label(`${c.kind}: ${m}`);
        if (want.refused && !/^disallowed|^invalid(Variant|RootType|Choice)/.test(m) && c.kind !== "cron" && c.kind !== "semVer") ctx.trivial("malformed");
        equal(got, want, what);
        assert(KINDS[c.kind].make(c.opts).parse(c.input).success === (want.refused === undefined), () => `${what}: accepted or not depending on the error options`);
      },
    },
    {
      name: "cron",
      runs: { quick: 100000, thorough: 3000000 },
      // One field at a time, the others "*": every way to write it.
      arb: (fc) => {
        const val = fc.oneof({ weight: 5, arbitrary: fc.nat(61).map(String) }, { weight: 3, arbitrary: fc.constantFrom("JAN", "Feb", "dec", "SUN", "mon", "Sat", "0", "7", "8", "31", "32", "1969", "1970", "2099", "2100", "00", "012", "SUNDAY", "", "x", "99999999999999999999") });
        const part = fc.tuple(fc.oneof(fc.constant("*"), val, fc.tuple(val, val).map((x) => x.join("-")), fc.tuple(val, val, val).map((x) => x.join("-"))), fc.oneof({ weight: 4, arbitrary: fc.constant("") }, { weight: 1, arbitrary: val.map((v) => `/${v}`) })).map((x) => x.join(""));
        const quartz = fc.oneof(fc.constantFrom("?", "L", "LW", "l", "lw", "WL", "L-3", "?,1", "*,?"), val.map((v) => `${v}W`), val.map((v) => `${v}L`), fc.tuple(val, fc.constantFrom("0", "1", "5", "6", "")).map((x) => x.join("#")));
        return fc.record({ field: fc.constantFrom(...Object.keys(FIELDS)), text: fc.oneof({ weight: 4, arbitrary: part }, { weight: 2, arbitrary: fc.array(part, { minLength: 2, maxLength: 3 }).map((x) => x.join(",")) }, { weight: 2, arbitrary: quartz }), quartz: fc.boolean() });
      },
      check(c, ctx) {
        const o = { seconds: c.field === "second", years: c.field === "year", quartz: c.quartz };
        const names = [...(o.seconds ? ["second"] : []), "minute", "hour", "dayOfMonth", "month", "dayOfWeek", ...(o.years ? ["year"] : [])];
        const ok = c.text !== "" && cronField(c.field, c.text, c.quartz);
        const s = names.map((n) => (n === c.field ? c.text : "*")).join(" "), r = core.cron(o).parse(s);
        ctx.label(`${c.field}: ${ok ? "accepted" : "refused"}`);
        assert(r.success === ok, () => `cron(${show(o)}) on ${show(s)}: ${r.success ? "accepted" : "refused"}`);
        if (ok) equal(r.value[c.field], c.text, `${c.field} of ${s}`);
      },
    },
    {
      name: "choices",
      runs: { quick: 60000, thorough: 1500000 },
      // Spellings of a chosen number and of its nearest neighbours.
      arb: (fc) => fc.record({
        of: fc.uniqueArray(fc.oneof(fc.integer({ min: -1000, max: 1000 }), fc.double({ noNaN: true, noDefaultInfinity: true }), fc.constantFrom(1e21, 1e-7, 123456789012345680000, 0.1, 5e-324, 1.7976931348623157e308, -0, 0)), { minLength: 1, maxLength: 3, comparator: "SameValue" }),
        pick: fc.nat(2), zeros: fc.tuple(fc.nat(2), fc.nat(2)), sign: fc.boolean(), form: fc.constantFrom("canon", "plain", "sci", "shift"), shift: fc.integer({ min: -5, max: 5 }), tweak: fc.oneof({ weight: 3, arbitrary: fc.constant("") }, { weight: 2, arbitrary: fc.constantFrom("0000000000000000000001", "1", "5") }),
      }),
      check(c, ctx) {
        const v = c.of[c.pick % c.of.length], canon = Object.is(v, -0) ? "-0" : String(v), x = exact(canon);
        const [digits, e] = [x.zero ? "0" : x.text.split("e")[0], Number(x.text.split("e")[1])];
        let s = canon;
        if (c.form === "plain") s = (e >= 0 ? digits + "0".repeat(e) : digits.length > -e ? `${digits.slice(0, e)}.${digits.slice(e)}` : `0.${digits.padStart(-e, "0")}`);
        else if (c.form === "sci") s = `${digits}e${e}`;
        else if (c.form === "shift") s = `${digits}${c.shift < 0 ? "0".repeat(-c.shift) : ""}.${"0".repeat(1)}E${e + Math.min(c.shift, 0)}`;
        if (c.form !== "canon") {
          if (c.tweak) s = s.includes("e") || s.includes("E") ? s : s + (s.includes(".") ? "" : ".") + c.tweak;
          if (!/[eE]/.test(s)) s = "0".repeat(c.zeros[0]) + (s.includes(".") ? s + "0".repeat(c.zeros[1]) : s);
          s = (x.neg ? "-" : c.sign ? "+" : "") + s;
        }
        const want = refChoiceNum(s, { of: c.of }), r = core.choice(c.of).parse(s);
        ctx.label(`${c.form}: ${want.refused ? "refused" : "accepted"}`);
        assert(r.success === !want.refused && (!r.success || Object.is(r.value, want.value)), () => `choice(${show(c.of)}) on ${s}: ${show(r)}, expected ${show(want)}`);
      },
    },
    {
      name: "colors",
      runs: { quick: 60000, thorough: 2000000 },
      arb: (fc) => vpCase(fc, ["color"]),
      check(c, ctx) {
        const want = refColor(c.input, c.opts), r = core.color(c.opts).parse(c.input), what = `color(${show(c.opts)}) on ${show(c.input)}`;
        if (want === null || (want === undefined && /^[a-z]+$/i.test(c.input.trim()))) return ctx.trivial("a named colour of no table here");
        ctx.label(want ? (want.near ? "hsl" : "exact") : "refused");
        if (!want) ctx.trivial("refused");
        assert(r.success === (want !== undefined), () => `${what}: ${show(r)}`);
        if (!want) return;
        const { r: red, g, b, a } = r.value;
        equal(a, want.a / 255, `${what}: alpha`);
        if (want.rgb) return equal([red, g, b], want.rgb, what);
        [red, g, b].forEach((x, i) => assert(Number.isInteger(x) && x >= 0 && x <= 255 && Math.abs(x - want.near[i]) <= 0.5 + 1e-6, () => `${what}: channel ${i} is ${x}, computed ${want.near[i]}`));
      },
    },
    {
      name: "swatches",
      runs: { quick: 60000, thorough: 2000000 },
      // Every 8-bit colour is written and read back the same in every notation.
      arb: (fc) => fc.record({ r: fc.nat(255), g: fc.nat(255), b: fc.nat(255), a: fc.oneof(fc.constant(255), fc.nat(255)), format: fc.constantFrom("hex", "rgb", "hsl") }),
      check(c, ctx) {
        const vp = core.color({ formats: [c.format] }), v = { r: c.r, g: c.g, b: c.b, a: c.a / 255 }, t = vp.format(v), back = vp.parse(t);
        ctx.label(c.format);
        assert(back.success && isDeepStrictEqual(back.value, v), () => `${show(v)} is written ${t} and read as ${show(back)}`);
        const ref = refColor(t, { formats: [c.format] });
        assert(ref && ref.a === c.a && [c.r, c.g, c.b].every((x, i) => (ref.rgb ? ref.rgb[i] === x : Math.abs(ref.near[i] - x) < 0.5)), () => `${show(v)} is written ${t}`);
      },
    },
    {
      name: "pairs",
      runs: { quick: 60000, thorough: 1500000 },
      arb: (fc) => vpCase(fc, ["keyValue"]),
      check(c, ctx) {
        const o = c.opts.o, sep = o.separator ?? "=", vp = KINDS.keyValue.make(c.opts), s = c.input, what = `keyValue(${show(c.opts)}) on ${show(s)}`;
        const r = vp.parse(s), at = o.split === "last" ? s.lastIndexOf(sep) : s.indexOf(sep);
        if (at < 0) { ctx.trivial("no separator"); return assert(!r.success, () => `${what}: accepted`); }
        const half = [s.slice(0, at), s.slice(at + sep.length)];
        const key = c.opts.key ? core.choice(["a", "b", "k=", "mode"], { caseInsensitive: c.opts.key === "choiceCi" }).parse(half[0]) : { success: true, value: half[0] };
        const val = c.opts.value ? { integer: () => core.integer(), choice: () => core.choice(["x", "on", "off", "a=b"]), mac: () => core.macAddress({ outputSeparator: ":", case: "lower" }), kv: () => core.keyValue() }[c.opts.value]().parse(half[1]) : { success: true, value: half[1] };
        const empty = (half[0] === "" && !o.allowEmptyKey) || (half[1] === "" && o.allowEmptyValue === false);
        if (empty || !key.success || !val.success) { ctx.label("a half refused"); return assert(!r.success, () => `${what}: accepted as ${show(r.value)}`); }
        // The canonical text of the pair has to be cut at the same place.
        const kt = String(key.value), vt = Array.isArray(val.value) ? val.value.join("=") : String(val.value), t = kt + sep + vt;
        const readable = (o.split === "last" ? t.lastIndexOf(sep) : t.indexOf(sep)) === kt.length && !(o.split === "last" ? vt : kt).includes(sep);
        ctx.label(readable ? "accepted" : "not readable again");
        assert(r.success === readable, () => `${what}: ${show(r)}; its canonical text is ${show(t)}`);
        if (readable) equal(r.value, [key.value, val.value], what);
      },
    },
    {
      name: "patterns",
      runs: { quick: 30000, thorough: 500000 },
      arb: (fc) => fc.record({ pattern: fc.constantFrom("^[a-z]+$", "a", "b", "^x", "^\\p{L}+$", "(a+)b", ""), flags: fc.constantFrom("", "g", "y", "gi", "u", "iu", "gy"), inputs: fc.array(fc.oneof(fc.string({ unit: fc.constantFrom("a", "b", "X", "é", "1"), maxLength: 5 }), fc.string()), { minLength: 2, maxLength: 6 }), last: fc.nat(4) }),
      check(c, ctx) {
        if (c.pattern.includes("\\p") && !c.flags.includes("u")) return ctx.trivial("no unicode");
        const re = new RegExp(c.pattern, c.flags), vp = core.string({ pattern: re });
        for (const s of c.inputs) {
          // The caller's own use of the expression between two calls is no concern of the parser's.
          re.lastIndex = c.last;
          const want = new RegExp(c.pattern, c.flags).test(s), r = vp.parse(s);
          assert(r.success === want && (!want || r.value === s), () => `string(${re}) on ${show(s)}, one of ${show(c.inputs)}: ${show(r)}`);
          assert(re.lastIndex === c.last, () => `string(${re}) moved the caller's lastIndex`);
        }
        const map = { [`k${c.inputs[0]}`]: 1, constructor: 2, [`k${c.inputs[1]}`]: c.inputs };
        if (Object.keys(map).length < 3) return;
        const bi = core.biject(map);
        for (const s of [...Object.keys(map), ...c.inputs, "toString", "__proto__"]) {
          const r = bi.parse(s), has = Object.hasOwn(map, s);
          assert(r.success === has && (!has || r.value === map[s]), () => `biject(${show(map)}) on ${show(s)}: ${show(r)}`);
          if (has) assert(bi.format(map[s]) === s, () => `biject(${show(map)}) formats ${show(map[s])} as ${show(bi.format(map[s]))}`);
        }
      },
    },
    {
      name: "booleans", runs: { quick: 6000, thorough: 100000 },
      arb: (fc) => fc.record({ w: fc.constantFrom("true", "1", "yes", "on", "false", "0", "no", "off", "t", "y", "00", "", "tru", "onn", "01", "none"), bits: fc.nat(255), lead: fc.constantFrom("", "", "", " ", "\t", "\n "), tail: fc.constantFrom("", "", "", " ", "\r\n", "x"), cut: fc.nat(4), custom: fc.nat(2) }),
      check({ w, bits, lead, tail, cut, custom }, ctx) {
        const mixed = [...w].map((ch, i) => bits >> i & 1 ? ch.toUpperCase() : ch).join(""), s = lead + mixed + tail;
        const errors = custom === 1 ? { invalidFormat: core.message`custom` } : custom === 2 ? { invalidFormat: (i) => core.message`custom ${i}` } : undefined;
        const vp = bool({ ...(errors ? { errors } : {}), ...(bits & 1 ? { metavar: "YESNO" } : {}) }), r = vp.parse(s);
        const want = tail === "x" ? undefined : ["true", "1", "yes", "on"].includes(w) ? true : ["false", "0", "no", "off"].includes(w) ? false : undefined;
        if (want === undefined) {
          ctx.label("no boolean");
          assert(!r.success, () => `${show(s)} is ${show(r)}`);
          const text = core.formatMessage(r.error, { quotes: false });
          if (custom) equal(text, custom === 1 ? "custom" : `custom ${s}`, "custom error"); else assert(text.includes(s.trim()), () => `the error for ${show(s)} is ${text}`);
        } else equal(r, { success: true, value: want }, `${show(s)}`);
        equal(vp.metavar, bits & 1 ? "YESNO" : "BOOLEAN", "metavar");
        const prefix = mixed.slice(0, cut);
        equal([...vp.suggest(prefix)].map((x) => x.text).sort(), ["true", "1", "yes", "on", "false", "0", "no", "off"].filter((x) => x.startsWith(prefix.toLowerCase())).sort(), `suggestions for ${show(prefix)}`);
        for (const v of [true, false]) equal(vp.parse(vp.format(v)), { success: true, value: v }, `format(${v})`);
      },
    },
  ],
};
