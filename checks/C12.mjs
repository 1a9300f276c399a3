import * as core from "@optique/core";
import { assert, equal, show } from "../lib/harness.mjs";
import { KINDS, SEPS, UNITS, vpCase } from "../lib/vps.mjs";

// Which custom error is used, with which arguments, tells the reason of a refusal.
const hooks = new Proxy({}, { get: (_, name) => (...a) => [{ type: "text", text: `${String(name)}(${a.map((x) => `${typeof x}:${x}`).join(",")})` }] });
const why = (r) => (r.success ? { value: r.value } : { refused: r.error.map((t) => t.text ?? show(t)).join("") });
const no = (name, ...a) => ({ refused: `${name}(${a.map((x) => `${typeof x}:${x}`).join(",")})` });
const NEG0 = (r) => (Object.is(r.value, -0) ? { value: 0 } : r);

const SAFE = BigInt(Number.MAX_SAFE_INTEGER);
const isInt = (s) => { if (s[0] === "-") s = s.slice(1); if (!s) return false; for (const ch of s) if (ch < "0" || ch > "9") return false; return true; };

function refInteger(s, o) {
  const bigMode = o.type === "bigint", out = bigMode ? (x) => x : Number;
  if (!isInt(s)) return no("invalidInteger", s);
  const n = BigInt(s);
  if (!bigMode && (n > SAFE || n < -SAFE)) return no("unsafeInteger", s);
  if (o.min !== undefined && n < BigInt(o.min)) return no("belowMinimum", out(n), out(BigInt(o.min)));
  if (o.max !== undefined && n > BigInt(o.max)) return no("aboveMaximum", out(n), out(BigInt(o.max)));
  return { value: out(n) };
}

function refPort(s, o) {
  const bigMode = o.type === "bigint", out = bigMode ? (x) => x : Number;
  if (!isInt(s)) return no("invalidPort", s);
  const n = BigInt(s), min = BigInt(o.min ?? 1), max = BigInt(o.max ?? 65535);
  if (n < min) return no("belowMinimum", out(n), out(min));
  if (n > max) return no("aboveMaximum", out(n), out(max));
  if (o.disallowWellKnown && n >= 1n && n < 1024n) return no("wellKnownNotAllowed", out(n));
  return { value: out(n) };
}

function refPortRange(input, o) {
  const sep = o.separator ?? "-", s = input.trim(), at = s.indexOf(sep);
  if (at < 0) {
    if (!o.allowSingle) return no("invalidFormat", input);
    const p = refPort(s, o);
    return p.refused ? p : { value: { start: p.value, end: p.value } };
  }
  const a = refPort(s.slice(0, at), o); if (a.refused) return a;
  const b = refPort(s.slice(at + sep.length), o); if (b.refused) return b;
  return a.value > b.value ? no("invalidRange", a.value, b.value) : { value: { start: a.value, end: b.value } };
}

// A decimal literal by hand: sign, digits with one optional dot and at least one digit, exponent.
function decimal(s) {
  let i = 0, digits = 0;
  const run = () => { const at = i; while (i < s.length && s[i] >= "0" && s[i] <= "9") i++; return i - at; };
  if (s[i] === "+" || s[i] === "-") i++;
  digits += run();
  if (s[i] === ".") { i++; digits += run(); }
  if (!digits) return false;
  if (s[i] === "e" || s[i] === "E") { i++; if (s[i] === "+" || s[i] === "-") i++; if (!run()) return false; }
  return i === s.length;
}
function refFloat(s, o) {
  const l = s.toLowerCase();
  let v;
  if (l === "nan" && o.allowNaN) v = NaN;
  else if ((l === "infinity" || l === "+infinity") && o.allowInfinity) v = Infinity;
  else if (l === "-infinity" && o.allowInfinity) v = -Infinity;
  else if (decimal(s)) { v = Number(s); if (Math.abs(v) === Infinity && !o.allowInfinity) return no("invalidNumber", s); }
  else return no("invalidNumber", s);
  if (o.min !== undefined && v < o.min) return no("belowMinimum", v, o.min);
  if (o.max !== undefined && v > o.max) return no("aboveMaximum", v, o.max);
  return { value: v };
}

const POW = { "": 0, k: 1, m: 2, g: 3, t: 4, p: 5, e: 6 };
function unitSize(u, siAsBinary) {
  const m = /^([kmgtpe]?)(i?)b$/.exec(u.toLowerCase());
  if (!m || (m[2] && !m[1])) return undefined;
  return (m[2] || siAsBinary ? 1024n : 1000n) ** BigInt(POW[m[1]]);
}
function refSize(input, o) {
  const s = input.trim(), bad = no("invalidFormat", input);
  let i = 0;
  while (i < s.length && /[0-9.+-]/.test(s[i])) i++;
  const num = s.slice(0, i), unit = s.slice(i).trimStart();
  if (!decimal(num) || num.includes("e")) return bad;
  if (unit === "" && s.length !== i) return bad;
  const size = unit === "" ? (o.defaultUnit === undefined ? undefined : unitSize(o.defaultUnit, o.siAsBinary)) : unitSize(unit, o.siAsBinary);
  if (size === undefined) return bad;
  const neg = num[0] === "-", [int, frac = ""] = num.replace(/^[+-]/, "").split(".");
  const scaled = BigInt(int + frac) * size, den = 10n ** BigInt(frac.length);
  if (scaled % den) return bad;
  const bytes = (neg ? -1n : 1n) * (scaled / den);
  if (o.type !== "bigint" && (bytes > SAFE || bytes < -SAFE)) return bad;
  const v = o.type === "bigint" ? bytes : Number(bytes);
  if (bytes < 0n && !o.allowNegative) return no("negativeNotAllowed", v);
  return { value: v };
}

const build = (c) => {
  const o = c.opts;
  return KINDS[c.kind].make({ ...o, errors: hooks });
};
const REF = { integer: refInteger, float: refFloat, port: refPort, portRange: refPortRange, fileSize: refSize };

export default {
  id: "C12",
  title: "Numbers, ports and file sizes are read exactly",
  statement: "integer(), float(), port(), portRange() and fileSize() accept exactly the documented spellings and return the exact value, or refuse with the error for the first rule broken (syntax, safe range, minimum, maximum, well-known port, sign), in number and bigint mode alike. A file size is computed exactly, never rounded, and every byte count is formatted as text that reads back as the same count.",
  quantifier: [["inputs"], "all strings and all bounds, and all byte counts in number and bigint mode"],
  why: "Rounding and boundary errors appear for rare magnitudes only: next to the safe-integer limit, to a minimum or maximum, or for a quotient that float64 cannot represent.",
  files: ["packages/core/src/valueparser.ts"],
  mechanism: [["integer(), float(), port(), portRange(), fileSize()", "packages/core/src/valueparser.ts"]],
  observe: ["parse() result and the error hook used", "format()"],
  rule: "an independent reference over BigInt and hand-written scanners; spellings around bounds, the safe-integer limits and unit sizes. Non-trivial: the text is a number of the kind at issue, so that value and bounds are compared and not only syntax.",
  parts: [
    {
      name: "reference",
      runs: { quick: 400000, thorough: 2500000 },
      arb: (fc) => vpCase(fc, Object.keys(REF)),
      check(c, ctx) {
        const vp = build(c);
        const want = NEG0(REF[c.kind](c.input, c.opts)), got = NEG0(why(vp.parse(c.input)));
        const m = want.refused?.match(/^\w+/)[0] ?? "accepted";
        ctx.label(`${c.kind}: ${m}`);
        if (/^invalid(Integer|Number|Port|Format)$/.test(m)) ctx.trivial("no number");
        equal(got, want, `${c.kind}(${show(c.opts)}) on ${show(c.input)}`);
      },
    },
    {
      name: "bounds",
      runs: { quick: 100000, thorough: 800000 },
      // A bound anywhere, and values on and next to it.
      arb: (fc) => fc.record({
        kind: fc.constantFrom("integer", "port", "float", "range"), big: fc.boolean(), lo: fc.oneof(fc.integer({ min: -50, max: 70000 }), fc.maxSafeInteger(), fc.constantFrom(0, 1, 1023, 1024, 65535)), width: fc.oneof(fc.nat(3), fc.nat(70000)),
        has: fc.constantFrom("min", "max", "both"), off: fc.integer({ min: -2, max: 2 }), at: fc.constantFrom("min", "max"), sep: fc.constantFrom("-", ...SEPS), half: fc.boolean(),
      }),
      check(c, ctx) {
        const lo = BigInt(c.lo), hi = lo + BigInt(c.width);
        const clampBig = c.kind !== "float" && c.big;
        if (!clampBig && (hi > SAFE || lo < -SAFE)) return ctx.trivial("beyond the safe integers");
        const conv = clampBig ? (x) => x : Number;
        const o = { ...(clampBig ? { type: "bigint" } : {}), ...(c.has !== "max" ? { min: conv(lo) } : {}), ...(c.has !== "min" ? { max: conv(hi) } : {}) };
        if (c.kind === "port" || c.kind === "range") {
          if (BigInt(o.min ?? 1) > BigInt(o.max ?? 65535)) return ctx.trivial("empty range");
        }
        const n = (c.at === "min" ? lo : hi) + BigInt(c.off);
        if (c.kind === "float") {
          const h = c.half ? 0.5 : 0;
          const oo = { ...(o.min === undefined ? {} : { min: o.min + h }), ...(o.max === undefined ? {} : { max: o.max + h }) };
          const s = String(Number(n) + h);
          return equal(why(core.float({ ...oo, errors: hooks }).parse(s)), refFloat(s, oo), `float(${show(oo)}) on ${s}`);
        }
        if (c.kind === "range") {
          const oo = { ...o, separator: c.sep };
          const s = `${n}${c.sep}${n + BigInt(c.width % 3) - 1n}`;
          return equal(why(core.portRange({ ...oo, errors: hooks }).parse(s)), refPortRange(s, oo), `portRange(${show(oo)}) on ${s}`);
        }
        const vp = c.kind === "port" ? core.port({ ...o, errors: hooks }) : core.integer({ ...o, errors: hooks });
        equal(NEG0(why(vp.parse(String(n)))), NEG0((c.kind === "port" ? refPort : refInteger)(String(n), o)), `${c.kind}(${show(o)}) on ${n}`);
        const lowest = c.kind === "port" ? o.min ?? conv(1n) : o.min;
        if (lowest !== undefined && lowest > 0) equal(vp.placeholder, lowest, `placeholder of ${c.kind}(${show(o)})`);
        assert(vp.parse(String(vp.placeholder)).success, () => `the placeholder ${vp.placeholder} of ${c.kind}(${show(o)}) is refused`);
      },
    },
    {
      name: "sizes",
      runs: { quick: 200000, thorough: 1500000 },
      arb: (fc) => fc.record({
        type: fc.constantFrom("number", "bigint"), siAsBinary: fc.boolean(), other: fc.nat(3).map((n) => n === 0), unit: fc.constantFrom(...UNITS),
        hundredths: fc.oneof(fc.integer({ min: 1, max: 100500 }), fc.integer({ min: 1, max: 999 }).map((n) => n * 100)), off: fc.constantFrom(0, 0, 0, 0, 1, -1), neg: fc.boolean(), exact: fc.boolean(), raw: fc.oneof({ weight: 5, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: fc.bigInt({ min: -(2n ** 80n), max: 2n ** 80n }) }),
      }),
      check(c, ctx) {
        // now and then a round number of the units of the other reading
        const size = unitSize(c.unit, c.siAsBinary !== c.other);
        // Either the exact product, or what float64 arithmetic makes of it: the neighbourhood where a float test goes wrong.
        let n = c.raw !== undefined ? c.raw : c.exact ? (BigInt(c.hundredths) * size) / 100n : BigInt(Math.trunc((c.hundredths / 100) * Number(size)));
        n += BigInt(c.off);
        if (c.neg) n = -n;
        if (c.type === "number" && (n > SAFE || n < -SAFE)) return ctx.trivial("beyond the safe integers");
        const o = { type: c.type, siAsBinary: c.siAsBinary, allowNegative: true };
        const vp = core.fileSize(o);
        const v = c.type === "bigint" ? n : Number(n);
        const t = vp.format(v);
        const back = vp.parse(t);
        ctx.label(/[KMGTPE]/.test(t) ? "with a unit" : "in bytes");
        assert(back.success && back.value === v, () => `${n} is formatted as ${t}, which reads as ${show(back)} (${show(o)})`);
        equal(NEG0(refSize(t, o)), NEG0({ value: v }), `${n} is formatted as ${t}`);
        // A whole number (below 1000) of some unit is not written out in bytes.
        const abs = n < 0n ? -n : n, units = c.siAsBinary ? ["KB", "MB", "GB", "TB", "PB", "EB"] : UNITS.slice(1);
        if (units.some((u) => { const z = unitSize(u, c.siAsBinary); return abs % z === 0n && abs / z >= 1n && abs / z < 1000n; })) assert(/[KMGTPE]/.test(t), () => `${n} is formatted as ${t}`);
      },
    },
  ],
};
