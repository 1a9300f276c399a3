// Wild grammars: names overlap freely (allowDuplicates where construction would refuse), every combinator
// nests in every other. No model of what they accept: they feed differential and metamorphic oracles only.
import * as core from "@optique/core";
import { dependency, deriveFrom } from "@optique/core/dependency";
import { Tape, toAsync } from "./grammar.mjs";

export const NAMES = ["-a", "-b", "--aa", "--bb", "--aab", "-c", "--no-aa"];
export const CMDS = ["x", "y", "xy"];
export const LINE = ["-a", "-b", "-ab", "-c", "-abc", "--aa", "--bb", "--aab", "--no-aa", "--aa=x", "--bb=1", "--aa=", "--", "x", "y", "xy", "1", "2", "-1", "--zz", "-z", "--zz=1", "/a", "", "-", "x=1"];

export function wildArb(fc, maxDepth = 3) {
  const leaf = fc.record({
    k: fc.constantFrom("bool", "flag", "opt", "opt", "neg", "arg", "arg", "const", "pass", "cmd", "src", "der"),
    n: fc.nat(NAMES.length - 1), m: fc.nat(NAMES.length - 1), v: fc.nat(3), f: fc.nat(7),
  });
  const rec = (d) => d <= 0 ? leaf : fc.oneof({ weight: 3, arbitrary: leaf },
    { weight: 4, arbitrary: fc.record({
      k: fc.constantFrom("optional", "withDefault", "multiple", "nonEmpty", "map", "group", "cmdOf"),
      v: fc.nat(5), p: rec(d - 1) }) },
    { weight: 6, arbitrary: fc.record({
      k: fc.constantFrom("obj", "tup", "merge", "concat", "seq", "or", "lm", "or", "lm", "cond", "cond"),
      n: fc.nat(NAMES.length - 1), v: fc.nat(5), list: fc.array(rec(d - 1), { minLength: 1, maxLength: 4 }) }) });
  return rec(maxDepth);
}
export const wildLine = (fc, maxLength = 8) => fc.array(fc.constantFrom(...LINE), { maxLength });
/** Keys under which tokens of the grammar itself are favoured. */
export function wildTokens(spec, picks) {
  const own = [];
  (function walk(n) {
    if (!n) return;
    if (["bool", "flag", "opt", "neg", "src", "der", "cond"].includes(n.k)) own.push(NAMES[n.n]);
    if (n.k === "neg" && n.m !== n.n) own.push(NAMES[n.m]);
    if (n.k === "cond") own.push(NAMES[n.n], "x");
    if (n.k === "cmd" || n.k === "cmdOf") own.push(CMDS[n.v % 3]);
    if (n.k === "opt" || n.k === "arg" || n.k === "src" || n.k === "der") own.push("1", "x");
    walk(n.p); for (const c of n.list ?? []) walk(c);
  })(spec);
  return picks.map((x) => (x % 11 === 7 ? "--" : own.length && x % 4 ? own[(x >> 2) % own.length] : LINE[(x >> 2) % LINE.length]));
}
export const wildPicks = (fc, maxLength = 8) => fc.array(fc.nat(400), { maxLength });

const VPS = [() => core.string(), () => core.integer(), () => core.choice(["x", "y", "1"]), () => core.string({ pattern: /^[^-]/ })];

/** env: { isAsync(), ticks() } as in grammar.mjs. Returns null when the combination cannot be built. */
export function wildBuild(spec, env = {}) {
  const src = dependency(wrap(core.choice(["x", "y", "1"])));
  function wrap(p) { return env.isAsync?.() ? toAsync(p, env.ticks) : p; }
  const vp = (v) => wrap(VPS[v % VPS.length]());
  const dup = { allowDuplicates: true };
  const b = (n) => {
    const N = NAMES[n.n];
    switch (n.k) {
      case "bool": return core.option(N);
      case "flag": return core.flag(N);
      case "opt": return core.option(N, vp(n.v));
      case "neg": return n.n === n.m ? core.flag(N) : core.negatableFlag({ positive: N, negative: NAMES[n.m] });
      case "arg": return core.argument(vp(n.v));
      case "const": return core.constant(n.v);
      case "pass": return core.passThrough({ format: ["equalsOnly", "nextToken", "greedy"][n.v % 3] });
      case "cmd": return core.command(CMDS[n.v % 3], n.f % 2 ? core.option(N) : core.argument(vp(n.f)));
      case "src": return core.option(N, src);
      case "der": {
        const bits = wrapBit();
        return core.option(N, deriveFrom({ metavar: "D", mode: bits ? "async" : "sync", dependencies: [src], defaultValues: () => ["x"], factory: (s) => bits ? toAsync(core.choice(s === "x" ? ["x", "1"] : ["y", "2"]), env.ticks) : core.choice(s === "x" ? ["x", "1"] : ["y", "2"]) }));
      }
      case "optional": return core.optional(b(n.p));
      case "withDefault": return core.withDefault(b(n.p), [0, null, "d", () => "f", () => { throw new Error("no default"); }, []][n.v]);
      case "multiple": return core.multiple(b(n.p), [{}, {}, { min: 1 }, { max: 2 }, { min: 1, max: 2 }, { min: 2 }][n.v]);
      case "nonEmpty": return core.nonEmpty(b(n.p));
      case "map": return core.map(b(n.p), (v) => ({ v }));
      case "group": return core.group("G", b(n.p));
      case "cmdOf": return core.command(CMDS[n.v % 3], b(n.p));
      case "obj": return core.object(Object.fromEntries(n.list.map((c, i) => [`f${i}`, b(c)])), dup);
      case "tup": return core.tuple(n.list.map(b), dup);
      case "merge": return core.merge(...n.list.map((c, i) => core.object({ [`f${i}`]: b(c) }, dup)), dup);
      case "concat": return core.concat(...n.list.map((c) => core.tuple([b(c)], dup)));
      case "seq": return core.seq(...n.list.map(b), dup);
      case "or": return core.or(...n.list.map(b));
      case "lm": return core.longestMatch(...n.list.map(b));
      case "cond": {
        const disc = n.v % 2 ? core.option(N, wrap(core.choice(["x", "y", "1"].slice(0, n.list.length)))) : core.optional(core.option(N, wrap(core.choice(["x", "y", "1"].slice(0, n.list.length)))));
        const br = Object.fromEntries(n.list.slice(0, 3).map((c, i) => [["x", "y", "1"][i], b(c)]));
        return n.list.length > 3 || n.v > 3 ? core.conditional(core.option(N, wrap(core.choice(Object.keys(br)))), br, b(n.list[n.list.length - 1])) : core.conditional(n.v % 2 ? disc : core.option(N, wrap(core.choice(Object.keys(br)))), br);
      }
    }
    throw new Error(n.k);
  };
  function wrapBit() { return !!env.isAsync?.(); }
  try { return b(spec); } catch (e) {
    if (e?.name === "DuplicateOptionError" || e instanceof TypeError) return null;
    throw e;
  }
}
export const wildEnv = (bits, ticks) => {
  const t = new Tape(bits), k = new Tape(ticks);
  let any = false;
  return { isAsync: () => { const v = t.pick(2) === 0; any ||= v; return v; }, ticks: () => k.pick(4), get any() { return any; } };
};
export function wildHas(n, f) {
  return !!n && (f(n) || wildHas(n.p, f) || (n.list ?? []).some((c) => wildHas(c, f)));
}
