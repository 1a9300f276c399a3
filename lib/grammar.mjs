// Grammar specs (plain JSON), their construction with the real combinators, and
// an independent denotational model: `plan` picks what a user means to say and
// yields the tokens that say it together with the value they denote.
import * as core from "@optique/core";
import { message } from "@optique/core/message";

// ---------------------------------------------------------------- tape
/** Deterministic choices from a list of integers; 0 is the simplest choice. */
export class Tape {
  constructor(nums) { this.nums = nums; this.i = 0; }
  next() { return this.i < this.nums.length ? this.nums[this.i++] : 0; }
  pick(n) { return n <= 1 ? 0 : this.next() % n; }
  bool() { return this.pick(2) === 1; }
  one(arr) { return arr[this.pick(arr.length)]; }
}
export const tapeArb = (fc, max = 60) =>
  fc.array(fc.integer({ min: 0, max: 1023 }), { minLength: 0, maxLength: max, size: "max" });

// ---------------------------------------------------------------- names
const WORDS = ["out", "output", "out-dir", "verbose", "v", "x-y", "config", "conf", "no-color",
  "color", "name", "names", "help-me", "level", "dry-run", "k8s", "a1", "file", "files", "max-len",
  "in", "input", "tag", "tags", "quiet", "force", "port", "host", "user", "users", "mode", "model"];
const CMDS = ["add", "remove", "list", "build", "run", "init", "serve", "deploy", "commit", "status",
  "ls", "rm", "mv", "cp", "get", "set", "sync", "test"];
const ALIASES = ["a", "del", "l", "b", "r", "new", "s", "dep", "ci", "st", "dir", "d", "ren", "c", "g", "put", "sy", "t"];
const SHORTS = "abcdefgijklmnopqrstuwxyz0123456789".split("");
const CAPS = "ABCDEFGHIJKLMNOPQRSTUWXYZ".split("");
const FIELDS = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa", "_p", "length", "z0", "name", "constructor", "toString"];

/** Hands out unique option and command names, in a fixed order. */
export function assignNames(root, salt = 0) {
  const risky = greedyRisk(root);
  let w = salt % WORDS.length, s = salt % 7, c = 0, x = 0;
  const names = new Set();
  const fresh = (style, isFlag) => {
    const long = () => {
      let n = WORDS[w++ % WORDS.length];
      while (names.has(n)) n = `${WORDS[w++ % WORDS.length]}${w}`;
      names.add(n);
      return n;
    };
    const short = () => (s < SHORTS.length ? `-${SHORTS[s++]}` : `--${long()}`);
    switch (risky && style % 8 >= 5 ? style % 8 - 5 : style % 8) {
      case 0: return [`--${long()}`];
      case 1: return [short(), `--${long()}`];
      case 2: return [short()];
      case 3: return [`--${long()}`, `--${long()}`];
      case 4: return [`-${CAPS[x++ % CAPS.length]}${long().replace(/^-/, "")}`];
      case 5: return [`/${CAPS[x++ % CAPS.length]}${long()}`];
      case 6: return isFlag ? [`+${CAPS[x++ % CAPS.length]}${long()}`] : [`--${long()}`, short()];
      default: return [short(), `--${long()}`, `/${CAPS[x++ % CAPS.length]}${long()}`];
    }
  };
  const walk = (n) => {
    switch (n.k) {
      case "opt": return { ...n, names: fresh(n.style, false) };
      case "bool": case "flag": return { ...n, names: fresh(n.style, true) };
      case "neg": return { ...n, pos: fresh(n.style, true), neg: fresh(n.style2 ?? 0, true) };
      case "arg": case "const": return n;
      case "optional": case "withDefault": case "multiple": case "nonEmpty": case "map": case "group":
        return { ...n, p: walk(n.p) };
      case "obj": {
        return { ...n, fields: n.fields.map((f, i) => [FIELDS[i % FIELDS.length] + (i >= FIELDS.length ? i : ""), walk(f)]) };
      }
      case "merge": {
        let i = 0;
        return { ...n, list: n.list.map((o) => {
          const base = i; i += o.fields.length;
          const r = walk(o);
          return { ...r, fields: r.fields.map(([, f], j) => [FIELDS[(base + j) % FIELDS.length] + (base + j >= FIELDS.length ? base + j : ""), f]) };
        }) };
      }
      case "tup": case "concat": case "seq": case "or": case "lm":
        return { ...n, list: n.list.map(walk) };
      case "cmds":
        return { ...n, list: n.list.map((q) => {
          const i = c++;
          const sfx = i >= CMDS.length ? String(i) : "";
          return { ...q, name: CMDS[i % CMDS.length] + sfx, aliases: q.alias ? [ALIASES[i % ALIASES.length] + sfx] : [], p: walk(q.p) };
        }) };
      case "cond": {
        const d = fresh(n.style, false);
        return { ...n, names: d, branches: n.branches.map((b, i) => [["json", "xml", "html", "x-y"][i], walk(b)]), def: n.def && walk(n.def) };
      }
      default: throw new Error(`unknown node ${n.k}`);
    }
  };
  return walk(root);
}

/**
 * A positional in one sub-object may take a sibling object's token that does not
 * look like an option (`/x`, `+x`, `--k=v`): see the known finding of C01. Such
 * spellings are kept out of grammars where that can happen.
 */
export function greedyRisk(root) {
  const conc = (n) => {
    switch (n.k) {
      case "obj": case "tup": case "seq": {
        const ch = kids(n);
        const own = ch.some((c) => conc(c) === 0) ? 1 : 0;
        return own + ch.reduce((a, c) => a + conc(c), 0);
      }
      case "merge": case "concat": return n.list.reduce((a, c) => a + conc(c), 0);
      case "cmds": return Math.max(0, ...n.list.map((q) => Math.max(1, conc(q.p))));
      case "or": case "lm": return Math.max(1, ...n.list.map(conc));
      case "cond": return 1 + Math.max(0, ...kids(n).map(conc));
      default: return n.p ? conc(n.p) : 0;
    }
  };
  return has(root, "arg") && (conc(root) > 1 || has(root, "tup"));
}

// ---------------------------------------------------------------- value parsers
export const CHOICES = ["red", "green", "blue", "dark-red", "re"];
const STRS = ["x", "", " ", "--", "-", "--help", "-v", "a=b", "=", "--k=v", "ünï", "日本 語", "a b", "\n", "\t", "-1", "/x:y",
  "+x", "add", "$(id)", "`", "\"'", "\\", "%s", "undefined", "__proto__", "null", "0", ":", "😀", "-vv", "help", "completion", "version"];
const PLAIN = ["x", "y.txt", "", " ", "ünï", "日本 語", "a b", "a=b", "0", "undefined", "__proto__", "😀", "\n", "$(id)", "\\", "%s", "=", ":", "12:34", "1.5", "-", "-Z_b", "--x=y", "-Z.5", "*"];

export const OPTION_LIKE = /^--?[a-z0-9-]+$/i;

export function vpValid(vp, tape, wild) {
  switch (vp.t) {
    case "str": {
      const raw = wild ? tape.one(STRS) : tape.one(PLAIN.filter((s) => !OPTION_LIKE.test(s)));
      return [raw, raw];
    }
    case "int": {
      const span = vp.max - vp.min + 1;
      let v = vp.min + tape.pick(span);
      if (!wild && v < 0) v = -v <= vp.max ? -v : vp.max; // "-5" looks like an option
      return [String(v), v];
    }
    case "float": {
      const opts = wild ? ["1.5", "-2.25", "0", "1e3", ".5"] : ["1.5", "0", "1e3", ".5"];
      const raw = tape.one(opts);
      return [raw, Number(raw)];
    }
    case "choice": {
      const raw = tape.one(CHOICES);
      return [raw, raw];
    }
    case "tag": {
      const raw = tape.one(["abc", "z", "qq"]);
      return [raw, { tag: raw.toUpperCase() }];
    }
  }
  throw new Error(vp.t);
}

/** A raw text the value parser must refuse, or null when there is none. */
export function vpInvalid(vp, tape) {
  switch (vp.t) {
    case "str": return null;
    case "int": return tape.one(["abc", "1.5", String(vp.max + 1), "1_0", "0x1", "", "one"]);
    case "float": return tape.one(["abc", "1.5x", "1,5", ""]);
    case "choice": return tape.one(["purple", "RED", "", "r", "redd"]);
    case "tag": return tape.one(["Abc", "1", "", "a b"]);
  }
}

export function vpAccepts(vp, raw) {
  switch (vp.t) {
    case "str": return { ok: true, value: raw };
    case "int": {
      if (raw === "" || /[^0-9+-]/.test(raw)) return { ok: false };
      if (!/^-?(0|[1-9][0-9]*)$/.test(raw)) return null; // only used with canonical texts
      const v = Number(raw);
      return v >= vp.min && v <= vp.max ? { ok: true, value: v } : { ok: false };
    }
    case "choice": return CHOICES.includes(raw) ? { ok: true, value: raw } : { ok: false };
    case "tag": return /^[a-z]+$/.test(raw) ? { ok: true, value: { tag: raw.toUpperCase() } } : { ok: false };
    case "float":
      if (/^-?[0-9]+(\.[0-9]+)?(e[0-9])?$/.test(raw) || raw === ".5") return { ok: true, value: Number(raw) };
      if (raw === "" || /[^0-9.eE+-]/.test(raw)) return { ok: false };
      return null;
    default: return null;
  }
}

const tagParser = () => ({
  mode: "sync",
  metavar: "TAG",
  placeholder: { tag: "X" },
  parse(input) {
    return /^[a-z]+$/.test(input)
      ? { success: true, value: { tag: input.toUpperCase() } }
      : { success: false, error: message`bad tag` };
  },
  format: (v) => v.tag.toLowerCase(),
  *suggest(prefix) {
    for (const s of ["abc", "abd", "zed"]) if (s.startsWith(prefix)) yield { kind: "literal", text: s };
  },
});

export function toAsync(vp, ticks = () => 1) {
  const wait = async () => { for (let i = ticks(); i > 0; i--) await null; };
  return {
    ...Object.fromEntries(Object.entries(Object.getOwnPropertyDescriptors(vp)).map(([k, d]) => [k, vp[k]])),
    mode: "async",
    async parse(input, ...rest) { await wait(); return vp.parse(input, ...rest); },
    format: (v) => vp.format(v),
    ...(vp.validate ? { validate: async (v) => { await wait(); return vp.validate(v); } } : {}),
    ...(vp.suggest
      ? { async *suggest(prefix) { await wait(); for (const s of vp.suggest(prefix)) { await wait(); yield s; } } }
      : {}),
  };
}

export function buildVp(vp, env = {}) {
  let p;
  switch (vp.t) {
    case "str": p = core.string({ metavar: "STR" }); break;
    case "int": p = core.integer({ min: vp.min, max: vp.max, metavar: "INT" }); break;
    case "float": p = core.float({ metavar: "NUM" }); break;
    case "choice": p = core.choice(CHOICES, { metavar: "COLOR" }); break;
    case "tag": p = tagParser(); break;
    default: throw new Error(vp.t);
  }
  if (env.isAsync?.()) p = toAsync(p, env.ticks);
  return p;
}

// ---------------------------------------------------------------- maps and defaults
export const MAPS = {
  wrap: (v) => ({ wrapped: v }),
  pair: (v) => [v, v],
  json: (v) => JSON.stringify(v) ?? "undefined",
  id: (v) => v,
  list1: (v) => [v],
  head: (v) => v[0],
  optList: (v) => (v === undefined ? [] : [v]),
  optHead: (v) => (v.length ? v[0] : undefined),
  unsent: (v) => (v === SENTINEL ? undefined : v),
};
export const SENTINEL = { sentinel: true };
const DEFAULTS = [0, null, false, "", "def", 42, [], { d: 1 }];
export const defaultOf = (n) => n.sent ? SENTINEL : DEFAULTS[n.d % DEFAULTS.length];

// ---------------------------------------------------------------- build
/** The parser of a grammar; env.wrap, if given, has a word in every part of it. */
export function build(n, env = {}) {
  const p = buildNode(n, env);
  return env.wrap ? env.wrap(n, p) : p;
}
function buildNode(n, env) {
  const b = (m) => build(m, env);
  const doc = n.desc ? { description: message`${n.desc}` } : {};
  const hid = n.hidden != null ? { hidden: n.hidden } : {};
  switch (n.k) {
    case "opt": return core.option(...n.names, buildVp(n.vp, env), { ...doc, ...hid });
    case "bool": return core.option(...n.names, { ...doc, ...hid });
    case "flag": return core.flag(...n.names, { ...doc, ...hid });
    case "neg": return core.negatableFlag({ positive: n.pos, negative: n.neg }, { ...doc, ...hid });
    case "arg": return core.argument(buildVp(n.vp, env), { ...doc, ...hid });
    case "const": return core.constant(n.v);
    case "optional": return core.optional(b(n.p));
    case "withDefault": return core.withDefault(b(n.p), n.fn ? () => defaultOf(n) : defaultOf(n));
    case "multiple": return core.multiple(b(n.p), { ...(n.min != null ? { min: n.min } : {}), ...(n.max != null ? { max: n.max } : {}) });
    case "nonEmpty": return core.nonEmpty(b(n.p));
    case "map": return core.map(b(n.p), MAPS[n.f]);
    case "group": return core.group(n.label ?? "Grp", b(n.p));
    case "obj": {
      const o = {};
      for (const [key, f] of n.fields) o[key] = b(f);
      return n.label ? core.object(n.label, o) : core.object(o);
    }
    case "tup": return n.label ? core.tuple(n.label, n.list.map(b)) : core.tuple(n.list.map(b));
    case "merge": return core.merge(...n.list.map(b));
    case "concat": return core.concat(...n.list.map(b));
    case "seq": return core.seq(...n.list.map(b));
    case "or": return core.or(...n.list.map(b));
    case "lm": return core.longestMatch(...n.list.map(b));
    case "cmds": {
      const cs = n.list.map((q) => core.command(q.name, build(q.p, env), {
        ...(q.aliases?.length ? { aliases: q.aliases } : {}),
        ...(q.desc ? { description: message`${q.desc}` } : {}),
        ...(q.hidden != null ? { hidden: q.hidden } : {}),
      }));
      return cs.length === 1 ? cs[0] : core.or(...cs);
    }
    case "cond": {
      const disc = core.option(...n.names, core.choice(n.branches.map(([key]) => key), { metavar: "KIND" }), { ...doc, ...hid });
      const br = {};
      for (const [key, p] of n.branches) br[key] = b(p);
      return n.def ? core.conditional(disc, br, b(n.def)) : core.conditional(disc, br);
    }
  }
  throw new Error(n.k);
}

// ---------------------------------------------------------------- static facts
const PRIORITY = { cmds: 15, opt: 10, bool: 10, flag: 10, neg: 10, cond: 10, arg: 5, const: 0 };
export function kids(n) {
  if (n.p) return [n.p];
  if (n.k === "obj") return n.fields.map((f) => (Array.isArray(f) ? f[1] : f));
  if (n.k === "cmds") return n.list.map((q) => q.p);
  if (n.k === "cond") return [...n.branches.map((b) => (Array.isArray(b) ? b[1] : b)), ...(n.def ? [n.def] : [])];
  return n.list ?? [];
}
export function* nodes(n) {
  yield n;
  for (const c of kids(n)) yield* nodes(c);
}
export const has = (n, ...ks) => { for (const m of nodes(n)) if (ks.includes(m.k)) return true; return false; };
export function priority(n) {
  if (n.k in PRIORITY) return PRIORITY[n.k];
  const c = kids(n);
  return c.length ? Math.max(...c.map(priority)) : 0;
}
/** True when the node cannot succeed on an empty command line. */
export function required(n) {
  switch (n.k) {
    case "opt": case "flag": case "neg": case "arg": case "cmds": case "nonEmpty": return true;
    case "bool": case "const": case "optional": case "withDefault": return false;
    case "multiple": return (n.min ?? 0) > 0 && required(n.p);
    case "map": case "group": return required(n.p);
    case "or": case "lm": return n.list.every(required);
    case "cond": return !n.def || required(n.def);
    default: return kids(n).some(required);
  }
}
export function commandNames(n) {
  const s = new Set();
  for (const m of nodes(n)) if (m.k === "cmds") for (const q of m.list) { s.add(q.name); for (const a of q.aliases ?? []) s.add(a); }
  return s;
}
export function optionNamesOf(n) {
  const s = [];
  for (const m of nodes(n)) {
    if (m.names) s.push(...m.names);
    if (m.pos) s.push(...m.pos, ...m.neg);
  }
  return s;
}

// ---------------------------------------------------------------- plan
// A group is an indivisible run of tokens: { toks, pos?, wild?, cmd?, flagShort?, leaf }
const byPriority = (list) =>
  list.map((x, i) => [x, i]).sort((a, b) => priority(b[0]) - priority(a[0]) || a[1] - b[1]).map(([, i]) => i);

function optSpelling(names, raw, tape, cx) {
  const name = tape.one(names);
  const joinable = !cx.noJoin && ( name.startsWith("/") || name.startsWith("--") || (name.startsWith("-") && name.length > 2));
  if (joinable && tape.bool()) return [[`${name}${name.startsWith("/") ? ":" : "="}${raw}`], name];
  return [[name, raw], name];
}

/**
 * Plans one use of the node.
 * cx: { tape, wildOk } ; returns { groups, value }.
 * `full` asks for every optional positional to be present (later positionals exist).
 */
export function plan(n, cx, full = false) {
  const { tape } = cx;
  switch (n.k) {
    case "opt": {
      const [raw, value] = vpValid(n.vp, tape, true);
      const [toks, name] = optSpelling(n.names, raw, tape, cx);
      const short = toks.length === 2 && /^-[^-]$/.test(name) ? name[1] : undefined;
      return { groups: [{ toks, tailShort: short, leaf: n }], value };
    }
    case "bool": {
      if (!tape.bool()) return { groups: [], value: false };
      const name = tape.one(n.names);
      return { groups: [{ toks: [name], short: /^-[^-]$/.test(name) ? name[1] : undefined, leaf: n }], value: true };
    }
    case "flag": {
      const name = tape.one(n.names);
      return { groups: [{ toks: [name], short: /^-[^-]$/.test(name) ? name[1] : undefined, leaf: n }], value: true };
    }
    case "neg": {
      const v = !tape.bool();
      const name = tape.one(v ? n.pos : n.neg);
      return { groups: [{ toks: [name], short: /^-[^-]$/.test(name) ? name[1] : undefined, leaf: n }], value: v };
    }
    case "arg": {
      const wild = cx.wildOk && tape.pick(4) === 3;
      let [raw, value] = vpValid(n.vp, tape, wild);
      if (!wild && (raw.startsWith("/") || raw.startsWith("+"))) [raw, value] = vpValid(n.vp, new Tape([]), false);
      return { groups: [{ toks: [raw], pos: true, wild, leaf: n }], value };
    }
    case "const": return { groups: [], value: n.v };
    case "optional":
      if (!full && !tape.bool()) return { groups: [], value: undefined };
      return nonEmptyPlan(n.p, cx, full) ?? { groups: [], value: undefined };
    case "withDefault":
      if (!full && !tape.bool()) return { groups: [], value: defaultOf(n) };
      return nonEmptyPlan(n.p, cx, full) ?? { groups: [], value: defaultOf(n) };
    case "multiple": {
      const min = n.min ?? 0;
      const max = n.max ?? min + 3;
      const count = full ? max : min + tape.pick(max - min + 1);
      const groups = [], value = [];
      for (let i = 0; i < count; i++) {
        const r = plan(n.p, cx, true);
        groups.push(...r.groups);
        value.push(r.value);
      }
      return { groups, value };
    }
    case "nonEmpty": return nonEmptyPlan(n.p, cx, full) ?? null;
    case "group": return plan(n.p, cx, full);
    case "map": {
      const r = plan(n.p, cx, full);
      return r && { groups: r.groups, value: MAPS[n.f](r.value) };
    }
    case "obj": {
      const rs = planSiblings(n.fields.map(([, f]) => f), cx, full);
      const value = {};
      n.fields.forEach(([key], i) => { Object.defineProperty(value, key, { value: rs.values[i], enumerable: true, writable: true, configurable: true }); });
      return { groups: rs.groups, value };
    }
    case "tup": {
      const rs = planSiblings(n.list, cx, full);
      return { groups: rs.groups, value: rs.values };
    }
    case "merge": {
      const rs = planSiblings(n.list, cx, full);
      return { groups: rs.groups, value: Object.assign({}, ...rs.values) };
    }
    case "concat": {
      const rs = planSiblings(n.list, cx, full);
      return { groups: rs.groups, value: rs.values.flat(1) };
    }
    case "seq": {
      const groups = [], values = [];
      const later = laterPositional(n.list);
      n.list.forEach((c, i) => {
        const r = plan(c, { ...cx, wildOk: false }, full || later[i]);
        groups.push(...r.groups);
        values.push(r.value);
      });
      return { groups: [{ toks: groups.flatMap((g) => g.toks), pos: groups.some((g) => g.pos), parts: groups, block: true, leaf: n }].filter((g) => g.toks.length), value: values };
    }
    case "or": case "lm": {
      const i = tape.pick(n.list.length);
      const r = plan(n.list[i], { ...cx, wildOk: false }, full);
      return r;
    }
    case "cmds": {
      const q = tape.one(n.list);
      const name = tape.one([q.name, ...(q.aliases ?? [])]);
      const r = plan(q.p, cx, full);
      return { groups: [{ toks: [name], pos: true, cmd: true, leaf: n }, ...r.groups], value: r.value };
    }
    case "cond": {
      const opts = n.branches.length + (n.def ? 1 : 0);
      const i = tape.pick(opts);
      if (i === n.branches.length) {
        const r = plan(n.def, { ...cx, wildOk: false }, full);
        return { groups: r.groups, value: [undefined, r.value] };
      }
      const [key, p] = n.branches[i];
      const [toks] = optSpelling(n.names, key, tape, cx);
      const r = plan(p, { ...cx, wildOk: false }, full);
      return { groups: [{ toks, leaf: n }, ...r.groups], value: [key, r.value] };
    }
  }
  throw new Error(n.k);
}

function nonEmptyPlan(p, cx, full) {
  for (let i = 0; i < 4; i++) {
    const r = plan(p, cx, full);
    if (r && r.groups.length) return r;
  }
  return null;
}

const hasPositional = (n) => has(n, "arg", "cmds");
function laterPositional(list) {
  return list.map((_, i) => list.slice(i + 1).some(hasPositional));
}

function planSiblings(list, cx, full) {
  const order = byPriority(list);
  const ordered = order.map((i) => list[i]);
  const later = laterPositional(ordered);
  const plans = ordered.map((c, j) => plan(c, cx, full || later[j]));
  const values = [];
  order.forEach((i, j) => { values[i] = plans[j].value; });
  return { groups: interleave(plans.map((p) => p.groups), cx.tape), values };
}

/** Merges the children's groups in any order that keeps positionals in order. */
export function interleave(lists, tape) {
  const idx = lists.map(() => 0);
  const out = [];
  for (;;) {
    const ready = [];
    for (let i = 0; i < lists.length; i++) {
      if (idx[i] >= lists[i].length) continue;
      const g = lists[i][idx[i]];
      if (g.pos) {
        let blocked = false;
        for (let j = 0; j < i; j++) if (lists[j].slice(idx[j]).some((h) => h.pos)) blocked = true;
        if (blocked) continue;
      }
      ready.push(i);
    }
    if (!ready.length) break;
    const i = tape.one(ready);
    out.push(lists[i][idx[i]++]);
  }
  return out;
}

/** Turns groups into tokens, adding `--` where it is allowed or needed and bundling short flags. */
export function render(groups, tape, { terminatorOk = true, bundleOk = true } = {}) {
  let gs = groups;
  const lastCmd = gs.findLastIndex((g) => g.cmd);
  const firstWild = gs.findIndex((g) => g.wild);
  let termAt = -1;
  if (terminatorOk) {
    const head = gs.slice(0, lastCmd + 1), tail = gs.slice(lastCmd + 1);
    if (firstWild >= 0) {
      gs = [...head, ...tail.filter((g) => !g.pos), ...tail.filter((g) => g.pos)];
      const fw = gs.findIndex((g) => g.wild);
      let lo = fw;
      while (lo > lastCmd + 1 && gs[lo - 1].pos) lo--;
      termAt = lo + tape.pick(fw - lo + 1);
    } else if (tape.pick(3) === 2) {
      let lo = gs.length;
      while (lo > lastCmd + 1 && gs[lo - 1].pos && !gs[lo - 1].block) lo--;
      // At least one positional after it.
      if (lo < gs.length) termAt = lo + tape.pick(gs.length - lo);
    }
  }
  const out = [];
  const roles = []; // per token: { leaf, name } for an option's or command's name, { leaf } for a value, null otherwise
  const role = (g) => g.parts ? g.parts.flatMap(role) : g.cmd ? [{ leaf: g.leaf, name: true }]
    : g.toks.map((t, k) => (g.pos ? { leaf: g.leaf } : g.toks.length === 2 && k === 1 ? { leaf: g.leaf, option: g.toks[0] } : { leaf: g.leaf, name: true }));
  const bounds = []; // token indexes that are group boundaries before the terminator
  for (let i = 0; i < gs.length; i++) {
    if (termAt < 0 || i <= termAt) bounds.push(out.length);
    if (i === termAt) { out.push("--"); roles.push(null); }
    const g = gs[i];
    if (bundleOk && g.short && i !== termAt && tape.bool()) {
      let s = g.short, j = i + 1;
      while (j < gs.length && j !== termAt && gs[j].short && tape.pick(4) !== 3) s += gs[j++].short;
      let tail = [];
      if (j < gs.length && j !== termAt && gs[j].tailShort && tape.bool()) {
        s += gs[j].tailShort;
        tail = gs[j].toks.slice(1);
        j++;
      }
      out.push(`-${s}`, ...tail);
      roles.push(null, ...tail.map(() => null));
      i = j - 1;
      continue;
    }
    out.push(...g.toks);
    roles.push(...role(g));
  }
  if (termAt < 0) bounds.push(out.length);
  return { tokens: out, termAt, bounds, roles, groups: gs };
}

// ---------------------------------------------------------------- generators
export function nodeArbs(fc, opts = {}) {
  const style = fc.nat(7);
  const vp = fc.oneof(
    fc.constant({ t: "str" }),
    fc.record({ t: fc.constant("int"), min: fc.integer({ min: -20, max: 0 }), max: fc.integer({ min: 1, max: 100 }) }),
    fc.constant({ t: "choice" }),
    fc.constant({ t: "tag" }),
    fc.constant({ t: "float" }),
  );
  const opt = fc.record({ k: fc.constant("opt"), style, vp });
  const bool = fc.record({ k: fc.constant("bool"), style });
  const flag = fc.record({ k: fc.constant("flag"), style });
  const neg = fc.record({ k: fc.constant("neg"), style, style2: style });
  const arg = fc.record({ k: fc.constant("arg"), vp });
  const cst = fc.record({ k: fc.constant("const"), v: fc.constantFrom("c", 0, null, true) });
  const d = fc.nat(7);
  const mods = (leaf) => fc.oneof(
    { weight: 4, arbitrary: leaf },
    { weight: 3, arbitrary: leaf.map((p) => ({ k: "optional", p })) },
    { weight: 2, arbitrary: fc.record({ k: fc.constant("withDefault"), p: leaf, d, fn: fc.boolean() }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant("map"), f: fc.constantFrom("wrap", "pair", "json"), p: leaf }) },
    { weight: 1, arbitrary: leaf.map((p) => ({ k: "optional", p: { k: "map", f: "wrap", p } })) },
    { weight: 1, arbitrary: leaf.map((p) => ({ k: "map", f: "pair", p: { k: "optional", p } })) },
    { weight: 1, arbitrary: leaf.map((p) => ({ k: "nonEmpty", p })) },
    { weight: 1, arbitrary: leaf.map((p) => ({ k: "group", p })) },
  );
  const mult = (leaf) => fc.record({
    k: fc.constant("multiple"), p: leaf,
    min: fc.option(fc.nat(2), { nil: undefined }),
    extra: fc.option(fc.nat(2), { nil: undefined }),
  }).map(({ extra, ...m }) => ({ ...m, ...(extra != null ? { max: (m.min ?? 0) + extra + 1 } : {}) }))
    .map(({ min, ...m }) => (min == null ? m : { ...m, min }));
  const multWrapped = (leaf) => fc.oneof(
    { weight: 3, arbitrary: mult(leaf) },
    { weight: 1, arbitrary: mult(leaf).map((p) => ({ k: "map", f: "wrap", p })) },
    { weight: 1, arbitrary: mult(leaf.map((p) => ({ k: "map", f: "wrap", p }))) },
    { weight: 1, arbitrary: mult(leaf).filter((m) => (m.min ?? 0) > 0).map((p) => ({ k: "optional", p })) },
    { weight: 1, arbitrary: fc.tuple(mult(leaf).filter((m) => (m.min ?? 0) > 0), d).map(([p, dd]) => ({ k: "withDefault", p, d: dd })) },
  );
  const optionField = fc.oneof(
    { weight: 4, arbitrary: mods(opt) },
    { weight: 3, arbitrary: bool },
    { weight: 2, arbitrary: mods(flag) },
    { weight: 2, arbitrary: mods(neg) },
    { weight: 2, arbitrary: multWrapped(opt) },
    { weight: 1, arbitrary: multWrapped(flag) },
    { weight: 1, arbitrary: cst },
  );
  // Positionals: required ones, then at most one variable-length tail.
  const args = fc.tuple(
    fc.array(fc.oneof({ weight: 3, arbitrary: arg }, { weight: 1, arbitrary: arg.map((p) => ({ k: "map", f: "wrap", p })) },
      { weight: 1, arbitrary: arg.map((p) => ({ k: "optional", p })) }), { maxLength: 2 }),
    fc.option(fc.oneof(multWrapped(arg), arg.map((p) => ({ k: "optional", p })), fc.record({ k: fc.constant("withDefault"), p: arg, d, fn: fc.boolean() })), { nil: null }),
  ).map(([a, t]) => (t ? [...a, t] : a));
  const noArgs = fc.constant([]);
  const shuffleIn = (optsA, argsA) => fc.tuple(optsA, argsA, fc.array(fc.nat(7), { maxLength: 6 }))
    .map(([os, as, where]) => {
      // Spread the positionals among the options, keeping their order.
      const out = [...os];
      let at = 0;
      as.forEach((a, i) => {
        at = Math.min(out.length, at + (where[i] ?? 0));
        out.splice(at, 0, a);
        at++;
      });
      return out;
    });
  const flat = (max, withArgs = true) => shuffleIn(fc.array(optionField, { maxLength: max }), withArgs ? args : noArgs);
  const objOf = (fields) => fields.map((f) => ({ k: "obj", fields: f }));
  const flatObj = objOf(flat(5));
  const optObj = objOf(fc.array(optionField, { minLength: 1, maxLength: 3 }));
  const reqObj = fc.tuple(fc.oneof(flag, opt), fc.array(optionField, { maxLength: 2 })).map(([f, r]) => ({ k: "obj", fields: [f, ...r] }));
  const reqBranch = fc.oneof(
    { weight: 3, arbitrary: reqObj },
    { weight: 1, arbitrary: flag }, { weight: 1, arbitrary: opt },
    { weight: 1, arbitrary: reqObj.map((p) => ({ k: "map", f: "wrap", p })) },
    { weight: 1, arbitrary: fc.tuple(flag, fc.array(optionField, { maxLength: 2 })).map(([f, r]) => ({ k: "tup", list: [f, ...r] })) },
  );
  const orNode = fc.array(reqBranch, { minLength: 2, maxLength: 4 }).map((list) => ({ k: "or", list }));
  const lmNode = fc.array(reqBranch, { minLength: 2, maxLength: 4 }).map((list) => ({ k: "lm", list }));
  const condNode = fc.record({
    k: fc.constant("cond"), style, branches: fc.array(optObj, { minLength: 1, maxLength: 4 }),
    def: fc.option(optObj, { nil: undefined }),
  });
  const choiceNode = fc.oneof(orNode, lmNode, condNode);
  const choiceMods = fc.oneof({ weight: 4, arbitrary: choiceNode },
    { weight: 1, arbitrary: fc.oneof(orNode, lmNode).map((p) => ({ k: "optional", p })) },
    { weight: 1, arbitrary: fc.tuple(fc.oneof(orNode, lmNode), d).map(([p, dd]) => ({ k: "withDefault", p, d: dd })) });
  const objOrOptional = fc.oneof({ weight: 2, arbitrary: optObj },
    { weight: 1, arbitrary: reqObj.map((p) => ({ k: "optional", p })) },
    { weight: 1, arbitrary: fc.tuple(reqObj, d).map(([p, dd]) => ({ k: "withDefault", p, d: dd })) });
  // Structured roots.
  const nested = fc.tuple(flat(3), fc.array(objOrOptional, { minLength: 1, maxLength: 2 }), fc.array(choiceMods, { maxLength: 1 }))
    .map(([f, os, cs]) => ({ k: "obj", fields: [...f, ...os, ...cs] }));
  const tup = flat(4).filter((l) => l.length > 0).map((list) => ({ k: "tup", list }));
  const mergeNode = fc.tuple(fc.array(optObj, { minLength: 1, maxLength: 2 }), flatObj).map(([os, o]) => ({ k: "merge", list: [...os, o] }));
  const concatNode = fc.tuple(
    fc.array(fc.array(optionField, { minLength: 1, maxLength: 3 }).map((list) => ({ k: "tup", list })), { minLength: 1, maxLength: 2 }),
    tup,
  ).map(([a, b]) => ({ k: "concat", list: [...a, b] }));
  const seqItem = fc.oneof({ weight: 2, arbitrary: arg }, { weight: 2, arbitrary: opt }, { weight: 2, arbitrary: flag }, { weight: 1, arbitrary: neg },
    { weight: 1, arbitrary: reqObj }, { weight: 1, arbitrary: mult(opt) }, { weight: 1, arbitrary: opt.map((p) => ({ k: "optional", p })) }, { weight: 1, arbitrary: bool });
  const seqNode = fc.tuple(fc.array(seqItem, { minLength: 1, maxLength: 4 }), fc.option(mult(arg), { nil: null }))
    .map(([l, m]) => ({ k: "seq", list: m ? [...l, m] : l }));
  const leafBody = fc.oneof({ weight: 4, arbitrary: flatObj }, { weight: 1, arbitrary: tup }, { weight: 1, arbitrary: mergeNode },
    { weight: 1, arbitrary: nested }, { weight: 1, arbitrary: opt }, { weight: 1, arbitrary: fc.constant({ k: "obj", fields: [] }) });
  const { cmdBody } = fc.letrec((tie) => ({
    cmdBody: fc.oneof({ maxDepth: 2, depthSize: "small" }, leafBody,
      fc.tuple(fc.array(optionField, { maxLength: 2 }), tie("cmds")).map(([f, c]) => ({ k: "obj", fields: [...f, c] })), tie("cmds")),
    cmds: fc.array(fc.record({ p: tie("cmdBody"), alias: fc.boolean() }), { minLength: 1, maxLength: 3 }).map((list) => ({ k: "cmds", list })),
  }));
  const cmds = fc.array(fc.record({ p: cmdBody, alias: fc.boolean() }), { minLength: 1, maxLength: 4 }).map((list) => ({ k: "cmds", list }));
  const cmdRoot = fc.oneof(cmds,
    fc.tuple(fc.array(optionField, { minLength: 1, maxLength: 3 }), cmds, fc.boolean()).map(([f, c, first]) => ({ k: "obj", fields: first ? [c, ...f] : [...f, c] })),
    fc.tuple(optObj, cmds).map(([o, c]) => ({ k: "tup", list: [o, c] })));
  const root = fc.oneof(
    { weight: 3, arbitrary: flatObj }, { weight: 3, arbitrary: nested }, { weight: 1, arbitrary: tup },
    { weight: 2, arbitrary: mergeNode }, { weight: 1, arbitrary: concatNode }, { weight: 2, arbitrary: seqNode },
    { weight: 2, arbitrary: choiceNode }, { weight: 4, arbitrary: cmdRoot },
  );
  return { root, flatObj, flat, optObj, reqObj, orNode, lmNode, condNode, seqNode, seqItem, cmds, cmdRoot, mergeNode, concatNode, nested, tup,
    opt, bool, flag, neg, arg, cst, vp, optionField, args, mods, mult, multWrapped, style, reqBranch, choiceNode };
}

/** A spec with names and a tape of choices. */
export const caseArb = (fc, rootArb, tapeMax = 60) =>
  fc.record({ spec: rootArb ?? nodeArbs(fc).root, salt: fc.nat(31), tape: tapeArb(fc, tapeMax) });

export function planCase(c, opts = {}) {
  const spec = assignNames(c.spec, c.salt);
  const tape = new Tape(c.tape);
  const wildOk = opts.wild !== false;
  const p = plan(spec, { tape, wildOk, noJoin: greedyRisk(spec) });
  if (!p) return null;
  const r = render(p.groups, tape, { terminatorOk: wildOk, ...opts });
  return { spec, tape, value: p.value, ...r };
}

// ---------------------------------------------------------------- arbitrary lines
const EXTRA = ["--", "-", "", "x", "--zzz", "-Z", "1", "--x=1", "red", "abc", "-1", "=", "--=", "日本", "--zzz=", "5", "add", "remove", "list", "a", "l"];
export const editsArb = (fc, maxLength = 5) => fc.array(fc.tuple(fc.nat(4), fc.nat(40), fc.nat(80)), { maxLength });
/** Applies random edits, drawn from the grammar's own vocabulary, to a planned line. */
export function editTokens(p, edits) {
  const names = optionNamesOf(p.spec);
  const vocab = [...names];
  for (const n of names) {
    vocab.push(n.startsWith("/") ? `${n}:1` : `${n}=1`, n.startsWith("/") ? `${n}:red` : `${n}=red`);
    if (/^-[a-z0-9]$/.test(n)) for (const m of names) if (/^-[a-z0-9]$/.test(m)) vocab.push(n + m[1]);
  }
  vocab.push(...EXTRA);
  const tokens = [...p.tokens];
  for (const [op, i, j] of edits) {
    const at = tokens.length ? i % (tokens.length + 1) : 0;
    const w = vocab[j % vocab.length];
    if (op === 0) tokens.splice(at, 0, w);
    else if (op === 1) tokens.splice(at, 1);
    else if (op === 2) tokens.splice(at, 1, w);
    else if (op === 3 && tokens.length > 1) {
      const b = j % tokens.length, a = i % tokens.length;
      [tokens[a], tokens[b]] = [tokens[b], tokens[a]];
    } else tokens.push(w);
  }
  return tokens;
}
