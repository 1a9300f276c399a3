// A reference interpreter for flat grammars (one object or tuple of options,
// flags and positionals with modifiers) over arbitrary tokens.
import { MAPS, OPTION_LIKE, defaultOf, vpAccepts } from "./grammar.mjs";

/** Unwraps modifiers down to the leaf. */
function leafInfo(n) {
  const wraps = [];
  let m = n;
  let mult = null;
  while (m.p) {
    wraps.push(m);
    if (m.k === "multiple") mult = m;
    m = m.p;
  }
  return { wraps, leaf: m, mult };
}

const UNKNOWN = null; // outside the reference's domain

/** { ok: true, value } | { ok: false, why } | null */
export function refFlat(spec, tokens) {
  const isTup = spec.k === "tup";
  const nodes = isTup ? spec.list : spec.fields.map(([, f]) => f);
  const fs = nodes.map((n) => ({ n, ...leafInfo(n), occ: [] }));
  const args = fs.filter((f) => f.leaf.k === "arg");
  const opts = fs.filter((f) => f.leaf.k !== "arg" && f.leaf.k !== "const");
  const byName = new Map();
  for (const f of opts) {
    for (const nm of f.leaf.names ?? []) byName.set(nm, [f, true]);
    for (const nm of f.leaf.pos ?? []) byName.set(nm, [f, true]);
    for (const nm of f.leaf.neg ?? []) byName.set(nm, [f, false]);
  }
  let terminated = false;
  const room = (f) => (f.mult ? f.occ.length < (f.mult.max ?? Infinity) : f.occ.length === 0);
  const argRoom = () => args.find(room);
  const once = (f, v) => {
    if (!f.mult && f.occ.length) return false;
    if (f.mult && f.occ.length >= (f.mult.max ?? Infinity)) return false;
    f.occ.push(v);
    return true;
  };
  const no = (why) => ({ ok: false, why });
  for (let i = 0; i < tokens.length; i++) {
    const t = tokens[i];
    if (!terminated) {
      if (t === "--") {
        // Who takes `--` when nothing follows it: see the known finding of C02.
        if (i + 1 >= tokens.length || (!opts.length && !argRoom())) return UNKNOWN;
        if (isTup) return UNKNOWN;
        terminated = true;
        continue;
      }
      const hit = byName.get(t);
      if (hit) {
        const [f, pol] = hit;
        if (isTup && args.length && /^[/+]/.test(t)) return UNKNOWN;
        const slashOrPlus = t.startsWith("/") || t.startsWith("+");
        if (f.leaf.k === "opt") {
          if (!room(f)) return slashOrPlus && argRoom() ? UNKNOWN : no("duplicate");
          if (i + 1 >= tokens.length) return slashOrPlus && argRoom() ? UNKNOWN : no("no value");
          const v = vpAccepts(f.leaf.vp, tokens[++i]);
          if (v === null) return UNKNOWN;
          once(f, v);
        } else if (!once(f, { ok: true, value: pol })) {
          return slashOrPlus && argRoom() ? UNKNOWN : no("duplicate");
        }
        continue;
      }
      const joined = [...byName.keys()].find((nm) =>
        (nm.startsWith("--") || nm.startsWith("/") || (nm.startsWith("-") && nm.length > 2) || nm.startsWith("+")) &&
        t.startsWith(nm + (nm.startsWith("/") ? ":" : "=")));
      if (joined && !joined.startsWith("+")) {
        const [f] = byName.get(joined);
        if (isTup && argRoom()) return UNKNOWN; // see the known finding of C01
        if (f.leaf.k !== "opt") return argRoom() ? UNKNOWN : no("boolean with a value");
        if (!room(f)) return argRoom() ? UNKNOWN : no("duplicate");
        const v = vpAccepts(f.leaf.vp, t.slice(joined.length + 1));
        if (v === null) return UNKNOWN;
        once(f, v);
        continue;
      }
      if (joined) return UNKNOWN;
      if (/^-[^-]/.test(t) && t.length > 2) {
        // A bundle of short flags; the last one may take a value.
        const first = byName.get(t.slice(0, 2));
        if (first && first[0].leaf.k !== "opt") {
          if (/^-.*-/.test(t.slice(1)) || /[^-a-z0-9]/i.test(t)) return UNKNOWN;
          if (isTup) return UNKNOWN;
          let ok = true;
          for (let j = 1; j < t.length; j++) {
            const h = byName.get(`-${t[j]}`);
            if (!h) { ok = false; break; }
            const [f, pol] = h;
            if (f.leaf.k === "opt") {
              if (j !== t.length - 1 || !room(f) || i + 1 >= tokens.length) { ok = false; break; }
              const v = vpAccepts(f.leaf.vp, tokens[++i]);
              if (v === null) return UNKNOWN;
              once(f, v);
            } else if (!once(f, { ok: true, value: pol })) { ok = false; break; }
          }
          if (!ok) return no("bad bundle");
          continue;
        }
      }
      if (OPTION_LIKE.test(t)) return no("unknown option");
    }
    const a = argRoom();
    if (!a) return no("surplus positional");
    const v = vpAccepts(a.leaf.vp, t);
    if (v === null) return UNKNOWN;
    a.occ.push(v);
  }
  // Completion.
  const eval1 = (n, f) => {
    switch (n.k) {
      case "optional": return f.occ.length ? eval1(n.p, f) : { ok: true, value: undefined };
      case "withDefault": return f.occ.length ? eval1(n.p, f) : { ok: true, value: defaultOf(n) };
      case "map": {
        const r = eval1(n.p, f);
        return r.ok ? { ok: true, value: MAPS[n.f](r.value) } : r;
      }
      case "nonEmpty": return f.occ.length ? eval1(n.p, f) : { ok: false };
      case "group": return eval1(n.p, f);
      case "multiple": {
        if (f.occ.length < (n.min ?? 0)) return { ok: false };
        const out = [];
        for (const o of f.occ) {
          const r = eval1(n.p, { ...f, occ: [o] });
          if (!r.ok) return r;
          out.push(r.value);
        }
        return { ok: true, value: out };
      }
      case "const": return { ok: true, value: n.v };
      case "bool":
        return f.occ.length ? f.occ[0] : { ok: true, value: false };
      default:
        return f.occ.length ? f.occ[0] : { ok: false };
    }
  };
  const values = [];
  for (const f of fs) {
    const r = eval1(f.n, f);
    if (!r.ok) return no("incomplete or invalid");
    values.push(r.value);
  }
  return { ok: true, value: isTup ? values : Object.fromEntries(spec.fields.map(([k], i) => [k, values[i]])) };
}
