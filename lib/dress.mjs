// Descriptions and visibility for random grammars.
export const HIDDEN = [undefined, undefined, undefined, false, true, "usage", "doc", "help"];

/** Gives every leaf its own description and a visibility. */
export function dress(spec, hid) {
  let i = 0;
  const next = () => { const h = HIDDEN[(hid[i % Math.max(1, hid.length)] ?? 0) % HIDDEN.length]; i++; return { desc: `what ${i} does`, ...(h === undefined ? {} : { hidden: h }) }; };
  const go = (n) => {
    const c = { ...n };
    if (["opt", "bool", "flag", "neg", "arg"].includes(c.k)) return { ...c, ...next() };
    if (c.k === "cond") Object.assign(c, next());
    if (c.p) c.p = go(c.p);
    if (c.list) c.list = c.k === "cmds" ? c.list.map((q) => ({ ...q, ...next(), p: go(q.p) })) : c.list.map(go);
    if (c.fields) c.fields = c.fields.map(([k, v]) => [k, go(v)]);
    if (c.branches) c.branches = c.branches.map(([k, v]) => [k, go(v)]);
    if (c.def) c.def = go(c.def);
    return c;
  };
  return go(spec);
}
