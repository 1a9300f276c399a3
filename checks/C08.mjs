import * as core from "@optique/core";
import { assert, equal, show } from "../lib/harness.mjs";

// Children of a sequence. Every child owns its option and command names.
const kids = ["opt", "optopt", "flag", "optflag", "bool", "multiopt", "arg", "optarg", "cmd", "optcmd", "orcmd", "group"];
const SEQ_VALUES = ["x", "y.txt", "a b", "--", "-1", "=", "日本"];

function childArb(fc, depth) {
  return fc.record({
    t: fc.constantFrom(...kids, ...(depth > 0 ? ["seq", "seqopt"] : [])),
    present: fc.boolean(),
    n: fc.nat(2),
    join: fc.boolean(),
    v: fc.array(fc.constantFrom(...SEQ_VALUES), { minLength: 3, maxLength: 3 }),
    async: fc.constantFrom(false, false, false, true),
    ...(depth > 0 ? { list: fc.array(childArb(fc, depth - 1), { minLength: 1, maxLength: 3 }) } : {}),
  });
}

const str = (a) => {
  const s = core.string();
  return a ? { ...s, mode: "async", parse: (x) => Promise.resolve(s.parse(x)), suggest: undefined, validate: undefined } : s;
};

/** { parser, blocks: [{ toks, owner, uniq }], value, skippable, starts } for a child with ordinal id. */
function make(c, id) {
  const L = `--o${id}`, C = `c${id}`;
  const optBlock = (v, join) => ({ toks: join && v !== "--" ? [`${L}=${v}`] : [L, v], uniq: true });
  const argVal = (v) => (/^-/.test(v) ? "w" : v);
  switch (c.t) {
    case "opt": return { parser: core.option(L, str(c.async)), blocks: [optBlock(c.v[0], c.join)], value: c.v[0] };
    case "optopt": return { parser: core.optional(core.option(L, str(c.async))), blocks: c.present ? [optBlock(c.v[0], c.join)] : [], value: c.present ? c.v[0] : undefined, skip: true };
    case "multiopt": return { parser: core.multiple(core.option(L, str(c.async))), blocks: c.v.slice(0, c.n).map((v) => optBlock(v, c.join)), value: c.v.slice(0, c.n), skip: true, open: true };
    case "flag": return { parser: core.flag(L), blocks: [{ toks: [L], uniq: true }], value: true };
    case "optflag": return { parser: core.optional(core.flag(L)), blocks: c.present ? [{ toks: [L], uniq: true }] : [], value: c.present ? true : undefined, skip: true };
    case "bool": return { parser: core.option(L), blocks: c.present ? [{ toks: [L], uniq: true }] : [], value: c.present, skip: true };
    case "arg": return { parser: core.argument(str(c.async)), blocks: [{ toks: [argVal(c.v[0])], uniq: false }], value: argVal(c.v[0]), takesAny: true };
    case "optarg": return { parser: core.optional(core.argument(str(c.async))), blocks: c.present ? [{ toks: [argVal(c.v[0])], uniq: false }] : [], value: c.present ? argVal(c.v[0]) : undefined, skip: true, takesAny: true };
    case "cmd": return { parser: core.command(C, core.constant(id)), blocks: [{ toks: [C], uniq: true }], value: id };
    case "optcmd": return { parser: core.optional(core.command(C, core.constant(id))), blocks: c.present ? [{ toks: [C], uniq: true }] : [], value: c.present ? id : undefined, skip: true };
    case "orcmd": return { parser: core.or(core.command(C, core.constant(id)), core.command(`d${id}`, core.constant(-id))), blocks: [{ toks: [c.present ? C : `d${id}`], uniq: true }], value: c.present ? id : -id };
    case "group": return { parser: core.group("G", core.flag(L)), blocks: [{ toks: [L], uniq: true }], value: true };
    case "seq": case "seqopt": {
      const parts = c.list.map((k, i) => make(k, id * 10 + i + 1));
      const p = core.seq(...parts.map((q) => q.parser));
      return { parser: c.t === "seq" ? p : core.group("S", p), blocks: parts.flatMap((q) => q.blocks), value: parts.map((q) => q.value), parts,
        skip: parts.every((q) => q.skip), takesAny: parts.some((q) => q.takesAny), nested: true };
    }
  }
  throw new Error(c.t);
}

/** Is the concatenated line the only reading?  An absent optional positional must not see a plain token next. */
function unambiguous(parts) {
  const flat = [], home = [];
  (function walk(ps) { for (const p of ps) { if (p.parts) walk(p.parts); else { flat.push(p); home.push(ps); } } })(parts);
  for (let i = 0; i < flat.length; i++) {
    if (!(flat[i].takesAny && flat[i].skip && flat[i].blocks.length === 0)) continue;
    for (let j = i + 1; j < flat.length; j++) {
      if (flat[j].blocks.length) {
        const b = flat[j].blocks[0];
        if (!b.uniq) return false;
        // A positional taking a sibling's `--o=v` is a known finding of C01.
        if (b.toks[0].includes("=") && parts.some((p) => p.parts)) return false;
        // Only the sequence that holds the positional looks ahead for command words.
        if (!b.toks[0].startsWith("-") && home[i] !== home[j]) return false;
        break;
      }
    }
  }
  // A command word after an unfilled optional positional is only recognised by the sequence itself.
  return true;
}

export default {
  id: "C08",
  title: "A sequence takes its parts in order and only in order",
  statement: "seq() accepts the concatenation of its parts' tokens in declaration order, skipping absent optional parts (also an optional positional before a command or option of a later part of the same sequence), with each part's value at its own index, nested or not, synchronous or asynchronous. A line whose parts come in another order, that repeats a part or has an extra token is refused; nothing is ever attributed to a part the sequence has already passed.",
  quantifier: [["programs", "inputs"], "all sequences of up to six parts of twelve kinds, nested twice, and all orders of their tokens"],
  why: "The cursor moves on what later parts could take; tests check single sequences, not all neighbourhoods of optional, repeated and nested parts.",
  files: ["packages/core/src/constructs.ts"],
  mechanism: [["seq() cursor, sequenceLeadingCandidates(), shouldAdvanceSeqBeforeParse()", "packages/core/src/constructs.ts"]],
  observe: ["result of parseSync()/parseAsync()"],
  rule: "part ordered: random sequences and a line that says every present part in order; the value must be the tuple of the parts' values. Part disorder: two blocks of different parts swapped, one repeated or an unknown token added; must be refused. Lines with an absent optional positional followed by a plain token are ambiguous and skipped. Part terminator: options, `--`, then positionals that look like options. Non-trivial: at least two present parts.",
  parts: [
    {
      name: "ordered",
      runs: { quick: 15000, thorough: 400000 },
      async: true,
      arb: (fc) => fc.record({ list: fc.array(childArb(fc, 1), { minLength: 1, maxLength: 6 }), tail: fc.boolean() }),
      async check({ list, tail }, ctx) {
        const parts = list.map((c, i) => make(c, i + 1));
        if (!unambiguous(parts)) return ctx.trivial("ambiguous");
        const blocks = parts.flatMap((p) => p.blocks);
        if (blocks.length < 2) ctx.trivial("fewer than two blocks");
        const tokens = blocks.flatMap((b) => b.toks);
        let p = core.seq(...parts.map((q) => q.parser));
        let get = (v) => v;
        if (tail) {
          // The sequence as the body of a command.
          p = core.command("go", p);
          tokens.unshift("go");
        }
        ctx.label(p.mode, parts.some((q) => q.nested) ? "nested" : "flat", parts.some((q) => q.skip && !q.blocks.length) ? "skips" : "no skip");
        const r = p.mode === "sync" ? core.parseSync(p, tokens) : await core.parseAsync(p, tokens);
        assert(r.success, () => `rejected ${show(tokens)}: ${core.formatMessage(r.error)}\n  ${show(list)}`);
        equal(get(r.value), parts.map((q) => q.value), `wrong value for ${show(tokens)} of ${show(list)}`);
      },
    },
    {
      name: "disorder",
      runs: { quick: 15000, thorough: 400000 },
      async: true,
      arb: (fc) => fc.record({
        list: fc.array(childArb(fc, 0), { minLength: 2, maxLength: 6 }),
        i: fc.nat(5), j: fc.nat(5), kind: fc.constantFrom("swap", "swap", "repeat", "extra"),
        extra: fc.constantFrom("zz", "--zzz", "-Q"),
      }),
      async check({ list, i, j, kind, extra }, ctx) {
        const parts = list.map((c, k) => make(c, k + 1));
        const blocks = parts.flatMap((p, k) => p.blocks.map((b) => ({ ...b, part: k, open: p.open })));
        if (blocks.length < 2) return ctx.trivial("fewer than two blocks");
        i %= blocks.length; j %= blocks.length;
        let toks;
        if (kind === "swap") {
          const a = blocks[Math.min(i, j)], b = blocks[Math.max(i, j)];
          if (a.part === b.part) return ctx.trivial("same part");
          // The later block must own its tokens, and so must everything between.
          const out = [...blocks];
          out[Math.min(i, j)] = b; out[Math.max(i, j)] = a;
          if (!out.slice(Math.min(i, j), Math.max(i, j) + 1).every((x) => x.uniq)) return ctx.trivial("swap of plain tokens");
          // An option's value parser never takes another option's name here: every value is followed by its own block.
          toks = out.flatMap((x) => x.toks);
          if (out.some((x) => x.toks.includes("--"))) return ctx.trivial("terminator value");
        } else if (kind === "repeat") {
          const a = blocks[i];
          if (a.open || !a.uniq) return ctx.trivial("repeatable");
          toks = blocks.flatMap((x) => (x === a ? [...x.toks, ...x.toks] : x.toks));
          if (parts.some((p) => p.takesAny && (!p.blocks.length || true)) ) {
            // A positional next to it may take `--o=v` or a command word.
            if (a.toks[0].includes("=") || !a.toks[0].startsWith("-")) return ctx.trivial("a positional may take it");
          }
        } else {
          if (parts.some((p) => p.takesAny && p.skip && !p.blocks.length) && !extra.startsWith("-")) return ctx.trivial("a positional may take it");
          toks = [...blocks.flatMap((x) => x.toks), extra];
          if (blocks.some((x) => x.toks.includes("--"))) return ctx.trivial("terminator value");
        }
        // Swapping a command word or `--o=v` in front of an unfilled positional feeds it.
        if (kind === "swap" && parts.some((p) => p.takesAny)) {
          const moved = [blocks[i], blocks[j]];
          if (moved.some((b) => b.toks[0].includes("=") || !b.toks[0].startsWith("-"))) return ctx.trivial("a positional may take it");
        }
        ctx.label(kind);
        const p = core.seq(...parts.map((q) => q.parser));
        const r = p.mode === "sync" ? core.parseSync(p, toks) : await core.parseAsync(p, toks);
        assert(!r.success, () => `accepted ${show(toks)} (${kind}) as ${show(r.value)}\n  ${show(list)}`);
        assert(core.formatMessage(r.error).trim() !== "", () => `empty error for ${show(toks)}`);
      },
    },
    {
      name: "terminator",
      runs: { quick: 6000, thorough: 150000 },
      async: true,
      arb: (fc) => fc.record({
        pre: fc.array(fc.record({ t: fc.constantFrom("opt", "optopt", "flag", "optflag", "bool", "multiopt"), present: fc.boolean(), n: fc.nat(2), join: fc.boolean(), v: fc.array(fc.constantFrom("x", "a b"), { minLength: 3, maxLength: 3 }), async: fc.boolean() }), { minLength: 1, maxLength: 3 }),
        words: fc.array(fc.constantFrom("-x", "--yy", "--o1", "w", "-1", "--o1=2"), { minLength: 1, maxLength: 4 }),
        one: fc.boolean(), async: fc.boolean(), nest: fc.nat(2),
      }),
      async check({ pre, words, one, async: asy, nest }, ctx) {
        // Options first, then positionals that only `--` makes readable.
        const parts = pre.map((c, i) => make(c, i + 1));
        const tail = one ? [core.argument(str(asy))] : [core.multiple(core.argument(str(asy)))];
        const w = one ? words.slice(0, 1) : words;
        const ps = parts.map((q) => q.parser);
        let p, get;
        if (nest === 0) { p = core.seq(...ps, ...tail); get = (v) => v; }
        else if (nest === 1) { p = core.seq(core.seq(...ps), ...tail); get = (v) => [...v[0], v[1]]; }
        else { p = core.seq(...ps, core.seq(...tail)); get = (v) => [...v.slice(0, -1), v.at(-1)[0]]; }
        const tokens = [...parts.flatMap((q) => q.blocks.flatMap((b) => b.toks)), "--", ...w];
        ctx.label(p.mode, nest ? "nested" : "flat");
        const r = p.mode === "sync" ? core.parseSync(p, tokens) : await core.parseAsync(p, tokens);
        assert(r.success, () => `rejected ${show(tokens)}: ${core.formatMessage(r.error)}\n  ${show({ pre, one, nest })}`);
        equal(get(r.value), [...parts.map((q) => q.value), one ? w[0] : w], `wrong value for ${show(tokens)}`);
      },
    },
  ],
};
