import * as core from "@optique/core";
import { DuplicateOptionError } from "@optique/core/constructs";
import { deferredValue, isDeferredValue, withDefault, WithDefaultError } from "@optique/core/modifiers";
import { assert, equal, fail, show } from "../lib/harness.mjs";
import { OPTION_LIKE, toAsync, Tape, build, optionNamesOf, caseArb, editTokens, editsArb, has, kids, nodeArbs, planCase, tapeArb } from "../lib/grammar.mjs";
import { message } from "@optique/core/message";

/** Value-preserving rewrites of one node of a grammar. */
const single = (n) => ["opt", "flag", "neg", "arg"].includes(n.k);
const RULES = {
  mapId: (n) => ({ k: "map", f: "id", p: n }),
  group: (n) => ({ k: "group", label: "L", p: n }),
  optionalAsDefault: (n) => n.k === "optional" ? { k: "map", f: "unsent", p: { k: "withDefault", sent: true, p: n.p } } : null,
  optionalAsMultiple: (n) => n.k === "optional" && single(n.p) ? { k: "map", f: "optHead", p: { k: "multiple", max: 1, p: n.p } } : null,
  singleAsMultiple: (n) => single(n) ? { k: "map", f: "head", p: { k: "multiple", min: 1, max: 1, p: n } } : null,
  groupInside: (n) => n.k === "optional" || n.k === "withDefault" || n.k === "multiple" ? { ...n, p: { k: "group", label: "L", p: n.p } } : null,
  mapInside: (n) => n.k === "optional" || n.k === "withDefault" || n.k === "multiple" ? { ...n, p: { k: "map", f: "id", p: n.p } } : null,
  valueToFunction: (n) => n.k === "withDefault" ? { ...n, fn: !n.fn } : null,
  mapFusion: (n) => n.k === "map" ? { k: "map", f: "id", p: { ...n, p: { k: "map", f: "id", p: n.p } } } : null,
  nonEmptyTwice: (n) => n.k === "nonEmpty" ? { k: "nonEmpty", p: n } : null,
  nonEmptyOfRequired: (n) => single(n) ? { k: "nonEmpty", p: n } : null,
  orOfOne: (n) => single(n) ? { k: "or", list: [n] } : null,
};
const RULE_NAMES = Object.keys(RULES);

function rewriteAt(root, target, f) {
  let i = -1, applied = null;
  const under = [];
  const walk = (n) => {
    i++;
    if (i === target) {
      const r = f(n, under);
      if (r) { applied = n; return r; }
    }
    under.push(n);
    let m = n;
    if (n.p) m = { ...n, p: walk(n.p) };
    else if (n.k === "obj") m = { ...n, fields: n.fields.map(([k, c]) => [k, walk(c)]) };
    else if (n.k === "cmds") m = { ...n, list: n.list.map((q) => ({ ...q, p: walk(q.p) })) };
    else if (n.k === "cond") m = { ...n, branches: n.branches.map(([k, c]) => [k, walk(c)]), ...(n.def ? { def: walk(n.def) } : {}) };
    else if (n.list) m = { ...n, list: n.list.map(walk) };
    under.pop();
    return m;
  };
  const spec = walk(root);
  return applied ? { spec, node: applied } : null;
}
const count = (n) => 1 + kids(n).reduce((a, c) => a + count(c), 0);
const outcome = (r) => r.success ? { ok: true, value: r.value } : { ok: false };
const attempt = (f) => { try { return { v: f() }; } catch (e) { return { e }; } };

export default {
  id: "C06",
  title: "Modifiers compose lawfully and touch nothing but what they promise",
  statement: "map() with the identity, group(), optional() versus withDefault(), a single parser versus multiple() with at most one occurrence, and the other documented equivalences of modifiers never change which command lines are accepted nor the values. A default is used exactly when nothing was given: a default factory runs then and only then, its exception becomes a parse failure that says so, and the default appears in the value parser's normal form; deferredValue() reports its source truthfully, never runs the fallback during parsing, and memoizes (on request) resolved values and in-flight promises but no rejection.",
  quantifier: [["programs", "inputs", "histories"], "all compositions, all command lines, all sequences of calls of a deferred value"],
  why: "Each modifier is tested on one or two parsers; that it is transparent under every other combinator, and on refused command lines too, is a law over all compositions.",
  files: ["packages/core/src/modifiers.ts", "packages/core/src/constructs.ts", "docs/concepts/modifiers.md"],
  mechanism: [["optional()/withDefault()/map()/multiple()/nonEmpty()/deferredValue()", "packages/core/src/modifiers.ts"], ["group()", "packages/core/src/constructs.ts"]],
  observe: ["results of parse()", "calls of default factories and fallbacks"],
  rule: "part rewrite: one random node of a random grammar is replaced by an equivalent composition of modifiers (12 laws) and both grammars must agree on a randomly edited line. Part factory: default factories that count, throw or return, for planned lines where it is known which parts are absent. Part normal: defaults in any spelling of a MAC address or domain. Part deferred: random histories of calls against a model. Non-trivial: the law applied to a node, a factory is present, the default is not already normal, two calls or more.",
  parts: [
    {
      name: "rewrite",
      runs: { quick: 30000, thorough: 800000 },
      arb: (fc) => fc.record({ c: caseArb(fc), edits: editsArb(fc, 3), rule: fc.nat(RULE_NAMES.length - 1), at: fc.nat(30) }),
      check({ c, edits, rule, at }, ctx) {
        const p = planCase(c);
        if (!p) return ctx.trivial("no plan");
        const name = RULE_NAMES[rule];
        const total = count(p.spec);
        let rw = null;
        for (let i = 0; i < total && !rw; i++) rw = rewriteAt(p.spec, (at + i) % total, (n, under) => {
          // objects merged or concatenated must stay objects
          const parent = under[under.length - 1];
          if (parent && (parent.k === "merge" || parent.k === "concat") ) return null;
          return RULES[name](n, under);
        });
        if (!rw) return ctx.trivial("the law applies nowhere");
        ctx.label(name);
        const tokens = editTokens(p, edits);
        // A positional may take `--k=v`, `/k` and `+k` (known findings of C01 and C02).
        if (has(p.spec, "arg") && tokens.some((t) => !OPTION_LIKE.test(t) && optionNamesOf(p.spec).some((n) => t.startsWith(n)))) {
          return ctx.trivial("a positional may take an option's spelling (known finding)");
        }
        if (tokens.at(-1) === "--") return ctx.trivial("trailing -- (known finding of C02)");
        const a = outcome(core.parse(build(p.spec), tokens));
        const b = outcome(core.parse(build(rw.spec), tokens));
        ctx.label(a.ok ? "accept" : "reject");
        equal(b, a, `law ${name} fails at ${show(rw.node)} for ${show(tokens)}\n  spec ${show(p.spec)}`);
      },
    },
    {
      name: "factory", async: true,
      runs: { quick: 4000, thorough: 100000 },
      arb: (fc) => fc.record({
        fields: fc.array(fc.record({
          kind: fc.constantFrom("opt", "flag", "neg", "multi", "or", "group", "mapInner"),
          mode: fc.constantFrom("value", "value", "value", "throw", "throwMessage"),
          present: fc.boolean(), isAsync: fc.boolean(), asyncFactory: fc.boolean(), outer: fc.constantFrom("", "", "group", "map", "tuple"),
        }), { minLength: 1, maxLength: 4 }),
        shape: fc.nat(4),
      }),
      async check({ fields, shape }, ctx) {
        const calls = fields.map(() => 0);
        const line = [], want = [];
        let anyAsync = false;
        const failing = [];
        const parsers = fields.map((f, i) => {
          anyAsync ||= f.isAsync;
          const vp = f.isAsync ? toAsync(core.string()) : core.string();
          let p, toks, v;
          switch (f.kind) {
            case "opt": p = core.option(`--o${i}`, vp); toks = [`--o${i}`, "v"]; v = "v"; break;
            case "flag": p = core.flag(`--o${i}`); toks = [`--o${i}`]; v = true; break;
            case "neg": p = core.negatableFlag({ positive: `--o${i}`, negative: `--no-o${i}` }); toks = [`--no-o${i}`]; v = false; break;
            case "multi": p = core.multiple(core.option(`--o${i}`, vp), { min: 1 }); toks = [`--o${i}`, "a", `--o${i}=b`]; v = ["a", "b"]; break;
            case "or": p = core.or(core.flag(`--p${i}`), core.option(`--o${i}`, vp)); toks = [`--o${i}=v`]; v = "v"; break;
            case "group": p = core.group("G", core.option(`--o${i}`, vp)); toks = [`--o${i}`, ""]; v = ""; break;
            default: p = core.map(core.option(`--o${i}`, vp), (x) => ({ x })); toks = [`--o${i}=`]; v = { x: "" };
          }
          const isAsyncParser = p.mode === "async";
          let q = withDefault(p, () => {
            calls[i]++;
            if (f.mode === "throw") throw new Error(`no default ${i}`);
            if (f.mode === "throwMessage") throw new WithDefaultError(message`no default ${String(i)}`);
            return { def: i };
          });
          if (f.present) line.push(...toks);
          else if (f.mode !== "value") failing.push(i);
          let w = f.present ? v : { def: i };
          if (f.outer === "group") q = core.group("Outer", q);
          if (f.outer === "map") { q = core.map(q, (x) => [x]); w = [w]; }
          if (f.outer === "tuple") { q = core.tuple([q]); w = [w]; }
          want.push(w);
          return q;
        });
        const objOf = (ps, from = 0) => core.object(Object.fromEntries(ps.map((p, i) => [`f${i + from}`, p])));
        let parser, value = Object.fromEntries(want.map((w, i) => [`f${i}`, w])), cmd = [];
        switch (shape) {
          case 0: parser = objOf(parsers); break;
          case 1: parser = core.tuple(parsers); value = want; break;
          case 2: { const h = Math.ceil(parsers.length / 2); parser = core.merge(objOf(parsers.slice(0, h)), objOf(parsers.slice(h), h)); break; }
          case 3: parser = core.command("go", objOf(parsers)); cmd = ["go"]; break;
          default: parser = core.concat(core.tuple(parsers.slice(0, 1)), core.tuple(parsers.slice(1))); value = want;
        }
        const r = await core.parseAsync(parser, [...cmd, ...line]);
        ctx.label(failing.length ? "a factory throws" : "no throw");
        if (failing.length) {
          assert(!r.success, () => `parsed ${show(line)} although the default factory of ${failing} throws: ${show(r.value)}`);
          const text = core.formatMessage(r.error);
          // merge() of objects that all fail reports only that nothing matched.
          if (shape !== 2) assert(failing.some((i) => text.includes("no default") && text.includes(String(i))), () => `the failure says ${show(text)}, not what a factory threw (${failing})`);
        } else {
          assert(r.success, () => `rejected ${show(line)}: ${core.formatMessage(r.error)}`);
          equal(r.value, value, `wrong value for ${show(line)}`);
        }
        fields.forEach((f, i) => {
          if (f.present) assert(calls[i] === 0, () => `the default factory of a given option ran ${calls[i]} times`);
          else if (!failing.length) assert(calls[i] >= 1, "the default factory of an absent option did not run");
        });
        if (fields.every((f) => f.present)) ctx.trivial("no default needed");
      },
    },
    {
      name: "normal",
      runs: { quick: 4000, thorough: 100000 },
      arb: (fc) => fc.record({
        mac: fc.boolean(), bytes: fc.uint8Array({ minLength: 6, maxLength: 6 }).map((b) => [...b]), sep: fc.constantFrom(":", "-"), up: fc.boolean(),
        kase: fc.constantFrom("preserve", "upper", "lower"), out: fc.constantFrom(":", "-", ".", "none"),
        labels: fc.array(fc.stringMatching(/^[a-zA-Z][a-zA-Z0-9]{0,5}$/), { minLength: 2, maxLength: 3 }), lower: fc.boolean(),
        wrap: fc.array(fc.constantFrom("group", "optional", "object", "merge", "tuple", "command"), { maxLength: 1 }), fn: fc.boolean(), inner: fc.constantFrom("", "group", "optionalInner"), arg: fc.boolean(),
      }),
      check(c, ctx) {
        const vp = c.mac ? core.macAddress({ separator: "any", case: c.kase, outputSeparator: c.out }) : core.domain({ lowercase: c.lower });
        const raw = c.mac ? c.bytes.map((b) => { const h = b.toString(16).padStart(2, "0"); return c.up ? h.toUpperCase() : h; }).join(c.sep) : c.labels.join(".");
        let p = c.arg ? core.argument(vp) : core.option("--x", vp);
        if (c.inner === "group") p = core.group("G", p);
        const d = raw;
        p = withDefault(p, c.fn ? () => d : d);
        let pick = (v) => v, cmd = [];
        for (const w of c.wrap) {
          const prev = pick;
          if (w === "group") p = core.group("H", p);
          if (w === "optional") p = core.optional(p);
          if (w === "object") { p = core.object({ a: p }); pick = (v) => prev(v.a); }
          if (w === "merge") { p = core.merge(core.object({ a: p }), core.object({ b: core.option("--b") })); pick = (v) => prev(v.a); }
          if (w === "tuple") { p = core.tuple([p]); pick = (v) => prev(v[0]); }
          if (w === "command") { p = core.command("go", p); cmd = ["go"]; }
        }
        const given = core.parse(p, [...cmd, ...(c.arg ? [raw] : ["--x", raw])]);
        if (!given.success) return ctx.trivial("not a valid value");
        const absent = core.parse(p, cmd);
        assert(absent.success, () => `no default: ${core.formatMessage(absent.error)}`);
        equal(pick(absent.value), pick(given.value), `default ${raw} is not normalized as parse does (${show(c)})`);
        if (pick(given.value) === raw) ctx.trivial("already normal");
      },
    },
    {
      name: "deferred", async: true,
      runs: { quick: 3000, thorough: 60000 },
      arb: (fc) => fc.record({
        present: fc.boolean(), memoize: fc.constantFrom(undefined, false, true), isAsync: fc.boolean(), asyncFallback: fc.boolean(), wrap: fc.constantFrom("", "object", "merge", "group", "command", "map"),
        bad: fc.constantFrom(false, false, false, true),
        calls: fc.array(fc.record({ wait: fc.boolean(), throws: fc.boolean(), ticks: fc.nat(3), undef: fc.constantFrom(false, false, false, true) }), { minLength: 1, maxLength: 6 }),
      }),
      async check(c, ctx) {
        let ran = 0;
        const outcomes = [];
        const log = [];
        const vp = c.isAsync ? toAsync(core.integer()) : core.integer();
        const d = deferredValue(core.option("--x", vp), c.asyncFallback
          ? async (arg) => { const n = ran++, o = outcomes[n] ?? c.calls[n]; log.push(arg); for (let i = 0; i < (o?.ticks ?? 0); i++) await null; if (o?.throws) throw new Error(`f${n}`); return o?.undef ? undefined : { n, arg }; }
          : (arg) => { const n = ran++, o = outcomes[n] ?? c.calls[n]; log.push(arg); if (o?.throws) throw new Error(`f${n}`); return o?.undef ? undefined : { n, arg }; },
        c.memoize === undefined ? undefined : { memoize: c.memoize });
        let p = d, pick = (v) => v, cmd = [];
        if (c.wrap === "object") { p = core.object({ a: d, b: core.option("--b") }); pick = (v) => v.a; }
        if (c.wrap === "merge") { p = core.merge(core.object({ a: d }), core.object({ b: core.option("--b") })); pick = (v) => v.a; }
        if (c.wrap === "group") p = core.group("G", d);
        if (c.wrap === "command") { p = core.command("go", d); cmd = ["go"]; }
        if (c.wrap === "map") { p = core.map(d, (v) => [v]); pick = (v) => v[0]; }
        const r = await core.parseAsync(p, [...cmd, ...(c.present ? ["--x", c.bad ? "zz" : "7"] : [])]);
        if (c.present && c.bad) {
          assert(!r.success, "an invalid value was deferred");
          equal(ran, 0, "the fallback ran");
          return;
        }
        assert(r.success, () => `rejected: ${core.formatMessage(r.error)}`);
        equal(ran, 0, "the fallback ran during parsing");
        const v = pick(r.value);
        assert(typeof v === "function" && isDeferredValue(v), "not a deferred value");
        equal(v.source, c.present ? "specified" : "fallback", "source");
        // The model: what each call must run and give.
        let n = 0, cached = null; // cached: index of the run reused by later calls
        const pending = [];
        for (const [i, call] of c.calls.entries()) {
          if (c.present) {
            equal(await v(i), 7, "specified value");
            continue;
          }
          const before = ran;
          let got;
          try { const x = v(i); got = { p: x }; } catch (e) { got = { threw: e.message }; }
          if (got.p instanceof Promise) got.p.catch(() => {});
          const settle = async () => { if (got.threw) return got; try { return { value: await got.p }; } catch (e) { return { threw: e.message }; } };
          if (!c.memoize) {
            equal(ran, before + 1, "without memoize every call runs the fallback");
            pending.push([settle, before, i]);
            if (call.wait) await settle();
          } else if (call.wait) {
            const s = await settle();
            if (ran === before) {
              assert(cached !== null, "memoized call ran nothing although nothing was cached");
              equal(s, outcomeOf(cached.n, cached.arg), "memoized value");
              if (outcomeOf(cached.n, cached.arg).threw) cached = null;
            } else {
              assert(cached === null, "memoized fallback ran again");
              equal(s, outcomeOf(before, i), "value of the fallback");
              if (!s.threw) cached = { n: before, arg: i };
            }
          } else {
            // Overlap with the next call: an in-flight run is shared.
            if (ran !== before) { assert(cached === null, "memoized fallback ran again"); cached = { n: before, arg: i }; }
            if (c.asyncFallback) {
              // not settled: the next call, started now, must share it
              const b2 = ran;
              let g2; try { g2 = v(100 + i); } catch (e) { g2 = Promise.reject(e); }
              const s1 = await settle();
              let s2; try { s2 = { value: await g2 }; } catch (e) { s2 = { threw: e.message }; }
              equal(ran, b2, "overlapping memoized calls ran the fallback twice");
              equal(s2, s1, "overlapping memoized calls differ");
            }
            const s = await settle();
            equal(s, outcomeOf(cached.n, cached.arg), "memoized value");
            if (s.threw) cached = null;
          }
        }
        for (const [settle, k, arg] of pending) equal(await settle(), outcomeOf(k, arg), "value of the fallback");
        function outcomeOf(k, arg) { return c.calls[k]?.throws ? { threw: `f${k}` } : { value: c.calls[k]?.undef ? undefined : { n: k, arg } }; }
        if (c.calls.length < 2) ctx.trivial("one call");
      },
    },
  ],
};
