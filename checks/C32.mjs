import { spawnSync } from "node:child_process";
import { mkdirSync, readFileSync, rmSync, writeFileSync } from "node:fs";
import { join } from "node:path";
import { formatMessage, message, object, option } from "@optique/core";
import { parseAsync, suggestAsync } from "@optique/core/parser";
import { createGitParsers, gitBranch, gitCommit, gitRef, gitRemote, gitRemoteBranch, gitTag } from "@optique/git";
import { assert, equal, show } from "../lib/harness.mjs";
import { scratch } from "../lib/scratch.mjs";

const NAMES = ["main", "dev", "feature/a", "feature/b-c", "feature", "v1.0", "v1.0.1", "v1", "dead", "beef/cafe", "abcd12", "grün", "origin/main", "x", "HEAD-ish", "release-1.x"];
const REMOTES = ["origin", "up.stream", "fork", "main"];
const ENV = { PATH: process.env.PATH, LC_ALL: "C", GIT_CONFIG_NOSYSTEM: "1", GIT_CONFIG_GLOBAL: "/dev/null", GIT_TERMINAL_PROMPT: "0" };
function git(dir, args, input) {
  const r = spawnSync("git", args, { cwd: dir, env: { ...ENV, HOME: dir, GIT_CEILING_DIRECTORIES: join(dir, "..") }, input, encoding: "utf8", maxBuffer: 1 << 26 });
  if (r.status !== 0) throw new Error(`git ${args.join(" ")}: ${r.stderr}`);
  return r.stdout;
}
/** Refs that can be in one repository: none is a directory of another. */
const settle = (list, name = (x) => x) => { const seen = []; return list.filter((x) => { const n = name(x); if (seen.some((s) => s === n || s.startsWith(`${n}/`) || n.startsWith(`${s}/`))) return false; seen.push(n); return true; }); };

const all = (list) => [...list ?? []].sort().join(",");
const TWINS = [["q12961", "q906"], ["q3678", "q3292"], ["q2275", "q8024"]];
let count = 0;
/** Makes the repository of a case, with nothing but git itself. */
function make({ ...c }) {
  const dir = join(scratch(), `git${count++}`);
  mkdirSync(dir);
  git(dir, ["init", "-q", "--template=", "-b", "main", "."]);
  const out = [];
  const data = (s) => { const b = Buffer.from(s); return `data ${b.length}\n${s}\n`; };
  c.blobs.forEach((b, i) => out.push(`blob\nmark :${500 + i}\n${data(b)}`));
  // two roots whose names begin with the same 7 digits, both in the history
  if (c.twins) c.commits = [{ text: TWINS[c.twins - 1][0], root: true }, { text: TWINS[c.twins - 1][1], root: true }, { text: "both", on: 0, merge: 0, root: false }, ...c.commits];
  const n = c.commits.length;
  c.commits.forEach((m, i) => {
    out.push(`commit refs/tmp/c${i}\nmark :${i + 1}\ncommitter A <a@example.com> ${1700000000 + i * 60} +0000\n${data(m.text)}`);
    if (i && !m.root) { out.push(`from :${1 + (m.on < 3 ? i - 1 : m.on % i)}\n`); if (m.merge !== null && i > 1 && m.merge % i !== (m.on < 3 ? i - 1 : m.on % i)) out.push(`merge :${1 + m.merge % i}\n`); }
    out.push(`M 100644 inline f\n${data(`content ${m.text} ${i}`)}\n`);
  });
  const to = (k) => `from :${1 + k % n}\n`;
  const branches = n ? settle(c.branches, (b) => b[0]) : [], tags = n ? settle(c.tags, (t) => t[0]) : [];
  for (const [b, k] of branches) out.push(`reset refs/heads/${b}\n${to(k)}\n`);
  let mark = 900;
  for (const [t, k, kind] of tags) {
    const who = "tagger A <a@example.com> 1700000000 +0000\n";
    if (kind === 0) out.push(`reset refs/tags/${t}\n${to(k)}\n`);
    else if (kind === 1) out.push(`tag ${t}\n${to(k)}${who}${data("annotated")}`);
    else if (kind === 2) { const m = mark++; out.push(`tag inner-${m}\nmark :${m}\n${to(k)}${who}${data("inner")}`, `tag ${t}\nfrom :${m}\n${who}${data("outer")}`); }
    else if (c.blobs.length) out.push(`tag ${t}\nfrom :${500 + k % c.blobs.length}\n${who}${data("of a blob")}`);
  }
  let config = "";
  for (const r of settle(c.remotes, (r) => r.name)) {
    if (r.listed) config += r.style === 0 ? `[remote "${r.name}"]\n\turl = https://example.com/${r.name}.git\n\tfetch = +refs/heads/*:refs/remotes/${r.name}/*\n` : r.style === 1 ? `# one\n[remote "${r.name}"]\nurl=../x\n` : `[remote "${r.name}"]\n  url = ../x ; where it is\n  pushurl = "../y"\n`;
    if (n) for (const [b, k] of settle(r.refs, (b) => b[0])) out.push(`reset refs/remotes/${r.name}/${b}\n${to(k)}\n`);
  }
  if (config) writeFileSync(join(dir, ".git/config"), readFileSync(join(dir, ".git/config"), "utf8") + config);
  git(dir, ["-c", `fastimport.unpackLimit=${c.packed ? 0 : 10000}`, "fast-import", "--quiet", "--force"], out.join(""));
  if (c.packRefs) git(dir, ["pack-refs", "--all"]);
  if (c.loose && n) { git(dir, ["hash-object", "-w", "--stdin"], "a later object"); git(dir, ["update-ref", "refs/heads/late", git(dir, ["rev-parse", "refs/tmp/c0"]).trim()]); }
  if (c.head.kind === "branch" && branches.length) writeFileSync(join(dir, ".git/HEAD"), `ref: refs/heads/${branches[c.head.n % branches.length][0]}\n`);
  else if (c.head.kind === "detached" && n) writeFileSync(join(dir, ".git/HEAD"), `${git(dir, ["rev-parse", `refs/tmp/c${c.head.n % n}`]).trim()}\n`);
  else if (c.head.kind === "unborn") writeFileSync(join(dir, ".git/HEAD"), `ref: refs/heads/not-yet\n`);
  if (c.gitFile) { git(dir, ["init", "-q", "--template=", `--separate-git-dir=${dir}.git`, "."]); }
  return dir;
}
/** What git itself knows of it. */
function survey(dir) {
  const refs = git(dir, ["for-each-ref", "--format=%(refname)"]).split("\n").filter(Boolean);
  const under = (p) => refs.filter((r) => r.startsWith(p)).map((r) => r.slice(p.length));
  const objects = git(dir, ["cat-file", "--batch-all-objects", "--batch-check=%(objectname) %(objecttype)"]).split("\n").filter(Boolean).map((l) => l.split(" "));
  return { branches: under("refs/heads/"), tags: under("refs/tags/"), remotes: git(dir, ["remote"]).split("\n").filter(Boolean), under, objects, isOf: new Map(objects) };
}
/** The commit that each name stands for, or null. */
function resolveAll(dir, inputs) {
  const ok = inputs.map((i) => i !== "" && !/[\n ^~:@{}?*[\\]/.test(i));
  const lines = git(dir, ["cat-file", "--batch-check=%(objectname) %(objecttype)", "--buffer"], inputs.filter((_, i) => ok[i]).map((i) => `${i}^{commit}\n`).join("")).split("\n").filter(Boolean).filter((l) => / (commit|missing|ambiguous)$/.test(l));
  let k = 0;
  return ok.map((o) => { if (!o) return null; const l = lines[k++]; return / commit$/.test(l) ? l.split(" ")[0] : null; });
}
function inputsOf(c, s) {
  const pick = (list, k) => list.length ? list[k % list.length] : "none";
  return c.asks.map(([kind, k, len, up]) => {
    const oid = pick(s.objects, k)?.[0] ?? "0".repeat(40), commit = pick(s.objects.filter((o) => o[1] === "commit"), k)[0] ?? "f".repeat(40);
    switch (kind) {
      case "name": return pick([...s.branches, ...s.tags, ...s.remotes, ...NAMES], k);
      case "branch": return pick(s.branches, k); case "tag": return pick(s.tags, k); case "remote": return pick(s.remotes, k); case "remoteBranch": return pick(s.under("refs/remotes/").map((r) => r.split("/").slice(1).join("/")), k);
      case "full": return pick(["refs/heads/", "heads/", "refs/tags/", "tags/", "remotes/"], len) + pick([...s.branches, ...s.tags, ...s.under("refs/remotes/")], k);
      case "near": { const b = pick([...s.branches, ...s.tags, ...s.remotes], k); return [b.slice(0, -1), `${b}x`, b.toUpperCase(), `${b} `, ` ${b}`, `${b}/`][len % 6]; }
      case "oid": return up ? oid.slice(0, len).toUpperCase() : oid.slice(0, len);
      case "commit": return up ? commit.slice(0, len).toUpperCase() : commit.slice(0, len);
      case "wrong": { const h = commit.slice(0, len); return h.slice(0, -1) + ((parseInt(h.at(-1), 16) + 1) % 16).toString(16); }
      default: return pick(["HEAD", "", " ", "-", "..", "..HEAD", "..config", "../x", "objects", "config", "refs", "refs/heads", "0".repeat(40), "deadbeef", "pack", "zz", "main ", "ab", "HEAD/", "//"], k);
    }
  });
}
const SIX = ["branch", "tag", "remote", "remoteBranch", "commit", "ref"];
function parserOf(kind, c, dir, remote) {
  const errors = c.errors ? { notFound: (i, list) => message`none: ${i} of ${all(list)}`, invalidFormat: (i) => message`ill-formed: ${i}`, remoteNotFound: (r, list) => message`no remote: ${r} of ${all(list)}` } : undefined;
  const o = { dir, ...(errors ? { errors } : {}), ...(c.depth ? { suggestionDepth: c.depth } : {}) };
  if (c.factory) { const f = createGitParsers(c.factory === 1 ? o : { dir: "/nowhere", suggestionDepth: 1 }); return f[kind](...(kind === "remoteBranch" ? [remote] : []), ...(c.factory === 1 ? [] : [{ suggestionDepth: undefined, ...o }])); }
  return { branch: gitBranch, tag: gitTag, remote: gitRemote, commit: gitCommit, ref: gitRef }[kind]?.(o) ?? gitRemoteBranch(remote, o);
}
const hex = (i) => /^[0-9a-f]{4,40}$/i.test(i);

const repoArb = (fc) => fc.record({
  commits: fc.array(fc.record({ text: fc.oneof(fc.nat(60).map((n) => `m${n}`), fc.constantFrom("subject\n\nbody", "é 漢字", "`code` \"x\"", "Merge")), on: fc.nat(9), merge: fc.option(fc.nat(9), { nil: null, freq: 3 }), root: fc.nat(9).map((n) => n === 0) }), { minLength: 0, maxLength: 9 }),
  blobs: fc.array(fc.nat(2000).map((n) => `blob ${n}`), { maxLength: 4 }),
  branches: fc.array(fc.tuple(fc.constantFrom(...NAMES), fc.nat(20)), { maxLength: 5 }),
  tags: fc.array(fc.tuple(fc.constantFrom(...NAMES), fc.nat(20), fc.constantFrom(0, 0, 1, 1, 2, 3)), { maxLength: 4 }),
  remotes: fc.array(fc.record({ name: fc.constantFrom(...REMOTES), listed: fc.nat(3).map((n) => n > 0), style: fc.nat(2), refs: fc.array(fc.tuple(fc.constantFrom(...NAMES, "HEAD"), fc.nat(20)), { maxLength: 3 }) }), { maxLength: 2 }),
  head: fc.record({ kind: fc.constantFrom("branch", "branch", "branch", "detached", "unborn", "main"), n: fc.nat(20) }),
  twins: fc.constantFrom(0, 0, 0, 1, 2, 3), packed: fc.boolean(), packRefs: fc.boolean(), loose: fc.boolean(),
});
const askArb = (fc) => fc.array(fc.tuple(fc.constantFrom("name", "branch", "tag", "remote", "remoteBranch", "full", "near", "oid", "commit", "commit", "wrong", "odd"), fc.nat(40), fc.oneof(fc.integer({ min: 4, max: 12 }), fc.constantFrom(40, 39, 41, 3, 2)), fc.nat(5).map((n) => n === 0)), { minLength: 1, maxLength: 8 });

export default {
  id: "C32",
  title: "Git references are accepted exactly as git itself knows them",
  statement: "In any repository, however its refs and objects are stored, gitBranch(), gitTag(), gitRemote() and gitRemoteBranch() accept exactly the names that git lists, as they are. gitCommit() accepts the full and abbreviated (4 or more digits, in either case) name of a commit, gitRef() any name that git resolves to a commit, and both give the full name of that commit; they accept nothing else. What is refused is refused with an error that names the input, or the custom one. The names suggested are exactly those that begin with the prefix, commits are the latest ones of HEAD, and what is suggested is accepted. No input, and no directory that is not a repository, makes them throw, and none of them changes the repository.",
  quantifier: [["repositories", "inputs", "storage", "options"], "random histories with merges, names, tags of every kind, remotes and heads, loose and packed, and names, digits and oddities asked of them"],
  why: "What a name means depends on everything in a repository and on how git has stored it; tests use a repository of one or two commits with light tags.",
  files: ["packages/git/src/index.ts"],
  mechanism: [["gitBranch(), gitTag(), gitRemote(), gitRemoteBranch(), gitCommit(), gitRef()", "packages/git/src/index.ts"]],
  observe: ["results of parse(), suggest() and parseAsync()", "git's own answers: for-each-ref, remote, cat-file"],
  rule: "names: some input is accepted and some refused; suggestions: something is suggested.",
  assumptions: ["An abbreviation that several objects share, only one of them a commit, may be refused as ambiguous; gitRef() may take 1 to 3 digits for an abbreviation, too.", "Inputs have no revision operators, such as HEAD~1; the repository uses SHA-1 and files for refs."],
  parts: [
    {
      name: "names", runs: { quick: 700, thorough: 20000 }, async: true,
      arb: (fc) => fc.record({ repo: repoArb(fc), asks: askArb(fc), remote: fc.nat(9), errors: fc.boolean(), factory: fc.constantFrom(0, 0, 1, 2), depth: fc.constantFrom(0, 3), through: fc.boolean() }),
      async check({ repo, ...c }, ctx) {
        const dir = make(repo);
        try {
          const s = survey(dir), inputs = inputsOf(c, s), resolved = resolveAll(dir, inputs);
          const remote = [...s.remotes, ...REMOTES][c.remote % (s.remotes.length + REMOTES.length)], ofRemote = s.under(`refs/remotes/${remote}/`);
          let yes = 0, no = 0;
          for (const kind of SIX) {
            const p = parserOf(kind, c, dir, remote);
            for (const [i, input] of inputs.entries()) {
              let r;
              if (c.through && !input.startsWith("-")) { const q = await parseAsync(object({ x: option("-x", p) }), ["-x", input]); r = q.success ? { success: true, value: q.value.x } : q; }
              else r = await p.parse(input);
              const what = `${kind} ${show(input)}${kind === "remoteBranch" ? ` of ${remote}` : ""}`, got = r.success ? `accepted as ${r.value}` : `refused: ${formatMessage(r.error)}`;
              r.success ? yes++ : no++;
              const expect = (value) => assert(value === null ? !r.success : r.success && r.value === value, () => `${what}: ${value === null ? "git has no such thing" : `git says ${value}`}, but it is ${got}`);
              const lists = { branch: s.branches, tag: s.tags, remote: s.remotes, remoteBranch: ofRemote };
              if (lists[kind]) expect(lists[kind].includes(input) ? input : null);
              else {
                const like = hex(input) ? s.objects.filter((o) => o[0].startsWith(input.toLowerCase())) : [], commits = like.filter((o) => o[1] === "commit");
                if (kind === "ref") {
                  // several objects, or fewer digits than git wants: either answer will do
                  if (resolved[i] === null && /^[0-9a-f]{1,3}$/i.test(input)) { if (r.success) assert(s.isOf.get(r.value) === "commit", () => `${what}: ${got}`); } else
                  if (resolved[i] !== null && !r.success && like.length > 1 && !s.branches.includes(input) && !s.tags.includes(input)) ctx.label("shared abbreviation"); else expect(resolved[i]);
                } else if (like.length === 1 && like[0][1] === "tag") { if (r.success) assert(s.isOf.get(r.value) === "commit", () => `${what}: ${got}, which is a ${s.isOf.get(r.value)}`); }
                else if (like.length > 1 && commits.length === 1) { if (r.success) expect(commits[0][0]); ctx.label("shared abbreviation"); }
                else expect(like.length === 1 && commits.length === 1 ? commits[0][0] : null);
              }
              if (!r.success) {
                const text = formatMessage(r.error, { quotes: false });
                if (input.trim() && (kind !== "remoteBranch" || s.remotes.includes(remote))) assert(text.includes(input), () => `${what}: the error does not name it: ${text}`);
                if (c.errors && lists[kind]) {
                  const want = kind === "remoteBranch" && !ofRemote.length && !s.remotes.includes(remote) ? message`no remote: ${remote} of ${all(s.remotes)}` : message`none: ${input} of ${all(lists[kind])}`;
                  assert(text.includes(formatMessage(want, { quotes: false })), () => `${what}: the error is ${text}, not ${formatMessage(want)}`);
                } else if (c.errors && kind === "commit" && !hex(input)) assert(text.includes(`ill-formed: ${input}`), () => `${what}: the error is ${text}`);
                else if (c.errors && !/ambiguous/.test(text)) assert(text.includes(`none: ${input} of`), () => `${what}: the error is ${text}`);
              } else equal(p.format(r.value), r.value, `${what}: format()`);
            }
          }
          if (!yes || !no) ctx.trivial("one answer only");
          ctx.label(repo.packed ? "packed" : "loose");
        } finally { rmSync(dir, { recursive: true, force: true }); }
      },
    },
    {
      name: "suggestions", runs: { quick: 500, thorough: 15000 }, async: true,
      arb: (fc) => fc.record({ repo: repoArb(fc), ask: askArb(fc), cut: fc.nat(8), remote: fc.nat(9), factory: fc.constantFrom(0, 1, 2), depth: fc.constantFrom(0, 1, 2, 4), through: fc.boolean(), nowhere: fc.nat(12).map((n) => n === 0) }),
      async check({ repo, cut, nowhere, ...c }, ctx) {
        const dir = make(repo);
        try {
          const s = survey(dir), remote = [...s.remotes, ...REMOTES][c.remote % (s.remotes.length + REMOTES.length)];
          const prefix = inputsOf({ asks: c.ask }, s)[0].slice(0, cut), at = nowhere ? join(dir, "no") : dir;
          let log = [];
          try { log = git(dir, ["log", `-n${c.depth || 15}`, "--format=%H%x00%s"]).split("\n").filter(Boolean).map((l) => l.split("\0")); } catch { /* nothing in it yet */ }
          let any = false;
          const before = git(dir, ["for-each-ref"]) + git(dir, ["count-objects", "-v"]);
          for (const kind of SIX) {
            const p = parserOf(kind, c, at, remote), list = [];
            if (c.through && !prefix.startsWith("-")) list.push(...await suggestAsync(object({ x: option("-x", p) }), ["-x", prefix])); else for await (const x of p.suggest(prefix)) list.push(x);
            const what = `${kind} suggestions for ${show(prefix)}`, texts = list.map((x) => x.text);
            assert(list.every((x) => x.kind === "literal" && x.text.startsWith(prefix)) && new Set(texts).size === texts.length, () => `${what}: ${show(texts)}`);
            if (nowhere) { equal(texts, [], `${what} where there is no repository`); assert(!(await p.parse("main")).success, () => `${kind} finds main where there is no repository`); continue; }
            any ||= list.length > 0;
            const lists = { branch: s.branches, tag: s.tags, remote: s.remotes, remoteBranch: s.under(`refs/remotes/${remote}/`), commit: [], ref: [...s.branches, ...s.tags] };
            const names = lists[kind].filter((n) => n.startsWith(prefix));
            const late = kind === "commit" || kind === "ref" ? log.filter(([o]) => o.startsWith(prefix)) : [];
            for (const n of names) assert(texts.includes(n), () => `${what} lack ${n}: ${show(texts)}`);
            for (const t of texts) if (!names.includes(t)) { const of = late.filter(([o]) => o.startsWith(t)); assert(t.length >= 7 && of.length === 1, () => `${what}: ${show(t)} is none of ${show([...names, ...late.map((l) => l[0])])}`); const d = list.find((x) => x.text === t).description; equal(formatMessage(d, { quotes: false }), formatMessage(message`${of[0][1]}`, { quotes: false }), `description of ${t}`); }
            for (const [o] of late) assert(texts.some((t) => o.startsWith(t) && t.length >= 7), () => `${what} lack ${o}: ${show(texts)}`);
            for (const t of texts) {
              const r = await p.parse(t);
              if (!r.success && s.objects.filter(([o]) => o.startsWith(t)).length > 1) continue;
              // a tag of something else than a commit is a name all the same
              if (!r.success && kind === "ref" && resolveAll(dir, [t])[0] === null) continue;
              assert(r.success, () => `${what}: ${t} is not accepted`);
            }
          }
          if (!any) ctx.trivial("nothing to suggest");
          equal(git(dir, ["for-each-ref"]) + git(dir, ["count-objects", "-v"]), before, "repository afterwards");
        } finally { rmSync(dir, { recursive: true, force: true }); }
      },
    },
  ],
};
