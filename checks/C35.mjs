import { spawnSync } from "node:child_process";
import { mkdirSync, rmSync, symlinkSync, writeFileSync, readdirSync } from "node:fs";
import { join, relative } from "node:path";
import process from "node:process";
import { argument, formatMessage, message, object, option } from "@optique/core";
import { parseSync, suggestSync } from "@optique/core/parser";
import { path } from "@optique/run/valueparser";
import { assert, equal, show } from "../lib/harness.mjs";
import { scratch } from "../lib/scratch.mjs";

const NAMES = ["a", "b.json", "c.tar.gz", ".env", ".hid.json", "with space", "ünï.txt", "-dash", "x.JSON", "d.json.bak", "new\nline", "a.b", "json", "trail.", " ", " lead"];
const EXTS = [".json", ".gz", ".tar.gz", ".env", ".txt", ".", ".b", ".JSON", ".bak"];
const walk = (dir) => readdirSync(dir, { withFileTypes: true }).flatMap((e) => [join(dir, e.name), ...(e.isDirectory() ? walk(join(dir, e.name)) : [])]).sort();
let count = 0;
const treeArb = (fc) => fc.array(fc.record({ name: fc.constantFrom(...NAMES), at: fc.nat(5), kind: fc.constantFrom("file", "file", "dir", "dir", "link", "dirlink", "dangling", "loop"), to: fc.nat(9) }), { maxLength: 7 });
function plant(root, tree) {
  const dirs = [root], all = [root];
  for (const e of tree) {
    const at = dirs[e.at % dirs.length], p = join(at, e.name);
    if (all.includes(p)) continue;
    if (e.kind === "file") writeFileSync(p, "x");
    else if (e.kind === "dir") { mkdirSync(p); dirs.push(p); }
    else if (e.kind === "link") symlinkSync(all[e.to % all.length], p);
    else if (e.kind === "dirlink") symlinkSync(dirs[e.to % dirs.length], p);
    else if (e.kind === "dangling") symlinkSync(join(root, "no-such-thing"), p);
    else symlinkSync(p, p);
    all.push(p);
  }
  return { dirs, all };
}
/** What the shell says of each path: exists, is a file, is a directory, its parent exists. */
function tests(list) {
  const script = 'for p; do test -e "$p" && e=1 || e=0; test -f "$p" && f=1 || f=0; test -d "$p" && d=1 || d=0; printf "%s %s %s\\n" $e $f $d; done';
  const r = spawnSync("sh", ["-c", script, "sh", ...list], { encoding: "utf8", env: { PATH: process.env.PATH, LC_ALL: "C" } });
  return r.stdout.trim().split("\n").map((l) => l.split(" ").map((x) => x === "1"));
}
/** The directory that a path is in, by its letters (POSIX dirname). */
function parent(p) {
  const t = p.replace(/\/+$/, "");
  if (t === "") return p.startsWith("/") ? "/" : ".";
  if (!t.includes("/")) return ".";
  return t.slice(0, t.lastIndexOf("/")).replace(/\/+$/, "") || "/";
}
const ERRORS = ["emptyPath", "invalidExtension", "pathNotFound", "pathAlreadyExists", "notAFile", "notADirectory", "parentNotFound"];

export default {
  id: "C35",
  title: "A path is accepted exactly if the file system and the options allow it",
  statement: "path() accepts an input, as it is, exactly if it is not blank, its last name ends with one of the extensions wanted (unless directories are wanted), and, as far as the options ask: it exists (links followed) and is a file or a directory as wanted; or it does not exist; or the directory it is to be created in exists. Otherwise the error is the one for the first of these that fails, custom or with the path in it. No input makes it throw, nothing on disk changes, and what is suggested is the completion of files of that type and extension from where the word is.",
  quantifier: [["inputs", "file trees", "options"], "trees with links, loops, dangling links and odd names; paths to what is there, near it and to nothing, with dots and slashes; every combination of options"],
  why: "Options combine and paths have many spellings; tests try one option at a time on a file or two.",
  files: ["packages/run/src/valueparser.ts"],
  mechanism: [["path()", "packages/run/src/valueparser.ts"]],
  observe: ["results of parse() and of a line", "the shell's own tests: test -e, -f, -d"],
  rule: "something that is there is asked for, or is to be created next to something that is there.",
  assumptions: ["POSIX paths, seen by a user that may read all directories."],
  parts: [
    {
      name: "paths", runs: { quick: 8000, thorough: 120000 },
      arb: (fc) => fc.record({
        tree: treeArb(fc),
        asks: fc.array(fc.record({ n: fc.nat(12), how: fc.constantFrom("there", "there", "there", "new", "new", "deep", "sibling", "blank", "through", "case", "odd"), name: fc.constantFrom(...NAMES), tail: fc.constantFrom("", "", "", "/", "//", "/.", "/.."), dots: fc.constantFrom("", "", "/./", "//", "/../"), rel: fc.boolean() }), { minLength: 1, maxLength: 6 }),
        opts: fc.record({ exist: fc.constantFrom("none", "must", "must", "not", "false"), type: fc.constantFrom(undefined, "file", "directory", "either"), create: fc.constantFrom(undefined, true, true, false), extensions: fc.option(fc.uniqueArray(fc.constantFrom(...EXTS), { maxLength: 3 }), { nil: undefined }), errors: fc.nat(2), metavar: fc.boolean() }),
        through: fc.nat(2),
      }),
      check({ tree, asks, opts, through }, ctx) {
        const root = join(scratch(), `t${count++}`);
        mkdirSync(root);
        try {
          const { dirs, all } = plant(root, tree), before = walk(root);
          const inputs = asks.map((a) => {
            const at = dirs[a.n % dirs.length], it = all[a.n % all.length];
            let p = a.how === "there" ? it : a.how === "new" ? `${at}${a.dots || "/"}${a.name}` : a.how === "deep" ? `${at}/none/${a.name}` : a.how === "sibling" ? `${it}.json` : a.how === "through" ? `${it}/${a.name}` : a.how === "case" ? it.slice(0, root.length) + it.slice(root.length).toUpperCase() : a.how === "blank" ? ["", " ", "\t", "  \n"][a.n % 4] : [".", "..", "/", "//", "./x.json", "nul\0.json", "x".repeat(300), "~", "a:b", "*.json", `${root}/.json`, `${root}/a\\.json`][a.n % 12];
            if (a.how === "blank" || a.how === "odd") return p;
            p += a.tail;
            return a.rel && !/\/\.?\.?$/.test(p) && !a.dots.includes("..") ? relative(process.cwd(), p) || "." : p;
          });
          const o = { ...(opts.exist === "must" ? { mustExist: true } : opts.exist === "not" ? { mustNotExist: true } : opts.exist === "false" ? { mustExist: false, mustNotExist: false } : {}), ...(opts.type ? { type: opts.type } : {}), ...(opts.create === undefined ? {} : { allowCreate: opts.create }), ...(opts.extensions ? { extensions: opts.extensions } : {}), ...(opts.metavar ? { metavar: "WHERE" } : {}),
            ...(opts.errors ? { errors: Object.fromEntries(ERRORS.map((e) => [e, opts.errors === 1 ? message`custom ${e}` : (...args) => message`custom ${e} ${JSON.stringify(args)}`])) } : {}) };
          const vp = path(o), line = object({ p: option("--path", vp) }), arg = object({ p: argument(vp) });
          // a zero byte cannot be given to the shell; nothing of such a name can be there
          const facts = tests(inputs.flatMap((i) => [i, parent(i)]).map((i) => i.replaceAll("\0", "/no/such/")));
          let any = false;
          for (const [k, input] of inputs.entries()) {
            const [exists, isFile, isDir] = facts[2 * k], [inThere] = facts[2 * k + 1];
            any ||= exists || inThere;
            const last = /[/\\]$/.test(input) ? "" : input.slice(input.lastIndexOf("/") + 1);
            const want = !input.trim() ? ["emptyPath", input]
              : opts.type !== "directory" && opts.extensions?.length && !opts.extensions.some((e) => last.endsWith(e)) ? ["invalidExtension", input, opts.extensions]
              : opts.exist === "must" ? !exists ? ["pathNotFound", input] : opts.type === "file" && !isFile ? ["notAFile", input] : opts.type === "directory" && !isDir ? ["notADirectory", input] : null
              : opts.exist === "not" && exists ? ["pathAlreadyExists", input]
              : opts.create && !inThere ? ["parentNotFound", parent(input)] : null;
            const what = `path(${show(o)}) ${show(input)}`;
            let r = vp.parse(input);
            const lineArgs = through === 1 ? [line, [`--path=${input}`]] : through === 2 && !input.startsWith("-") ? [arg, [input]] : null;
            if (lineArgs) { const q = parseSync(...lineArgs); equal(q.success, r.success, `${what} on a line`); if (q.success) r = { success: true, value: q.value.p }; }
            if (!want) { assert(r.success && r.value === input, () => `${what}: ${r.success ? `became ${show(r.value)}` : formatMessage(r.error)}`); equal(vp.format(r.value), input, "format()"); ctx.label("accepted"); continue; }
            assert(!r.success, () => `${what} is accepted, but: ${want[0]}`);
            ctx.label(want[0]);
            const text = formatMessage(r.error, { quotes: false });
            if (opts.errors === 1) equal(text, `custom ${want[0]}`, what);
            else if (opts.errors === 2) assert(text.startsWith(`custom ${want[0]} ${JSON.stringify(want.slice(1)).slice(0, -1)}`), () => `${what}: ${text}, not ${show(want)}`);
            else {
              const phrase = { emptyPath: "must not be empty", invalidExtension: "Expected file with extension", pathNotFound: "does not exist", pathAlreadyExists: "already exists", notAFile: "is not a file", notADirectory: "is not a directory", parentNotFound: "Parent directory" }[want[0]];
              assert(text.includes(phrase), () => `${what}: ${text}, not ${want[0]}`);
              if (!["emptyPath", "invalidExtension"].includes(want[0])) assert(text.replace(/\s+/g, "").includes(want[1].replace(/\s+/g, "")), () => `${what}: the error does not name ${want[1]}: ${text}`);
              if (want[0] === "invalidExtension") for (const e of opts.extensions) assert(text.includes(e), () => `${what}: the error does not name ${e}: ${text}`);
            }
          }
          const prefix = inputs[0], got = through ? suggestSync(line, [`--path`, prefix]).filter((s) => s.kind === "file") : [...vp.suggest(prefix)];
          assert(got.length === 1 && got[0].kind === "file" && got[0].pattern === prefix && got[0].type === (opts.type === "either" || !opts.type ? "any" : opts.type), () => `suggestions for ${show(prefix)}: ${show(got)}`);
          equal(got[0].extensions, opts.extensions, "extensions suggested");
          if (/(^|\/)\.[^./][^/]*$/.test(prefix)) equal(got[0].includeHidden, true, `hidden files for ${show(prefix)}`);
          if (/(^|\/)[^./][^/]*$/.test(prefix)) equal(got[0].includeHidden, false, `hidden files for ${show(prefix)}`);
          if (!any) ctx.trivial("nothing there");
          equal(walk(root), before, "tree afterwards");
        } finally { rmSync(root, { recursive: true, force: true }); }
      },
    },
  ],
};
