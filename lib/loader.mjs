// Module hooks: every `@optique/*` import resolves to the TypeScript sources in
// /repo/packages/*/src (never to dist/), transpiled with esbuild and cached by
// content hash, so a check always runs the current working tree.
import { createHash } from "node:crypto";
import { createRequire, registerHooks } from "node:module";
import {
  existsSync,
  mkdirSync,
  readFileSync,
  renameSync,
  writeFileSync,
} from "node:fs";
import { dirname, join } from "node:path";
import { fileURLToPath, pathToFileURL } from "node:url";
import process from "node:process";

export const ROOT = process.env.OPTIQUE_ROOT ?? "/repo";
export const VERIF = dirname(dirname(fileURLToPath(import.meta.url)));
const CACHE = process.env.OPTIQUE_CACHE ?? join(VERIF, ".build", "cache");
const TOOLS = "/opt/veriftools/node/node_modules";
export const toolRequire = createRequire(join(TOOLS, "_.cjs"));

mkdirSync(CACHE, { recursive: true });

let esbuild;
function transpile(source, file) {
  const key = createHash("sha256").update(file.replace(ROOT, "")).update("\0")
    .update(source).digest("hex").slice(0, 40);
  const out = join(CACHE, `${key}.mjs`);
  if (existsSync(out)) return readFileSync(out, "utf8");
  esbuild ??= toolRequire("esbuild");
  const { code } = esbuild.transformSync(source, {
    loader: "ts",
    format: "esm",
    target: "esnext",
    sourcefile: file,
    tsconfigRaw: {
      compilerOptions: { useDefineForClassFields: true, verbatimModuleSyntax: true },
    },
  });
  const tmp = `${out}.${process.pid}.${Math.trunc(process.hrtime()[1])}.tmp`;
  writeFileSync(tmp, code);
  renameSync(tmp, out);
  return code;
}

/** Transpiles all the sources once (used to warm the cache). */
export function warm(files) {
  for (const f of files) transpile(readFileSync(f, "utf8"), f);
}

const pkgCache = new Map();
function pkgJson(name) {
  let p = pkgCache.get(name);
  if (!p) {
    p = JSON.parse(readFileSync(join(ROOT, "packages", name, "package.json"), "utf8"));
    pkgCache.set(name, p);
  }
  return p;
}

function optiqueSource(specifier) {
  const m = /^@optique\/([^/]+)(\/.*)?$/.exec(specifier);
  if (!m) return null;
  const sub = "." + (m[2] ?? "");
  const exp = pkgJson(m[1]).exports?.[sub];
  let target = typeof exp === "string" ? exp : exp?.import ?? exp?.default;
  if (target != null && typeof target !== "string") target = target.default;
  if (!target) throw new Error(`no export ${sub} in @optique/${m[1]}`);
  const src = target.replace(/^\.\/dist\//, "./src/").replace(/\.js$/, ".ts");
  return pathToFileURL(join(ROOT, "packages", m[1], src)).href;
}

const rootPrefix = pathToFileURL(join(ROOT, "packages")).href + "/";

let installed = false;
export function install() {
  if (installed) return;
  installed = true;
  registerHooks({
    resolve(specifier, context, next) {
      if (specifier.startsWith("@optique/")) {
        return { url: optiqueSource(specifier), shortCircuit: true };
      }
      if (specifier === "fast-check") {
        return {
          url: pathToFileURL(join(TOOLS, "fast-check/lib/fast-check.js")).href,
          shortCircuit: true,
        };
      }
      const dep = /^repo-dep:([^:]+):(.*)$/.exec(specifier);
      if (dep) {
        return next(dep[2], {
          ...context,
          parentURL: pathToFileURL(join(ROOT, "packages", dep[1], "package.json")).href,
        });
      }
      return next(specifier, context);
    },
    load(url, context, next) {
      if (url.startsWith(rootPrefix) && /\.ts$/.test(url) && !url.includes("/node_modules/")) {
        const file = fileURLToPath(url);
        return {
          format: "module",
          shortCircuit: true,
          source: transpile(readFileSync(file, "utf8"), file),
        };
      }
      return next(url, context);
    },
  });
}

/** Imports a third-party dependency as package `pkg` of the repository sees it. */
export async function importFrom(pkg, specifier) {
  return await import(`repo-dep:${pkg}:${specifier}`);
}

/** Imports an internal source module by path under packages/. */
export async function importSrc(path) {
  return await import(pathToFileURL(join(ROOT, "packages", path)).href);
}
