import net from "node:net";
import * as core from "@optique/core";
import { assert, equal, show } from "../lib/harness.mjs";
import { altQuad, KINDS, vpCase } from "../lib/vps.mjs";

const hooks = new Proxy({}, { get: (_, name) => (...a) => [{ type: "text", text: `${String(name)}(${a.join(",")})` }] });
const why = (r) => (r.success ? { value: r.value } : { refused: r.error.map((t) => t.text ?? show(t)).join("") });
const no = (name, ...a) => ({ refused: `${name}(${a.join(",")})` });
const ALNUM = new Set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789");
const isDigits = (s) => s !== "" && [...s].every((c) => c >= "0" && c <= "9");
/** A DNS label: 1 to 63 letters, digits, hyphens inside, and what `more` allows anywhere. */
const label = (s, more = "") => s.length >= 1 && s.length <= 63 && [...s].every((c) => ALNUM.has(c) || c === "-" || more.includes(c)) && s[0] !== "-" && s.at(-1) !== "-";
const dottedNumber = (l) => l.length > 1 && l.every(isDigits);

function refHostname(s, o = {}) {
  const max = o.maxLength ?? 253, bad = no("invalidHostname", s);
  if (s.length > max) return no("tooLong", s, max);
  const local = (x) => o.allowLocalhost === false && x.toLowerCase() === "localhost";
  if (local(s)) return no("localhostNotAllowed", s);
  let rest = s;
  if (s.startsWith("*.")) {
    if (!o.allowWildcard) return no("wildcardNotAllowed", s);
    rest = s.slice(2);
    if (rest === "" || rest.includes("*")) return bad;
    if (local(rest)) return no("localhostNotAllowed", s);
  }
  if (!o.allowUnderscore && s.includes("_")) return no("underscoreNotAllowed", s);
  const labels = rest.split(".");
  if (!labels.every((l) => label(l, "_")) || (rest === s && dottedNumber(labels))) return bad;
  return { value: s };
}
function refDomain(s, o) {
  const max = o.maxLength ?? 253, min = o.minLabels ?? 2, labels = s.split("."), tld = labels.at(-1);
  if (s.length > max) return no("tooLong", s, max);
  if (!labels.every((l) => label(l)) || dottedNumber(labels)) return no("invalidDomain", s);
  if (labels.length < min) return no("tooFewLabels", s, min);
  if (o.allowSubdomains === false && labels.length > 2) return no("subdomainsNotAllowed", s);
  if (o.allowedTlds && !o.allowedTlds.some((t) => t.toLowerCase() === tld.toLowerCase())) return no("tldNotAllowed", tld, o.allowedTlds);
  return { value: o.lowercase ? s.toLowerCase() : s };
}

/** The address inside `Name <address>`, or the text itself. */
function unwrap(s) {
  let i = 0, phrase = "";
  for (; i < s.length && s[i] !== "<"; i++) {
    if (s[i] === ">") return s;
    if (s[i] !== '"') { phrase += s[i]; continue; }
    for (i++; i < s.length && s[i] !== '"'; i++) { if (s[i] === "\\") { phrase += s[i]; i++; } phrase += s[i] ?? ""; }
    if (i >= s.length) return s;
  }
  const inner = s.slice(i + 1, -1);
  if (phrase.trim() === "" || s.at(-1) !== ">" || i >= s.length - 1 || inner === "" || /[<>]/.test(inner)) return s;
  return inner.trim();
}
function refAddress(input, o) {
  const t = input.trim(), s = o.allowDisplayName ? unwrap(t) : t;
  const at = s[0] === '"' ? s.indexOf("@", Math.max(s.indexOf('"', 1), 0)) : s.indexOf("@");
  if (s[0] === '"' && s.indexOf('"', 1) < 0) return undefined;
  if (at < 0 || s.indexOf("@", at + 1) >= 0) return undefined;
  const user = s.slice(0, at), host = s.slice(at + 1), labels = host.split(".");
  const quoted = user.length >= 2 && user[0] === '"' && user.at(-1) === '"';
  if (!quoted && !user.split(".").every((p) => p !== "" && [...p].every((c) => ALNUM.has(c) || "_+-".includes(c)))) return undefined;
  if (Buffer.byteLength(user) > 64 || Buffer.byteLength(s) > 254) return undefined;
  if (labels.length < 2 || !labels.every((l) => label(l)) || (labels.length === 4 && dottedNumber(labels))) return undefined;
  return { value: user + "@" + (o.lowercase ? host.toLowerCase() : host), host };
}
function refEmail(s, o) {
  const a = refAddress(s, o);
  if (!a) return no("invalidEmail", s);
  if (o.allowedDomains && !o.allowedDomains.some((d) => d.toLowerCase() === a.host.toLowerCase())) return no("domainNotAllowed", a.value, o.allowedDomains);
  return { value: a.value };
}

// Is this host an IPv4 address in hexadecimal or octal disguise? The URL parser knows.
function disguised(s) {
  const parts = s.split(".");
  if (!parts.every((p) => /^(0[xX][0-9a-fA-F]+|[0-9]+)$/.test(p))) return false;
  if (!parts.some((p) => /^0./.test(p))) return false;
  try { return net.isIPv4(new URL(`http://${s}/`).hostname); } catch { return false; }
}
const quad = (s) => /^[0-9]+\.[0-9]+\.[0-9]+\.[0-9]+$/.test(s);
/** What a host text stands for, as socketAddress() must see it: refused, or the canonical host. */
function refHost(s, h = {}) {
  const type = h.type ?? "both", ipOpts = { version: h.version ?? "both", ipv4: h.ipv4, ipv6: h.ipv6 };
  const asIp = () => { const r = core.ip(ipOpts).parse(s); return r.success ? r.value : undefined; };
  if (type === "ip") return asIp();
  if (disguised(s)) return undefined;
  if (type === "both" && (quad(s) || s.includes(":"))) return asIp();
  if (quad(s)) return undefined;
  return refHostname(s, h.hostname).value;
}
function refSocket(input, o) {
  const s = input.trim(), omit = o.defaultPort !== undefined && !o.requirePort, h = o.host ?? {};
  const portOf = (t) => { const r = core.port({ ...o.port }).parse(t); return r.success ? r.value : undefined; };
  const done = (host, port) => (host === undefined || port === undefined ? undefined : { host, port });
  if (s[0] === "[") {
    const e = s.indexOf("]"), inner = s.slice(1, e), rest = s.slice(e + 1).trimStart();
    if (e < 0 || !net.isIPv6(inner) || inner.includes("%")) return undefined;
    if (rest === "") return omit ? done(refHost(inner, h), o.defaultPort) : undefined;
    return rest[0] === ":" ? done(refHost(inner, h), portOf(rest.slice(1).trim())) : undefined;
  }
  if (net.isIPv6(s) && !s.includes("%")) return omit ? done(refHost(s, h), o.defaultPort) : undefined;
  const at = s.lastIndexOf(":");
  if (at < 0) return omit ? done(refHost(s, h), o.defaultPort) : undefined;
  const host = s.slice(0, at).trim();
  return host.includes(":") ? undefined : done(refHost(host, h), portOf(s.slice(at + 1).trim()));
}

const REF = { hostname: refHostname, domain: refDomain, email: (s, o) => refEmail(s, o) };

export default {
  id: "C14",
  title: "Host names, domains, e-mail and socket addresses",
  statement: "hostname(), domain() and email() accept exactly the names and addresses their documented rules and options describe, and refuse with the error of the first rule broken; a list of e-mail addresses is accepted exactly when each of them is, and gives them one by one. socketAddress() splits host and port where they are, and whatever its separator, never returns a host that its host options, applied to that host alone, refuse: not even a disguised (hexadecimal, octal, mapped) IPv4 address.",
  quantifier: [["inputs"], "all strings and all option combinations"],
  why: "The grammar is a chain of special cases (quotes, wildcards, all-numeric names, IP look-alikes) whose combinations tests cannot enumerate, and the filters are security-relevant.",
  files: ["packages/core/src/valueparser.ts"],
  mechanism: [["hostname(), domain(), email(), socketAddress()", "packages/core/src/valueparser.ts"]],
  observe: ["parse() result and the error hook used"],
  rule: "references written as character scanners from the documentation, node:net and the URL parser for IP look-alikes; list and host-filter relations. Non-trivial: the text is accepted or refused for an option (and not as malformed).",
  parts: [
    {
      name: "names",
      runs: { quick: 250000, thorough: 2000000 },
      arb: (fc) => vpCase(fc, Object.keys(REF)),
      check(c, ctx) {
        if (c.kind === "email" && c.opts.allowMultiple) c = { ...c, opts: { ...c.opts, allowMultiple: false } };
        const what = `${c.kind}(${show(c.opts)}) on ${show(c.input)}`;
        const want = REF[c.kind](c.input, c.opts), r = KINDS[c.kind].make({ ...c.opts, errors: hooks }).parse(c.input);
        const m = want.refused?.match(/^\w+/)[0] ?? "accepted";
        ctx.label(`${c.kind}: ${m}`);
        if (/^invalid/.test(m)) ctx.trivial("malformed");
        equal(why(r), want, what);
        assert(KINDS[c.kind].make(c.opts).parse(c.input).success === r.success, () => `${what}: accepted or not depending on the error options`);
      },
    },
    {
      name: "lists",
      runs: { quick: 80000, thorough: 800000 },
      arb: (fc) => fc.record({
        list: fc.array(fc.oneof({ weight: 3, arbitrary: KINDS.email.inputs(fc) }, { weight: 3, arbitrary: fc.tuple(fc.constantFrom("", "N <", "\"Doe, J.\" <", "J \"D, E\" <", "\"a\" b \"c,d\" <", "\"x\\\",y\" <", "N\\ <"), fc.constantFrom("a@b.co", "\"p,q\"@b.co", "X.y@Example.ORG", "\"a@b\"@example.com", "a@@b.co", "c@example.com")).map(([n, a]) => (n ? `${n}${a}>` : a)) }, fc.constantFrom("N\\", "N", "a@b.co\\", "N <a@b.co>\\")), { minLength: 1, maxLength: 4 }),
        sep: fc.constantFrom(",", ", ", " ,", "\t, "), opts: KINDS.email.opts(fc),
      }),
      check(c, ctx) {
        // An address whose own commas are all quoted is one item of the list.
        const bare = (s) => { let q = false, esc = false, was = " "; for (const ch of s) { if (esc) esc = false; else if (q && ch === "\\") esc = true; else if (ch === '"') { if (!q && !/[\s<]/.test(was)) return true; q = !q; } else if (ch === "," && !q) return true; was = ch; } return q; };
        if (c.list.some(bare)) return ctx.trivial("a comma or quote of no certain owner");
        const opts = { ...c.opts, allowMultiple: false };
        // `"a"b"@x.org` is let through as a quoted user name, but nothing says where it ends in a list.
        const sloppy = (s) => { const t = unwrap(s.trim()), user = t.slice(0, Math.max(t.lastIndexOf("@"), 0)).replace(/^"(.*)"$/s, "$1"); return /"/.test(user.replace(/\\./gs, "")) || (!opts.allowDisplayName && /[<>]/.test(user)); };
        if (c.list.some(sloppy)) return ctx.trivial("a comma or quote of no certain owner");
        const each = c.list.map((s) => refEmail(s, opts));
        if (each.some((x, i) => x.refused?.startsWith("invalid") && /["<>]/.test(c.list[i]))) return ctx.trivial("a malformed item with quotes or brackets");
        const bad = each.find((x) => x.refused), good = each.map((x) => x.value);
        ctx.label(`${c.list.length} items, ${bad ? "refused" : "accepted"}`);
        const r = core.email({ ...opts, allowMultiple: true, errors: hooks }).parse(c.list.join(c.sep));
        const what = `email(${show({ ...opts, allowMultiple: true })}) on ${show(c.list.join(c.sep))}`;
        assert(r.success === !bad, () => `${what}: ${show(why(r))}, but the items alone give ${show(each)}`);
        if (!bad) equal(r.value, good, what);
        else equal(why(r), refEmail(c.list[each.indexOf(bad)].trim(), opts), what);
      },
    },
    {
      name: "sockets",
      runs: { quick: 200000, thorough: 2000000 },
      arb: (fc) => vpCase(fc, ["socketAddress"]),
      check(c, ctx) {
        const o = c.opts, sep = o.separator ?? ":", what = `socketAddress(${show(o)}) on ${show(c.input)}`;
        const r = KINDS.socketAddress.make(o).parse(c.input);
        ctx.label(`${sep === ":" ? "colon" : "other"}: ${r.success ? "accepted" : "refused"}`);
        if (sep === ":") {
          const want = refSocket(c.input, o);
          if (!want) ctx.trivial("refused");
          // `1:2:3:4:5:6:1.2.3.4:80` needs no brackets to be read: accepted or not, but not as another host.
          if (r.success && !want && r.value.host.includes(":") && !c.input.includes("[")) return equal(r.value.host, refHost(c.input.slice(0, c.input.lastIndexOf(":")).trim(), o.host), what);
          assert(r.success === (want !== undefined), () => `${what}: ${r.success ? show(r.value) : core.formatMessage(r.error)}, expected ${show(want)}`);
          if (want) equal(r.value, want, what);
          return;
        }
        if (!r.success) return ctx.trivial("refused");
        const { host, port } = r.value;
        assert(refHost(host, o.host) === host, () => `${what}: host ${show(host)}, which the host options refuse`);
        assert(core.port({ ...o.port }).parse(String(port)).success || port === o.defaultPort, () => `${what}: port ${port}`);
        const s = c.input.trimStart();
        if (s.trim() !== host) assert(o.host?.type !== "hostname" && s.includes(":") || (s.startsWith(host) && (s.includes(String(port)) || /\s/.test(sep))), () => `${what}: ${show(r.value)}`);
      },
    },
    {
      name: "split",
      runs: { quick: 100000, thorough: 1200000 },
      // A separator that no host or port can contain: the only split is the one made when the text was put together.
      arb: (fc) => fc.tuple(KINDS.hostname.inputs(fc), KINDS.ip.inputs(fc), fc.oneof(altQuad(fc), fc.constantFrom("0300.0250.1", "localhost", "a_b", "*.x.org")), fc.nat(2), fc.constantFrom("=", "@", "->", " | ", "/", "#"), fc.oneof(fc.nat(70000).map(String), fc.constantFrom("80", "443", "8080", "0", "080")), KINDS.socketAddress.opts(fc), fc.nat(2)).map(([a, b, d, i, separator, port, opts, space]) => ({ host: [a, b, d][i], port, opts: { ...opts, separator }, pad: " ".repeat(space) })),
      check(c, ctx) {
        const host = refHost(c.host, c.opts.host), p = core.port({ ...c.opts.port }).parse(c.port);
        const t = `${c.pad}${c.host}${c.opts.separator}${c.port}`, r = core.socketAddress(c.opts).parse(t);
        if (c.host.trim() !== c.host || c.host === "") return ctx.trivial("blank host");
        const ok = host !== undefined && p.success;
        ctx.label(ok ? "accepted" : host === undefined ? "host refused" : "port refused");
        assert(r.success === ok, () => `socketAddress(${show(c.opts)}) on ${show(t)}: ${r.success ? show(r.value) : core.formatMessage(r.error)}, but host ${show(host)}, port ${show(why(p))}`);
        if (ok) equal(r.value, { host, port: p.value }, `socketAddress(${show(c.opts)}) on ${show(t)}`);
        if (ok && c.opts.defaultPort !== undefined && !c.opts.requirePort) {
          const d = core.socketAddress(c.opts).parse(c.host);
          assert(d.success && d.value.host === host && d.value.port === c.opts.defaultPort, () => `socketAddress(${show(c.opts)}) on ${show(c.host)}: ${show(d)}`);
        }
      },
    },
  ],
};
