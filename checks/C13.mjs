import net from "node:net";
import * as core from "@optique/core";
import { assert, equal, show } from "../lib/harness.mjs";
import { KINDS, v4, v6, vpCase } from "../lib/vps.mjs";

const hooks = new Proxy({}, { get: (_, name) => (...a) => [{ type: "text", text: `${String(name)}(${a.join(",")})` }] });
const why = (r) => (r.success ? { value: r.value } : { refused: r.error.map((t) => t.text ?? show(t)).join("") });
const no = (name, ...a) => ({ refused: `${name}(${a.join(",")})` });

// Addresses as integers; which texts are addresses is node:net's business, the canonical text the URL parser's.
const num4 = (s) => s.split(".").reduce((n, x) => n * 256n + BigInt(x), 0n);
const text4 = (n) => [24n, 16n, 8n, 0n].map((k) => (n >> k) & 255n).join(".");
const canon6 = (s) => new URL(`http://[${s}]/`).hostname.slice(1, -1);
function num6(s) {
  s = s.replace(/[0-9.]+$/, (t) => (t.includes(".") ? [num4(t) >> 16n, num4(t) & 0xffffn].map((x) => x.toString(16)).join(":") : t));
  const [l, r] = s.split("::").map((x) => (x ? x.split(":") : []));
  const g = r === undefined ? l : [...l, ...Array(8 - l.length - r.length).fill("0"), ...r];
  return g.reduce((n, x) => (n << 16n) | BigInt(`0x${x}`), 0n);
}
const in4 = (n, net4, bits) => n >> BigInt(32 - bits) === num4(net4) >> BigInt(32 - bits);
const in6 = (n, net6, bits) => n >> BigInt(128 - bits) === num6(net6) >> BigInt(128 - bits);
const RULES4 = [
  ["private", (n) => in4(n, "10.0.0.0", 8) || in4(n, "172.16.0.0", 12) || in4(n, "192.168.0.0", 16), "allowPrivate"],
  ["loopback", (n) => in4(n, "127.0.0.0", 8), "allowLoopback"], ["linkLocal", (n) => in4(n, "169.254.0.0", 16), "allowLinkLocal"],
  ["multicast", (n) => in4(n, "224.0.0.0", 4), "allowMulticast"], ["broadcast", (n) => n === 0xffffffffn, "allowBroadcast"], ["zero", (n) => n === 0n, "allowZero"],
];
const RULES6 = [
  ["zero", (n) => n === 0n, "allowZero"], ["loopback", (n) => n === 1n, "allowLoopback"], ["linkLocal", (n) => in6(n, "fe80::", 10), "allowLinkLocal"],
  ["uniqueLocal", (n) => in6(n, "fc00::", 7), "allowUniqueLocal"], ["multicast", (n) => in6(n, "ff00::", 8), "allowMulticast"],
];
const restricted = (rules, n, o, text) => { const r = rules.find(([, is, key]) => o?.[key] === false && is(n)); return r && no(`${r[0]}NotAllowed`, text); };

const is6 = (s) => !s.includes("%") && net.isIPv6(s);
function refIp(s, o, version, bad) {
  if (version !== 6 && net.isIPv4(s)) { const t = text4(num4(s)); return { v: 4, ...(restricted(RULES4, num4(s), o.ipv4, t) ?? { value: t }) }; }
  if (version !== 4 && is6(s)) {
    const n = num6(s), t = canon6(s);
    return { v: 6, ...(restricted(RULES6, n, o.ipv6, t) ?? (version === "both" && n >> 32n === 0xffffn ? restricted(RULES4, n & 0xffffffffn, o.ipv4, t) : undefined) ?? { value: t }) };
  }
  return no(bad, s);
}
function refCidr(s, o) {
  const bad = no("invalidCidr", s), at = s.lastIndexOf("/");
  if (at < 0 || !/^(0|[1-9][0-9]*)$/.test(s.slice(at + 1))) return bad;
  const p = BigInt(s.slice(at + 1)), a = refIp(s.slice(0, at), o, o.version ?? "both");
  if (!a.v) return bad;
  if (p > 2n ** 53n) return { any: true };
  if (p > (a.v === 4 ? 32n : 128n)) return no("invalidPrefix", p, a.v);
  if (o.minPrefix !== undefined && p < BigInt(o.minPrefix)) return no("prefixBelowMinimum", p, o.minPrefix);
  if (o.maxPrefix !== undefined && p > BigInt(o.maxPrefix)) return no("prefixAboveMaximum", p, o.maxPrefix);
  return a.refused ? { refused: a.refused } : { value: { address: a.value, prefix: Number(p), version: a.v } };
}
function refMac(s, o) {
  const want = o.separator ?? "any";
  for (const [sep, size, count, exact] of [[":", 2, 6], ["-", 2, 6], [".", 4, 3, true], ["none", 12, 1, true]]) {
    if (want !== "any" && want !== sep) continue;
    const g = sep === "none" ? [s] : s.split(sep);
    if (g.length !== count || !g.every((x) => x.length >= 1 && x.length <= size && (!exact || x.length === size) && [...x].every((c) => "0123456789abcdefABCDEF".includes(c)))) continue;
    let h = g.map((x) => x.padStart(size, "0")).join("");
    if (o.case === "upper") h = h.toUpperCase(); else if (o.case === "lower") h = h.toLowerCase();
    const out = o.outputSeparator ?? sep;
    return { value: out === "none" ? h : h.match(out === "." ? /.{4}/g : /../g).join(out) };
  }
  return no("invalidMacAddress", s);
}
const REF = {
  ipv4: (s, o) => { const r = refIp(s, { ipv4: o }, 4, "invalidIpv4"); delete r.v; return r; },
  ipv6: (s, o) => { const r = refIp(s, { ipv6: o }, 6, "invalidIpv6"); delete r.v; return r; },
  ip: (s, o) => { const r = refIp(s, o, o.version ?? "both", "invalidIP"); delete r.v; return r; },
  cidr: refCidr, macAddress: refMac,
};

// A spelling of a 128-bit address: any zero run (or none) squeezed, groups padded, letters in any case, the last 32 bits dotted or not.
function spell(groups, c) {
  let g = groups.map((n, i) => { const h = n.toString(16).padStart(1 + (c.pad[i] % 4), "0"); return c.upper & (1 << i) ? h.toUpperCase() : h; });
  let tail = "", list = groups;
  if (c.dotted) { tail = text4((BigInt(groups[6]) << 16n) | BigInt(groups[7])); g = g.slice(0, 6); list = groups.slice(0, 6); }
  const runs = [];
  for (let i = 0; i < list.length; i++) for (let j = i + 1; j <= list.length && list[j - 1] === 0; j++) runs.push([i, j]);
  if (!runs.length || c.run < 0) return [...g, ...(tail ? [tail] : [])].join(":");
  const [i, j] = runs[c.run % runs.length];
  return `${g.slice(0, i).join(":")}::${[...g.slice(j), ...(tail ? [tail] : [])].join(":")}`;
}

export default {
  id: "C13",
  title: "Network addresses: canonical, and filtered by what they are",
  statement: "ipv4(), ipv6(), ip(), cidr() and macAddress() accept exactly the valid spellings of an address; all spellings of one address give the same canonical text (RFC 5952 for IPv6, the chosen separator and case for MAC). An allow* option set to false refuses exactly the addresses of that class, with the error for that class, also when an IPv4 address is hidden in an IPv4-mapped IPv6 one and both versions are accepted; cidr() takes exactly the prefixes within the family's and the given bounds, prefix errors first.",
  quantifier: [["inputs"], "all strings, all 2^32 and 2^128 addresses with all their spellings, and all option combinations"],
  why: "Address filters protect servers, and a spelling of a private address that slips through is one in 2^128; tests name a few dozen.",
  files: ["packages/core/src/valueparser.ts"],
  mechanism: [["ipv4(), ipv6(), ip(), cidr(), macAddress(), parseAndNormalizeIpv6(), checkIpv4MappedRestrictions()", "packages/core/src/valueparser.ts"]],
  observe: ["parse() result and the error hook used", "format(), normalize()"],
  rule: "validity from node:net, canonical text from the WHATWG URL serialiser, classes as integer ranges written from the RFCs. Non-trivial: the text is a valid address, so that canonical form and filters are compared.",
  parts: [
    {
      name: "reference",
      runs: { quick: 150000, thorough: 2000000 },
      arb: (fc) => vpCase(fc, Object.keys(REF)),
      check(c, ctx) {
        const what = `${c.kind}(${show(c.opts)}) on ${show(c.input)}`;
        const want = REF[c.kind](c.input, c.opts), r = KINDS[c.kind].make({ ...c.opts, errors: hooks }).parse(c.input), got = why(r);
        const m = want.refused?.match(/^\w+/)[0] ?? "accepted";
        ctx.label(`${c.kind}: ${m}`);
        if (/^invalid(Ipv4|Ipv6|IP|Cidr|MacAddress)$/.test(m)) ctx.trivial("no address");
        if (want.any) assert(!r.success, what); else equal(got, want, what);
        const plain = KINDS[c.kind].make(c.opts).parse(c.input);
        assert(plain.success === r.success, () => `${what}: accepted or not depending on the error options`);
        if (!plain.success) assert(/NotAllowed/.test(m) === / is (a|the) /.test(core.formatMessage(plain.error)), () => `${what}: ${m} is reported as ${core.formatMessage(plain.error)}`);
      },
    },
    {
      name: "spellings",
      runs: { quick: 80000, thorough: 1500000 },
      arb: (fc) => {
        const group = fc.oneof({ weight: 5, arbitrary: fc.constant(0) }, { weight: 2, arbitrary: fc.constantFrom(1, 0xffff, 0xfe80, 0xfebf, 0xfec0, 0xfdff, 0xfc00, 0xff02, 0xa00, 0x7f00, 0xc0a8, 0xac10, 0xac1f, 0xac20, 0xa9fe, 0xe000, 0xefff) }, { weight: 2, arbitrary: fc.nat(0xffff) });
        const how = fc.record({ pad: fc.array(fc.nat(3), { minLength: 8, maxLength: 8 }), upper: fc.nat(255), dotted: fc.boolean(), run: fc.integer({ min: -1, max: 40 }) });
        return fc.record({
          groups: fc.oneof(fc.array(group, { minLength: 8, maxLength: 8 }), fc.tuple(group, group).map(([a, b]) => [0, 0, 0, 0, 0, 0xffff, a, b]), fc.tuple(group, group, fc.nat(5), group).map(([a, b, i, x]) => { const g = [0, 0, 0, 0, 0, 0xffff, a, b]; g[i] = x; return g; })), one: how, two: how,
          opts: KINDS.ip.opts(fc), prefix: fc.nat(128),
        });
      },
      check(c, ctx) {
        const a = spell(c.groups, c.one), b = spell(c.groups, c.two);
        if (a === b) ctx.trivial("the same spelling");
        const n = c.groups.reduce((x, g) => (x << 16n) | BigInt(g), 0n);
        const canon = canon6(c.groups.map((g) => g.toString(16)).join(":"));
        for (const [kind, make] of [["ipv6", () => core.ipv6(c.opts.ipv6)], ["ip", () => core.ip(c.opts)], ["cidr", () => core.cidr(c.opts)]]) {
          const version = kind === "ipv6" ? 6 : c.opts.version ?? "both";
          const suffix = kind === "cidr" ? `/${c.prefix}` : "";
          const vp = make(), x = vp.parse(a + suffix), y = vp.parse(b + suffix);
          const refused = version === 4 || restricted(RULES6, n, c.opts.ipv6, "") !== undefined || (version === "both" && n >> 32n === 0xffffn && restricted(RULES4, n & 0xffffffffn, c.opts.ipv4, "") !== undefined);
          const ok = { value: kind === "cidr" ? { address: canon, prefix: c.prefix, version: 6 } : canon };
          for (const [t, r] of [[a, x], [b, y]]) {
            assert(r.success === !refused, () => `${kind}(${show(c.opts)}) on ${t}${suffix} (${canon}): ${refused ? "accepted" : core.formatMessage(r.error)}`);
            if (!refused) equal(why(r), ok, `${kind}(${show(c.opts)}) on ${t}${suffix}`);
          }
          if (!refused && vp.normalize && kind !== "cidr") equal([vp.normalize(a), vp.format(b)], [canon, canon], `${kind}: ${a}, ${b} normalized, formatted`);
        }
        ctx.label(n >> 32n === 0xffffn ? "IPv4-mapped" : "other");
      },
    },
    {
      name: "sweep",
      runs: { quick: 50000, thorough: 600000 },
      // The addresses next to the borders of each class, walked one by one.
      arb: (fc) => fc.record({ rule: fc.nat(10), at: fc.constantFrom("low", "high"), off: fc.integer({ min: -2, max: 2 }), inside: fc.bigInt({ min: 0n, max: (1n << 112n) - 1n }), wrap: fc.constantFrom("none", "mapped", "cidr", "mappedCidr"), version: fc.constantFrom(undefined, "both", 6) }),
      check(c, ctx) {
        const four = [["10.0.0.0", 8, 0], ["172.16.0.0", 12, 0], ["192.168.0.0", 16, 0], ["127.0.0.0", 8, 1], ["169.254.0.0", 16, 2], ["224.0.0.0", 4, 3], ["255.255.255.255", 32, 4], ["0.0.0.0", 32, 5]], six = [["fe80::", 10, 2], ["fc00::", 7, 3], ["ff00::", 8, 4]];
        const is4 = c.rule < 8, [base, bits, idx] = is4 ? four[c.rule] : six[c.rule - 8];
        const width = is4 ? 32 : 128, lo = is4 ? num4(base) : num6(base), size = 1n << BigInt(width - bits);
        let n = (c.at === "low" ? lo : lo + size - 1n) + BigInt(c.off);
        if (n < 0n || n >= 1n << BigInt(width)) return ctx.trivial("outside the address space");
        const rule = (is4 ? RULES4 : RULES6)[idx], opts = { [rule[2]]: false };
        const inside = n >= lo && n < lo + size;
        const mapped = is4 && c.wrap.startsWith("mapped");
        let t = is4 ? text4(n) : canon6(Array.from({ length: 8 }, (_, i) => ((n >> BigInt(112 - 16 * i)) & 0xffffn).toString(16)).join(":"));
        if (mapped) t = `::ffff:${c.inside & 1n ? t : [n >> 16n, n & 0xffffn].map((x) => x.toString(16)).join(":")}`;
        const cidr = c.wrap.toLowerCase().includes("cidr");
        if (is4 && !mapped && c.version === 6) return ctx.trivial("other version");
        const o = { ...(c.version ? { version: c.version } : {}), [is4 ? "ipv4" : "ipv6"]: opts };
        const r = (cidr ? core.cidr(o) : core.ip(o)).parse(cidr ? `${t}/0` : t);
        // Version 6 alone says nothing about the IPv4 address inside a mapped one.
        const refused = inside && !(mapped && c.version === 6);
        ctx.label(`${rule[0]}: ${refused ? "inside" : "outside"}`);
        assert(r.success === !refused, () => `${cidr ? "cidr" : "ip"}(${show(o)}) on ${t}: ${r.success ? "accepted" : core.formatMessage(r.error)}`);
      },
    },
  ],
};
