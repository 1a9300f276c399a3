// JSON codec that keeps undefined, NaN, ±Infinity, -0, bigint, RegExp and lone
// surrogates apart, so that a shrunk case written to a replay file is exactly
// the case that failed.
export function encode(v) {
  if (v === undefined) return { $: "undefined" };
  if (v === null || typeof v === "boolean") return v;
  if (typeof v === "number") {
    if (Number.isNaN(v)) return { $: "number", v: "NaN" };
    if (!Number.isFinite(v)) return { $: "number", v: String(v) };
    if (Object.is(v, -0)) return { $: "number", v: "-0" };
    return v;
  }
  if (typeof v === "bigint") return { $: "bigint", v: String(v) };
  if (typeof v === "string") return v;
  if (Array.isArray(v)) return v.map(encode);
  if (v instanceof RegExp) return { $: "RegExp", v: [v.source, v.flags] };
  if (v instanceof Uint8Array) return { $: "bytes", v: [...v] };
  if (typeof v === "object") {
    const entries = Object.keys(v).map((k) => [k, encode(v[k])]);
    if (entries.some(([k]) => k === "$" || k === "__proto__")) {
      return { $: "object", v: entries };
    }
    return Object.fromEntries(entries);
  }
  throw new TypeError(`a case holds a ${typeof v}`);
}

export function decode(v) {
  if (v === null || typeof v !== "object") return v;
  if (Array.isArray(v)) return v.map(decode);
  switch (v.$) {
    case "undefined": return undefined;
    case "number": return Number(v.v);
    case "bigint": return BigInt(v.v);
    case "RegExp": return new RegExp(v.v[0], v.v[1]);
    case "bytes": return Uint8Array.from(v.v);
    case "object": {
      const o = {};
      for (const [k, x] of v.v) {
        Object.defineProperty(o, k, {
          value: decode(x), enumerable: true, writable: true, configurable: true,
        });
      }
      return o;
    }
  }
  return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, decode(x)]));
}
