// Every built-in value parser of @optique/core, as a plain spec {kind, opts}, with inputs biased to what it accepts.
import * as core from "@optique/core";

export const NASTY = ["", " ", "constructor", "__proto__", "toString", "hasOwnProperty", "1constructor", "valueOf", "NaN", "Infinity", "-0", "0", "00", "-1", "+1", "1e3",
  "null", "true", "{}", "[]", "\"\"", "a", "A", "*", "?", "é", "日本", "💥", "\u0000", "\n", "a\nb", "\t", "١٢٣", "１２", "İ", "ß", "%", "%s", "$&", "\\", "'", "\"", "`", "--", "-", "/", "//", ":", "::", "=", "@", "#", ",", ".", "..", "0x10", "1_000"];

const digits = (fc, min, max) => fc.string({ unit: fc.constantFrom(..."0123456789"), minLength: min, maxLength: max });
const join = (fc, sep, ...arbs) => fc.tuple(...arbs).map((xs) => xs.join(sep));
const cat = (fc, ...arbs) => join(fc, "", ...arbs);
const maybe = (fc, arb) => fc.oneof(fc.constant(""), arb);
const hex = (fc, min, max) => fc.string({ unit: fc.constantFrom(..."0123456789abcdefABCDEF"), minLength: min, maxLength: max });
const pad = (fc, arb) => fc.oneof({ weight: 6, arbitrary: arb }, { weight: 1, arbitrary: arb.map((s) => ` ${s}`) }, { weight: 1, arbitrary: arb.map((s) => `${s} `) });
const bool = (fc) => fc.constantFrom(undefined, true, false);
const rec = (fc, spec) => fc.record(spec, { requiredKeys: [] }).map((o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined)));

export const UNITS = ["B", "KB", "MB", "GB", "TB", "PB", "EB", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB"];
export const CHOICES = [["a", "b", "c"], ["debug", "info", "warn", "error"], ["x"], ["constructor", "__proto__", "toString"], ["a b", "=", "-x", "--"], ["Red", "GREEN", "blüe", "İ"], ["json", "yaml", "toml", "jsonc", "json5"]];
export const NUMS = [[1, 2, 3], [0, -1, 8], [0.1, 0.5, 1e21, 1e-7], [-0, 5], [0, -0], [8080, 443], [1e300, -2.5]];
export const SEPS = [":", "-", "..", " - ", "=", "=>", "::", "x", "to", ",", "==", "aa"];

const intStr = (fc) => fc.oneof(
  fc.integer({ min: -30, max: 30 }).map(String),
  fc.integer({ min: -100000, max: 100000 }).map(String),
  fc.constantFrom("9007199254740991", "9007199254740992", "-9007199254740991", "-9007199254740992", "9007199254740993", "1".repeat(400), "-0", "00", "007", "-007", "+5", "65535", "65536", "1023", "1024", "1", "0"),
  cat(fc, maybe(fc, fc.constant("-")), digits(fc, 1, 24)),
);
const floatStr = (fc) => fc.oneof(
  intStr(fc),
  cat(fc, maybe(fc, fc.constantFrom("+", "-")), maybe(fc, digits(fc, 0, 4)), maybe(fc, fc.constant(".")), maybe(fc, digits(fc, 0, 4)), maybe(fc, cat(fc, fc.constantFrom("e", "E"), maybe(fc, fc.constantFrom("+", "-")), digits(fc, 0, 3)))),
  fc.double().map(String),
  fc.constantFrom("nan", "NaN", "NAN", "infinity", "-Infinity", "+INFINITY", "+nan", "1e309", "-1e309", "1e-400", "5e-324", "0.1", ".5", "5.", "."),
);
const label = (fc) => fc.oneof(
  fc.constantFrom("a", "www", "example", "com", "org", "localhost", "LOCALHOST", "Example", "COM", "x-y", "-x", "x-", "a_b", "_", "1", "192", "0x7f", "xn--p1ai", "ü", "*", "", "co", "io", "dev"),
  fc.string({ unit: fc.constantFrom(..."abcXYZ019-"), minLength: 1, maxLength: 8 }),
  fc.constantFrom("a".repeat(63), "b".repeat(64)),
);
const host = (fc) => fc.oneof(
  { weight: 6, arbitrary: fc.array(label(fc), { minLength: 1, maxLength: 4 }).map((l) => l.join(".")) },
  { weight: 1, arbitrary: fc.array(fc.constantFrom("a".repeat(60), "b".repeat(63), "c".repeat(30)), { minLength: 3, maxLength: 5 }).map((l) => l.join(".")) },
  { weight: 1, arbitrary: fc.array(label(fc), { minLength: 1, maxLength: 3 }).map((l) => `*.${l.join(".")}`) },
);
const octet = (fc) => fc.oneof(
  { weight: 8, arbitrary: fc.constantFrom("0", "1", "10", "127", "169", "172", "16", "31", "32", "192", "168", "224", "239", "240", "254", "255") },
  { weight: 3, arbitrary: fc.nat(255).map(String) },
  { weight: 1, arbitrary: fc.constantFrom("256", "00", "01", "", "1e1", "-1", "0x1", "٣", " 1") },
);
export const v4 = (fc) => fc.oneof({ weight: 12, arbitrary: join(fc, ".", octet(fc), octet(fc), octet(fc), octet(fc)) }, { weight: 1, arbitrary: join(fc, ".", octet(fc), octet(fc), octet(fc)) },
  { weight: 2, arbitrary: fc.constantFrom("0.0.0.0", "255.255.255.255", "127.0.0.1", "10.1.2.3", "169.254.1.1", "224.0.0.1", "192.168.0.1") });
const grp = (fc) => fc.oneof({ weight: 6, arbitrary: fc.constantFrom("0", "0", "0", "1", "ffff", "FFFF", "fe80", "febf", "fec0", "fc00", "fdff", "ff02", "2001", "db8", "0db8", "abcd", "0000", "00a0") }, { weight: 3, arbitrary: hex(fc, 1, 4) }, { weight: 1, arbitrary: fc.constantFrom("", "g", "12345", "-1") });
export const v6 = (fc) => fc.oneof(
  { weight: 3, arbitrary: fc.array(grp(fc), { minLength: 8, maxLength: 8 }).map((g) => g.join(":")) },
  { weight: 5, arbitrary: fc.tuple(fc.array(grp(fc), { maxLength: 5 }), fc.array(grp(fc), { maxLength: 5 })).map(([a, b]) => `${a.join(":")}::${b.join(":")}`) },
  { weight: 2, arbitrary: fc.tuple(fc.constantFrom("::ffff:", "::FFFF:", "::", "0:0:0:0:0:ffff:", "64:ff9b::", "1:2:3:4:5:6:", "::1:"), v4(fc)).map((x) => x.join("")) },
  { weight: 1, arbitrary: fc.constantFrom("::", "::1", "1::", ":::", "::1::", "1:2:3:4:5:6:7:8:9", "[::1]", "fe80::1%eth0", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8") },
);
const mac = (fc) => fc.oneof(
  fc.tuple(fc.constantFrom(":", "-", ".", ""), fc.array(hex(fc, 1, 2), { minLength: 6, maxLength: 6 })).map(([s, o]) => o.join(s)),
  fc.tuple(fc.constantFrom(":", "-"), fc.array(hex(fc, 2, 2), { minLength: 5, maxLength: 7 })).map(([s, o]) => o.join(s)),
  fc.array(hex(fc, 4, 4), { minLength: 3, maxLength: 3 }).map((g) => g.join(".")), hex(fc, 12, 12), hex(fc, 11, 13),
);
const port = (fc) => fc.oneof({ weight: 4, arbitrary: fc.constantFrom("80", "443", "8080", "1", "65535", "1023", "1024") }, { weight: 2, arbitrary: fc.nat(70000).map(String) }, { weight: 1, arbitrary: fc.constantFrom("0", "-1", "65536", "080", "+80", "", "80a", " 80") });
const mailbox = (fc) => cat(fc,
  fc.oneof({ weight: 5, arbitrary: fc.constantFrom("user", "a.b", "x+tag", "U_S-E", "\"q s\"", "\"a,b\"", "\"a@b\"", "\"a\"b\"", "", ".a", "a.", "a..b", "é", "\"", "\"\\\"\"", "a b") }, { weight: 1, arbitrary: fc.constantFrom("l".repeat(64), "l".repeat(65)) }),
  fc.constantFrom("@", "@", "@", "@", "@@", ""), host(fc));
const address = (fc) => fc.oneof({ weight: 4, arbitrary: mailbox(fc) }, { weight: 2, arbitrary: fc.tuple(fc.constantFrom("Name ", "\"Doe, J\" ", "A B ", "", "\"\" ", "\"x\"y ", "a, b "), mailbox(fc), fc.constantFrom(">", "> ", ">x", "")).map(([n, m, e]) => `${n}<${m}${e}`) });
const json = (fc) => fc.oneof(fc.jsonValue().map((v) => JSON.stringify(v)), fc.jsonValue().map((v) => JSON.stringify(v, null, 2)),
  fc.constantFrom("1e400", "[1e999]", "{\"a\":-1e999}", "{\"__proto__\":1}", "-0", "[-0]", "{a:1}", "'x'", "[1,]", "nul", "NaN", "\"\\ud800\"", "{\"a\":1,\"a\":2}", " 1 ", "1 2", "[".repeat(50) + "]".repeat(50)));
const cronPart = (fc) => fc.oneof(
  { weight: 4, arbitrary: fc.constant("*") }, { weight: 4, arbitrary: fc.nat(62).map(String) },
  { weight: 2, arbitrary: fc.tuple(fc.nat(60), fc.nat(60)).map(([a, b]) => `${a}-${b}`) },
  { weight: 2, arbitrary: fc.tuple(fc.constantFrom("*", "1-5", "0", "JAN", "MON-FRI"), fc.constantFrom("0", "1", "5", "15", "x", "", "05")).map((x) => x.join("/")) },
  { weight: 2, arbitrary: fc.constantFrom("JAN", "dec", "MON", "sun", "SUN-SAT", "FRI-SUN", "MON-0", "5-7", "JAN-MAR", "?", "L", "LW", "15W", "01W", "05w", "00W", "32W", "5L", "0L", "FRI#2", "6#6", "l", "lw", "SUNL", "*/2", "", "-", "1970", "2099", "1969", "2100", "1970-2099", "00", "007", "1-", "/5", "1,2,3", "1,,2", "MON,WED,FRI", "?/2", "JUL-JAN") });
const cronStr = (fc) => fc.tuple(fc.array(fc.oneof({ weight: 5, arbitrary: cronPart(fc) }, { weight: 1, arbitrary: fc.tuple(cronPart(fc), cronPart(fc)).map((x) => x.join(",")) }), { minLength: 4, maxLength: 8 }), fc.constantFrom(" ", " ", "  ", "\t"), fc.constantFrom("", " ")).map(([f, s, p]) => p + f.join(s) + p);
const semPart = (fc) => fc.constantFrom("0", "1", "2", "10", "01", "-1", "", "9007199254740991", "9007199254740992", "x");
const ident = (fc) => fc.array(fc.constantFrom("alpha", "0", "1", "01", "rc-1", "-", "x01", "", "é", "1a"), { minLength: 1, maxLength: 3 }).map((x) => x.join("."));
const sem = (fc) => fc.oneof({ weight: 6, arbitrary: cat(fc, fc.constantFrom("", "", "v", "V"), join(fc, ".", semPart(fc), semPart(fc), semPart(fc)), maybe(fc, ident(fc).map((s) => `-${s}`)), maybe(fc, ident(fc).map((s) => `+${s}`))) }, { weight: 1, arbitrary: fc.constantFrom("1.2", "1.2.3.4", "1.2.3-", "1.2.3+", "1.0.0-alpha+001", "vv1.0.0", " 1.0.0") });
const uuid = (fc) => fc.oneof(
  fc.uuid(), fc.uuid().map((s) => s.toUpperCase()),
  fc.tuple(hex(fc, 8, 8), hex(fc, 4, 4), hex(fc, 4, 4), hex(fc, 4, 4), hex(fc, 12, 12)).map((x) => x.join("-")),
  fc.constantFrom("00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff", "FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFFFF", "00000000-0000-9000-8000-000000000000", "00000000-0000-4000-c000-000000000000", "00000000-0000-f000-8000-000000000000", "{00000000-0000-4000-8000-000000000000}"),
);
export const LOCALES = ["en", "en-US", "EN-us", "zh-Hant-TW", "sr-Latn", "de-DE-u-co-phonebk", "x-private", "i-klingon", "en_US", "root", "c", "", "ko-KR", "sl-rozaj-biske", "en-u-ca-buddhist", "iw", "zh-cmn", "toString", "en-a-bbb-x-a"];
const localeStr = (fc) => fc.oneof(fc.constantFrom(...LOCALES), fc.array(fc.constantFrom("en", "US", "Latn", "u", "ca", "x", "419", "1996", "zh", "a"), { minLength: 1, maxLength: 4 }).map((x) => x.join("-")));
export const urlStr = (fc) => fc.oneof(fc.webUrl(), fc.tuple(fc.constantFrom("http:", "https:", "HTTPS:", "ftp:", "mailto:", "urn:", "file:", "javascript:", "git+ssh:", "ws:", "", "//"), fc.constantFrom("//example.com", "//ex ample", "a@b.c", "///etc/passwd", "//[::1]:80/x?q#f", "//u:p@h:99999", "//h:80", "x:y:z", "", "//EXAMPLE.com/A/../b", "//é.com/ü?x=1 2", "//h/%zz", "//1.2.3.4.5", "//a b")).map((x) => x.join("")));
const colorStr = (fc) => fc.oneof(
  hex(fc, 3, 8).map((s) => `#${s}`), hex(fc, 3, 8),
  fc.tuple(fc.constantFrom("rgb", "rgba", "RGB", "hsl", "hsla"), fc.array(fc.oneof(fc.nat(300).map(String), fc.constantFrom("255", "0", "50%", "100%", "0%", "101%", "0.5", "-1", "360", "720", "-90", "1", ".5", "1.5", "33.3%", "1e2", "0.123456")), { minLength: 3, maxLength: 4 }), fc.constantFrom(",", ", ", " , ", " ")).map(([f, a, s]) => `${f}(${a.join(s)})`),
  fc.tuple(fc.oneof({ weight: 3, arbitrary: fc.nat(720) }, fc.constantFrom("-0.5", "359.9", "400.25")), fc.oneof({ weight: 3, arbitrary: fc.nat(100) }, fc.constantFrom("100.0", "100.5", "99.95", "101")), fc.oneof({ weight: 3, arbitrary: fc.nat(100) }, fc.constantFrom("100.0", "100.5", "100.001", "99.95", "101")), fc.constantFrom("", ", 0.5", ", 1", ", 0.123", ", 2")).map(([h, s, l, a]) => `hsl${a ? "a" : ""}(${h}, ${s}%, ${l}%${a})`),
  fc.tuple(fc.nat(255), fc.nat(255), fc.nat(255)).map(([r, g, b]) => `rgb(${r}, ${g}, ${b})`),
  fc.constantFrom("red", "RED", "rebeccapurple", "transparent", "constructor", "grey", "gray", "aqua", "cyan", "magenta", "fuchsia", "nocolor"),
);
const sizeStr = (fc) => pad(fc, fc.oneof(
  fc.tuple(fc.oneof(fc.nat(2000).map(String), fc.integer({ min: -200000, max: 200000 }).map((n) => String(n / 100)), floatStr(fc)), fc.constantFrom("", " ", "  "), fc.oneof(fc.constantFrom(...UNITS, ""), fc.constantFrom(...UNITS).map((s) => s.toLowerCase()), fc.constantFrom(...UNITS).map((s) => s.toUpperCase()), fc.constantFrom("XB", "K", "kib ", "constructor", "bytes"))).map((x) => x.join("")),
));

const vNet4 = (fc) => rec(fc, { allowPrivate: bool(fc), allowLoopback: bool(fc), allowLinkLocal: bool(fc), allowMulticast: bool(fc), allowBroadcast: bool(fc), allowZero: bool(fc) });
const vNet6 = (fc) => rec(fc, { allowLoopback: bool(fc), allowLinkLocal: bool(fc), allowUniqueLocal: bool(fc), allowMulticast: bool(fc), allowZero: bool(fc) });
const hostOpts = (fc) => rec(fc, { allowWildcard: bool(fc), allowUnderscore: bool(fc), allowLocalhost: bool(fc), maxLength: fc.constantFrom(undefined, 1, 8, 20, 300) });
const range = (fc, lo, hi) => fc.tuple(fc.option(fc.integer({ min: lo, max: hi }), { nil: undefined }), fc.option(fc.integer({ min: lo, max: hi }), { nil: undefined })).map(([a, b]) => (a !== undefined && b !== undefined && a > b ? [b, a] : [a, b]));
const portMm = (fc, more) => fc.tuple(fc.constantFrom(undefined, 1, 80, 800), fc.constantFrom(undefined, 1030, 8080, 65535), rec(fc, more)).map(([min, max, o]) => ({ ...(min === undefined ? {} : { min }), ...(max === undefined ? {} : { max }), ...o }));
const mm = (fc, lo, hi, more) => fc.tuple(range(fc, lo, hi), rec(fc, more)).map(([[min, max], o]) => ({ ...(min === undefined ? {} : { min }), ...(max === undefined ? {} : { max }), ...o }));
const big = (o) => (o.type === "bigint" ? { ...o, ...(o.min === undefined ? {} : { min: BigInt(o.min) }), ...(o.max === undefined ? {} : { max: BigInt(o.max) }) } : o);
const reviver = (o) => (o.pattern === undefined ? o : { ...o, pattern: new RegExp(o.pattern[0], o.pattern[1]) });

/** An IPv4 address of one to four parts in decimal, octal or hexadecimal, each at or around its bound. */
export const altQuad = (fc) => fc.integer({ min: 1, max: 4 }).chain((n) => fc.tuple(...Array.from({ length: n }, (_, i) => {
  const top = i < n - 1 ? 256 : 256 ** (5 - n);
  return fc.tuple(fc.oneof(fc.constantFrom(0, 1, 10, 127, 169, 192, top - 1, top), fc.nat(top - 1)), fc.constantFrom("", "", "0", "0x", "0X", "00")).map(([v, r]) => r + v.toString(r === "" ? 10 : /x/i.test(r) ? 16 : 8));
})).map((parts) => parts.join(".")));
export const KINDS = {
  string: { opts: (fc) => rec(fc, { pattern: fc.constantFrom(undefined, ["^[a-z]+$", ""], ["a", "g"], ["b", "y"], ["^x", "i"], ["^\\p{L}+$", "u"]) }), make: (o) => core.string(reviver(o)), inputs: (fc) => fc.oneof(fc.string(), fc.constantFrom("abc", "a", "ba", "xyz", "Xyz", "日本")) },
  integer: { opts: (fc) => mm(fc, -30, 30, { type: fc.constantFrom(undefined, "number", "bigint") }), make: (o) => core.integer(big(o)), inputs: intStr },
  float: { opts: (fc) => mm(fc, -30, 30, { allowNaN: bool(fc), allowInfinity: bool(fc) }), make: (o) => core.float(o), inputs: floatStr },
  port: { opts: (fc) => portMm(fc, { type: fc.constantFrom(undefined, "number", "bigint"), disallowWellKnown: bool(fc) }), make: (o) => core.port(big(o)), inputs: (fc) => fc.oneof(port(fc), intStr(fc)) },
  portRange: { opts: (fc) => portMm(fc, { type: fc.constantFrom(undefined, "number", "bigint"), disallowWellKnown: bool(fc), allowSingle: bool(fc), separator: fc.constantFrom(undefined, ...SEPS) }), make: (o) => core.portRange(big(o)), inputs: (fc) => pad(fc, fc.oneof(fc.tuple(port(fc), fc.constantFrom("-", "-", "-", ...SEPS), port(fc)).map((x) => x.join("")), port(fc))) },
  fileSize: { opts: (fc) => rec(fc, { type: fc.constantFrom(undefined, "number", "bigint"), allowNegative: bool(fc), siAsBinary: bool(fc), defaultUnit: fc.constantFrom(undefined, ...UNITS) }), make: (o) => core.fileSize(o), inputs: sizeStr },
  color: { opts: (fc) => rec(fc, { formats: fc.option(fc.uniqueArray(fc.constantFrom("hex", "rgb", "hsl", "named"), { minLength: 1 }), { nil: undefined }) }), make: (o) => core.color(o), inputs: (fc) => pad(fc, colorStr(fc)) },
  url: { opts: (fc) => rec(fc, { allowedProtocols: fc.constantFrom(undefined, undefined, ["https:"], ["HTTP:", "https:"], ["mailto:", "git+ssh:"]) }), make: (o) => core.url(o), inputs: urlStr },
  locale: { opts: (fc) => fc.constant({}), make: () => core.locale(), inputs: localeStr },
  uuid: { opts: (fc) => rec(fc, { strict: bool(fc), allowedVersions: fc.constantFrom(undefined, [4], [1, 4, 7], [], [8]) }), make: (o) => core.uuid(o), inputs: uuid },
  ipv4: { opts: vNet4, make: (o) => core.ipv4(o), inputs: v4 },
  ipv6: { opts: vNet6, make: (o) => core.ipv6(o), inputs: v6 },
  ip: { opts: (fc) => rec(fc, { version: fc.constantFrom(undefined, 4, 6, "both"), ipv4: vNet4(fc), ipv6: vNet6(fc) }), make: (o) => core.ip(o), inputs: (fc) => fc.oneof(v4(fc), v6(fc)) },
  cidr: {
    opts: (fc) => fc.tuple(range(fc, 0, 32), rec(fc, { version: fc.constantFrom(undefined, 4, 6, "both"), ipv4: vNet4(fc), ipv6: vNet6(fc) })).map(([[a, b], o]) => ({ ...o, ...(a === undefined ? {} : { minPrefix: a }), ...(b === undefined ? {} : { maxPrefix: b }) })),
    make: (o) => core.cidr(o),
    inputs: (fc) => fc.tuple(fc.oneof(v4(fc), v6(fc)), fc.constantFrom("/", "/", "/", "/", "", "//"), fc.oneof(fc.nat(32).map(String), fc.constantFrom("0", "24", "32", "33", "64", "128", "129", "024", "-1", "", "1e1", "24.0", "9007199254740993"))).map((x) => x.join("")),
  },
  macAddress: { opts: (fc) => rec(fc, { separator: fc.constantFrom(undefined, ":", "-", ".", "none", "any"), case: fc.constantFrom(undefined, "preserve", "upper", "lower"), outputSeparator: fc.constantFrom(undefined, ":", "-", ".", "none") }), make: (o) => core.macAddress(o), inputs: mac },
  hostname: { opts: hostOpts, make: (o) => core.hostname(o), inputs: host },
  domain: {
    opts: (fc) => rec(fc, { allowSubdomains: bool(fc), allowedTlds: fc.constantFrom(undefined, undefined, ["com", "ORG"], ["dev"]), minLabels: fc.constantFrom(undefined, 1, 2, 3), maxLength: fc.constantFrom(undefined, 1, 12, 300), lowercase: bool(fc) }).map((o) => (o.allowSubdomains === false && o.minLabels === 3 ? { ...o, minLabels: 2 } : o)),
    make: (o) => core.domain(o), inputs: host,
  },
  email: { opts: (fc) => rec(fc, { allowMultiple: bool(fc), allowDisplayName: bool(fc), lowercase: bool(fc), allowedDomains: fc.constantFrom(undefined, undefined, ["example.com", "Example.ORG"]) }), make: (o) => core.email(o),
    inputs: (fc) => pad(fc, fc.oneof({ weight: 3, arbitrary: address(fc) }, { weight: 2, arbitrary: fc.constantFrom("a@example.com", "A@EXAMPLE.com", "x@example.ORG", `"${"é".repeat(31)}"@b.co`, `"${"é".repeat(32)}"@b.co`, "N <n@example.com>", "\"a,b\"@example.com", "\"a@b\"@example.com") }, { weight: 2, arbitrary: fc.tuple(fc.array(fc.oneof(address(fc), fc.constantFrom("a@b.co", "c@example.com")), { minLength: 2, maxLength: 3 }), fc.constantFrom(",", ", ", " , ", ";")).map(([a, s]) => a.join(s)) })) },
  socketAddress: {
    opts: (fc) => rec(fc, { separator: fc.constantFrom(undefined, undefined, undefined, ":", "-", "=", " ", "to", "::", "."), defaultPort: fc.constantFrom(undefined, 1025), requirePort: bool(fc), host: rec(fc, { type: fc.constantFrom(undefined, "hostname", "ip", "both"), hostname: hostOpts(fc), version: fc.constantFrom(undefined, 4, 6, "both"), ipv4: vNet4(fc), ipv6: vNet6(fc) }), port: portMm(fc, { disallowWellKnown: bool(fc) }) }),
    make: (o) => core.socketAddress(o),
    inputs: (fc) => pad(fc, fc.oneof(
      { weight: 5, arbitrary: fc.tuple(fc.oneof(host(fc), v4(fc), v6(fc).map((s) => `[${s}]`), v6(fc), altQuad(fc), fc.constantFrom("localhost", "1.2.3", "[::1", "[::ffff:10.0.0.1]")), fc.constantFrom(":", ":", ":", ":", "", "-", "=", " ", "to", "::", "."), fc.oneof({ weight: 4, arbitrary: port(fc) }, { weight: 1, arbitrary: fc.constantFrom("", "abc", "99999") })).map((x) => x.join("")) })),
  },
  semVer: { opts: (fc) => rec(fc, { type: fc.constantFrom(undefined, "string", "object"), allowPrefix: bool(fc) }), make: (o) => core.semVer(o), inputs: sem },
  json: { opts: (fc) => rec(fc, { rootType: fc.constantFrom(undefined, undefined, "string", "number", "boolean", "null", "object", "array") }), make: (o) => core.json(o), inputs: json },
  cron: { opts: (fc) => rec(fc, { seconds: bool(fc), years: bool(fc), quartz: bool(fc) }), make: (o) => core.cron(o), inputs: cronStr },
  choice: { opts: (fc) => fc.record({ of: fc.constantFrom(...CHOICES), ci: bool(fc), suggest: fc.constantFrom(undefined, "nearest", "never", { maxDistance: 1 }) }), make: (o) => core.choice(o.of, { ...(o.ci === undefined ? {} : { caseInsensitive: o.ci }), ...(o.suggest === undefined ? {} : { suggest: o.suggest }) }), inputs: (fc) => fc.oneof(fc.constantFrom(...CHOICES.flat()), fc.constantFrom(...CHOICES.flat()).map((s) => s.toUpperCase()), fc.constantFrom(...CHOICES.flat()).map((s) => s.toLowerCase())) },
  choiceNum: { opts: (fc) => fc.record({ of: fc.constantFrom(...NUMS) }), make: (o) => core.choice(o.of), inputs: (fc) => fc.oneof(floatStr(fc), fc.constantFrom("1", "1.0", "01", "+1", "1e21", "1000000000000000000000", "0.10", ".1", "1e-7", "0.0000001", "1E21", "-0", "-0.0", "8", "8080", "2e0", "1e+300", "-2.50")) },
  biject: { opts: (fc) => fc.constant({}), make: () => core.biject({ one: 1, two: { deep: [2] }, constructor: "c", nul: null, und: undefined }), inputs: (fc) => fc.constantFrom("one", "two", "constructor", "nul", "und", "three", "__proto__", "ONE") },
  keyValue: {
    opts: (fc) => fc.record({ o: rec(fc, { separator: fc.constantFrom(undefined, ...SEPS), allowEmptyKey: bool(fc), allowEmptyValue: bool(fc), split: fc.constantFrom(undefined, "first", "last") }), key: fc.constantFrom(undefined, "choice", "choiceCi"), value: fc.constantFrom(undefined, "integer", "choice", "mac", "kv") }),
    make: (o) => core.keyValue({ ...o.o, ...(o.key ? { key: core.choice(["a", "b", "k=", "mode"], { caseInsensitive: o.key === "choiceCi" }) } : {}), ...(o.value ? { value: { integer: () => core.integer(), choice: () => core.choice(["x", "on", "off", "a=b"]), mac: () => core.macAddress({ outputSeparator: ":", case: "lower" }), kv: () => core.keyValue() }[o.value]() } : {}) }),
    inputs: (fc) => fc.tuple(fc.constantFrom("a", "b", "A", "k=", "mode", "", "key", "a:b", "ax"), fc.constantFrom("=", "=", ...SEPS), fc.constantFrom("1", "x", "on", "", "a=b", "00-11-22-33-44-55", "v w", "k=v", "x:y", "=", "aa")).map((x) => x.join("")),
  },
  transform: { opts: (fc) => fc.record({ of: fc.constantFrom("integer", "choice", "mac") }), make: (o) => (o.of === "integer" ? core.transform(core.integer({ min: -5 }), { map: (n) => ({ n }), unmap: (v) => v.n }) : o.of === "choice" ? core.transform(core.choice(["a", "b"], { caseInsensitive: true }), { map: (s) => `<${s}>`, unmap: (s) => s.slice(1, -1) }) : core.transform(core.macAddress({ outputSeparator: "-", case: "upper" }), { map: (s) => [s], unmap: ([s]) => s })), inputs: (fc) => fc.oneof(intStr(fc), fc.constantFrom("a", "B", "c"), mac(fc)) },
  firstOf: {
    opts: (fc) => fc.record({ of: fc.uniqueArray(fc.constantFrom("auto", "int", "mac", "email", "color", "json", "kv", "uuid", "ci", "nested"), { minLength: 2, maxLength: 4 }) }),
    make: (o) => core.firstOf(o.of.map((k) => FIRST[k]())), firstOf: (o) => o.of.map((k) => FIRST[k]()),
    inputs: (fc) => fc.oneof(fc.constantFrom("auto", "AUTO", "1", "-3", "info", "INFO", "red", "a=b", "a@b.co", "N <a@b.co>", "true", "\"x\"", "[1]", "0"), mac(fc), uuid(fc), intStr(fc)),
  },
};
const FIRST = {
  auto: () => core.choice(["auto", "1"]), int: () => core.integer({ min: -3 }), mac: () => core.macAddress({ outputSeparator: ":", case: "lower" }), email: () => core.email({ allowDisplayName: true }),
  color: () => core.color(), json: () => core.json(), kv: () => core.keyValue(), uuid: () => core.uuid(), ci: () => core.choice(["info", "auto"], { caseInsensitive: true }), nested: () => core.firstOf(core.choice(["1"]), core.integer()),
};

/** {kind, opts, input} triples. `only` restricts the kinds. */
export function vpCase(fc, only = Object.keys(KINDS)) {
  const junk = fc.oneof(fc.constantFrom(...NASTY), fc.string({ maxLength: 12 }), fc.string({ unit: "grapheme", maxLength: 6 }));
  return fc.oneof(...only.map((kind) => {
    const k = KINDS[kind], good = k.inputs(fc);
    const mutated = fc.tuple(good, fc.nat(40), fc.constantFrom(...NASTY, "1", "x"), fc.nat(2)).map(([s, at, m, op]) => {
      const i = s.length ? at % (s.length + 1) : 0;
      return op === 0 ? s.slice(0, i) + m + s.slice(i) : op === 1 ? s.slice(0, i) + s.slice(i + 1) : s.slice(0, i) + m + s.slice(i + 1);
    });
    return fc.record({ kind: fc.constant(kind), opts: k.opts(fc), input: fc.oneof({ weight: 10, arbitrary: good }, { weight: 3, arbitrary: mutated }, { weight: 2, arbitrary: junk }) });
  }));
}
export const makeVp = (c) => KINDS[c.kind].make(c.opts);
