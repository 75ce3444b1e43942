//! Damage to schema files.

use simcore::Ctx;

const NUMBERS: [&str; 26] = [
    "0", "1", "2", "3", "7", "8", "9", "15", "16", "24", "31", "32", "33", "56", "63", "64", "65", "127", "255", "256", "65535", "65536", "4294967296", "9223372036854775807", "18446744073709551615", "-1",
];
const EXTREMES: [&str; 9] = ["1e400", "-9223372036854775808", "0.5", "-0.0", "Infinity", "NaN", "true", "null", "99999999999999999999999"];
const NAMES: [&str; 28] = [
    "", ".", "..", "/", "../escape", "a/b", "/tmp/bp3d-escape", "a b", "fn", "\u{e9}", "A", "x.y", "x.y.z", ".x", "x.", "unsigned", "signed", "list", "union", "payload", "umbrella.rs", "\\u0000",
    "::", "a::b", "::a", "a::", "self", "a::b::c",
];

/// Words of the schema language, for the places where a word decides.
const WORDS: [&str; 22] = [
    "unsigned", "signed", "float", "boolean", "struct", "item", "list", "string", "payload", "union", "enum", "float-range", "float-multiplier", "little", "big", "name", "type", "on", "field", "case", "bits", "item_type",
];

/// Members that mean something to one kind of definition or another.
const MEMBERS: [&str; 22] = [
    "optional: true", "optional: false", "array_len: 0", "array_len: 1", "array_len: 3", "array_len: 300000000000", "max_len: 0", "max_len: 255", "max_len: 65536", "bits: 0", "bits: 5", "bits: 32",
    "view: { type: \"enum\", name: \"A\" }", "view: { type: \"float-range\", min: 0, max: 0 }", "view: { type: \"float-range\", min: 5, max: -5 }", "view: { type: \"float-multiplier\", multiplier: 0 }",
    "name: \"again\"", "type: \"payload\"", "endianness: \"big\"", "description: \"\"", "fields: []", "cases: []",
];

struct Token {
    from: usize,
    to: usize,
    string: bool,
}

/// Numbers and strings of a schema text.
fn tokens(b: &[u8]) -> Vec<Token> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == b'"' {
            let from = i + 1;
            i += 1;
            while i < b.len() && b[i] != b'"' {
                i += 1;
            }
            v.push(Token { from, to: i.min(b.len()), string: true });
            i += 1;
        } else if c.is_ascii_digit() || c == b'-' {
            let from = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || b[i] == b'-') {
                i += 1;
            }
            if i == from {
                i += 1;
            }
            v.push(Token { from, to: i, string: false });
        } else {
            i += 1;
        }
    }
    v
}

fn splice(b: &[u8], from: usize, to: usize, with: &[u8]) -> Vec<u8> {
    let mut v = b[..from].to_vec();
    v.extend_from_slice(with);
    v.extend_from_slice(&b[to..]);
    v
}

fn lines(b: &[u8]) -> Vec<&[u8]> {
    b.split_inclusive(|c| *c == b'\n').collect()
}

/// One piece of damage.
pub fn damage(ctx: &mut Ctx, b: &[u8], other: &[u8]) -> Vec<u8> {
    damage_as(ctx, b, other, false)
}

/// `mild`: of a kind that the parser may well accept.
pub fn damage_as(ctx: &mut Ctx, b: &[u8], other: &[u8], mild: bool) -> Vec<u8> {
    if b.is_empty() {
        return b.to_vec();
    }
    let weights = if mild { [0, 1, 0, 0, 0, 0, 6, 8, 2, 2, 0, 3, 1] } else { [2, 2, 1, 2, 2, 2, 6, 6, 4, 3, 1, 4, 3] };
    match ctx.weighted(&weights) {
        0 => {
            ctx.count("fault.damage.truncated");
            b[..ctx.below(b.len())].to_vec()
        }
        1 => {
            ctx.count("fault.damage.flipped");
            let mut v = b.to_vec();
            for _ in 0..ctx.range(1, 3) {
                let k = ctx.below(v.len());
                v[k] ^= 1 << ctx.draw(8);
            }
            v
        }
        2 => {
            ctx.count("fault.damage.zeroed");
            let mut v = b.to_vec();
            let from = ctx.below(v.len());
            let to = (from + 1 + ctx.below(64)).min(v.len());
            v[from..to].iter_mut().for_each(|c| *c = 0);
            v
        }
        3 => {
            ctx.count("fault.damage.lost_lines");
            let l = lines(b);
            let from = ctx.below(l.len());
            let n = 1 + ctx.below(4);
            l.iter().enumerate().filter(|(k, _)| *k < from || *k >= from + n).flat_map(|(_, v)| v.to_vec()).collect()
        }
        4 => {
            ctx.count("fault.damage.doubled_lines");
            let l = lines(b);
            let from = ctx.below(l.len());
            let n = (1 + ctx.below(4)).min(l.len() - from);
            let mut v: Vec<u8> = l[..from + n].concat();
            v.extend(l[from..from + n].concat());
            v.extend(l[from + n..].concat());
            v
        }
        5 => {
            // Lines of another file, or of another place of this one.
            ctx.count("fault.damage.mixed_lines");
            let l = lines(b);
            let o = if other.is_empty() || ctx.chance(500) { lines(b) } else { lines(other) };
            let at = ctx.below(l.len());
            let from = ctx.below(o.len());
            let n = (1 + ctx.below(3)).min(o.len() - from);
            let mut v: Vec<u8> = l[..at].concat();
            v.extend(o[from..from + n].concat());
            let skip = if ctx.chance(500) { n.min(l.len() - at) } else { 0 };
            v.extend(l[at + skip..].concat());
            v
        }
        6 => {
            ctx.count("fault.damage.number");
            let t: Vec<Token> = tokens(b).into_iter().filter(|t| !t.string).collect();
            if t.is_empty() {
                return b.to_vec();
            }
            let t = ctx.pick(&t);
            let with: String = match ctx.draw(4) {
                0 | 1 => ctx.pick(&NUMBERS).to_string(),
                2 => ctx.pick(&EXTREMES).to_string(),
                _ => ctx.draw(80).to_string(),
            };
            splice(b, t.from, t.to, with.as_bytes())
        }
        7 => {
            ctx.count("fault.damage.name");
            let all = tokens(b);
            let strings: Vec<&Token> = all.iter().filter(|t| t.string).collect();
            if strings.is_empty() {
                return b.to_vec();
            }
            let t = *ctx.pick(&strings);
            let own = b[t.from..t.to].to_vec();
            let word = |ctx: &mut Ctx| -> Vec<u8> {
                match ctx.draw(10) {
                    0..=3 => ctx.pick(&NAMES).as_bytes().to_vec(),
                    4..=8 => {
                        // Another string of the file.
                        let o = *ctx.pick(&strings);
                        b[o.from..o.to].to_vec()
                    }
                    _ => own.clone(),
                }
            };
            let with: Vec<u8> = match ctx.draw(8) {
                0..=4 => word(ctx),
                5 | 6 => {
                    // Two names, put together like a path.
                    let mut v = word(ctx);
                    v.extend_from_slice(ctx.pick(&["::", ".", "/", "::", ":", "_", "", "::::"]).as_bytes());
                    v.extend(word(ctx));
                    v
                }
                _ => match ctx.draw(5) {
                    0 => own.to_ascii_uppercase(),
                    1 => own.iter().rev().copied().collect(),
                    2 => own.repeat(2 + ctx.below(40)),
                    3 => own[..own.len() / 2].to_vec(),
                    _ => [b"r#", &own[..]].concat(),
                },
            };
            splice(b, t.from, t.to, &with)
        }
        8 => {
            // A member of an object or list is lost.
            ctx.count("fault.damage.lost_member");
            let seps: Vec<usize> = b.iter().enumerate().filter(|(_, c)| **c == b',').map(|v| v.0).collect();
            if seps.len() < 2 {
                return b.to_vec();
            }
            let k = ctx.below(seps.len() - 1);
            splice(b, seps[k], seps[k + 1], b"")
        }
        9 => {
            // A member turns up elsewhere.
            ctx.count("fault.damage.moved_member");
            let seps: Vec<usize> = b.iter().enumerate().filter(|(_, c)| **c == b',').map(|v| v.0).collect();
            if seps.len() < 3 {
                return b.to_vec();
            }
            let k = ctx.below(seps.len() - 1);
            let to = seps[ctx.below(seps.len())];
            let part = b[seps[k]..seps[k + 1]].to_vec();
            splice(b, to, to, &part)
        }
        11 => {
            // A member more, at the end of an object.
            ctx.count("fault.damage.added_member");
            let ends: Vec<usize> = b.iter().enumerate().filter(|(_, c)| **c == b'}').map(|v| v.0).collect();
            if ends.is_empty() {
                return b.to_vec();
            }
            let at = *ctx.pick(&ends);
            let open = b[..at].iter().rev().find(|c| !c.is_ascii_whitespace()) == Some(&b'{');
            let m = ctx.pick(&MEMBERS);
            splice(b, at, at, if open { m.to_string() } else { format!(", {m}") }.as_bytes())
        }
        12 => {
            ctx.count("fault.damage.word");
            let all = tokens(b);
            let words: Vec<&Token> = all.iter().filter(|t| t.string && WORDS.iter().any(|w| w.as_bytes() == &b[t.from..t.to])).collect();
            if words.is_empty() {
                return b.to_vec();
            }
            let t = *ctx.pick(&words);
            let w = ctx.pick(&WORDS);
            splice(b, t.from, t.to, w.as_bytes())
        }
        _ => {
            ctx.count("fault.damage.random");
            let n = ctx.below(64);
            let at = ctx.below(b.len());
            let r = ctx.bytes(n);
            splice(b, at, (at + n).min(b.len()), &r)
        }
    }
}
