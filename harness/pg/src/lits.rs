//! Literals: their source and the text they stand for.
use proptest::prelude::*;
use proptest::sample::select;
use vcore::text;

#[derive(Clone, Debug, PartialEq)]
pub struct Lit {
    pub src: String,
    /// The text the literal renders as, before escaping.
    pub plain: String,
    pub kind: &'static str,
}

fn one(c: char, how: u8, quote: char) -> String {
    let simple = |c: char| -> Option<&'static str> {
        Some(match c {
            '\n' => "\\n",
            '\r' => "\\r",
            '\t' => "\\t",
            '\\' => "\\\\",
            '\0' => "\\0",
            _ => return None,
        })
    };
    if c == quote {
        return format!("\\{c}");
    }
    match how {
        0 => format!("\\u{{{:x}}}", c as u32),
        1 if (c as u32) < 0x80 => format!("\\x{:02x}", c as u32),
        2 if c == '\'' || c == '"' => format!("\\{c}"),
        3 => format!("\\u{{{:06X}}}", c as u32),
        _ => match simple(c) {
            // a line break may also stand for itself
            Some(_) if c == '\n' && how == 4 && quote == '"' => "\n".into(),
            Some(s) => s.into(),
            // control and bidirectional characters are written out
            None if c.is_control() || ('\u{2028}'..='\u{202e}').contains(&c) || c == '\u{feff}' => {
                format!("\\u{{{:x}}}", c as u32)
            }
            None => c.to_string(),
        },
    }
}

/// A string literal for a text, the characters written in the given ways.
pub fn str_src(s: &str, how: &[u8]) -> String {
    let mut o = String::from("\"");
    for (i, c) in s.chars().enumerate() {
        let h = if how.is_empty() { 9 } else { how[i % how.len()] };
        o.push_str(&one(c, h, '"'));
        if h == 5 && !s.chars().nth(i + 1).map(|c| c.is_whitespace()).unwrap_or(true) {
            // a line break that is not part of the text
            o.push_str("\\\n      ");
        }
    }
    o.push('"');
    o
}

fn raw_src(s: &str) -> Option<String> {
    if s.chars().any(|c| c == '\r' || (c.is_control() && c != '\n') || ('\u{2028}'..='\u{202e}').contains(&c) || c == '\u{feff}') {
        return None;
    }
    let mut n = 0;
    while s.contains(&format!("\"{}", "#".repeat(n))) {
        n += 1;
    }
    let h = "#".repeat(n);
    Some(format!("r{h}\"{s}\"{h}"))
}

pub fn string() -> BoxedStrategy<Lit> {
    let txt = prop_oneof![
        3 => text::hostile(),
        2 => prop::collection::vec(text::ch(), 0..24).prop_map(|v| v.into_iter().collect::<String>()),
        3 => select(vec!["", "a", "b c", "x < y", "&amp;", "\"", "it's", "data-x", "{}", "{0}", "\\", "//", "/* x */", "#"]).prop_map(String::from),
        1 => prop::collection::vec(text::ch_sparse(), 24..90).prop_map(|v| v.into_iter().collect::<String>()),
    ];
    (txt, prop::collection::vec(0u8..12, 0..6), any::<bool>())
        .prop_map(|(s, how, raw)| {
            if raw {
                if let Some(src) = raw_src(&s) {
                    return Lit { src, plain: s, kind: "raw string" };
                }
            }
            Lit { src: str_src(&s, &how), plain: s, kind: "string" }
        })
        .boxed()
}

/// Texts that no buffer of a usual size holds.
pub fn long() -> BoxedStrategy<Lit> {
    let len = prop_oneof![3 => 0usize..400, 3 => 400usize..3000, 1 => 3000usize..20000];
    (prop::collection::vec(text::ch(), 1..24), len, 0usize..7, prop::collection::vec(0u8..12, 0..4), any::<bool>())
        .prop_map(|(cs, len, pad, how, raw)| {
            let mut s = "a".repeat(pad);
            s.extend(cs.iter().cycle().take(len));
            match raw_src(&s) {
                Some(src) if raw => Lit { src, plain: s, kind: "raw string" },
                _ => Lit { src: str_src(&s, &how), plain: s, kind: "string" },
            }
        })
        .boxed()
}

pub fn character() -> BoxedStrategy<Lit> {
    (prop_oneof![3 => text::ch(), 1 => select(vec!['\n', '\\', '\'', '"', '\0', '\r', '\t', 'é', '𝄞'])], 0u8..12)
        .prop_map(|(c, how)| Lit { src: format!("'{}'", one(c, if how == 4 { 9 } else { how }, '\'')), plain: c.to_string(), kind: "character" })
        .boxed()
}

pub fn byte() -> BoxedStrategy<Lit> {
    (any::<u8>(), any::<bool>())
        .prop_map(|(b, hex)| {
            let c = b as char;
            let body = if b.is_ascii() && !hex && !c.is_control() {
                one(c, 9, '\'')
            } else if b.is_ascii() && !hex && (c == '\n' || c == '\r' || c == '\t' || c == '\0') {
                one(c, 9, '\'')
            } else {
                format!("\\x{b:02X}")
            };
            Lit { src: format!("b'{body}'"), plain: b.to_string(), kind: "byte" }
        })
        .boxed()
}

pub fn boolean() -> BoxedStrategy<Lit> {
    any::<bool>().prop_map(|b| Lit { src: b.to_string(), plain: b.to_string(), kind: "boolean" }).boxed()
}

/// Puts underscores between digits.
fn under(digits: &str, at: &[usize], trailing: bool) -> String {
    let mut o = String::new();
    for (i, c) in digits.chars().enumerate() {
        if i > 0 && at.contains(&(i % 5)) {
            o.push('_');
            if at.len() > 2 {
                o.push('_');
            }
        }
        o.push(c);
    }
    if trailing {
        o.push('_');
    }
    o
}

const INTS: [(&str, u32, bool); 13] = [
    ("", 31, true), ("u8", 8, false), ("u16", 16, false), ("u32", 32, false), ("u64", 64, false), ("u128", 128, false), ("usize", 64, false),
    ("i8", 7, true), ("i16", 15, true), ("i32", 31, true), ("i64", 63, true), ("i128", 127, true), ("isize", 63, true),
];

pub fn integer() -> BoxedStrategy<Lit> {
    (
        select(INTS.to_vec()),
        any::<u128>(),
        0u32..129,
        select(vec![2u32, 8, 10, 10, 10, 16]),
        (prop::collection::vec(0usize..5, 0..4), any::<bool>(), any::<bool>(), 0usize..4, any::<bool>()),
    )
        .prop_map(|((suf, bits, _), v, cut, base, (at, trailing, upper, zeros, us))| {
            let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
            // all magnitudes, and the largest value
            let v = if cut == 128 { max } else { (v >> cut.min(127)) & max };
            let (p, d) = match base {
                2 => ("0b", format!("{v:b}")),
                8 => ("0o", format!("{v:o}")),
                16 if upper => ("0x", format!("{v:X}")),
                16 => ("0x", format!("{v:x}")),
                _ => ("", v.to_string()),
            };
            let d = format!("{}{}", "0".repeat(zeros), d);
            let d = under(&d, &at, trailing);
            let lead = if base != 10 && us { "_" } else { "" };
            Lit { src: format!("{p}{lead}{d}{suf}"), plain: v.to_string(), kind: if base == 10 { "decimal integer" } else { "integer in another base" } }
        })
        .boxed()
}

fn ryu64(x: f64) -> String {
    ryu::Buffer::new().format(x).to_string()
}
fn ryu32(x: f32) -> String {
    ryu::Buffer::new().format(x).to_string()
}

pub fn float() -> BoxedStrategy<Lit> {
    (
        "[0-9]{1,20}",
        prop::option::of("[0-9]{0,20}"),
        prop::option::of((-45i32..40, any::<bool>(), any::<bool>(), any::<bool>())),
        select(vec!["", "", "f64", "f32", "_f32", "_f64"]),
        prop::collection::vec(0usize..5, 0..3),
        0u8..12,
    )
        .prop_filter_map("a finite float", |(int, frac, exp, suf, at, special)| {
            let mut digits = under(&int, &at, false);
            let mut clean = int.clone();
            match special {
                0 => {
                    digits = "1_0".into();
                    clean = "10".into();
                }
                1 => {
                    digits = "16777217".into();
                    clean = digits.clone();
                }
                2 => {
                    digits = "0".into();
                    clean = digits.clone();
                }
                _ => {}
            }
            let mut src = digits;
            let mut parse = clean;
            let mut is_float = false;
            if let Some(f) = &frac {
                if f.is_empty() {
                    if suf.is_empty() && exp.is_none() {
                        src.push('.');
                        is_float = true;
                    } else {
                        src.push_str(".0");
                        parse.push_str(".0");
                        is_float = true;
                    }
                } else {
                    src.push('.');
                    src.push_str(&under(f, &at, false));
                    parse.push('.');
                    parse.push_str(f);
                    is_float = true;
                }
            }
            if let Some((e, up, plus, us)) = exp {
                let sign = if e < 0 { "-" } else if plus { "+" } else { "" };
                src.push_str(&format!("{}{}{}{}", if up { "E" } else { "e" }, sign, if us { "_" } else { "" }, e.abs()));
                parse.push_str(&format!("e{e}"));
                is_float = true;
            }
            if !is_float && suf.is_empty() {
                return None;
            }
            src.push_str(suf);
            let plain = if suf.ends_with("f32") {
                let x: f32 = parse.parse().ok()?;
                if !x.is_finite() {
                    return None;
                }
                ryu32(x)
            } else {
                let x: f64 = parse.parse().ok()?;
                if !x.is_finite() {
                    return None;
                }
                ryu64(x)
            };
            Some(Lit { src, plain, kind: if is_float { "float" } else { "integer with a float suffix" } })
        })
        .boxed()
}

/// Literals behind an operator: not literals to the macros.
pub fn negative() -> BoxedStrategy<Lit> {
    let l = |src: &str, plain: &str| Lit { src: src.into(), plain: plain.into(), kind: "negative" };
    let fixed = vec![
        l("-1.5", "-1.5"), l("-0.1f32", "-0.1"), l("!true", "false"), l("-128i8", "-128"), l("-0", "0"), l("-0i8", "0"), l("-0.0", "-0.0"),
        l("-0.0f32", "-0.0"), l("-0e0", "-0.0"), l("- 7", "-7"), l("-(7)", "-7"), l("-{ 7 }", "-7"), l("-(-7)", "7"), l("-(-0.5)", "0.5"), l("-0x10", "-16"),
        l("-0b1_01i64", "-5"), l("-1_000", "-1000"), l("-1f64", "-1.0"), l("-1e21", "-1e21"), l("!0", "-1"), l("!0u8", "255"), l("!0x0fu16", "65520"),
        l("!!true", "true"), l("!(false)", "true"), l("-0x0", "0"), l("-00", "0"), l("-0i128", "0"),
        l("-170141183460469231731687303715884105728i128", "-170141183460469231731687303715884105728"), l("-9223372036854775808i64", "-9223372036854775808"),
    ];
    prop_oneof![
        1 => (0u32..1000).prop_map(|n| Lit { src: format!("-{n}"), plain: format!("{}", -(n as i64)), kind: "negative" }),
        3 => select(fixed),
    ]
    .boxed()
}

/// Expressions that hold a literal and are none.
pub fn around() -> BoxedStrategy<Lit> {
    // with any literal in it
    const ANY: [&str; 30] = [
        "{ @; }", "{ @; @ }", "{ let x = @; x }", "{ let _ = @; \"z\" }", "unsafe { @ }", "'a: { @ }", "'a: { break 'a @ }", "loop { break @ }",
        "if true { @ } else { @ }", "if false { @ } else { @ }", "match @ { y => y }", "match () { _ => @ }", "(@, 1).0", "[@][0]", "[@; 3][1]", "Some(@)",
        "(|| @)()", "h::id(@)", "h::id_mac!(@)", "*&@", "{ ; }", "{}", "()", "{ fn f() -> i32 { 3 } f() }", "({ @; })", "{ { @; } }", "{ (@); }", "{ const _: () = (); @ }",
        "{ { @ }; }", "Option::<&str>::None.map(|_| @)",
    ];
    const TEXT: [&str; 9] = ["@.len()", "&@[0..]", "@.trim()", "@ as &str", "@ == \"a\"", "@.chars().next()", "concat!(@, @)", "stringify!(a @ b)", "@.split('<').next()"];
    const INT: [&str; 10] = ["@ + 0", "@ as f64", "@ as u8", "@ == @", "@ & @", "@ - @", "@ as u64 as f32", "@ * 1", "concat!(@)", "(@, @).1"];
    const FLOAT: [&str; 7] = ["@ + 1.0", "@ as i32", "@ * 2.0", "@ < @", "@ as f32 as f64", "h::id(@)", "-@"];
    const BOOL: [&str; 7] = ["@ && true", "!@", "@ as u8", "@ | @", "@ ^ true", "if @ { 1 } else { 2 }", "@ == false"];
    const CHAR: [&str; 5] = ["@ as u32", "@ as u8", "@.len_utf8()", "@ < 'b'", "@.to_ascii_uppercase()"];
    const BYTE: [&str; 4] = ["@ as char", "@ ^ 1", "@ == b'a'", "@ as u32 * 2"];
    let special: BoxedStrategy<(Lit, &'static str)> = prop_oneof![
        (string(), select(TEXT.to_vec())),
        (integer(), select(INT.to_vec())),
        (float(), select(FLOAT.to_vec())),
        (boolean(), select(BOOL.to_vec())),
        (character(), select(CHAR.to_vec())),
        (byte(), select(BYTE.to_vec())),
    ]
    .boxed();
    let plain = prop_oneof![4 => string(), 2 => character(), 1 => byte(), 1 => boolean(), 3 => integer(), 3 => float()];
    prop_oneof![1 => special, 2 => (plain, select(ANY.to_vec()))]
        .prop_map(|(l, t)| Lit { src: t.replace('@', &l.src), plain: String::new(), kind: "expression around a literal" })
        .boxed()
}

pub fn any_lit() -> BoxedStrategy<Lit> {
    prop_oneof![
        4 => string(),
        2 => character(),
        1 => byte(),
        1 => boolean(),
        3 => integer(),
        3 => float(),
        1 => negative(),
    ]
    .boxed()
}

/// Mostly text, for trees.
pub fn tree_lit() -> BoxedStrategy<Lit> {
    prop_oneof![6 => string(), 1 => character(), 1 => integer(), 1 => float(), 1 => boolean(), 1 => byte()].boxed()
}
