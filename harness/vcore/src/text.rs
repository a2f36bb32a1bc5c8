//! Generators of text.
use proptest::prelude::*;
use proptest::strategy::Union;

pub const SPECIALS: [char; 5] = ['"', '&', '\'', '<', '>'];

/// The specification of escaping.
pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 16);
    for c in s.chars() {
        match c {
            '"' => o.push_str("&quot;"),
            '&' => o.push_str("&amp;"),
            '\'' => o.push_str("&#39;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            c => o.push(c),
        }
    }
    o
}

/// One character, drawn from the classes that matter for escaping: the five special characters,
/// bytes that differ from one of them in a single bit or a few, other ASCII, and multi-byte
/// characters (also such whose encoding contains the special bytes with the high bit set).
pub fn ch() -> BoxedStrategy<char> {
    let near: Vec<char> = {
        let mut v = vec![];
        for s in SPECIALS {
            for b in 0..7 {
                let c = (s as u8 ^ (1 << b)) as char;
                if !SPECIALS.contains(&c) {
                    v.push(c);
                }
            }
            for b in 0..7 {
                for b2 in 0..b {
                    let c = (s as u8 ^ (1 << b) ^ (1 << b2)) as char;
                    if !SPECIALS.contains(&c) {
                        v.push(c);
                    }
                }
            }
            v.push((s as u8 + 1) as char);
            v.push((s as u8 - 1) as char);
        }
        v.retain(|c| !SPECIALS.contains(c));
        v.sort();
        v.dedup();
        v
    };
    // two-byte characters whose last byte is 0x80 | (special & 0x3f), and a few others
    let multi: Vec<char> = SPECIALS
        .iter()
        .flat_map(|s| {
            let low = (*s as u32) & 0x3f;
            [0x80 + low, 0xC0 + low, 0x800 + low, 0x2000 + low, 0x10000 + low, 0x1F600 + (low & 0x3f)]
        })
        .filter_map(char::from_u32)
        .collect();
    prop_oneof![
        6 => prop::sample::select(SPECIALS.to_vec()),
        4 => prop::sample::select(near),
        6 => prop::char::range('a', 'z'),
        2 => prop::char::range('\0', '\x7f'),
        3 => prop::sample::select(multi),
        1 => prop::char::range('\u{80}', '\u{7ff}'),
        1 => prop::char::range('\u{800}', '\u{ffff}'),
        1 => prop::char::range('\u{10000}', '\u{10ffff}'),
    ]
    .boxed()
}

/// Mostly plain text with rare special characters, so that long runs are copied at once.
pub fn ch_sparse() -> BoxedStrategy<char> {
    prop_oneof![
        30 => prop::char::range('a', 'z'),
        2 => prop::sample::select(vec!['é', 'ß', '中', '𝄞', '\u{a7}', '\u{bc}', '\u{be}', '\u{a2}', '\u{a6}']),
        2 => prop::sample::select(SPECIALS.to_vec()),
    ]
    .boxed()
}

/// Plain text in which only some of the special characters occur, rarely or often.
pub fn ch_few() -> BoxedStrategy<(u8, u8)> {
    (1u8..32, prop::sample::select(vec![1u8, 3, 40])).boxed()
}
fn few(set: u8, every: u8, n: usize, mut x: u64) -> String {
    let sp: Vec<char> = (0..5).filter(|i| set >> i & 1 == 1).map(|i| SPECIALS[i]).collect();
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let r = (x >> 33) as usize;
            if r % every as usize == 0 {
                sp[r / 64 % sp.len()]
            } else {
                (b'a' + (r / 64 % 26) as u8) as char
            }
        })
        .collect()
}

/// Long text of at most `max` bytes with few kinds of special characters.
pub fn long_few(max: usize) -> BoxedStrategy<String> {
    (0..max, ch_few(), any::<u64>()).prop_map(|(n, (set, every), x)| few(set, every, n, x)).boxed()
}

/// Lengths concentrated around the block sizes of vector code.
pub fn length(max: usize) -> BoxedStrategy<usize> {
    let edges: Vec<usize> = [0usize, 1, 7, 8, 9, 14, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384, 16385]
        .into_iter()
        .filter(|x| *x <= max)
        .collect();
    let mut arms: Vec<(u32, BoxedStrategy<usize>)> = vec![
        (4, prop::sample::select(edges).boxed()),
        (4, (0..=20.min(max)).boxed()),
        (4, (0..=70.min(max)).boxed()),
        (2, (0..=300.min(max)).boxed()),
    ];
    if max > 300 {
        arms.push((1, (0..=max).boxed()));
    }
    Union::new_weighted(arms).boxed()
}

fn fit(cs: Vec<char>, bytes: usize) -> String {
    // cut or pad to exactly `bytes` bytes, so that block boundaries are hit whatever the characters
    let mut s = String::with_capacity(bytes);
    for c in cs {
        if s.len() + c.len_utf8() > bytes {
            break;
        }
        s.push(c);
    }
    while s.len() < bytes {
        s.push('x');
    }
    s
}

/// Text with an exact byte length from `length(max)`.
pub fn text(max: usize) -> BoxedStrategy<String> {
    length(max)
        .prop_flat_map(move |n| {
            let m = n.min(4000);
            prop_oneof![
                4 => prop::collection::vec(ch(), 0..=m).prop_map(move |v| fit(v, v_len(n))),
                4 => prop::collection::vec(ch_sparse(), m).prop_map(move |v| fit(v, v_len(n))),
                2 => prop::collection::vec(ch(), m).prop_map(move |v| fit(v, v_len(n))),
                2 => (ch_few(), any::<u64>()).prop_map(move |((set, every), x)| few(set, every, n, x)),
            ]
        })
        .boxed()
}
fn v_len(n: usize) -> usize {
    n
}

/// Short text that looks like markup.
pub fn hostile() -> BoxedStrategy<String> {
    let pieces = vec![
        "<", ">", "\"", "'", "&", "&amp;", "&lt;", "&#39;", "&quot", ";", "</div>", "<script>",
        "</script>", "<!--", "-->", "<![CDATA[", "]]>", "=\"x\"", "onload=", " ", "\n", "\t", "/",
        "\u{0}", "é", "中文", "\u{2028}", "\u{feff}", "text", "javascript:alert(1)", "</", "/>",
        "\u{202e}", "\\", "`", "&#x27;", "&#60;", "\" onclick=\"", "' x='", "\r\n", "\r", "\r\r\n", "\n\n", "  ", "\u{a0}", "\u{b}", "\u{c}", "\u{85}",
    ];
    prop::collection::vec(prop::sample::select(pieces), 0..12)
        .prop_map(|v| v.concat())
        .boxed()
}

/// Runs of one character each, of kinds that code may take for something: padding, blanks, ends of lines, marks.
pub fn runs() -> BoxedStrategy<String> {
    let cs: Vec<char> = "\0\0\0\u{1}\u{7}\u{8}\t\n\r \u{b}\u{c}\u{1b}\u{7f}\u{80}\u{85}\u{9f}\u{a0}\u{ad}\u{ff}\u{200b}\u{2028}\u{3000}\u{feff}\u{fffd}\u{fffe}\u{ffff}\u{10ffff}0-./\\;=_%".chars().collect();
    let one = prop_oneof![5 => prop::sample::select(cs), 1 => ch(), 1 => prop::char::range('a', 'z')];
    prop::collection::vec((one, prop_oneof![4 => 1usize..4, 2 => 1usize..20, 1 => 1usize..70]), 1..5)
        .prop_map(|v| v.into_iter().flat_map(|(c, n)| std::iter::repeat(c).take(n)).collect())
        .boxed()
}

pub fn any_text(max: usize) -> BoxedStrategy<String> {
    prop_oneof![8 => text(max), 2 => hostile(), 1 => runs()].boxed()
}
