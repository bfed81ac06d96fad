//! Damage to stored or transmitted bytes.

use crate::cx::Cx;

const TOKENS: [&str; 40] = [
    "{",
    "}",
    "[",
    "]",
    "(",
    ")",
    "\"",
    "${",
    "%{",
    "}",
    "=",
    "=>",
    ",",
    "...",
    ":",
    "?",
    "<<EOT\n",
    "<<-EOT\n",
    "EOT\n",
    "\n",
    "#",
    "//",
    "/*",
    "*/",
    "\\",
    "\\u00",
    "\\U0010ffff",
    "\\ud800",
    "for ",
    " in ",
    " if ",
    "%{ endfor }",
    "%{ endif ~}",
    "%{ else }",
    ".",
    ".*",
    "[*]",
    "-",
    "1e999",
    "\r\n",
];

fn span(cx: &mut Cx, len: usize) -> (usize, usize) {
    let a = cx.src.below(len + 1);
    let n = match cx.src.below(3) {
        0 => 1,
        1 => cx.src.range(1, 12),
        _ => cx.src.range(1, 200),
    };
    (a, (a + n).min(len))
}

/// Applies one fault to the bytes.
pub fn strike(cx: &mut Cx, b: &mut Vec<u8>) {
    let len = b.len();
    match cx.src.below(11) {
        0 => {
            let at = cx.src.below(len + 1);
            b.truncate(at);
            cx.fault("lost_tail");
        }
        1 if len > 0 => {
            let at = cx.src.below(len);
            b[at] ^= 1 << cx.src.below(8);
            cx.fault("bit_flip");
        }
        2 if len > 0 => {
            let at = cx.src.below(len);
            b[at] = cx.src.range(0, 255) as u8;
            cx.fault("byte_replaced");
        }
        3 => {
            let (s, e) = span(cx, len);
            b.drain(s..e);
            cx.fault("range_lost");
        }
        4 => {
            let (s, e) = span(cx, len);
            let part = b[s..e].to_vec();
            b.splice(e..e, part);
            cx.fault("range_duplicated");
        }
        5 => {
            let (s, e) = span(cx, len);
            let part: Vec<u8> = b.drain(s..e).collect();
            let at = cx.src.below(b.len() + 1);
            b.splice(at..at, part);
            cx.fault("range_moved");
        }
        6 => {
            // Sectors delivered out of order.
            let size = *cx.src.pick(&[4usize, 8, 16, 64]);
            let mut parts: Vec<Vec<u8>> = b.chunks(size).map(<[u8]>::to_vec).collect();
            if parts.len() > 1 {
                let i = cx.src.below(parts.len());
                let j = cx.src.below(parts.len());
                parts.swap(i, j);
            }
            *b = parts.concat();
            cx.fault("sectors_swapped");
        }
        7 => {
            let (s, e) = span(cx, len);
            b[s..e].fill(0);
            cx.fault("range_zeroed");
        }
        8 => {
            let at = cx.src.below(len + 1);
            let t = *cx.src.pick(&TOKENS);
            b.splice(at..at, t.bytes());
            cx.fault("token_inserted");
        }
        9 => {
            // A nested opening that is never (or sometimes) closed.
            let n = cx.src.range(1, 24);
            let (o, c) = *cx.src.pick(&[
                ("(", ")"),
                ("[", "]"),
                ("{a=", "}"),
                ("\"${", "}\""),
                ("f(", ")"),
                ("{(", ")=1}"),
                ("[for x in ", ":x]"),
                ("-", ""),
                ("1?", ":1"),
                ("b {\n", "\n}\n"),
                ("%{if a}", "%{endif}"),
            ]);
            let m = if cx.src.below(2) == 0 {
                n
            } else {
                cx.src.below(n)
            };
            let at = cx.src.below(len + 1);
            b.splice(
                at..at,
                format!("{}1{}", o.repeat(n), c.repeat(m)).into_bytes(),
            );
            cx.fault("nesting_inserted");
        }
        _ => {
            let t = *cx.src.pick(&[
                "\u{feff}",
                "\r",
                "\u{2028}",
                "\u{1F600}",
                "é",
                "\u{200d}",
                "\u{7f}",
            ]);
            let mut at = cx.src.below(len + 1);
            while at < b.len() && b[at] & 0xc0 == 0x80 {
                at += 1;
            }
            b.splice(at..at, t.bytes());
            cx.fault("character_inserted");
        }
    }
}
