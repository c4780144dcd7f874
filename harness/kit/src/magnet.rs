//! Magnet texts, and whether they name a torrent.
use crate::torrent::base32;
use crate::{hex, Rng};

#[derive(Clone, Debug, PartialEq)]
pub enum Means {
    /// This torrent.
    Torrent([u8; 20]),
    /// Nothing: it has to be refused.
    Nothing,
    /// Up to the program: either refused, or taken for this one.
    Maybe([u8; 20]),
}

fn hash(r: &mut Rng) -> [u8; 20] {
    let mut h = [0; 20];
    h.copy_from_slice(&r.bytes(20));
    // Runs of the same digits, too.
    match r.below(12) {
        0 => h = [0; 20],
        1 => h = [0xff; 20],
        2 => h = [r.byte(); 20],
        3 => h[r.below(20)..].fill(0),
        4 => h.iter_mut().for_each(|b| *b %= 10),
        5 => h.iter_mut().for_each(|b| *b = *b % 10 * 16 + *b % 7),
        6 => h.iter_mut().for_each(|b| *b |= 0xaa),
        _ => (),
    }
    h
}

fn text(h: &[u8; 20], r: &mut Rng) -> (String, bool) {
    match r.below(8) {
        0..=2 => (base32(h), true),
        3 => (hex(h).to_uppercase(), true),
        4 => (hex(h).chars().map(|c| if r.one_in(2) { c.to_ascii_uppercase() } else { c }).collect(), true),
        // Base32 is written in capitals.
        5 if r.one_in(3) => (base32(h).to_lowercase(), false),
        _ => (hex(h), true),
    }
}

/// Parameters that name no torrent, some of which look as if they did.
fn other(r: &mut Rng) -> String {
    let h = hash(r);
    let t = if r.one_in(2) { hex(&h) } else { base32(&h) };
    match r.below(17) {
        0 => "dn=some+name".into(),
        1 => "tr=udp%3A%2F%2Ftracker.example%3A80".into(),
        2 => "xl=12345".into(),
        3 => "ws=http%3A%2F%2Fx%2Fy".into(),
        4 => "x.pe=1.2.3.4:5".into(),
        5 => String::new(),
        6 => "dn".into(),
        7 => "dn=\u{e9}t\u{e9} \u{1f600}".into(),
        8 => format!("dn=xt=urn:btih:{t}"),
        9 => format!("dn=magnet:?xt=urn:btih:{t}"),
        10 => format!("tr=http://x/announce?xt=urn:btih:{t}"),
        11 => format!("nxt=urn:btih:{t}"),
        12 => format!("dn=urn:btih:{t}"),
        13 => format!("kt={t}"),
        14 => format!("dn={}", "x".repeat(r.below(3000))),
        15 => format!("as=urn:btih:{t}"),
        _ => format!("so={}", String::from_utf8_lossy(&r.bytes(12)).replace('&', "+")),
    }
}

fn around(r: &mut Rng, topic: Option<String>) -> String {
    let mut params: Vec<String> = (0..*r.pick(&[0, 0, 1, 2, 3, 8])).map(|_| other(r)).collect();
    if let Some(t) = topic {
        let at = r.below(params.len() + 1);
        params.insert(at, t);
    }
    format!("magnet:?{}", params.join("&"))
}

/// One that names a torrent.
pub fn valid(r: &mut Rng) -> (Vec<u8>, Means) {
    let h = hash(r);
    let (t, sure) = text(&h, r);
    let m = around(r, Some(format!("xt=urn:btih:{t}")));
    (m.into_bytes(), if sure { Means::Torrent(h) } else { Means::Maybe(h) })
}

/// One that does not.
pub fn invalid(r: &mut Rng) -> Vec<u8> {
    let h = hash(r);
    let is_hex = r.one_in(2);
    let good = if is_hex { hex(&h) } else { base32(&h) };
    let topic = |t: &str| Some(format!("xt=urn:btih:{t}"));
    let s = match r.below(16) {
        0..=3 => {
            // A character that is none of the alphabet, anywhere.
            let mut c: Vec<char> = good.chars().collect();
            let at = match r.below(4) { 0 => 0, 1 => c.len() - 1, _ => r.below(c.len()) };
            let all: Vec<char> = if is_hex {
                ('!'..='~').chain(['\u{0}', '\t', '\u{7f}', ' ', '\u{e9}', '\u{660}', '\u{ff11}', '\u{1f600}']).filter(|c| !c.is_ascii_hexdigit() && *c != '&' && *c != '%').collect()
            } else {
                ('!'..='~')
                    .chain(['\u{0}', '\t', '\u{7f}', ' ', '\u{e9}', '\u{660}', '\u{ff21}', '\u{1f600}'])
                    .filter(|c| !(c.is_ascii_alphabetic() || ('2'..='7').contains(c)) && *c != '&' && *c != '%')
                    .collect()
            };
            c[at] = *r.pick(&all);
            let mut s: String = c.into_iter().collect();
            if r.one_in(2) {
                // Of the same length in bytes.
                while s.len() > good.len() {
                    let at = s.char_indices().rev().find(|(_, c)| c.is_ascii()).map(|(i, _)| i);
                    let Some(at) = at else { break };
                    s.remove(at);
                }
            }
            around(r, topic(&s))
        }
        4..=6 => {
            // Of another length.
            let n = match r.below(4) {
                0 => good.len() - 1,
                1 => good.len() + 1,
                2 => *r.pick(&[0, 1, 2, 16, 20, 31, 33, 39, 41, 64, 80]),
                _ => r.below(200),
            };
            let n = if n == 32 || n == 40 { n + 1 } else { n };
            let s: String = good.chars().cycle().take(n).collect();
            around(r, topic(&s))
        }
        7 => {
            let other = *r.pick(&["sha1", "btmh", "ed2k", "md5", "tree:tiger", "", "bti", "xbtih"]);
            around(r, Some(format!("xt=urn:{other}:{good}")))
        }
        8 => around(r, None),
        9 => {
            let m = around(r, topic(&good));
            let n = r.below("magnet:?".len());
            match r.below(5) {
                // Not a magnet by its beginning.
                0 => m[n + 1..].to_string(),
                1 => m.replacen("magnet:?", "magnet:", 1),
                2 => m.replacen("magnet:?", "magneto:?", 1),
                3 => m.replacen("magnet:?", "http://x/?", 1),
                _ => m.replacen("magnet:?", "", 1),
            }
        }
        10 => {
            let start = *r.pick(&["", "xt=", "xt", "xt=urn:btih", "urn:btih:", "t=urn:btih:", "xt=btih:", "=urn:btih:"]);
            around(r, Some(format!("{start}{good}")))
        }
        11 => good,
        12 => r.pick(&["", "magnet:", "magnet:?", "magnet:?&", "magnet:?&&&", "magnet:?xt", "magnet:?xt=", "magnet:?xt=urn:btih:", "m", "{\"magnet\":1}", "\u{0}", "xt=urn:btih:", "?", "&", "null", "%"]).to_string(),
        13 => {
            // Cut short.
            let m = format!("magnet:?xt=urn:btih:{good}");
            // A hash in hexadecimal digits cut to 32 can be one in base32.
            let n = r.below(m.len());
            m[..if n == m.len() - 8 { n - 1 } else { n }].to_string()
        }
        14 => String::from_utf8_lossy(&r.bytes(60)).into_owned(),
        _ => format!("d4:info{}:{good}e", good.len()),
    };
    s.into_bytes()
}
