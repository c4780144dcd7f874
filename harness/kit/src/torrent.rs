//! Torrents made up for a case: their content, their metadata, and where every byte belongs.
use crate::benc::{self, Val};
use crate::{sha1, Rng};

#[derive(Clone, Debug)]
pub struct File {
    pub path: Vec<String>,
    pub length: usize,
}

#[derive(Clone, Debug)]
pub struct Torrent {
    pub multi: bool,
    pub name: String,
    pub files: Vec<File>,
    pub piece_length: usize,
    /// All files, one after the other.
    pub content: Vec<u8>,
    /// The info dictionary, as a value and as the bytes whose hash names the torrent.
    pub info: Val,
    pub metadata: Vec<u8>,
    pub hash: [u8; 20],
}

impl Torrent {
    pub fn pieces(&self) -> usize {
        self.content.len().div_ceil(self.piece_length)
    }

    pub fn piece(&self, i: usize) -> &[u8] {
        let end = self.content.len().min((i + 1) * self.piece_length);
        &self.content[i * self.piece_length..end]
    }

    /// Name of a file of the torrent relative to the download folder, and its content.
    pub fn expected(&self) -> Vec<(String, &[u8])> {
        let mut at = 0;
        self.files
            .iter()
            .map(|f| {
                let c = &self.content[at..at + f.length];
                at += f.length;
                (f.path.join("/"), c)
            })
            .collect()
    }

    /// Which pieces have bytes in a file: its (first, last + 1).
    pub fn pieces_of_file(&self, i: usize) -> std::ops::Range<usize> {
        let start: usize = self.files[..i].iter().map(|f| f.length).sum();
        let end = start + self.files[i].length;
        if start == end {
            return 0..0;
        }
        start / self.piece_length..(end - 1) / self.piece_length + 1
    }

    pub fn magnet(&self, r: &mut Rng) -> String {
        magnet(&self.hash, r)
    }

    pub fn describe(&self) -> String {
        format!(
            "{} bytes in {} pieces of {} over files {:?}",
            self.content.len(),
            self.pieces(),
            self.piece_length,
            self.files.iter().map(|f| f.length).take(8).collect::<Vec<_>>()
        )
    }

    /// The metadata after changing its info dictionary.
    pub fn rebuilt(&self, edit: impl FnOnce(&mut Val)) -> Torrent {
        let mut t = self.clone();
        edit(&mut t.info);
        t.metadata = t.info.encode();
        t.hash = sha1(&t.metadata);
        t
    }
}

pub fn build(multi: bool, name: &str, files: Vec<File>, piece_length: usize, content: Vec<u8>, extra: bool) -> Torrent {
    let mut pieces = vec![];
    for p in content.chunks(piece_length) {
        pieces.extend_from_slice(&sha1(p));
    }
    let mut info = benc::dict([
        ("name", benc::bytes(name)),
        ("piece length", benc::int(piece_length as u64)),
        ("pieces", benc::bytes(&pieces)),
    ]);
    if multi {
        let list = files
            .iter()
            .map(|f| {
                benc::dict([
                    ("length", benc::int(f.length as u64)),
                    ("path", Val::List(f.path.iter().map(benc::bytes).collect())),
                ])
            })
            .collect();
        info.set("files", Val::List(list));
    } else {
        info.set("length", benc::int(content.len() as u64));
    }
    if extra {
        // Keys this client has no use for, on both sides of the ones it knows, are part of the hash all the same.
        info.set("private", benc::int(1));
        info.set("source", benc::bytes("somewhere"));
        info.set("attr", benc::bytes("x"));
        info.set("zz", Val::List(vec![benc::int(7), benc::dict([("k", benc::bytes([0xff, 0x00]))])]));
    }
    let metadata = info.encode();
    let hash = sha1(&metadata);
    Torrent { multi, name: name.to_string(), files, piece_length, content, info, metadata, hash }
}

pub struct Shape {
    pub max_pieces: usize,
    pub max_content: usize,
    pub max_files: usize,
    pub empty_files: bool,
}

impl Default for Shape {
    fn default() -> Shape {
        Shape { max_pieces: 24, max_content: 400_000, max_files: 8, empty_files: true }
    }
}

fn gen_name(r: &mut Rng, i: usize) -> String {
    let base = *r.pick(&["a", "data", "file one", "x.bin", "Ünï", "漢字", "..hidden", "a..b", "...", "-rf", "%2e%2e", "c:d", "été.txt", "tab\tname"]);
    format!("{base}{i}")
}

/// Names that are easily taken for one another, none of which is also a folder of the others.
fn alike_name(i: usize) -> Vec<String> {
    const ALIKE: &[&str] = &[
        "name", "Name", "NAME", "name ", " name", "name.", "name..", ".name", "name~", "na me", "na_me", "na-me", "na%20me", "na+me",
        "n\u{e4}me", "na\u{308}me", "n\u{c4}me", "dir/name", "Dir/name", "dir/Name", "dir /name", "dir./name", ".dir/name", "dir/dir/name", "name.a",
        "name.A", "name.a.b", "name.txt", "name.txt ", "nam", "names",
    ];
    let mut path: Vec<String> = ALIKE[i % ALIKE.len()].split('/').map(String::from).collect();
    for _ in 0..i / ALIKE.len() {
        path.insert(0, "more".into());
    }
    path
}

pub fn gen(r: &mut Rng, shape: &Shape) -> Torrent {
    let t = gen_plain(r, shape);
    if !r.one_in(9) {
        return t;
    }
    // Metadata of many pieces, or of a size next to a multiple of a piece's: torrents of thousands of files have it.
    let target = match r.below(3) {
        0 => r.range(1, 40) * 16384,
        1 => (r.range(1, 40) * 16384 + 2).saturating_sub(r.below(5)),
        _ => r.range(2000, 600_000),
    };
    padded(&t, target)
}

/// With an unknown key that makes the metadata that long, if it can.
pub fn padded(t: &Torrent, target: usize) -> Torrent {
    let (mut n, mut out) = (target.saturating_sub(t.metadata.len() + 16), t.clone());
    for _ in 0..4 {
        out = t.rebuilt(|i| i.set("padding", benc::bytes(vec![b'p'; n])));
        n = (n + target).saturating_sub(out.metadata.len());
    }
    out
}

fn gen_plain(r: &mut Rng, shape: &Shape) -> Torrent {
    let piece_length = match r.below(10) {
        0 => 16384,
        1 => 32768,
        2 => 65536,
        3 => 16384 + r.range(1, 16383),
        4 => r.range(1, 300),
        5 => r.range(300, 16383),
        6 => 16383,
        7 => 16385,
        8 => 49152 + r.below(2),
        _ => 1 << r.range(8, 17),
    };
    let room = shape.max_content.min(piece_length.saturating_mul(shape.max_pieces)).max(1);
    let total = match r.below(6) {
        0 => (room / piece_length).max(1).min(r.range(1, shape.max_pieces)) * piece_length,
        1 => ((room / piece_length).max(1).min(r.range(1, shape.max_pieces)) * piece_length).saturating_sub(1).max(1),
        2 => (room / piece_length).max(1).min(r.range(1, shape.max_pieces)) * piece_length + 1,
        3 => r.range(1, room.min(piece_length)),
        _ => r.range(1, room),
    };
    let content = r.bytes(total);
    let multi = !r.one_in(4);
    let tag = r.below(1000);
    if !multi {
        let name = gen_name(r, tag);
        let files = vec![File { path: vec![name.clone()], length: total }];
        return build(false, &name, files, piece_length, content, r.one_in(2));
    }
    // Cut at random places, at piece boundaries, next to them, and at the same place twice for empty files.
    let n = r.range(1, shape.max_files);
    let mut cuts: Vec<usize> = (1..n)
        .map(|_| match r.below(5) {
            0 => (r.below(total / piece_length + 1) * piece_length).min(total),
            1 => (r.below(total / piece_length + 1) * piece_length + 1).min(total),
            2 => r.below(total.min(40) + 1),
            _ => r.below(total + 1),
        })
        .collect();
    if shape.empty_files && r.one_in(3) {
        cuts.push(*r.pick(&[0, total, total / 2]));
        if let Some(c) = cuts.first().copied() {
            cuts.push(c);
        }
    }
    cuts.push(0);
    cuts.push(total);
    cuts.sort();
    if !shape.empty_files {
        cuts.dedup();
    }
    let (alike, deep, from) = (r.one_in(6), r.one_in(12), r.below(40));
    let files: Vec<File> = cuts
        .windows(2)
        .enumerate()
        .map(|(i, w)| {
            let depth = if deep { r.below(25) } else { r.below(3) };
            let mut path: Vec<String> = (0..depth).map(|_| format!("dir{}", r.below(3))).collect();
            if alike {
                path = alike_name(i + from);
            } else {
                path.push(gen_name(r, tag + i));
            }
            File { path, length: w[1] - w[0] }
        })
        .filter(|f| shape.empty_files || f.length > 0)
        .collect();
    // The first and last window may be empty files even when cuts did not ask for one.
    let name = gen_name(r, tag);
    build(true, &name, files, piece_length, content, r.one_in(2))
}

pub fn base32(data: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
    let mut out = String::new();
    let (mut acc, mut bits) = (0u32, 0);
    for &b in data {
        acc = acc << 8 | b as u32;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            out.push(A[(acc >> bits) as usize & 31] as char);
        }
        acc &= (1 << bits) - 1;
    }
    if bits > 0 {
        out.push(A[(acc << (5 - bits)) as usize & 31] as char);
    }
    out
}

/// A magnet with this info hash, one way or another.
pub fn magnet(hash: &[u8; 20], r: &mut Rng) -> String {
    let text = match r.below(4) {
        0 => base32(hash),
        1 => crate::hex(hash).to_uppercase(),
        2 => crate::hex(hash).chars().map(|c| if r.one_in(2) { c.to_ascii_uppercase() } else { c }).collect(),
        _ => crate::hex(hash),
    };
    let mut params: Vec<String> = vec![];
    for p in ["dn=some+name", "tr=udp%3A%2F%2Ftracker.example%3A80", "xl=12345", "ws=http%3A%2F%2Fx%2Fy", "kt=a+b", "x.pe=1.2.3.4:5"] {
        if r.one_in(3) {
            params.push(p.to_string());
        }
    }
    let at = r.below(params.len() + 1);
    params.insert(at, format!("xt=urn:btih:{text}"));
    format!("magnet:?{}", params.join("&"))
}
