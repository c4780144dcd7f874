//! What the preloaded shim wrote of a run of the program.
use std::path::{Path, PathBuf};

#[derive(Clone, Debug)]
pub struct Event {
    pub t: u64,
    pub tid: i64,
    pub op: String,
    pub path: String,
    pub a: i64,
    pub b: i64,
    pub rc: i64,
    pub data: Vec<u8>,
}

/// Reads a growing log as it is appended to.
pub struct Log {
    path: PathBuf,
    at: u64,
    rest: Vec<u8>,
    pub events: Vec<Event>,
}

fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?'));
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&out).into_owned()
}

impl Log {
    pub fn new(path: &Path) -> Log {
        Log { path: path.to_path_buf(), at: 0, rest: vec![], events: vec![] }
    }

    /// Whether there was anything new.
    pub fn poll(&mut self) -> bool {
        use std::io::{Read, Seek, SeekFrom};
        let Ok(mut f) = std::fs::File::open(&self.path) else { return false };
        if f.seek(SeekFrom::Start(self.at)).is_err() {
            return false;
        }
        let mut new = vec![];
        if f.read_to_end(&mut new).is_err() || new.is_empty() {
            return false;
        }
        self.at += new.len() as u64;
        self.rest.extend_from_slice(&new);
        let mut at = 0;
        while let Some(end) = self.rest[at..].iter().position(|b| *b == b'\n').map(|p| p + at) {
            let line = String::from_utf8_lossy(&self.rest[at..end]).into_owned();
            let f: Vec<&str> = line.split(' ').collect();
            let n: usize = f.get(7).and_then(|s| s.parse().ok()).unwrap_or(0);
            let next = if n > 0 { end + 1 + n + 1 } else { end + 1 };
            if next > self.rest.len() {
                break;
            }
            if f.len() == 8 {
                let num = |i: usize| f[i].parse::<i64>().unwrap_or(0);
                self.events.push(Event {
                    t: num(1) as u64,
                    tid: num(2),
                    op: f[0].to_string(),
                    path: decode(f[3]),
                    a: num(4),
                    b: num(5),
                    rc: num(6),
                    data: if n > 0 { self.rest[end + 1..end + 1 + n].to_vec() } else { vec![] },
                });
            }
            at = next;
        }
        self.rest.drain(..at);
        true
    }

    pub fn of<'a>(&'a self, op: &'a str) -> impl Iterator<Item = &'a Event> {
        self.events.iter().filter(move |e| e.op == op)
    }

    /// TCP connections opened and not closed yet.
    pub fn open_connections(&self) -> usize {
        let mut open = std::collections::HashSet::new();
        for e in &self.events {
            match e.op.as_str() {
                "CONN" => {
                    open.insert(e.a);
                }
                "CLOSE" => {
                    open.remove(&e.a);
                }
                _ => (),
            }
        }
        open.len()
    }
}
