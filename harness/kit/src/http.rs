//! HTTP trackers: what they answer, what it means, and what is asked of them.
use crate::benc::{self, Ref, Val};
use crate::{hex, show, Rng};
use std::io::{Read, Write};
use std::net::TcpListener;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// What the server does, and what it means.
#[derive(Clone, Debug)]
pub enum Means {
    /// These peers.
    Peers(Vec<String>),
    /// No list of peers: an error.
    Error,
    /// Up to the program.
    Open,
}

#[derive(Clone, Debug)]
pub struct Answer {
    pub bytes: Vec<u8>,
    /// Sent in two parts, the second after so long.
    pub pause: Option<(usize, Duration)>,
    /// Keeps the connection for long after.
    pub hang: bool,
}

pub fn entries(b: &[u8]) -> Vec<String> {
    b.chunks_exact(6).map(|c| format!("{}.{}.{}.{}:{}", c[0], c[1], c[2], c[3], u16::from_be_bytes([c[4], c[5]]))).collect()
}

pub fn http(body: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut out = b"HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\n".to_vec();
    match r.below(3) {
        0 => {
            out.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            let mut at = 0;
            while at < body.len() {
                let n = r.range(1, 700).min(body.len() - at);
                out.extend(format!("{n:x}\r\n").as_bytes());
                out.extend(&body[at..at + n]);
                out.extend(b"\r\n");
                at += n;
            }
            out.extend(b"0\r\n\r\n");
        }
        1 => {
            out.extend(b"Connection: close\r\n\r\n");
            out.extend(body);
        }
        _ => {
            out.extend(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
            out.extend(body);
        }
    }
    out
}

pub fn dictionary(peers: Val, r: &mut Rng) -> Val {
    let mut d = benc::dict([("peers", peers)]);
    if r.one_in(2) {
        d.set("interval", benc::int(1800));
    }
    if r.one_in(3) {
        d.set("complete", benc::gen_val(r, 2));
    }
    if r.one_in(3) {
        d.set("tracker id", benc::bytes(r.bytes(9)));
    }
    if r.one_in(4) {
        d.set("peers6", benc::bytes(r.bytes(18)));
    }
    d
}

/// Entries, some of them special, or the same as another.
pub fn compact(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    let odd = r.one_in(2);
    for i in 0..n {
        let mut e = r.bytes(6);
        if odd && r.one_in(3) {
            match r.below(6) {
                0 => e[..4].copy_from_slice(&[0; 4]),
                1 => e[..4].copy_from_slice(*r.pick(&[&[127, 0, 0, 1], &[255; 4], &[10, 0, 0, 1], &[192, 168, 0, 255], &[224, 0, 0, 1], &[0, 0, 0, 9], &[1, 0, 0, 0]])),
                2 => e[4..].copy_from_slice(*r.pick(&[&[0u8, 0], &[0, 1], &[255, 255], &[0, 80], &[1, 0], &[0, 255], &[3, 255], &[4, 0], &[127, 255], &[128, 0]])),
                3 => e = vec![0; 6],
                4 => e = vec![255; 6],
                _ if i > 0 => {
                    let j = r.below(i) * 6;
                    e = out[j..j + 6].to_vec();
                    if r.one_in(2) {
                        e[5] ^= 1;
                    }
                }
                _ => (),
            }
        }
        out.extend(e);
    }
    out
}

/// An answer that lists these.
pub fn of_peers(compact: &[u8], r: &mut Rng) -> (String, Answer, Means) {
    let body = dictionary(benc::bytes(compact), r).encode();
    let bytes = http(&body, r);
    let pause = r.one_in(3).then(|| (r.range(1, bytes.len() - 1), Duration::from_millis(30)));
    (format!("{} peers", compact.len() / 6), Answer { bytes, pause, hang: false }, Means::Peers(entries(compact)))
}

pub fn answer(r: &mut Rng) -> (String, Answer, Means) {
    let whole = |bytes: Vec<u8>| Answer { bytes, pause: None, hang: false };
    match r.below(14) {
        0..=4 => {
            let n = *r.pick(&[0, 1, 1, 2, 3, 50, 200, 3000]);
            let b = compact(r, n);
            of_peers(&b, r)
        }
        5 => {
            // A list that does not come out even.
            let (n, m) = (r.below(20), r.range(1, 5));
            let b = r.bytes(n * 6 + m);
            let body = dictionary(benc::bytes(&b), r).encode();
            (format!("{n} peers and {m} bytes"), whole(http(&body, r)), Means::Open)
        }
        6 => {
            let d = benc::dict([("failure reason", benc::bytes("no such torrent"))]);
            ("a failure".into(), whole(http(&d.encode(), r)), Means::Error)
        }
        7 => {
            let d = dictionary(benc::int(r.u64()), r);
            ("a number for peers".into(), whole(http(&d.encode(), r)), Means::Error)
        }
        8 => {
            let code = *r.pick(&["400 Bad Request", "404 Not Found", "500 Oh", "503 Later", "418 I'm a teapot"]);
            let body = dictionary(benc::bytes(r.bytes(12)), r).encode();
            (code.to_string(), whole([format!("HTTP/1.1 {code}\r\nContent-Length: {}\r\n\r\n", body.len()).as_bytes(), &body].concat()), Means::Error)
        }
        9 => {
            let n = r.below(200);
            let bytes = r.bytes(n);
            ("nothing of HTTP".into(), whole(bytes), Means::Error)
        }
        10 => {
            // Malformed.
            let n = r.range(1, 30) * 6;
            let mut body = dictionary(benc::bytes(r.bytes(n)), r).encode();
            let means = match r.below(3) {
                0 => {
                    body.truncate(r.below(body.len()));
                    Means::Error
                }
                1 => {
                    body = r.bytes(60);
                    if matches!(benc::decode(&body), Ref::Invalid) { Means::Error } else { Means::Open }
                }
                _ => {
                    let at = r.below(body.len());
                    body[at] ^= 1 << r.below(8);
                    match benc::decode(&body) {
                        Ref::Invalid => Means::Error,
                        _ => Means::Open,
                    }
                }
            };
            (format!("malformed: {}", show(&body)), whole(http(&body, r)), means)
        }
        11 => {
            // Longer than it is.
            let body = dictionary(benc::bytes(r.bytes(60)), r).encode();
            let mut bytes = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", body.len()).into_bytes();
            bytes.extend(&body[..r.below(body.len())]);
            ("cut off".into(), whole(bytes), Means::Error)
        }
        12 => {
            let body = dictionary(benc::bytes(r.bytes(60)), r).encode();
            let bytes = [format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", body.len()).as_bytes(), &body].concat();
            let at = r.below(bytes.len() - 1);
            // Not in the time anyone waits.
            ("never finished".into(), Answer { bytes: bytes[..at].to_vec(), pause: None, hang: true }, Means::Error)
        }
        _ => ("no answer".into(), Answer { bytes: vec![], pause: None, hang: r.one_in(2) }, Means::Error),
    }
}

/// A query's parameters, decoded.
pub fn parameters(q: &str) -> Vec<(String, Vec<u8>)> {
    q.split('&')
        .map(|p| {
            let (k, v) = p.split_once('=').unwrap_or((p, ""));
            let b = v.as_bytes();
            let (mut out, mut i) = (vec![], 0);
            while i < b.len() {
                match (b[i], b.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok())) {
                    (b'%', Some(n)) => {
                        out.push(n);
                        i += 3;
                    }
                    (c, _) => {
                        out.push(c);
                        i += 1;
                    }
                }
            }
            (k.to_string(), out)
        })
        .collect()
}

/// What is wrong with a request for the peers of a torrent.
pub fn request_flaw(head: &str, path: &str, query: &str, hash: &[u8]) -> Option<String> {
    let line = head.lines().next().unwrap_or("");
    let mut f = line.split(' ');
    let (method, target) = (f.next().unwrap_or(""), f.next().unwrap_or(""));
    let (p, q) = target.split_once('?').unwrap_or((target, ""));
    let params = parameters(q);
    let want_path = if path.is_empty() { "/" } else { path };
    let of = |k: &str| params.iter().filter(|p| p.0 == k).map(|p| p.1.clone()).collect::<Vec<_>>();
    if method != "GET" || p != want_path {
        return Some(format!("the request is {line:?}"));
    }
    if of("info_hash") != [hash] {
        return Some(format!("the info hash in {line:?} is {:?}", of("info_hash").iter().map(|h| hex(h)).collect::<Vec<_>>()));
    }
    if of("peer_id").len() != 1 || of("peer_id")[0].len() != 20 {
        return Some(format!("the peer id in {line:?} is none"));
    }
    for p in query.split('&').filter(|p| !p.is_empty()) {
        if !q.split('&').any(|have| have == p) {
            return Some(format!("{p:?} is lost in {line:?}"));
        }
    }
    if line.contains('#') || !(line.ends_with("HTTP/1.1") || line.ends_with("HTTP/1.0")) {
        return Some(format!("the request is {line:?}"));
    }
    None
}

/// One tracker, on a port of its own.
pub struct Server {
    pub port: u16,
    seen: Arc<Mutex<Vec<String>>>,
    stop: Arc<AtomicBool>,
    thread: Option<std::thread::JoinHandle<()>>,
}

impl Server {
    /// The script makes an answer of the head of a request.
    pub fn start(mut script: impl FnMut(&str) -> Answer + Send + 'static) -> std::io::Result<Server> {
        let listener = TcpListener::bind("127.0.0.1:0")?;
        let port = listener.local_addr()?.port();
        listener.set_nonblocking(true)?;
        let (seen, stop) = (Arc::new(Mutex::new(vec![])), Arc::new(AtomicBool::new(false)));
        let (seen2, stop2) = (seen.clone(), stop.clone());
        let thread = std::thread::spawn(move || {
            let mut kept = vec![];
            while !stop2.load(Ordering::Relaxed) {
                let Ok((mut s, _)) = listener.accept() else {
                    std::thread::sleep(Duration::from_millis(2));
                    continue;
                };
                s.set_nonblocking(false).ok();
                s.set_read_timeout(Some(Duration::from_secs(2))).ok();
                let (mut head, mut b) = (vec![], [0; 2000]);
                while !head.windows(4).any(|w| w == b"\r\n\r\n") {
                    match s.read(&mut b) {
                        Ok(n) if n > 0 => head.extend_from_slice(&b[..n]),
                        _ => break,
                    }
                }
                // Whoever runs out of time before asking, asks for nothing.
                if !head.windows(4).any(|w| w == b"\r\n\r\n") {
                    continue;
                }
                let head = String::from_utf8_lossy(&head).into_owned();
                let a = script(&head);
                seen2.lock().unwrap().push(head);
                let (at, pause) = a.pause.unwrap_or((0, Duration::ZERO));
                let _ = s.write_all(&a.bytes[..at]);
                std::thread::sleep(pause);
                let _ = s.write_all(&a.bytes[at..]);
                if a.hang {
                    kept.push(s);
                }
            }
        });
        Ok(Server { port, seen, stop, thread: Some(thread) })
    }

    /// The heads of all complete requests so far.
    pub fn seen(&self) -> Vec<String> {
        self.seen.lock().unwrap().clone()
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::Relaxed);
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}
