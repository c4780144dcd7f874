//! Peers that speak the protocol, or do not, by script; everything they receive is recorded.
use crate::benc::{self, Ref, Val};
use crate::torrent::Torrent;
use crate::{now_ns, Rng};
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug)]
pub enum Ev {
    /// A connection was accepted.
    Open,
    /// The first 68 bytes.
    Handshake(Vec<u8>),
    KeepAlive,
    /// A message: its id and body.
    Msg(u8, Vec<u8>),
    /// Bytes that are no message: a length no client sends, or an unfinished one at the end of the connection.
    Malformed(Vec<u8>),
    /// The peer did something of note.
    Did(&'static str),
    /// Sent this block of this piece.
    Served { index: usize, begin: usize, length: usize },
    /// The connection ended, the other side having sent this many bytes.
    Close(usize),
}

#[derive(Clone, Debug)]
pub struct Event {
    pub t: u64,
    pub peer: usize,
    pub conn: usize,
    pub ev: Ev,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Hs {
    Right,
    /// A handshake for another torrent.
    Wrong,
    /// Nothing at all, and the connection stays open.
    Silent,
    /// Closes at once.
    Close,
    /// These bytes instead.
    Raw(Vec<u8>),
}

/// What a peer sends after its handshake, in order.
#[derive(Clone, Debug)]
pub enum Greet {
    Extended,
    Bitfield,
    Unchoke,
    Choke,
    KeepAlive,
    Msg(u8, Vec<u8>),
    Raw(Vec<u8>),
    Pause(u64),
    /// The same bytes that many times, with pauses of so many milliseconds.
    Flood(Vec<u8>, usize, u64),
    /// Waits until the client said it is interested.
    AwaitInterested,
}

/// How bytes are split on the way.
#[derive(Clone, Debug)]
pub enum Seg {
    Whole,
    /// Chunks of at most this size with a short pause in between, one in n of them a long one.
    Chunks { max: usize, pause_us: u64, long_ms: u64, long_one_in: usize },
    /// One message in some comes in so many parts, with pauses of so many milliseconds.
    Drip { parts: usize, ms: u64, one_in: usize },
}

/// What to do with a request.
#[derive(Clone, Debug)]
pub enum Act {
    Serve,
    /// Serve after a number of milliseconds.
    Late(u64),
    /// The right block with one bit changed.
    Corrupt,
    /// Only the first bytes of the block.
    Short(usize),
    /// The block and more.
    Long(usize),
    /// These messages first, and then the block.
    Before(Vec<u8>),
    /// These bytes instead.
    Raw(Vec<u8>),
    Choke,
    /// Chokes, and sends these bytes with it.
    ChokeAnd(Vec<u8>),
    /// Chokes, and unchokes after a number of milliseconds.
    Pulse(u64),
    /// The same bytes that many times, with pauses of so many milliseconds.
    Flood(Vec<u8>, usize, u64),
    Disconnect,
    /// No answer ever; the connection stays open.
    Stall,
    /// The start of the right answer, and then nothing.
    Torn(usize),
    /// The start of the right answer, and then the end of the connection.
    TornClose(usize),
}

/// A request a peer got: on its which connection with a handshake, which request there, and for what.
#[derive(Clone, Copy, Debug)]
pub struct Asked {
    pub conn: usize,
    pub nth: usize,
    pub index: usize,
    pub begin: usize,
    pub length: usize,
}

pub type Policy = Arc<dyn Fn(&Asked) -> Act + Send + Sync>;

/// The data of a block (piece, begin, length), for torrents too large to have their content made up.
pub type Source = Arc<dyn Fn(usize, usize, usize) -> Option<Vec<u8>> + Send + Sync>;

#[derive(Clone)]
pub struct Spec {
    pub torrent: Arc<Torrent>,
    pub hs: Hs,
    pub reserved: [u8; 8],
    pub greet: Vec<Greet>,
    /// What the extended handshake says; the values are sent as they are.
    pub ext: Val,
    pub metadata: Vec<u8>,
    pub seg: Seg,
    pub on_block: Policy,
    pub on_metadata: Policy,
    /// Unrelated messages come before one in this many answers; 0 for never.
    pub noise: usize,
    pub ip: [u8; 4],
    pub seed: u64,
    pub source: Option<Source>,
    /// What it has to say is on its way for up to so many milliseconds, one time in some.
    pub lag: Option<(u64, usize)>,
    /// Sent for any piece of metadata, however far out.
    pub endless: Option<Arc<Vec<u8>>>,
}

pub fn serve() -> Policy {
    Arc::new(|_| Act::Serve)
}

impl Spec {
    pub fn honest(torrent: &Arc<Torrent>) -> Spec {
        Spec {
            torrent: torrent.clone(),
            hs: Hs::Right,
            reserved: [0, 0, 0, 0, 0, 0x10, 0, 5],
            greet: vec![Greet::Extended, Greet::Bitfield, Greet::Unchoke],
            ext: ext_handshake(3, torrent.metadata.len()),
            metadata: torrent.metadata.clone(),
            seg: Seg::Whole,
            on_block: serve(),
            on_metadata: serve(),
            noise: 0,
            ip: [127, 0, 0, 1],
            seed: 1,
            source: None,
            lag: None,
            endless: None,
        }
    }

    /// Honest, in one of the many ways there are.
    pub fn honest_varied(torrent: &Arc<Torrent>, r: &mut Rng) -> Spec {
        let mut s = Spec::honest(torrent);
        let id = *r.pick(&[1, 2, 3, 20, 127, 128, 200, 255]);
        s.ext = ext_handshake(id, torrent.metadata.len());
        if r.one_in(2) {
            // More of what clients really say.
            s.ext.set("v", benc::bytes("Client 1.2 é"));
            s.ext.set("p", benc::int(r.below(65536) as u64));
            s.ext.set("reqq", benc::int(250));
            s.ext.set("yourip", benc::bytes(r.bytes(4)));
            s.ext.set("complete_ago", benc::int(7));
            if let Val::Dict(d) = &mut s.ext {
                if let Some(Val::Dict(m)) = d.get_mut(b"m".as_slice()) {
                    m.insert(b"ut_pex".to_vec(), benc::int(1 + id % 250));
                    m.insert(b"lt_donthave".to_vec(), benc::int(7));
                    m.insert(b"upload_only".to_vec(), benc::int(2));
                }
            }
        }
        let mut greet = vec![Greet::Extended, Greet::Unchoke];
        if r.one_in(2) {
            greet.swap(0, 1);
        }
        if !r.one_in(4) {
            greet.insert(r.below(3), Greet::Bitfield);
        }
        if r.one_in(3) {
            greet.insert(0, Greet::AwaitInterested);
        }
        for _ in 0..r.below(3) {
            let m = match r.below(6) {
                0 => Greet::KeepAlive,
                1 => Greet::Msg(9, r.bytes(2)),
                2 => Greet::Msg(4, r.bytes(4)),
                // What the extension protocol has besides its handshake.
                3 => Greet::Msg(20, aside(r)),
                _ => Greet::Msg(*r.pick(&[14, 15, 13, 21]), vec![]),
            };
            greet.insert(r.below(greet.len() + 1), m);
        }
        if r.one_in(5) {
            // Pieces announced one by one instead of, or on top of, in a bitfield.
            let n = r.range(5, 60);
            let all = (0..n).flat_map(|_| message(4, &(r.below(torrent.pieces()) as u32).to_be_bytes())).collect();
            greet.insert(r.below(greet.len() + 1), Greet::Raw(all));
        }
        // The client listens for a moment before it asks for a piece, unless there is something to hear.
        if torrent.pieces() > 40 || r.one_in(2) {
            greet.push(Greet::Msg(4, (r.below(torrent.pieces()) as u32).to_be_bytes().to_vec()));
        }
        s.greet = greet;
        s.reserved[7] = r.byte() & 7;
        // A connection is made for every piece: with many of them, quick ones.
        if torrent.pieces() <= 60 {
            s.seg = gen_seg(r);
            s.noise = *r.pick(&[0, 0, 2, 5]);
            if r.one_in(5) {
                // Far away.
                s.lag = Some((*r.pick(&[30, 120, 250, 450]), torrent.pieces().div_ceil(5) + r.below(4)));
            }
        }
        s.seed = r.u64();
        s
    }
}

/// Extension messages that are neither the handshake nor metadata: of peers exchanged, as the client announced it
/// understands these, or an addition to the handshake, which says only what is new.
fn aside(r: &mut Rng) -> Vec<u8> {
    let (id, v) = match r.below(4) {
        0 => (0, benc::dict([("upload_only", benc::int(1))])),
        1 => (0, benc::dict([("m", benc::dict([("ut_holepunch", benc::int(r.below(200) as u64))]))])),
        _ => {
            let n = r.below(30);
            let (added, flags) = (r.bytes(6 * n), r.bytes(n));
            (2, benc::dict([("added", benc::bytes(added)), ("added.f", benc::bytes(flags)), ("dropped", benc::bytes(b""))]))
        }
    };
    [vec![id], v.encode()].concat()
}

pub fn gen_seg(r: &mut Rng) -> Seg {
    match r.below(5) {
        0 => Seg::Chunks { max: 1 + r.below(3), pause_us: 20, long_ms: 0, long_one_in: 0 },
        1 => Seg::Chunks { max: 1500, pause_us: 100, long_ms: 0, long_one_in: 0 },
        2 => Seg::Chunks { max: 9000, pause_us: 300, long_ms: 150, long_one_in: 60 },
        _ => Seg::Whole,
    }
}

pub fn ext_handshake(id: u64, size: usize) -> Val {
    benc::dict([
        ("m", benc::dict([("ut_metadata", benc::int(id))])),
        ("metadata_size", benc::int(size as u64)),
    ])
}

pub fn message(id: u8, body: &[u8]) -> Vec<u8> {
    let mut m = (body.len() as u32 + 1).to_be_bytes().to_vec();
    m.push(id);
    m.extend_from_slice(body);
    m
}

pub fn piece_message(index: usize, begin: usize, block: &[u8]) -> Vec<u8> {
    let mut b = (index as u32).to_be_bytes().to_vec();
    b.extend_from_slice(&(begin as u32).to_be_bytes());
    b.extend_from_slice(block);
    message(7, &b)
}

pub fn metadata_message(id: u8, piece: usize, total: usize, data: &[u8]) -> Vec<u8> {
    let mut b = vec![id];
    b.extend_from_slice(
        &benc::dict([
            ("msg_type", benc::int(1)),
            ("piece", benc::int(piece as u64)),
            ("total_size", benc::int(total as u64)),
        ])
        .encode(),
    );
    b.extend_from_slice(data);
    message(20, &b)
}

pub fn handshake(hash: &[u8], reserved: &[u8; 8]) -> Vec<u8> {
    let mut h = vec![19];
    h.extend_from_slice(b"BitTorrent protocol");
    h.extend_from_slice(reserved);
    h.extend_from_slice(hash);
    h.extend_from_slice(b"-XX0001-abcdefghijkl");
    h
}

/// The piece asked for by a metadata request, if it is one.
pub fn metadata_request(body: &[u8]) -> Option<usize> {
    match benc::decode(body.get(1..)?) {
        Ref::Valid(v, _) if v.get("msg_type") == Some(&benc::int(0)) => match v.get("piece") {
            Some(Val::Int(n)) => Some(*n as usize),
            _ => None,
        },
        _ => None,
    }
}

pub type Events = Arc<Mutex<Vec<Event>>>;

pub struct Swarm {
    pub events: Events,
    pub addrs: Vec<SocketAddr>,
    stop: Arc<AtomicBool>,
    threads: Vec<std::thread::JoinHandle<()>>,
}

impl Swarm {
    pub fn start(specs: Vec<Spec>) -> std::io::Result<Swarm> {
        let mut s = Swarm { events: Events::default(), addrs: vec![], stop: Arc::default(), threads: vec![] };
        for (i, spec) in specs.into_iter().enumerate() {
            let listener = TcpListener::bind(SocketAddr::from((spec.ip, 0)))?;
            s.addrs.push(listener.local_addr()?);
            let (events, stop) = (s.events.clone(), s.stop.clone());
            s.threads.push(std::thread::spawn(move || {
                let conns = AtomicUsize::new(0);
                let shaken = Arc::new(AtomicUsize::new(0));
                while let Ok((stream, _)) = listener.accept() {
                    if stop.load(Ordering::Relaxed) {
                        return;
                    }
                    let conn = conns.fetch_add(1, Ordering::Relaxed);
                    let c = Conn {
                        spec: spec.clone(),
                        peer: i,
                        conn,
                        events: events.clone(),
                        stop: stop.clone(),
                        client_id: 1,
                        shaken: shaken.clone(),
                        got: 0,
                        rng: Rng::new(spec.seed ^ (conn as u64) << 32),
                    };
                    std::thread::spawn(move || c.run(stream));
                }
            }));
        }
        Ok(s)
    }

    pub fn events(&self) -> Vec<Event> {
        self.events.lock().unwrap().clone()
    }
}

impl Drop for Swarm {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::Relaxed);
        for a in &self.addrs {
            let _ = TcpStream::connect(a);
        }
        for t in self.threads.drain(..) {
            let _ = t.join();
        }
    }
}

struct Conn {
    spec: Spec,
    peer: usize,
    conn: usize,
    events: Events,
    stop: Arc<AtomicBool>,
    shaken: Arc<AtomicUsize>,
    /// The id the client chose for metadata messages.
    client_id: u8,
    got: usize,
    rng: Rng,
}

impl Conn {
    fn log(&self, ev: Ev) {
        self.events.lock().unwrap().push(Event { t: now_ns(), peer: self.peer, conn: self.conn, ev });
    }

    fn send(&mut self, s: &mut TcpStream, data: &[u8]) -> bool {
        match self.spec.seg.clone() {
            Seg::Whole => s.write_all(data).is_ok(),
            Seg::Chunks { max, pause_us, long_ms, long_one_in } => {
                // A large message in tiny chunks would take forever: only its start and its end are cut that fine.
                let fine = if max < 64 { 48 } else { usize::MAX };
                let mut at = 0;
                while at < data.len() {
                    let left = data.len() - at;
                    let n = if at >= fine && left > fine { left - fine } else { self.rng.range(1, max).min(left) };
                    if s.write_all(&data[at..at + n]).is_err() {
                        return false;
                    }
                    at += n;
                    if long_one_in > 0 && at < data.len() && self.rng.one_in(long_one_in) {
                        std::thread::sleep(Duration::from_millis(long_ms));
                    } else if at < data.len() {
                        std::thread::sleep(Duration::from_micros(pause_us));
                    }
                }
                true
            }
            Seg::Drip { parts, ms, one_in } => {
                if !self.rng.one_in(one_in) {
                    return s.write_all(data).is_ok();
                }
                // The first parts may well be single bytes.
                let mut cuts: Vec<usize> = (0..parts).map(|i| if i < 8 { i } else { self.rng.below(data.len()) }).collect();
                cuts.retain(|c| (1..data.len()).contains(c));
                cuts.extend([0, data.len()]);
                cuts.sort();
                cuts.dedup();
                for w in cuts.windows(2) {
                    if w[0] > 0 {
                        std::thread::sleep(Duration::from_millis(ms));
                    }
                    if s.write_all(&data[w[0]..w[1]]).is_err() {
                        return false;
                    }
                }
                true
            }
        }
    }

    /// Exactly n bytes, or how many there were before the end.
    fn read(&mut self, s: &mut TcpStream, n: usize) -> Result<Vec<u8>, Vec<u8>> {
        let mut buf = vec![0; n];
        let mut at = 0;
        while at < n {
            // The client holds a message back until the one before it was acknowledged.
            use std::os::fd::AsRawFd;
            let on: libc::c_int = 1;
            unsafe {
                libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &on as *const _ as *const _, 4);
            }
            match s.read(&mut buf[at..]) {
                Ok(0) => break,
                Ok(k) => at += k,
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                    if self.stop.load(Ordering::Relaxed) {
                        break;
                    }
                }
                Err(_) => break,
            }
        }
        self.got += at;
        if at == n {
            Ok(buf)
        } else {
            buf.truncate(at);
            Err(buf)
        }
    }

    /// Reads and records until the connection ends.
    fn drain(&mut self, s: &mut TcpStream) {
        while self.next(s).is_some() {}
    }

    fn next(&mut self, s: &mut TcpStream) -> Option<(Option<u8>, Vec<u8>)> {
        let prefix = match self.read(s, 4) {
            Ok(p) => p,
            Err(p) => {
                if !p.is_empty() {
                    self.log(Ev::Malformed(p));
                }
                return None;
            }
        };
        let n = u32::from_be_bytes(prefix[..].try_into().unwrap()) as usize;
        if n == 0 {
            self.log(Ev::KeepAlive);
            return Some((None, vec![]));
        }
        if n > 1 << 20 {
            self.log(Ev::Malformed(prefix));
            return None;
        }
        match self.read(s, n) {
            Ok(m) => {
                if m.len() > 1 && m[..2] == [20, 0] {
                    if let Ref::Valid(v, _) = benc::decode(&m[2..]) {
                        if let Some(Val::Int(n @ 1..=255)) = v.get("m").and_then(|m| m.get("ut_metadata")) {
                            self.client_id = *n as u8;
                        }
                    }
                }
                self.log(Ev::Msg(m[0], m[1..].to_vec()));
                Some((Some(m[0]), m[1..].to_vec()))
            }
            Err(mut m) => {
                let mut all = prefix;
                all.append(&mut m);
                self.log(Ev::Malformed(all));
                None
            }
        }
    }

    fn run(mut self, mut s: TcpStream) {
        let _ = s.set_nodelay(true);
        let _ = s.set_read_timeout(Some(Duration::from_millis(300)));
        let _ = s.set_write_timeout(Some(Duration::from_secs(30)));
        self.log(Ev::Open);
        self.talk(&mut s);
        let got = self.got;
        self.log(Ev::Close(got));
    }

    fn talk(&mut self, s: &mut TcpStream) {
        if self.spec.hs == Hs::Close {
            return;
        }
        match self.read(s, 68) {
            Ok(h) => self.log(Ev::Handshake(h)),
            Err(h) => {
                if !h.is_empty() {
                    self.log(Ev::Malformed(h));
                }
                return;
            }
        }
        let nth = self.shaken.fetch_add(1, Ordering::SeqCst);
        let reply = match &self.spec.hs {
            Hs::Right => handshake(&self.spec.torrent.hash, &self.spec.reserved),
            Hs::Wrong => {
                let mut h = self.spec.torrent.hash;
                h[self.rng.below(20)] ^= 1 << self.rng.below(8);
                handshake(&h, &self.spec.reserved)
            }
            Hs::Raw(b) => b.clone(),
            _ => return self.drain(s),
        };
        self.travel();
        if !self.send(s, &reply) {
            return self.drain(s);
        }
        if self.spec.hs == Hs::Wrong {
            // Goes on as if nothing was wrong.
            std::thread::sleep(Duration::from_millis(3));
        }
        for g in self.spec.greet.clone() {
            let ok = match g {
                Greet::Extended => {
                    let mut b = vec![0];
                    b.extend_from_slice(&self.spec.ext.encode());
                    let m = message(20, &b);
                    self.send(s, &m)
                }
                Greet::Bitfield => {
                    let n = self.spec.torrent.pieces();
                    let mut b = vec![0xff; n.div_ceil(8)];
                    if n % 8 != 0 {
                        *b.last_mut().unwrap() = 0xff << (8 - n % 8);
                    }
                    self.send(s, &message(5, &b))
                }
                Greet::Unchoke => self.send(s, &message(1, &[])),
                Greet::Choke => self.send(s, &message(0, &[])),
                Greet::KeepAlive => self.send(s, &[0, 0, 0, 0]),
                Greet::Msg(id, b) => self.send(s, &message(id, &b)),
                Greet::Raw(b) => self.send(s, &b),
                Greet::Flood(b, n, ms) => self.flood(s, &b, n, ms),
                Greet::Pause(ms) => {
                    std::thread::sleep(Duration::from_millis(ms));
                    true
                }
                Greet::AwaitInterested => loop {
                    match self.next(s) {
                        None => return,
                        Some((Some(2), _)) => {
                            self.travel();
                            break true;
                        }
                        _ => (),
                    }
                },
            };
            if !ok {
                return self.drain(s);
            }
        }
        let mut asked = 0;
        while let Some((id, body)) = self.next(s) {
            let go_on = match id {
                Some(6) if body.len() == 12 => {
                    let n = |i: usize| u32::from_be_bytes(body[i..i + 4].try_into().unwrap()) as usize;
                    let a = Asked { conn: nth, nth: asked, index: n(0), begin: n(4), length: n(8) };
                    asked += 1;
                    self.answer(s, a, true)
                }
                Some(20) => match metadata_request(&body) {
                    Some(piece) => {
                        let a = Asked { conn: nth, nth: asked, index: piece, begin: 0, length: 0 };
                        asked += 1;
                        self.answer(s, a, false)
                    }
                    None => true,
                },
                _ => true,
            };
            if !go_on {
                return;
            }
        }
    }

    fn travel(&mut self) {
        if let Some((ms, one_in)) = self.spec.lag {
            if self.rng.one_in(one_in) {
                std::thread::sleep(Duration::from_millis(ms / 2 + self.rng.below(ms as usize / 2 + 1) as u64));
            }
        }
    }

    fn flood(&mut self, s: &mut TcpStream, b: &[u8], n: usize, ms: u64) -> bool {
        for _ in 0..n {
            if self.stop.load(Ordering::Relaxed) || s.write_all(b).is_err() {
                self.log(Ev::Did("was not listened to any longer"));
                return false;
            }
            if ms > 0 {
                std::thread::sleep(Duration::from_millis(ms));
            }
        }
        self.log(Ev::Did("was listened to until the end"));
        true
    }

    fn answer(&mut self, s: &mut TcpStream, a: Asked, block: bool) -> bool {
        let t = self.spec.torrent.clone();
        let data: Vec<u8> = if block {
            let found = match &self.spec.source {
                Some(f) => f(a.index, a.begin, a.length),
                None if a.index < t.pieces() => {
                    t.piece(a.index).get(a.begin..a.begin.saturating_add(a.length)).map(<[u8]>::to_vec)
                }
                None => None,
            };
            match found {
                Some(d) if a.length <= 131072 => d,
                // What real peers do with a request that makes no sense.
                _ => {
                    self.log(Ev::Did("dropped an illegal request"));
                    return false;
                }
            }
        } else if let Some(d) = &self.spec.endless {
            d.to_vec()
        } else {
            let m = &self.spec.metadata;
            if a.index * 16384 >= m.len() {
                self.log(Ev::Did("rejected a metadata piece"));
                let mut b = vec![self.client_id];
                b.extend_from_slice(&benc::dict([("msg_type", benc::int(2)), ("piece", benc::int(a.index as u64))]).encode());
                return self.send(s, &message(20, &b));
            }
            m[a.index * 16384..m.len().min((a.index + 1) * 16384)].to_vec()
        };
        let (id, total) = (self.client_id, self.spec.metadata.len());
        let wrap = |d: &[u8]| {
            if block {
                piece_message(a.index, a.begin, d)
            } else {
                metadata_message(id, a.index, total, d)
            }
        };
        self.travel();
        let act = if block { (self.spec.on_block)(&a) } else { (self.spec.on_metadata)(&a) };
        if self.spec.noise > 0 && self.rng.one_in(self.spec.noise) {
            let noise = match self.rng.below(5) {
                0 => vec![0, 0, 0, 0],
                // One, or a burst, as of a peer that gets many pieces itself.
                1 => {
                    let n = if self.rng.one_in(3) { self.rng.range(5, 50) } else { 1 };
                    (0..n).flat_map(|_| message(4, &self.rng.bytes(4))).collect()
                }
                2 => message(9, &[1, 2]),
                3 => message(20, &aside(&mut self.rng)),
                _ => message(*self.rng.pick(&[13, 14, 15, 17, 21]), &[]),
            };
            if !self.send(s, &noise) {
                return false;
            }
        }
        let served = Ev::Served { index: a.index, begin: a.begin, length: a.length };
        match act {
            Act::Serve | Act::Late(_) | Act::Before(_) => {
                if let Act::Late(ms) = act {
                    std::thread::sleep(Duration::from_millis(ms));
                }
                let mut m = vec![];
                if let Act::Before(b) = act {
                    m = b;
                }
                m.extend_from_slice(&wrap(&data));
                if block {
                    self.log(served);
                }
                self.send(s, &m)
            }
            Act::Corrupt => {
                let mut d = data;
                if !d.is_empty() {
                    let i = self.rng.below(d.len());
                    d[i] ^= 1 << self.rng.below(8);
                }
                self.log(Ev::Did("corrupted"));
                let m = wrap(&d);
                self.send(s, &m)
            }
            Act::Short(n) => {
                self.log(Ev::Did("shortened"));
                let m = wrap(&data[..n.min(data.len())]);
                self.send(s, &m)
            }
            Act::Long(n) => {
                self.log(Ev::Did("lengthened"));
                let mut d = data;
                d.extend(std::iter::repeat(0xaa).take(n));
                let m = wrap(&d);
                self.send(s, &m)
            }
            Act::Raw(b) => {
                self.log(Ev::Did("sent garbage"));
                self.send(s, &b)
            }
            Act::Choke => {
                self.log(Ev::Did("choked"));
                self.send(s, &message(0, &[]))
            }
            Act::ChokeAnd(b) => {
                self.log(Ev::Did("choked"));
                self.send(s, &[message(0, &[]), b].concat())
            }
            Act::Pulse(ms) => {
                self.log(Ev::Did("choked for a moment"));
                let ok = self.send(s, &message(0, &[]));
                std::thread::sleep(Duration::from_millis(ms));
                ok && self.send(s, &message(1, &[]))
            }
            Act::Flood(b, n, ms) => self.flood(s, &b, n, ms),
            Act::Disconnect => {
                self.log(Ev::Did("disconnected"));
                false
            }
            Act::Stall => {
                self.log(Ev::Did("stalled"));
                true
            }
            Act::Torn(n) => {
                self.log(Ev::Did("tore an answer"));
                let m = wrap(&data);
                let n = n.min(m.len() - 1);
                self.send(s, &m[..n])
            }
            Act::TornClose(n) => {
                self.log(Ev::Did("tore an answer and left"));
                let m = wrap(&data);
                let n = n.min(m.len() - 1);
                self.send(s, &m[..n]);
                false
            }
        }
    }
}
