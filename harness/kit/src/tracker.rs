//! The trackers the program knows, played by scripts on local UDP sockets.
use crate::now_ns;
use std::net::{SocketAddr, UdpSocket};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// The addresses announced in the program.
pub const ADDRESSES: [&str; 18] = [
    "93.158.213.92:1337",
    "102.223.180.235:6969",
    "23.134.88.6:1337",
    "193.189.100.187:6969",
    "185.243.218.213:80",
    "91.216.110.52:451",
    "208.83.20.20:6969",
    "23.157.120.14:6969",
    "156.234.201.18:80",
    "185.102.219.163:6969",
    "185.50.159.149:6969",
    "209.141.59.16:6969",
    "38.7.201.142:6969",
    "73.170.204.100:6969",
    "176.31.250.174:6969",
    "82.156.24.219:6969",
    "83.102.180.21:80",
    "185.230.4.150:1337",
];

/// A datagram received by a tracker.
#[derive(Clone, Debug)]
pub struct Req {
    pub t: u64,
    pub tracker: usize,
    pub from: SocketAddr,
    /// How many datagrams from the same address this tracker had before.
    pub nth: usize,
    pub data: Vec<u8>,
}

impl Req {
    pub fn is_connect(&self) -> bool {
        self.data.len() == 16 && self.data[8..12] == [0, 0, 0, 0]
    }
    pub fn is_announce(&self) -> bool {
        self.data.len() >= 98 && self.data[8..12] == [0, 0, 0, 1]
    }
    pub fn transaction(&self) -> &[u8] {
        &self.data[12..16]
    }
    pub fn hash(&self) -> &[u8] {
        &self.data[16..36]
    }
}

pub fn connection_id(tracker: usize, from: &SocketAddr) -> [u8; 8] {
    let h = crate::hash64(format!("{tracker} {from}").as_bytes());
    // Ids with leading or trailing zeros, or nothing but ones, are as good as any.
    match h % 7 {
        0 => (h >> 40).to_be_bytes(),
        1 => (h << 40).to_be_bytes(),
        2 => [0xff; 8],
        _ => h.to_be_bytes(),
    }
}

pub fn connect_response(req: &Req) -> Vec<u8> {
    let mut r = vec![0, 0, 0, 0];
    r.extend_from_slice(req.transaction());
    r.extend_from_slice(&connection_id(req.tracker, &req.from));
    r
}

pub fn announce_response(req: &Req, peers: &[SocketAddr]) -> Vec<u8> {
    let mut r = vec![0, 0, 0, 1];
    r.extend_from_slice(req.transaction());
    r.extend_from_slice(&[0, 0, 7, 8, 0, 0, 0, 3, 0, 0, 0, 9]);
    r.extend(compact(peers));
    r
}

pub fn compact(peers: &[SocketAddr]) -> Vec<u8> {
    let mut r = vec![];
    for p in peers {
        if let SocketAddr::V4(p) = p {
            r.extend_from_slice(&p.ip().octets());
            r.extend_from_slice(&p.port().to_be_bytes());
        }
    }
    r
}

/// A datagram to send.
#[derive(Clone, Debug)]
pub struct Out {
    pub after: Duration,
    pub data: Vec<u8>,
    /// From another address than the tracker's.
    pub stranger: bool,
}

impl Out {
    pub fn now(data: Vec<u8>) -> Out {
        Out { after: Duration::ZERO, data, stranger: false }
    }
}

/// What a tracker sends on a datagram.
pub type Script = Box<dyn FnMut(&Req) -> Vec<Out> + Send>;

/// Well behaved trackers: the n-th of them reports the n-th list of the torrent with that hash.
pub fn reporting(lists: Vec<(Vec<u8>, Vec<Vec<SocketAddr>>)>) -> Script {
    Box::new(move |req| {
        let r = if req.is_connect() {
            connect_response(req)
        } else if req.is_announce() {
            let none = vec![];
            let peers =
                lists.iter().find(|l| l.0 == req.hash()).and_then(|l| l.1.get(req.tracker)).unwrap_or(&none);
            announce_response(req, peers)
        } else {
            return vec![];
        };
        vec![Out::now(r)]
    })
}

/// Which local port each address stands for, for the shim.
pub fn led_to(ports: &[u16]) -> String {
    let pairs: Vec<String> = ADDRESSES.iter().zip(ports).map(|(a, p)| format!("{a}={p}")).collect();
    pairs.join(",")
}

pub struct Trackers {
    ports: Vec<u16>,
    seen: Arc<Mutex<Vec<Req>>>,
    stop: Arc<AtomicBool>,
    thread: Option<std::thread::JoinHandle<()>>,
}

impl Trackers {
    pub fn start(mut script: Script) -> std::io::Result<Trackers> {
        let sockets: Vec<UdpSocket> =
            ADDRESSES.iter().map(|_| UdpSocket::bind("127.0.0.1:0")).collect::<Result<_, _>>()?;
        let other = UdpSocket::bind("127.0.0.1:0")?;
        let mut ports = vec![];
        for s in &sockets {
            s.set_nonblocking(true)?;
            ports.push(s.local_addr()?.port());
        }
        let (seen, stop) = (Arc::new(Mutex::new(vec![])), Arc::new(AtomicBool::new(false)));
        let (seen2, stop2) = (seen.clone(), stop.clone());
        let thread = std::thread::spawn(move || {
            use std::os::fd::AsRawFd;
            let mut fds: Vec<libc::pollfd> =
                sockets.iter().map(|s| libc::pollfd { fd: s.as_raw_fd(), events: libc::POLLIN, revents: 0 }).collect();
            let mut due: Vec<(u64, usize, SocketAddr, Out)> = vec![];
            let send = |i: usize, to: &SocketAddr, out: &Out| {
                let from: &UdpSocket = if out.stranger { &other } else { &sockets[i] };
                let _ = from.send_to(&out.data, to);
            };
            let mut buf = [0u8; 65536];
            while !stop2.load(Ordering::Relaxed) {
                let wait = due
                    .iter()
                    .map(|d| d.0.saturating_sub(now_ns()) / 1_000_000)
                    .min()
                    .unwrap_or(50)
                    .min(50);
                unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as _, wait as i32) };
                for (i, s) in sockets.iter().enumerate() {
                    while let Ok((n, from)) = s.recv_from(&mut buf) {
                        let nth =
                            seen2.lock().unwrap().iter().filter(|r: &&Req| r.tracker == i && r.from == from).count();
                        let req = Req { t: now_ns(), tracker: i, from, nth, data: buf[..n].to_vec() };
                        seen2.lock().unwrap().push(req.clone());
                        for out in script(&req) {
                            if out.after.is_zero() {
                                send(i, &from, &out);
                            } else {
                                due.push((now_ns() + out.after.as_nanos() as u64, i, from, out));
                            }
                        }
                    }
                }
                let now = now_ns();
                due.retain(|(t, i, to, out)| {
                    if *t <= now {
                        send(*i, to, out);
                    }
                    *t > now
                });
            }
        });
        Ok(Trackers { ports, seen, stop, thread: Some(thread) })
    }

    pub fn env(&self) -> String {
        led_to(&self.ports)
    }

    /// Their local addresses.
    pub fn locals(&self) -> Vec<SocketAddr> {
        self.ports.iter().map(|p| SocketAddr::from(([127, 0, 0, 1], *p))).collect()
    }

    pub fn seen(&self) -> Vec<Req> {
        self.seen.lock().unwrap().clone()
    }
}

impl Drop for Trackers {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::Relaxed);
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}
