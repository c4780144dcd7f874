//! The real program, run in a scratch folder among scripted trackers and peers.
use crate::peer::{self, Ev, Spec, Swarm};
use crate::shim::Log;
use crate::torrent::Torrent;
use crate::tracker::{self, Script, Trackers};
use crate::{now_ns, Rng};
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

/// A folder that goes away with its owner. The one the program runs in is three levels down, so that what escapes it
/// by a few levels is still in the scratch.
pub struct Scratch {
    top: PathBuf,
    pub cwd: PathBuf,
}

const NOBODY: u32 = 65534;

pub fn scratch_base() -> PathBuf {
    std::env::var("VSCRATCH").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from(format!("/tmp/rbv-{}", std::process::id())))
}

impl Scratch {
    pub fn new() -> std::io::Result<Scratch> {
        static N: AtomicUsize = AtomicUsize::new(0);
        let top = scratch_base().join(format!("w{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        let cwd = top.join("up3/up2/up1/run");
        std::fs::create_dir_all(&cwd)?;
        let mut p = cwd.clone();
        while p != top {
            own(&p);
            p.pop();
        }
        Ok(Scratch { top, cwd })
    }
    pub fn file(&self, name: &str) -> PathBuf {
        self.top.join(name)
    }
    /// Whatever there is around the folder the program runs in that is not put there by its keeper.
    pub fn outside(&self) -> Vec<String> {
        let mut out = vec![];
        let mut dir = self.cwd.clone();
        while dir != self.top {
            let inner = dir.clone();
            dir.pop();
            for e in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
                let name = e.file_name().to_string_lossy().into_owned();
                let ours = dir == self.top && (name.starts_with("shim") || name.starts_with("stderr"));
                if e.path() != inner && !ours {
                    out.push(e.path().display().to_string());
                }
            }
        }
        out
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.top);
    }
}

pub fn own(p: &Path) {
    let c = std::ffi::CString::new(p.as_os_str().as_encoded_bytes()).unwrap();
    unsafe { libc::chown(c.as_ptr(), NOBODY, NOBODY) };
}

pub fn target(name: &str) -> PathBuf {
    std::env::current_exe().unwrap().with_file_name(name)
}

#[derive(Default, Clone)]
pub struct Options {
    pub faults: String,
    pub kill: String,
    pub delay: String,
    /// Address space, in bytes.
    pub memory: u64,
    /// The local ports of trackers that speak HTTP: then the program is one that takes its trackers to.
    pub http: Vec<u16>,
}

pub struct World {
    child: Child,
    pub pid: i32,
    pub log: Log,
    pub http: u16,
    pub scratch: Scratch,
    pub trackers: Trackers,
    pub swarm: Swarm,
    pub status: Option<std::process::ExitStatus>,
    stderr: PathBuf,
    runs: usize,
    opts: Options,
}

#[derive(Debug, PartialEq, Clone)]
pub enum End {
    /// The condition waited for holds.
    Done,
    /// Nothing has happened for long, and nothing is pending.
    Quiet,
    /// The program ended.
    Dead(String),
    /// Things were still happening when time was up.
    Timeout,
}

fn spawn(scratch: &Scratch, trackers: &Trackers, opts: &Options, run: usize) -> std::io::Result<(Child, PathBuf, PathBuf)> {
    let (log, err) = (scratch.file(&format!("shim{run}.log")), scratch.file(&format!("stderr{run}")));
    std::fs::write(&log, b"")?;
    own(&log);
    let errf = std::fs::File::create(&err)?;
    let memory = if opts.memory == 0 { 8 << 30 } else { opts.memory };
    let mut cmd = Command::new(target(if opts.http.is_empty() { "rust_bit" } else { "rust_bit_http" }));
    cmd.current_dir(&scratch.cwd)
        .env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("LD_PRELOAD", target("../../vshim.so").canonicalize()?)
        .env("VSHIM_LOG", &log)
        .env("VSHIM_ROOT", &scratch.cwd)
        .env("VSHIM_TRACKERS", trackers.env())
        .env("VSHIM_HTTP", tracker::led_to(&opts.http))
        .env("VSHIM_FAULTS", &opts.faults)
        .env("VSHIM_DELAY", &opts.delay)
        .env("MALLOC_ARENA_MAX", "2")
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(errf);
    if !opts.kill.is_empty() {
        cmd.env("VSHIM_KILL", &opts.kill);
    }
    unsafe {
        cmd.pre_exec(move || {
            libc::setgroups(0, std::ptr::null());
            libc::setgid(NOBODY);
            libc::setuid(NOBODY);
            libc::umask(0o022);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            let size = libc::rlimit { rlim_cur: 128 << 30, rlim_max: 128 << 30 };
            libc::setrlimit(libc::RLIMIT_FSIZE, &size);
            let mem = libc::rlimit { rlim_cur: memory, rlim_max: memory };
            libc::setrlimit(libc::RLIMIT_AS, &mem);
            Ok(())
        });
    }
    Ok((cmd.spawn()?, log, err))
}

impl World {
    /// Starts peers, trackers and the program. The script of the trackers is made from the peers' addresses.
    pub fn start(
        specs: Vec<Spec>,
        script: impl FnOnce(&[SocketAddr]) -> Script,
        opts: Options,
    ) -> Result<World, String> {
        let swarm = Swarm::start(specs).map_err(|e| format!("peers: {e}"))?;
        let trackers = Trackers::start(script(&swarm.addrs)).map_err(|e| format!("trackers: {e}"))?;
        let scratch = Scratch::new().map_err(|e| format!("scratch: {e}"))?;
        World::start_in(scratch, swarm, trackers, opts)
    }

    pub fn start_in(scratch: Scratch, swarm: Swarm, trackers: Trackers, opts: Options) -> Result<World, String> {
        let (child, log, stderr) = spawn(&scratch, &trackers, &opts, 0).map_err(|e| format!("spawn: {e}"))?;
        let pid = child.id() as i32;
        let mut w =
            World { child, pid, log: Log::new(&log), http: 0, scratch, trackers, swarm, status: None, stderr, runs: 1, opts };
        w.await_http()?;
        Ok(w)
    }

    /// The program again, in the same folder, after its end.
    pub fn restart(&mut self, opts: Options) -> Result<(), String> {
        self.stop();
        let (child, log, stderr) = spawn(&self.scratch, &self.trackers, &opts, self.runs).map_err(|e| format!("spawn: {e}"))?;
        self.runs += 1;
        self.opts = opts;
        self.pid = child.id() as i32;
        self.child = child;
        self.log = Log::new(&log);
        self.stderr = stderr;
        self.status = None;
        self.http = 0;
        self.await_http()
    }

    fn await_http(&mut self) -> Result<(), String> {
        let t0 = Instant::now();
        while t0.elapsed() < Duration::from_secs(20) {
            self.log.poll();
            if let Some(port) = self.log.of("HTTP").next().map(|e| e.a as u16) {
                self.http = port;
                if TcpStream::connect(("127.0.0.1", port)).is_ok() {
                    return Ok(());
                }
            }
            if !self.alive() {
                // Killed on purpose while it started.
                if self.opts.kill.is_empty() {
                    return Err(format!("the program ended as it started: {:?} {}", self.status, self.stderr()));
                }
                return Ok(());
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        Err("the program does not listen".into())
    }

    pub fn stop(&mut self) {
        if self.status.is_none() {
            let _ = self.child.kill();
            self.status = self.child.wait().ok();
        }
        self.log.poll();
    }

    pub fn alive(&mut self) -> bool {
        if self.status.is_none() {
            self.status = self.child.try_wait().ok().flatten();
        }
        self.status.is_none()
    }

    pub fn stderr(&self) -> String {
        std::fs::read(&self.stderr).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default()
    }

    /// The panics of the program so far, but for those of running out of the resources of the sandbox.
    pub fn panics(&self) -> Vec<String> {
        let text = self.stderr();
        let lines: Vec<&str> = text.lines().collect();
        let mut out = vec![];
        for (i, l) in lines.iter().enumerate() {
            if l.contains("panicked at") || l.contains("has overflowed its stack") || l.contains("memory allocation of") {
                out.push(format!("{l} {}", lines.get(i + 1).unwrap_or(&"")));
            }
        }
        out
    }

    /// Posts to the API. Err: no answer.
    pub fn post(&self, path: &str, body: &[u8], timeout: Duration) -> Result<(u16, Vec<u8>), String> {
        let mut s = TcpStream::connect(("127.0.0.1", self.http)).map_err(|e| format!("connect: {e}"))?;
        s.set_read_timeout(Some(timeout)).map_err(|e| e.to_string())?;
        let head = format!(
            "POST {path} HTTP/1.1\r\nHost: localhost\r\nContent-Type: text/plain\r\nContent-Length: {}\r\nConnection: close\r\n\r\n",
            body.len()
        );
        s.write_all(head.as_bytes()).and_then(|_| s.write_all(body)).map_err(|e| format!("send: {e}"))?;
        let mut answer = vec![];
        let mut buf = [0; 4096];
        loop {
            match s.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => answer.extend_from_slice(&buf[..n]),
                Err(e) => return Err(format!("read: {e}")),
            }
            // The server can take long to close.
            if let Some(end) = answer.windows(4).position(|w| w == b"\r\n\r\n") {
                let head = String::from_utf8_lossy(&answer[..end]).to_ascii_lowercase();
                let length = head.lines().find_map(|l| l.strip_prefix("content-length:").and_then(|n| n.trim().parse::<usize>().ok()));
                if length.is_some_and(|n| answer.len() >= end + 4 + n) {
                    break;
                }
            }
        }
        let text = String::from_utf8_lossy(&answer);
        let code = text.split_whitespace().nth(1).and_then(|c| c.parse().ok()).ok_or(format!("no HTTP answer: {text:.80}"))?;
        let body = answer.windows(4).position(|w| w == b"\r\n\r\n").map(|i| answer[i + 4..].to_vec()).unwrap_or_default();
        Ok((code, body))
    }

    pub fn add(&self, magnet: &str) -> Result<u16, String> {
        self.post("/add/magnet", magnet.as_bytes(), Duration::from_secs(30)).map(|r| r.0)
    }

    /// Processor time used by the program, in ticks of 10 ms.
    pub fn cpu_ticks(&self) -> u64 {
        let s = std::fs::read_to_string(format!("/proc/{}/stat", self.pid)).unwrap_or_default();
        let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        f.get(11).and_then(|u| u.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|u| u.parse::<u64>().ok()).unwrap_or(0)
    }

    fn activity(&mut self) -> usize {
        self.log.poll();
        self.log.events.len() + self.swarm.events.lock().unwrap().len() + self.trackers.seen().len()
    }

    /// Waits for a condition. Quiet: for `quiet` the program opened no connection and had none open, touched no file
    /// and used no processor time to speak of.
    pub fn wait(&mut self, mut cond: impl FnMut(&mut World) -> bool, quiet: Duration, limit: Duration) -> End {
        let t0 = Instant::now();
        let (mut seen, mut since, mut cpu) = (self.activity(), Instant::now(), self.cpu_ticks());
        let mut checked = usize::MAX;
        loop {
            let n = self.activity();
            if n != checked {
                checked = n;
                if cond(self) {
                    return End::Done;
                }
            }
            if !self.alive() {
                self.log.poll();
                if cond(self) {
                    return End::Done;
                }
                return End::Dead(format!("{:?}", self.status.map(|s| (s.code(), s.signal()))));
            }
            if n != seen || self.log.open_connections() > 0 {
                (seen, since, cpu) = (n, Instant::now(), self.cpu_ticks());
            } else if since.elapsed() >= quiet {
                if self.cpu_ticks() > cpu + 10 {
                    (since, cpu) = (Instant::now(), self.cpu_ticks());
                } else {
                    return if cond(self) { End::Done } else { End::Quiet };
                }
            }
            if t0.elapsed() > limit {
                return if cond(self) { End::Done } else { End::Timeout };
            }
            std::thread::sleep(Duration::from_millis(4));
        }
    }

    pub fn read(&self, name: &str) -> Option<Vec<u8>> {
        std::fs::read(self.scratch.cwd.join(name)).ok()
    }

    /// What differs on disk from the torrent; None if nothing does.
    pub fn differs(&self, t: &Torrent) -> Option<String> {
        for (name, want) in t.expected() {
            match self.read(&name) {
                None => return Some(format!("{name:?} is missing")),
                Some(got) if got != want => {
                    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                    return Some(format!(
                        "{name:?} has {} bytes, should have {}, and differs from byte {at}",
                        got.len(),
                        want.len()
                    ));
                }
                _ => (),
            }
        }
        None
    }

    pub fn complete(&mut self, t: &Torrent) -> bool {
        let total: usize = t.content.len();
        let written: i64 = self.log.of("W").filter(|e| !e.path.starts_with("downloads/")).map(|e| e.rc.max(0)).sum();
        // Cheap tests first.
        written as usize + self.preexisting() >= total && self.differs(t).is_none()
    }

    fn preexisting(&self) -> usize {
        if self.runs > 1 {
            usize::MAX / 2
        } else {
            0
        }
    }

    /// Piece requests the peers got, as (time, peer, connection, index, begin, length).
    pub fn requests(&self) -> Vec<(u64, usize, usize, usize, usize, usize)> {
        self.swarm
            .events()
            .iter()
            .filter_map(|e| match &e.ev {
                Ev::Msg(6, b) if b.len() == 12 => {
                    let n = |i: usize| u32::from_be_bytes(b[i..i + 4].try_into().unwrap()) as usize;
                    Some((e.t, e.peer, e.conn, n(0), n(4), n(8)))
                }
                _ => None,
            })
            .collect()
    }

    pub fn summary(&self) -> String {
        let ev = self.swarm.events();
        let shaken = ev.iter().filter(|e| matches!(e.ev, Ev::Handshake(_))).count();
        format!(
            "{} handshakes, {} block requests, {} writes, {} tracker packets, panics {:?}",
            shaken,
            self.requests().len(),
            self.log.of("W").count(),
            self.trackers.seen().len(),
            self.panics()
        )
    }
}

impl Drop for World {
    fn drop(&mut self) {
        self.stop();
    }
}

/// Reports each of the addresses, over and over, at least 12 times in all, spread over the trackers.
pub fn spread(addrs: &[SocketAddr], r: &mut Rng, at_least: usize) -> Vec<Vec<SocketAddr>> {
    let mut lists = vec![vec![]; tracker::ADDRESSES.len()];
    let mut all: Vec<SocketAddr> = addrs.to_vec();
    while all.len() < at_least && !addrs.is_empty() {
        all.push(*r.pick(addrs));
    }
    r.shuffle(&mut all);
    let used = r.range(1, tracker::ADDRESSES.len());
    for a in all {
        let i = r.below(used);
        lists[i].push(a);
    }
    r.shuffle(&mut lists);
    lists
}

/// A world with one torrent, all of whose peers are reported.
pub fn one_torrent(t: &Torrent, specs: Vec<Spec>, r: &mut Rng, opts: Options) -> Result<World, String> {
    let hash = t.hash.to_vec();
    let mut fork = r.fork();
    World::start(specs, move |addrs| tracker::reporting(vec![(hash, spread(addrs, &mut fork, 12))]), opts)
}

pub use peer::Act;
