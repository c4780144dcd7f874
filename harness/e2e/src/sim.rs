//! What the checks of whole runs have in common.
use kit::peer::{Ev, Event, Spec};
use kit::torrent::{self, Shape, Torrent};
use kit::world::{one_torrent, End, Options, World};
use kit::{sha1, benc, tracker, Ctx, Obs, Rng, Verdict};
use std::collections::BTreeSet;
use std::net::SocketAddr;
use std::ops::Range;
use std::sync::Arc;
use std::time::Duration;

pub const QUIET: Duration = Duration::from_secs(4);
pub const LIMIT: Duration = Duration::from_secs(50);

/// Waits are longer when a suspicion is being confirmed.
pub fn quiet(ctx: &Ctx) -> Duration {
    if ctx.alone {
        QUIET * 2
    } else {
        QUIET
    }
}

pub type Res<T> = Result<T, Verdict>;

pub fn inconclusive<T>(r: Result<T, String>) -> Res<T> {
    r.map_err(Verdict::Inconclusive)
}

/// Lets a case use `?` for early verdicts.
pub fn case(f: impl FnOnce() -> Res<Obs>) -> Verdict {
    match f() {
        Ok(o) => Verdict::Ok(o),
        Err(v) => v,
    }
}

pub fn violation<T>(m: impl Into<String>) -> Res<T> {
    Err(Verdict::Violation(m.into()))
}

pub fn suspect<T>(m: impl Into<String>) -> Res<T> {
    Err(Verdict::Suspect(m.into()))
}

/// A world with one torrent, added by its magnet.
pub fn start(ctx: &mut Ctx, t: &Torrent, specs: Vec<Spec>, opts: Options) -> Res<World> {
    let w = inconclusive(one_torrent(t, specs, &mut ctx.rng, opts))?;
    let magnet = t.magnet(&mut ctx.rng);
    match w.add(&magnet) {
        Ok(200..=299) => Ok(w),
        Ok(code) => suspect(format!("adding {magnet} was answered with {code}")),
        Err(e) => Err(Verdict::Inconclusive(format!("adding: {e}"))),
    }
}

/// Waits until the torrent is on disk. Anything else that comes first is a verdict.
pub fn completed(ctx: &Ctx, w: &mut World, t: &Torrent, how: &str) -> Res<()> {
    completed_within(ctx, w, t, how, LIMIT)
}

pub fn completed_within(ctx: &Ctx, w: &mut World, t: &Torrent, how: &str, limit: Duration) -> Res<()> {
    match w.wait(|w| w.complete(t), quiet(ctx), limit) {
        End::Done => Ok(()),
        End::Quiet => suspect(format!(
            "{how}: the download of {} stopped before it was complete: {}; {}",
            t.describe(),
            w.differs(t).unwrap_or_default(),
            w.summary()
        )),
        End::Dead(s) => suspect(format!("{how}: the program died ({s}): {}", w.summary())),
        End::Timeout => timeout(w, how),
    }
}

/// Busy to the end, but with nothing to show for it for long, or not.
pub fn timeout<T>(w: &World, how: &str) -> Res<T> {
    let last = w.log.of("W").filter(|e| !e.path.starts_with("downloads/")).map(|e| e.t).max();
    let since = last.or(w.log.events.first().map(|e| e.t)).unwrap_or(0);
    let idle = kit::now_ns().saturating_sub(since) / 1_000_000_000;
    if idle > 20 {
        return suspect(format!("{how}: busy, but nothing was stored for {idle} s: {}", w.summary()));
    }
    Err(Verdict::Inconclusive(format!("{how}: still busy: {}", w.summary())))
}

pub fn gen(ctx: &mut Ctx, shape: &Shape) -> Arc<Torrent> {
    Arc::new(torrent::gen(&mut ctx.rng, shape))
}

pub fn honest(ctx: &mut Ctx, t: &Arc<Torrent>, n: usize) -> Vec<Spec> {
    (0..n).map(|_| Spec::honest_varied(t, &mut ctx.rng)).collect()
}

/// The events of each connection that got that far, as (peer, connection, events).
pub fn conversations(events: &[Event]) -> Vec<(usize, usize, Vec<Event>)> {
    let mut out: Vec<(usize, usize, Vec<Event>)> = vec![];
    let mut index = std::collections::HashMap::new();
    for e in events {
        let i = *index.entry((e.peer, e.conn)).or_insert_with(|| {
            out.push((e.peer, e.conn, vec![]));
            out.len() - 1
        });
        out[i].2.push(e.clone());
    }
    out
}

pub fn has_handshake(conv: &[Event]) -> bool {
    conv.iter().any(|e| matches!(e.ev, Ev::Handshake(_)))
}

/// Peers of a torrent, each reported so many times in all.
pub type Plan = (Arc<Torrent>, Vec<(Spec, usize)>);

/// A world for several torrents, none added yet, and which peers are whose.
pub fn start_many(ctx: &mut Ctx, plans: Vec<Plan>, opts: Options) -> Res<(World, Vec<Range<usize>>)> {
    start_so(ctx, plans, opts, false)
}

/// The same, the peers being found in the order they are given.
pub fn start_in_order(ctx: &mut Ctx, plans: Vec<Plan>, opts: Options) -> Res<(World, Vec<Range<usize>>)> {
    start_so(ctx, plans, opts, true)
}

fn start_so(ctx: &mut Ctx, plans: Vec<Plan>, opts: Options, ordered: bool) -> Res<(World, Vec<Range<usize>>)> {
    let (mut specs, mut of, mut shares) = (vec![], vec![], vec![]);
    for (t, peers) in plans {
        let from = specs.len();
        let mut times = vec![];
        for (s, n) in peers {
            specs.push(s);
            times.push(n);
        }
        of.push(from..specs.len());
        shares.push((t.hash.to_vec(), from, times));
    }
    let mut r = ctx.rng.fork();
    let w = World::start(
        specs,
        move |addrs| {
            let lists = shares
                .iter()
                .map(|(hash, from, times)| {
                    let mut all = vec![];
                    for (i, n) in times.iter().enumerate() {
                        all.extend(std::iter::repeat(addrs[from + i]).take(*n));
                    }
                    if ordered {
                        let mut lists = vec![vec![]; tracker::ADDRESSES.len()];
                        let at = r.below(lists.len());
                        lists[at] = all;
                        return (hash.clone(), lists);
                    }
                    (hash.clone(), spread_exactly(all, &mut r))
                })
                .collect();
            tracker::reporting(lists)
        },
        opts,
    );
    Ok((inconclusive(w)?, of))
}

/// These addresses, in any order, over any of the trackers.
pub fn spread_exactly(mut all: Vec<SocketAddr>, r: &mut Rng) -> Vec<Vec<SocketAddr>> {
    let mut lists = vec![vec![]; tracker::ADDRESSES.len()];
    r.shuffle(&mut all);
    let used = r.range(1, lists.len());
    for a in all {
        let i = r.below(used);
        lists[i].push(a);
    }
    r.shuffle(&mut lists);
    lists
}

pub fn add(ctx: &mut Ctx, w: &World, t: &Torrent) -> Res<()> {
    let magnet = t.magnet(&mut ctx.rng);
    match w.add(&magnet) {
        Ok(200..=299) => Ok(()),
        Ok(code) => suspect(format!("adding {magnet} was answered with {code}")),
        Err(e) => Err(Verdict::Inconclusive(format!("adding: {e}"))),
    }
}

/// Reports of a panic, but for those of a machine short of threads or descriptors.
pub fn crashed(w: &World) -> Res<()> {
    for p in w.panics() {
        if ["os error 11)", "os error 24)", "Resource temporarily unavailable", "Too many open files"].iter().any(|s| p.contains(s)) {
            return Err(Verdict::Inconclusive(p));
        }
        return violation(format!("the program panicked: {p}"));
    }
    Ok(())
}

/// Every byte written to a file of a torrent is the right one for its place; nothing is written elsewhere.
/// The number of writes and of bytes.
pub fn only_right_bytes(w: &World, torrents: &[Arc<Torrent>]) -> Res<(usize, usize)> {
    let (mut writes, mut bytes) = (0, 0);
    for e in w.log.of("W").filter(|e| !e.path.starts_with("downloads/") && e.rc > 0) {
        let found = torrents.iter().find_map(|t| t.expected().into_iter().find(|f| f.0 == e.path));
        let Some((_, content)) = found else {
            return violation(format!("{} bytes were written to {:?}, which is no file of the torrent", e.rc, e.path));
        };
        let (at, n) = (e.a as usize, e.rc as usize);
        match content.get(at..at.saturating_add(n)) {
            Some(right) if right == &e.data[..] => (),
            Some(right) => {
                let i = right.iter().zip(&e.data).position(|(a, b)| a != b).unwrap_or(0);
                return violation(format!("a wrong byte was written at {} of {:?} (a write of {n} bytes at {at})", at + i, e.path));
            }
            None => {
                return violation(format!("{n} bytes were written at {at} of {:?}, which has {}", e.path, content.len()))
            }
        }
        writes += 1;
        bytes += n;
    }
    Ok((writes, bytes))
}

/// All files below a folder, relative to it.
pub fn listing(dir: &std::path::Path) -> BTreeSet<String> {
    fn walk(dir: &std::path::Path, pre: &str, out: &mut BTreeSet<String>) {
        for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
            let name = format!("{pre}{}", e.file_name().to_string_lossy());
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                walk(&e.path(), &format!("{name}/"), out);
            } else {
                out.insert(name);
            }
        }
    }
    let mut out = BTreeSet::new();
    walk(dir, "", &mut out);
    out
}

/// What a run leaves besides the files of torrents.
pub fn own_file(name: &str) -> bool {
    name == "test.log" || name.starts_with("downloads/")
}

/// No files but the torrents' and the program's own.
pub fn no_other_files(w: &World, torrents: &[Arc<Torrent>]) -> Res<usize> {
    let have = listing(&w.scratch.cwd);
    for f in &have {
        if !own_file(f) && !torrents.iter().any(|t| t.expected().iter().any(|e| e.0 == *f)) {
            return violation(format!("{f:?} was created, which is no file of the torrent"));
        }
    }
    Ok(have.len())
}

pub fn no_escape(w: &World) -> Res<()> {
    match w.log.of("ESC").next() {
        Some(e) => violation(format!("outside its folder, the program tried to touch {:?}", e.path)),
        None => Ok(()),
    }
}

/// Metadata requests that peers got, as (time, peer, piece).
pub fn metadata_requests(w: &World) -> Vec<(u64, usize, usize)> {
    w.swarm
        .events()
        .iter()
        .filter_map(|e| match &e.ev {
            Ev::Msg(20, b) => kit::peer::metadata_request(b).map(|p| (e.t, e.peer, p)),
            _ => None,
        })
        .collect()
}

/// The torrent with a key of no meaning added such that its info hash is as wanted.
pub fn rehashed(t: &Torrent, r: &mut Rng, want: impl Fn(&[u8; 20]) -> bool) -> Torrent {
    let mut info = t.info.clone();
    loop {
        let n = r.u64();
        info.set("nonce", benc::int(n));
        if want(&sha1(&info.encode())) {
            return t.rebuilt(|i| *i = info);
        }
    }
}

/// Runs until nothing happens any more, or as long as that.
pub fn settle(ctx: &Ctx, w: &mut World, limit: Duration) -> End {
    w.wait(|_| false, quiet(ctx), limit)
}

/// When each piece was on disk as a whole for the first time.
pub fn stored_at(w: &World, t: &Torrent) -> Vec<Option<u64>> {
    let mut left: Vec<BTreeSet<(usize, usize)>> = vec![BTreeSet::new(); t.pieces()];
    let mut at = 0;
    let mut starts = std::collections::HashMap::new();
    for (k, f) in t.files.iter().enumerate() {
        starts.insert(f.path.join("/"), at);
        for i in t.pieces_of_file(k) {
            let (a, b) = ((i * t.piece_length).max(at), (i * t.piece_length + t.piece(i).len()).min(at + f.length));
            left[i].insert((a, b));
        }
        at += f.length;
    }
    let mut done = vec![None; t.pieces()];
    for e in w.log.of("W").filter(|e| e.rc > 0) {
        let Some(start) = starts.get(&e.path) else { continue };
        let (a, b) = (start + e.a as usize, start + (e.a + e.rc) as usize);
        for i in a / t.piece_length..=(b - 1) / t.piece_length {
            let Some(l) = left.get_mut(i) else { continue };
            let parts: Vec<_> = l.iter().copied().collect();
            for (x, y) in parts {
                if x < b && a < y {
                    l.remove(&(x, y));
                    if x < a {
                        l.insert((x, a));
                    }
                    if b < y {
                        l.insert((b, y));
                    }
                }
            }
            if l.is_empty() && done[i].is_none() {
                done[i] = Some(e.t);
            }
        }
    }
    done
}

/// A place where connections neither succeed nor fail.
pub struct Nowhere {
    pub addr: SocketAddr,
    _fds: Vec<std::os::fd::OwnedFd>,
}

impl Nowhere {
    pub fn new() -> std::io::Result<Nowhere> {
        use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
        let fd = unsafe { libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0) };
        if fd < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let mut fds = vec![unsafe { OwnedFd::from_raw_fd(fd) }];
        let mut sa: libc::sockaddr_in = unsafe { std::mem::zeroed() };
        sa.sin_family = libc::AF_INET as _;
        sa.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
        let mut len = std::mem::size_of_val(&sa) as libc::socklen_t;
        unsafe {
            if libc::bind(fd, &sa as *const _ as *const _, len) != 0 || libc::listen(fd, 0) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            libc::getsockname(fd, &mut sa as *mut _ as *mut _, &mut len);
        }
        // Nobody accepts, and the queue is full from here on.
        for _ in 0..3 {
            let c = unsafe { libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC, 0) };
            let c = unsafe { OwnedFd::from_raw_fd(c) };
            unsafe { libc::connect(c.as_raw_fd(), &sa as *const _ as *const _, len) };
            std::thread::sleep(Duration::from_millis(5));
            fds.push(c);
        }
        Ok(Nowhere { addr: SocketAddr::from(([127, 0, 0, 1], u16::from_be(sa.sin_port))), _fds: fds })
    }
}
