//! What every check shares: the case runner and its verdicts, reference models, and a simulated world of trackers
//! and peers around the real program.
pub mod benc;
pub mod guard;
pub mod http;
pub mod magnet;
pub mod peer;
pub mod rng;
pub mod runner;
pub mod shim;
pub mod torrent;
pub mod tracker;
pub mod world;

pub use rng::Rng;
pub use runner::{Ctx, Obs, Verdict};

pub fn sha1(data: &[u8]) -> [u8; 20] {
    use sha1::{Digest, Sha1};
    Sha1::digest(data).into()
}

pub fn hex(data: &[u8]) -> String {
    data.iter().map(|b| format!("{b:02x}")).collect()
}

/// Bytes as text: printable ASCII as it is, the rest as \xNN, cut when long.
pub fn show(data: &[u8]) -> String {
    let mut out = String::new();
    for &b in data.iter().take(160) {
        match b {
            b'\\' => out.push_str("\\\\"),
            0x20..=0x7e => out.push(b as char),
            _ => out.push_str(&format!("\\x{b:02x}")),
        }
    }
    if data.len() > 160 {
        out.push_str(&format!("...({} bytes)", data.len()));
    }
    out
}

pub fn hash64(data: &[u8]) -> u64 {
    let d = sha1(data);
    u64::from_be_bytes(d[..8].try_into().unwrap())
}

/// Nanoseconds of the clock shared by all processes (CLOCK_MONOTONIC), the one the shim stamps its events with.
pub fn now_ns() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
