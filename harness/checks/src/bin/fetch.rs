//! C12, in-process: one piece of torrents that have more of them than a run of the program gets through.
use kit::benc;
use kit::guard::guarded;
use kit::peer::{Ev, Greet, Spec, Swarm};
use kit::torrent::Torrent;
use kit::{hash64, sha1, Ctx, Obs, Rng, Verdict};
use std::sync::Arc;
use sut::peer::manager::download;
use sut::torrent::info::Info;

#[global_allocator]
static ALLOC: kit::guard::Budgeted = kit::guard::Budgeted;

fn far(ctx: &mut Ctx) -> Verdict {
    let r = &mut ctx.rng;
    let near = *r.pick(&[100usize, 128, 256, 1000, 32_768, 65_536, 65_536, 65_536 * 2, 100_000]);
    let index = near + r.below(5) - 2;
    let count = if r.one_in(2) { index + 1 } else { index + 1 + r.range(1, 300) };
    let piece_length = match r.below(5) {
        0 => r.range(1, 100),
        1 => 16384 * r.range(1, 5),
        2 => 16384 * r.range(1, 5) + r.below(3) - 1,
        3 => 1 << r.range(0, 17),
        _ => r.range(1, 100_000),
    };
    let last = if r.one_in(3) { piece_length } else { r.range(1, piece_length) };
    let size = if index == count - 1 { last } else { piece_length };
    let content = Arc::new(r.bytes(size));
    let mut hashes = vec![0x55; 20 * count];
    hashes[20 * index..20 * index + 20].copy_from_slice(&sha1(&content));
    let total = (count - 1) * piece_length + last;
    let info = benc::dict([
        ("length", benc::int(total as u64)),
        ("name", benc::bytes("far")),
        ("piece length", benc::int(piece_length as u64)),
        ("pieces", benc::bytes(&hashes)),
    ]);
    let metadata = info.encode();
    let what = format!("piece {index} of {count}, of {size} bytes, piece length {piece_length}");
    let t = Arc::new(Torrent {
        multi: false,
        name: "far".into(),
        files: vec![],
        piece_length,
        content: vec![],
        info,
        hash: sha1(&metadata),
        metadata: metadata.clone(),
    });
    let mut s = Spec::honest(&t);
    s.greet = vec![Greet::Extended, Greet::Unchoke];
    let bytes = content.clone();
    s.source = Some(Arc::new(move |i, begin, length| {
        if i != index {
            // Of another piece, as wrong as its hash.
            return Some(Rng::new(i as u64).bytes(length.min(1 << 17)));
        }
        bytes.get(begin..begin.checked_add(length)?).map(<[u8]>::to_vec)
    }));
    let swarm = match Swarm::start(vec![s]) {
        Ok(s) => s,
        Err(e) => return Verdict::Inconclusive(e.to_string()),
    };
    let (endpoint, hash) = (swarm.addrs[0].to_string(), t.hash);
    let got = guarded(1 << 29, move || {
        let info = Info::from_bytes(metadata).map_err(|e| format!("its metadata is refused: {e}"))?;
        download(endpoint, &info, &hash, index).map_err(|e| e.to_string())
    });
    let mut asked: Vec<(usize, usize)> = vec![];
    for e in swarm.events() {
        if let Ev::Msg(6, b) = &e.ev {
            if b.len() != 12 {
                return Verdict::Violation(format!("{what}: a request has a body of {} bytes", b.len()));
            }
            let n = |i: usize| u32::from_be_bytes(b[i..i + 4].try_into().unwrap()) as usize;
            asked.push((n(4), n(8)));
            if n(0) != index {
                return Verdict::Violation(format!("{what}: piece {} was requested", n(0)));
            }
        }
    }
    asked.sort();
    let mut at = 0;
    for &(begin, length) in &asked {
        if begin > size || length == 0 || length > 16384 || begin + length > size {
            return Verdict::Violation(format!("{what}: {length} bytes from {begin} were requested"));
        }
        if begin != at {
            return Verdict::Violation(format!("{what}: requests overlap or leave a gap at {at}: {asked:?}"));
        }
        at += length;
    }
    match got {
        Err(p) => Verdict::Violation(format!("{what}: downloading it panics: {p}")),
        Ok(Ok(b)) if b == *content && at == size => {
            Verdict::Ok(Obs::new(hash64(what.as_bytes()), true, what).count("requests for far pieces", asked.len()))
        }
        Ok(Ok(b)) => Verdict::Violation(format!("{what}: it came as other bytes, {} of them, of {at} requested", b.len())),
        Ok(Err(e)) => Verdict::Suspect(format!("{what}: an honest peer has it, but: {e}")),
    }
}

fn main() {
    kit::runner::worker(&[("far", far)]);
}
