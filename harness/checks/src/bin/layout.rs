//! C13, in-process: pieces written to files in any order, of torrents of any size.
use kit::guard::guarded;
use kit::world::Scratch;
use kit::{hash64, Ctx, Obs, Verdict};
use std::os::unix::fs::FileExt;
use sut::torrent::file::File;
use sut::torrent::writer::write;

#[global_allocator]
static ALLOC: kit::guard::Budgeted = kit::guard::Budgeted;

fn content(seed: u64, at: u64) -> u8 {
    let x = (at ^ seed).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    (x ^ (x >> 29)) as u8
}

fn pieces(ctx: &mut Ctx) -> Verdict {
    let r = &mut ctx.rng;
    let huge = r.one_in(4);
    let n = if r.one_in(40) { r.range(200, 700) } else { *r.pick(&[1, 2, 3, 5, 10, 40]) };
    let mut lengths: Vec<u64> = (0..n)
        .map(|_| match r.below(6) {
            0 => 0,
            1 => r.below(4) as u64,
            _ if huge && r.one_in(2) => *r.pick(&[1u64 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 5_000_000_000, 1 << 34]) + r.below(3) as u64,
            _ => r.below(3000) as u64,
        })
        .collect();
    if lengths.iter().all(|l| *l == 0) {
        lengths[0] = 1 + r.below(5000) as u64;
    }
    let total: u64 = lengths.iter().sum();
    let piece_length = match r.below(5) {
        0 => 16384,
        1 => 1 << r.range(0, 17),
        2 => r.range(1, 70_000),
        3 => r.range(1, 40),
        _ => r.range(1, 5000),
    } as u64;
    // Not too many pieces, unless it is only some of them that are written.
    let piece_length = if huge { piece_length.max(1 << 14) } else { piece_length.max(total / 200 + 1) };
    let count = total.div_ceil(piece_length);
    let mut order: Vec<u64> = if huge {
        // Around the ends of files, and anywhere.
        let mut at = 0;
        let mut v = vec![0, count - 1];
        for l in &lengths {
            at += l;
            v.extend([at / piece_length, (at.saturating_sub(1)) / piece_length]);
        }
        v.extend((0..10).map(|_| r.u64() % count));
        v.retain(|i| *i < count);
        v
    } else {
        (0..count).collect()
    };
    r.shuffle(&mut order);
    // Some come twice.
    for _ in 0..r.below(4) {
        let again = *r.pick(&order);
        order.push(again);
    }
    let nested = r.below(4);
    let paths: Vec<Vec<String>> = (0..n)
        .map(|i| match nested {
            0 => vec![format!("d{}", i % 3), format!("e{}", i % 2), format!("f{i}")],
            // Of the same name as others, in another folder.
            1 => vec![format!("d{}", i / 3), format!("f{}", i % 3)],
            _ => vec![format!("f{i}")],
        })
        .collect();
    let files: Vec<File> = paths.iter().zip(&lengths).map(|(p, l)| File::new(p.clone(), *l as usize)).collect();
    let scratch = match Scratch::new() {
        Ok(s) => s,
        Err(e) => return Verdict::Inconclusive(e.to_string()),
    };
    if let Err(e) = std::env::set_current_dir(&scratch.cwd) {
        return Verdict::Inconclusive(e.to_string());
    }
    let seed = r.u64();
    let what = format!("files of {lengths:?} in pieces of {piece_length}, written in the order {:?}", &order[..order.len().min(30)]);
    for i in &order {
        let (a, b) = (i * piece_length, total.min((i + 1) * piece_length));
        let data: Vec<u8> = (a..b).map(|at| content(seed, at)).collect();
        match guarded(256 << 20, || write(data, *i as usize, files.clone(), piece_length as usize)) {
            Ok(Ok(())) => (),
            Ok(Err(e)) => return Verdict::Suspect(format!("{what}: piece {i}: {e}")),
            Err(p) => return Verdict::Violation(format!("{what}: piece {i} crashes: {p}")),
        }
    }
    let (mut start, mut bytes, mut missing) = (0, 0, 0);
    for (p, l) in paths.iter().zip(&lengths) {
        let name = p.join("/");
        let end = start + l;
        // The pieces that have bytes of this file.
        let written: Vec<(u64, u64)> = order
            .iter()
            .map(|i| ((i * piece_length).max(start), ((i + 1) * piece_length).min(end)))
            .filter(|(a, b)| a < b)
            .collect();
        let want = written.iter().map(|(_, b)| b - start).max();
        let f = match std::fs::File::open(&name) {
            Ok(f) => f,
            Err(_) if *l == 0 && huge => {
                missing += 1;
                continue;
            }
            Err(_) if want.is_none() && *l > 0 => {
                start = end;
                missing += 1;
                continue;
            }
            Err(e) => return Verdict::Violation(format!("{what}: {name}: {e}")),
        };
        let have = f.metadata().map(|m| m.len()).unwrap_or(0);
        // How far it reaches before all of it was written is not for this to say.
        if have < want.unwrap_or(0) || have > *l {
            return Verdict::Violation(format!("{what}: {name} has {have} bytes, should have {}, in the end {l}", want.unwrap_or(0)));
        }
        for (a, b) in written {
            let mut buf = vec![0; (b - a) as usize];
            if f.read_exact_at(&mut buf, a - start).is_err() {
                return Verdict::Violation(format!("{what}: {name} ends before {}", b - start));
            }
            if let Some(i) = (0..buf.len()).find(|i| buf[*i] != content(seed, a + *i as u64)) {
                return Verdict::Violation(format!("{what}: byte {} of {name} is wrong", a - start + i as u64));
            }
            bytes += buf.len();
        }
        start = end;
    }
    let extra = walk(&scratch.cwd);
    if extra != n - missing {
        return Verdict::Violation(format!("{what}: there are {extra} files"));
    }
    let _ = std::env::set_current_dir("/");
    Verdict::Ok(
        Obs::new(hash64(what.as_bytes()), true, what)
            .count("pieces written", order.len())
            .count("bytes compared", bytes)
            .count("torrents beyond 2 GiB", (total > 1 << 31) as usize),
    )
}

fn walk(dir: &std::path::Path) -> usize {
    std::fs::read_dir(dir)
        .into_iter()
        .flatten()
        .flatten()
        .map(|e| if e.path().is_dir() { walk(&e.path()) } else { 1 })
        .sum()
}

fn main() {
    kit::runner::worker(&[("pieces", pieces)]);
}
