//! C03, in-process: many magnets.
use kit::guard::guarded;
use kit::magnet::{self, Means};
use kit::{hash64, hex, show, Ctx, Obs, Verdict};
use sut::torrent::magnet::parse_magnet;

#[global_allocator]
static ALLOC: kit::guard::Budgeted = kit::guard::Budgeted;

fn magnets(ctx: &mut Ctx) -> Verdict {
    let (mut key, mut sample, mut named, mut refused) = (0, String::new(), 0, 0);
    for _ in 0..60 {
        let r = &mut ctx.rng;
        let (text, means) = match r.below(10) {
            0 => {
                // Bytes altered at random: only what is certain can be held against it.
                let (mut m, means) = magnet::valid(r);
                let at = r.below(m.len());
                let b = r.byte();
                let same = m[at] == b;
                m[at] = b;
                if same {
                    (m, Some(means))
                } else {
                    (m, None)
                }
            }
            1 => (r.bytes(50), None),
            2..=5 => {
                let (m, means) = magnet::valid(r);
                (m, Some(means))
            }
            _ => (magnet::invalid(r), Some(Means::Nothing)),
        };
        key ^= hash64(&text);
        let input = text.clone();
        let got = match guarded(1 << 22, move || parse_magnet(input).ok().map(|m| m.get_info_hash())) {
            Ok(g) => g,
            Err(p) => return Verdict::Violation(format!("{} crashes: {p}", show(&text))),
        };
        let right = match (&means, &got) {
            (None, None) => true,
            // Whatever it is, a torrent is named by 20 bytes.
            (None, Some(h)) => h.len() == 20,
            (Some(Means::Torrent(h)), Some(g)) => h[..] == g[..],
            (Some(Means::Maybe(h)), Some(g)) => h[..] == g[..],
            (Some(Means::Maybe(_)), None) => true,
            (Some(Means::Nothing), None) => true,
            (Some(Means::Torrent(_)), None) | (Some(Means::Nothing), Some(_)) => false,
        };
        if !right {
            let got = got.map(|g| hex(&g));
            return Verdict::Violation(format!("{} means {means:x?}, and is taken for {got:?}", show(&text)));
        }
        named += got.is_some() as usize;
        refused += got.is_none() as usize;
        sample = show(&text);
    }
    Verdict::Ok(Obs::new(key, named > 0 && refused > 0, sample).count("magnets taken", named).count("texts refused", refused))
}

fn main() {
    kit::runner::worker(&[("magnets", magnets)]);
}
