//! C20: HTTP trackers, played by a scripted server.
use kit::guard::guarded;
use kit::http::{answer, request_flaw, Means, Server};
use kit::{hash64, hex, Ctx, Obs, Verdict};
use std::time::{Duration, Instant};
use sut::tracker::get_peers_by_tracker;

#[global_allocator]
static ALLOC: kit::guard::Budgeted = kit::guard::Budgeted;

fn announces(ctx: &mut Ctx) -> Verdict {
    let r = &mut ctx.rng;
    let (what, a, means) = answer(r);
    let refuse = r.one_in(20);
    let path = *r.pick(&["/announce", "/", "", "/a/b.php", "/announce.php", "/%20x", "/x;y", "/k/0123456789abcdef/announce"]);
    let query = *r.pick(&["", "", "passkey=abc", "a=1&b=2", "uid=1&hash=%ff%00", "x"]);
    let hash: Vec<u8> = match r.below(6) {
        0 => b"&=?%+ #/:;@!$'()*,~_".to_vec(),
        1 => (0..20).map(|i| i * 13).collect(),
        2 => vec![r.byte(); 20],
        _ => r.bytes(20),
    };
    let server = match Server::start(move |_| a.clone()) {
        Ok(s) => s,
        Err(e) => return Verdict::Inconclusive(e.to_string()),
    };
    // Nobody listens at the port of a server that has gone.
    let (port, server) = (server.port, (!refuse).then_some(server));
    let addr = format!("127.0.0.1:{port}");
    let url = format!("http://{addr}{path}{}{query}", if query.is_empty() { "" } else { "?" });
    let t0 = Instant::now();
    let parsed = match url::Url::parse(&url) {
        Ok(u) => u,
        Err(e) => return Verdict::Inconclusive(e.to_string()),
    };
    let h = hash.clone();
    let got = guarded(256 << 20, move || {
        actix_web::rt::System::new().block_on(async move { get_peers_by_tracker(&parsed, &h).await.map(|l| l.iter().map(|p| p.endpoint()).collect::<Vec<_>>()).map_err(|e| e.to_string()) })
    });
    let took = t0.elapsed();
    let about = format!("{url}, hash {}, answer: {what}", hex(&hash));
    let got = match got {
        Ok(g) => g,
        Err(p) => return Verdict::Violation(format!("{about}: crash: {p}")),
    };
    if took > Duration::from_secs(10) {
        return Verdict::Suspect(format!("{about}: it took {took:?}"));
    }
    let seen = server.map(|s| s.seen()).unwrap_or_default();
    if !refuse {
        match &seen[..] {
            [] => return Verdict::Suspect(format!("{about}: no request")),
            [one] => {
                if let Some(flaw) = request_flaw(one, path, query, &hash) {
                    return Verdict::Violation(format!("{about}: {flaw}"));
                }
            }
            more => return Verdict::Suspect(format!("{about}: {} requests", more.len())),
        }
    }
    match (&means, &got) {
        _ if refuse => {
            if let Ok(l) = got {
                return Verdict::Violation(format!("{about}: nobody answers, and the peers are {l:?}"));
            }
        }
        // A machine under load is slow to answer, too.
        (Means::Peers(p), Err(e)) => return Verdict::Suspect(format!("{about}: {} peers are reported, the outcome is {e}", p.len())),
        (Means::Peers(p), Ok(l)) if l != p => {
            let i = l.iter().zip(p).take_while(|(a, b)| a == b).count();
            return Verdict::Violation(format!("{about}: of {} peers {} are reported, and entry {i} is {:?}, should be {:?}", p.len(), l.len(), l.get(i), p.get(i)));
        }
        (Means::Error, Ok(l)) => return Verdict::Violation(format!("{about}: the outcome is {} peers, {:?}", l.len(), l.iter().take(3).collect::<Vec<_>>())),
        _ => (),
    }
    let n = got.as_ref().map(|l| l.len()).unwrap_or(0);
    Verdict::Ok(
        Obs::new(hash64(about.as_bytes()), !seen.is_empty(), about)
            .count("requests checked", seen.len())
            .count("peers understood", n)
            .count("errors reported", got.is_err() as usize),
    )
}

fn main() {
    kit::runner::worker(&[("announces", announces)]);
}
