//! C01 and C02: the bencode codec, in-process, against the reference model.
use kit::benc::{self, Ref, Val};
use kit::guard::guarded;
use kit::{hash64, show, Ctx, Obs, Rng, Verdict};
use std::collections::HashMap;
use sut::bencode::decode::Decoder;
use sut::bencode::encode::Encode;
use sut::bencode::metainfo::Metainfo;
use sut::torrent::info::Info;

#[global_allocator]
static ALLOC: kit::guard::Budgeted = kit::guard::Budgeted;

fn convert(m: &Metainfo) -> Option<Val> {
    Some(match m {
        Metainfo::Integer(n) => Val::Int(*n as u64),
        Metainfo::String(b) => Val::Bytes(b.clone()),
        Metainfo::List(l) => Val::List(l.iter().map(convert).collect::<Option<_>>()?),
        Metainfo::Dictionary(d) => Val::Dict(
            d.iter().map(|(k, v)| Some((k.as_bytes().to_vec(), convert(v)?))).collect::<Option<_>>()?,
        ),
        Metainfo::Nothing() => return None,
    })
}

/// What the decoder makes of an input: its value and the bytes it took, nothing, or an error.
enum Got {
    Value(Val, usize),
    Nothing,
    Error(String),
}

fn run(input: &[u8]) -> Result<Got, String> {
    let source = input.to_vec();
    // A value takes some tens of bytes of memory per byte of input; a decoder that believes lengths takes far more.
    let budget = (4 << 20) + input.len() * 2048;
    guarded(budget, move || {
        let mut d = Decoder::init(source);
        match d.decode() {
            Ok(m) => {
                let used = d.get_total_parsed_bytes();
                match convert(&m) {
                    Some(v) => Got::Value(v, used),
                    None => Got::Nothing,
                }
            }
            Err(e) => Got::Error(e.to_string()),
        }
    })
}

/// A value of any of the types the encoder takes, as the encoder's and the reference's.
fn encode_both(r: &mut Rng) -> (Vec<u8>, Vec<u8>, String) {
    let big = r.one_in(400);
    let text = if big { benc::gen_text(r, 300_000) } else { benc::gen_text(r, 14) };
    let n = benc::gen_int(r);
    let blob = { let k = if big { benc::large(r) } else { r.below(120) }; r.bytes(k) };
    let list: Vec<String> = (0..r.below(if big { 3000 } else { 6 })).map(|_| benc::gen_text(r, 8)).collect();
    let nums: HashMap<String, u64> = (0..r.below(if big { 3000 } else { 8 })).map(|_| (benc::gen_text(r, 6), benc::gen_int(r))).collect();
    let as_usize: HashMap<String, usize> = nums.iter().map(|(k, v)| (k.clone(), *v as usize)).collect();
    match r.below(7) {
        0 => (text.encode(), Val::Bytes(text.clone().into_bytes()).encode(), format!("text {}", show(text.as_bytes()))),
        1 => (text.as_str().encode(), Val::Bytes(text.clone().into_bytes()).encode(), format!("str {}", show(text.as_bytes()))),
        2 => ((n as usize).encode(), Val::Int(n).encode(), format!("integer {n}")),
        3 => (blob.encode(), Val::Bytes(blob.clone()).encode(), format!("bytes {}", show(&blob))),
        4 => (
            list.encode(),
            Val::List(list.iter().map(|s| Val::Bytes(s.clone().into_bytes())).collect()).encode(),
            format!("list of {} {:?}", list.len(), list.iter().take(8).collect::<Vec<_>>()),
        ),
        5 => (
            as_usize.encode(),
            Val::Dict(nums.iter().map(|(k, v)| (k.clone().into_bytes(), Val::Int(*v))).collect()).encode(),
            format!("dictionary of {} {:?}", nums.len(), nums.iter().take(8).collect::<Vec<_>>()),
        ),
        _ => {
            let nested: Vec<Vec<String>> = (0..r.below(4)).map(|_| (0..r.below(3)).map(|_| benc::gen_text(r, 4)).collect()).collect();
            let val = Val::List(
                nested
                    .iter()
                    .map(|l| Val::List(l.iter().map(|s| Val::Bytes(s.clone().into_bytes())).collect()))
                    .collect(),
            );
            (nested.encode(), val.encode(), format!("list of lists {nested:?}"))
        }
    }
}

fn encoders(ctx: &mut Ctx) -> Verdict {
    let (mut key, mut sample) = (0u64, String::new());
    for _ in 0..50 {
        let mut fork = ctx.rng.fork();
        match guarded(1 << 30, move || encode_both(&mut fork)) {
            Err(p) => return Verdict::Violation(format!("encoding panicked: {p}")),
            Ok((got, want, what)) => {
                if got != want {
                    return Verdict::Violation(format!("{what} encodes as {}, should be {}", show(&got), show(&want)));
                }
                key ^= hash64(&want);
                sample = format!("{what} -> {}", show(&got));
            }
        }
    }
    Verdict::Ok(Obs::new(key, true, sample).count("values encoded", 50))
}

fn roundtrip(ctx: &mut Ctx) -> Verdict {
    let (mut key, mut sample, mut deep) = (0u64, String::new(), 0);
    for _ in 0..30 {
        let depth = if ctx.rng.one_in(20) { 12 } else { 4 };
        let mut val = benc::gen_val(&mut ctx.rng, depth);
        if ctx.rng.one_in(30) {
            for i in 0..ctx.rng.range(20, 60) {
                val = if i % 2 == 0 { Val::List(vec![val]) } else { benc::dict([("k", val)]) };
            }
        }
        if ctx.rng.one_in(600) {
            let r = &mut ctx.rng;
            let n = r.range(1000, 20_000);
            val = match r.below(3) {
                0 => { let n = benc::large(r); Val::Bytes(r.bytes(n)) }
                1 => Val::List((0..n).map(|_| benc::gen_val(r, 1)).collect()),
                _ => Val::Dict((0..n).map(|_| (benc::gen_text(r, 12).into_bytes(), benc::gen_val(r, 0))).collect()),
            };
            if r.one_in(2) {
                val = benc::dict([("a", benc::int(1)), ("k", val), ("z", benc::bytes("end"))]);
            }
        }
        let enc = val.encode();
        let trail = { let k = if ctx.rng.one_in(2) { 0 } else { ctx.rng.range(1, 40) }; ctx.rng.bytes(k) };
        let input = [enc.clone(), trail].concat();
        match run(&input) {
            Err(p) => return Verdict::Violation(format!("decoding {} panicked: {p}", show(&input))),
            Ok(Got::Value(v, n)) if v == val && n == enc.len() => (),
            Ok(Got::Value(v, n)) => {
                return Verdict::Violation(format!(
                    "{} should decode to it taking {} bytes, and decodes to {} taking {n}",
                    show(&input),
                    enc.len(),
                    show(&v.encode())
                ))
            }
            Ok(Got::Nothing) => return Verdict::Violation(format!("{} decodes to nothing", show(&input))),
            Ok(Got::Error(e)) => return Verdict::Violation(format!("{} is refused: {e}", show(&input))),
        }
        key ^= hash64(&enc);
        deep = deep.max(val.depth());
        sample = show(&enc);
    }
    Verdict::Ok(Obs::new(key, true, sample).count("values decoded", 30).count("deepest, summed over cases", deep))
}

/// The info dictionary of a torrent with no keys but the known ones encodes to the very bytes it was decoded from.
fn infos(ctx: &mut Ctx) -> Verdict {
    let (mut key, mut sample) = (0u64, String::new());
    for _ in 0..20 {
        let mut t = kit::torrent::gen(&mut ctx.rng, &kit::torrent::Shape { max_content: 3000, max_pieces: 40, ..Default::default() });
        if t.info.get("source").or(t.info.get("padding")).is_some() {
            t = t.rebuilt(|i| ["private", "source", "attr", "zz", "padding"].iter().for_each(|k| i.del(k)));
        }
        let bytes = t.metadata.clone();
        match guarded(1 << 28, move || Info::from_bytes(bytes).map(|i| i.encode()).map_err(|e| e.to_string())) {
            Err(p) => return Verdict::Violation(format!("the metadata {} makes a panic: {p}", show(&t.metadata))),
            Ok(Err(e)) => return Verdict::Violation(format!("the metadata {} is refused: {e}", show(&t.metadata))),
            Ok(Ok(e)) if e != t.metadata => {
                return Verdict::Violation(format!("the metadata {} encodes again as {}", show(&t.metadata), show(&e)))
            }
            Ok(Ok(_)) => (),
        }
        key ^= hash64(&t.hash);
        sample = show(&t.metadata);
    }
    Verdict::Ok(Obs::new(key, true, sample).count("info dictionaries", 20))
}

fn hostile(ctx: &mut Ctx) -> Verdict {
    let (mut key, mut sample) = (0u64, String::new());
    let (mut valid, mut invalid, mut unspecified) = (0, 0, 0);
    for _ in 0..40 {
        let input = benc::hostile_input(&mut ctx.rng);
        let got = match run(&input) {
            Err(p) => return Verdict::Violation(format!("decoding {} panicked: {p}", show(&input))),
            Ok(g) => g,
        };
        key ^= hash64(&input);
        match benc::decode(&input) {
            Ref::Valid(want, n) => {
                valid += 1;
                match got {
                    Got::Value(v, m) if v == want && m == n => (),
                    Got::Value(v, m) => {
                        return Verdict::Violation(format!(
                            "{} starts with {want:?} in {n} bytes, and decodes to {v:?} in {m}",
                            show(&input)
                        ))
                    }
                    Got::Nothing => return Verdict::Violation(format!("{} decodes to nothing", show(&input))),
                    Got::Error(e) => return Verdict::Violation(format!("{} is refused: {e}", show(&input))),
                }
            }
            Ref::Invalid => {
                invalid += 1;
                sample = show(&input);
                if let Got::Value(v, m) = got {
                    return Verdict::Violation(format!("{} is malformed, and decodes to {v:?} in {m} bytes", show(&input)));
                }
            }
            Ref::Unspecified => {
                unspecified += 1;
                if let Got::Value(_, m) = got {
                    if m > input.len() {
                        return Verdict::Violation(format!("{} takes {m} of its {} bytes", show(&input), input.len()));
                    }
                }
            }
        }
    }
    Verdict::Ok(
        Obs::new(key, invalid > 0, sample)
            .count("malformed inputs refused", invalid)
            .count("well formed inputs decoded", valid)
            .count("inputs with no one answer", unspecified),
    )
}

fn main() {
    kit::runner::worker(&[("encoders", encoders), ("roundtrip", roundtrip), ("infos", infos), ("hostile", hostile)]);
}
