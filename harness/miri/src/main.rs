//! PIECES THREADS PUTS: threads take all pieces, and put some of them back a few times; each must be had exactly once more
//! often than it was put back.
#[allow(dead_code)]
#[path = "/repo/src/peer/piece_pool.rs"]
mod piece_pool;
use piece_pool::PiecePool;

fn main() {
    let n: Vec<usize> = std::env::args().skip(1).map(|a| a.parse().unwrap()).collect();
    let (pieces, threads, puts) = (n[0], n[1], n[2]);
    let pool = PiecePool::new(pieces);
    let all: Vec<_> = (0..threads)
        .map(|i| {
            let pool = pool.clone();
            std::thread::spawn(move || {
                let (mut had, mut back) = (vec![], vec![]);
                while let Some(p) = pool.pop() {
                    had.push(p);
                    if back.len() < puts && (p + i) % 2 == 0 {
                        back.push(p);
                        pool.insert(p);
                    }
                }
                (had, back)
            })
        })
        .collect();
    let (mut had, mut due): (Vec<usize>, Vec<usize>) = (vec![], (0..pieces).collect());
    for t in all {
        let (h, b) = t.join().unwrap();
        had.extend(h);
        due.extend(b);
    }
    had.sort();
    due.sort();
    // Whoever puts one back looks again, so none is left.
    assert_eq!(had, due, "pieces had and due");
    assert_eq!(pool.pop(), None, "a piece is left");
}
