#![allow(static_mut_refs)]
//! Replays a two-thread scenario (irh/src/thr.rs) over the real crates; run under Miri.
include!("../../irh/src/thr.rs");
macro_rules! run { ($($n:ident, $h:ident, $s:ident, $a:ident, $b:ident, $f:ident: $o0:tt($l0:expr), $o1:tt($l1:expr), $o2:tt($l2:expr);)*) => { match std::env::args().nth(1).unwrap().as_str() { $(
  stringify!($h) => {
    act!(GS, $o0($l0));
    let a = std::thread::spawn(|| act!(GA, $o1($l1)));
    let b = std::thread::spawn(|| act!(GB, $o2($l2)));
    a.join().unwrap();
    b.join().unwrap();
    if !verdict() { println!("SCENARIO {}: a table is incomplete, or two threads hold different tables", stringify!($n)); std::process::exit(1); }
  } )*
  x => panic!("no scenario {x}"),
} } }
fn main() { scenarios! { run } }
