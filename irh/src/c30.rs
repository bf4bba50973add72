//! C30: the table cache under two threads (see engine/race.py)
use crate::sym::*;
include!("thr.rs");
macro_rules! harnesses { ($($n:ident, $h:ident, $s:ident, $a:ident, $b:ident, $f:ident: $o0:tt($l0:expr), $o1:tt($l1:expr), $o2:tt($l2:expr);)*) => { $(
  #[no_mangle] pub extern "C" fn $s() { act!(GS, $o0($l0)); }
  #[no_mangle] pub extern "C" fn $a() { act!(GA, $o1($l1)); }
  #[no_mangle] pub extern "C" fn $b() { act!(GB, $o2($l2)); }
  #[no_mangle] pub extern "C" fn $f() { check!(verdict()); out(1); }
  #[no_mangle] pub extern "C" fn $h() { $s(); $a(); $b(); $f(); }
)* } }
//@ c30_* threads=1 ; two threads, every interleaving of their recorded accesses to shared memory (sequentially consistent); outcomes with one preemption at any atomic access
scenarios! { harnesses }
