// Two threads use the table cache of a transformed field (included by irh/src/c30.rs and by thr/src/main.rs).
use algebra::{derive::*, transformation::*, *};
use std::sync::Arc;
#[derive(Field, Prime, DecomposableField, FheField, NTT)]
#[modulus = 12289]
pub struct Q(u16);
type Tab = Arc<<Q as NTTField>::Table>;
pub struct Got { pub l: [u32; 4], pub t: [Option<Tab>; 4], pub bad: bool }
pub const NONE: Got = Got { l: [0; 4], t: [None, None, None, None], bad: false };
pub static mut GA: Got = NONE;
pub static mut GB: Got = NONE;
pub static mut GS: Got = NONE;
pub fn get(g: &mut Got, ls: &[u32]) { for (i, &l) in ls.iter().enumerate() { g.l[i] = l; g.t[i] = Some(Q::get_ntt_table(l).unwrap()); } }
pub fn init(ls: &[u32]) { Q::init_ntt_table(ls).unwrap(); }
/// multiplies polynomials of the given dimensions
pub fn mul(g: &mut Got, ls: &[u32]) { for &l in ls {
  let n = 1usize << l;
  let (p, q) = (12289u64, |x: u64| Q::new((x % 12289) as u16));
  let a: Vec<u64> = (0..n as u64).map(|i| (5 + 7919 * i) % p).collect();
  let b: Vec<u64> = (0..n as u64).map(|i| (12288 - 31 * i) % p).collect();
  let r = Polynomial::new(a.iter().map(|&x| q(x)).collect()) * Polynomial::new(b.iter().map(|&x| q(x)).collect());
  for k in 0..n {
    let mut s = 0;
    for i in 0..n { for j in 0..n { if i + j == k { s += a[i] * b[j] } else if i + j == k + n { s += (p - a[i]) * b[j] } } }
    g.bad |= r[k] != q(s);
  }
} }
fn whole(t: &Tab, l: u32) -> bool {
  let n = 1usize << l;
  let (g, p) = (t.root().value() as u64, 12289u64);
  let mut x = 1u64;
  let mut ok = t.coeff_count() == n && t.coeff_count_power() == l && t.ordinal_root_powers().len() == 2 * n && t.root_powers().len() == n && t.inv_root_powers().len() == n;
  let mut i = 0;
  while i < 2 * n && i < t.ordinal_root_powers().len() {
    ok &= t.ordinal_root_powers()[i].value() as u64 == x && (i != n || x == p - 1);
    x = x * g % p;
    i += 1;
  }
  ok && x == 1
}
/// every table handed out is complete, and all for one dimension are the same
pub fn verdict() -> bool {
  let all = unsafe { [&*std::ptr::addr_of!(GS), &*std::ptr::addr_of!(GA), &*std::ptr::addr_of!(GB)] };
  let mut ok = true;
  for x in all { ok &= !x.bad; for i in 0..4 { if let Some(t) = &x.t[i] {
    ok &= whole(t, x.l[i]);
    ok &= Arc::ptr_eq(t, &Q::get_ntt_table(x.l[i]).unwrap());
  } } }
  ok
}
macro_rules! scenarios { ($m:ident) => { $m! {
  cold_same, c30_cold_same, thr_cold_same_s, thr_cold_same_a, thr_cold_same_b, thr_cold_same_f: no(&[]), get(&[1]), get(&[1]);
  cold_diff, c30_cold_diff, thr_cold_diff_s, thr_cold_diff_a, thr_cold_diff_b, thr_cold_diff_f: no(&[]), get(&[0]), get(&[1]);
  warm_hit, c30_warm_hit, thr_warm_hit_s, thr_warm_hit_a, thr_warm_hit_b, thr_warm_hit_f: get(&[0]), get(&[1]), get(&[0]);
  warm_same, c30_warm_same, thr_warm_same_s, thr_warm_same_a, thr_warm_same_b, thr_warm_same_f: get(&[0]), get(&[1]), get(&[1]);
  warm_diff, c30_warm_diff, thr_warm_diff_s, thr_warm_diff_a, thr_warm_diff_b, thr_warm_diff_f: get(&[0]), get(&[1]), get(&[2]);
  warm_two, c30_warm_two, thr_warm_two_s, thr_warm_two_a, thr_warm_two_b, thr_warm_two_f: get(&[1]), get(&[0, 1]), get(&[2, 1]);
  grow, c30_grow, thr_grow_s, thr_grow_a, thr_grow_b, thr_grow_f: init(&[0, 1, 2]), get(&[3]), get(&[1]);
  grow_same, c30_grow_same, thr_grow_same_s, thr_grow_same_a, thr_grow_same_b, thr_grow_same_f: init(&[0, 1, 2]), get(&[3]), get(&[3]);
  init_get, c30_init_get, thr_init_get_s, thr_init_get_a, thr_init_get_b, thr_init_get_f: no(&[]), init(&[0, 1]), get(&[1, 0]);
  init_init, c30_init_init, thr_init_init_s, thr_init_init_a, thr_init_init_b, thr_init_init_f: no(&[]), init(&[0, 1]), init(&[1, 2]);
  use_use, c30_use_use, thr_use_use_s, thr_use_use_a, thr_use_use_b, thr_use_use_f: get(&[1]), mul(&[1]), mul(&[1]);
  use_cold, c30_use_cold, thr_use_cold_s, thr_use_cold_a, thr_use_cold_b, thr_use_cold_f: no(&[]), mul(&[1]), mul(&[2]);
  use_grow, c30_use_grow, thr_use_grow_s, thr_use_grow_a, thr_use_grow_b, thr_use_grow_f: init(&[0, 1, 2]), mul(&[2, 1]), get(&[3]);
  hit_hit, c30_hit_hit, thr_hit_hit_s, thr_hit_hit_a, thr_hit_hit_b, thr_hit_hit_f: get(&[1]), get(&[1]), get(&[1]);
} } }
macro_rules! act { ($g:ident, no($l:expr)) => {}; ($g:ident, get($l:expr)) => { get(unsafe { &mut *std::ptr::addr_of_mut!($g) }, $l) }; ($g:ident, mul($l:expr)) => { mul(unsafe { &mut *std::ptr::addr_of_mut!($g) }, $l) }; ($g:ident, init($l:expr)) => { init($l) } }
