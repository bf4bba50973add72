//! C29: blocks, the block cipher, the block generator
use crate::sym::*;
use algebra::utils::{Aes, Block, Prg};
use rand::{Rng, RngCore, SeedableRng};
extern "C" { fn sym_aes_sub(x: u8) -> u8; fn sym_aes_round(lo: u64, hi: u64, last: bool, half: u32) -> u64; }
type B = [u64; 2];
fn blk() -> B { arr() }
/// FIPS-197 key schedule
fn schedule(k: B) -> [B; 11] {
  let mut w = [0u32; 44]; for i in 0..4 { w[i] = (k[i / 2] >> (32 * (i % 2))) as u32; }
  let mut rc = 1u32;
  for i in 4..44 { let mut t = w[i - 1];
    if i % 4 == 0 { t = t.rotate_right(8); let mut s = 0; for j in 0..4 { s |= (unsafe { sym_aes_sub((t >> (8 * j)) as u8) } as u32) << (8 * j); } t = s ^ rc; rc <<= 1; if rc > 255 { rc ^= 0x11b; } }
    w[i] = w[i - 4] ^ t; }
  let mut r = [[0u64; 2]; 11]; for i in 0..22 { r[i / 2][i % 2] = w[2 * i] as u64 | (w[2 * i + 1] as u64) << 32; } r
}
/// FIPS-197 cipher
fn cipher(k: &[B; 11], b: B) -> B {
  let mut s = [b[0] ^ k[0][0], b[1] ^ k[0][1]];
  for i in 1..11 { let f = |h| unsafe { sym_aes_round(s[0], s[1], i == 10, h) }; s = [f(0) ^ k[i][0], f(1) ^ k[i][1]]; }
  s
}
fn same(a: Block, b: B, id: u32) { let x: B = a.into(); check!((x[0] == b[0]) & (x[1] == b[1]), id); }

//@ c29_* ; every 128-bit block and key
harness!(c29_block, {
  let (x, y) = (blk(), blk()); let (a, b) = (Block::from(x), Block::from(y));
  same(a, x, 1); same(a ^ b, [x[0] ^ y[0], x[1] ^ y[1]], 2); same(a | b, [x[0] | y[0], x[1] | y[1]], 3); same(a & b, [x[0] & y[0], x[1] & y[1]], 4);
  let mut c = a; c ^= b; same(c, [x[0] ^ y[0], x[1] ^ y[1]], 5);
  let mut c = a; c |= b; same(c, [x[0] | y[0], x[1] | y[1]], 6);
  let mut c = a; c &= b; same(c, [x[0] & y[0], x[1] & y[1]], 7);
  same(Block::ZERO, [0, 0], 8); same(Block::default(), [0, 0], 9);
  check!((a == b) == ((x[0] == y[0]) & (x[1] == y[1])), 10); check!((a != b) == !((x[0] == y[0]) & (x[1] == y[1])), 11);
  let w: u128 = a.into(); check!(w == (x[0] as u128 | (x[1] as u128) << 64), 12);
  same(Block::from(w), x, 13);
  out(w as u64);
});
harness!(c29_bytes, {
  let s: [u8; 16] = arr(); let i = pick(16);
  let mut x = [0u64; 2]; for k in 0..16 { x[k / 8] |= (s[k] as u64) << (8 * (k % 8)); }
  let a = Block::from(s); same(a, x, 21); same(Block::new(&s), x, 22);
  let t: [u8; 16] = a.into(); check!(t[i] == s[i], 23);
  check!(a.as_ref().len() == 16 && a.as_ref()[i] == s[i], 24);
  let v: u8 = any(); let mut c = a; c.as_mut()[i] = v; let u: [u8; 16] = c.into();
  for k in 0..16 { check!(u[k] == if k == i { v } else { s[k] }, 25); }
  out(t[i] as u64);
});
harness!(c29_slice, {
  let s: [u8; 40] = arr(); let (n, o) = (pick(34), pick(3));
  let mut x = [0u64; 2]; for k in 0..16 { x[k / 8] |= (s[o + k] as u64) << (8 * (k % 8)); }
  match Block::try_from_slice(&s[o..o + n]) { Some(a) => { check!(n == 16, 31); same(a, x, 32); } None => check!(n != 16, 33) }
});
/// a random stream given as words
struct Tape(Vec<u32>, usize);
impl RngCore for Tape {
  fn next_u32(&mut self) -> u32 { self.1 += 1; self.0[self.1 - 1] }
  fn next_u64(&mut self) -> u64 { let l = self.next_u32() as u64; l | (self.next_u32() as u64) << 32 }
  fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(4) { let x = self.next_u32(); for i in 0..c.len() { c[i] = (x >> (8 * i)) as u8; } } }
  fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
harness!(c29_sample, {
  let w: [u32; 4] = arr(); let x = [w[0] as u64 | (w[1] as u64) << 32, w[2] as u64 | (w[3] as u64) << 32];
  let mut t = Tape(w.to_vec(), 0); let b: Block = t.gen(); same(b, x, 41); check!(t.1 == 4, 42);
});
harness!(c29_fmt, {
  let j = pick(16); let v: u8 = any(); let mut s = [0x5au8; 16]; s[j] = v; let a = Block::from(s);
  let f = if pick(2) == 0 { format!("{}", a) } else { format!("{:?}", a) };
  check!(f.len() == 32, 51);
  let hex = |d: u8| if d < 10 { b'0' + d } else { b'A' + d - 10 };
  for k in 0..16 { check!((f.as_bytes()[30 - 2 * k] == hex(s[k] >> 4)) & (f.as_bytes()[31 - 2 * k] == hex(s[k] & 15)), 52); }
});

//@ c29_aes* weight=2; every key and block; the substitution and the round of the cipher instructions uninterpreted
harness!(c29_aes_one, {
  let (k, b) = (blk(), blk()); let r = Aes::new(Block::from(k)).encrypt_block(Block::from(b));
  let e = cipher(&schedule(k), b); same(r, e, 61); let x: B = r.into(); out(x[0]); out(x[1]);
});
fn many<const N: usize>() {
  let k = blk(); let mut b = [[0; 2]; N]; for i in 0..N { b[i] = blk(); }
  let r = Aes::new(Block::from(k)).encrypt_many_blocks(b.map(Block::from)); let s = schedule(k);
  for i in 0..N { same(r[i], cipher(&s, b[i]), 62); } let x: B = r[N - 1].into(); out(x[0]);
}
harness!(c29_aes_many1, { many::<1>() });
harness!(c29_aes_many2, { many::<2>() });
harness!(c29_aes_many3, { many::<3>() });
harness!(c29_aes_many8, { many::<8>() });
//@ c29_aes_slice weight=4; every slice of up to 18 blocks
harness!(c29_aes_slice, {
  let k = blk(); let n = pick(19); let b: Vec<B> = (0..n).map(|_| blk()).collect();
  let mut v: Vec<Block> = b.iter().map(|&x| Block::from(x)).collect();
  Aes::new(Block::from(k)).encrypt_block_slice(&mut v); let s = schedule(k); check!(v.len() == n, 63);
  for i in 0..n { same(v[i], cipher(&s, b[i]), 64); } if n > 0 { let x: B = v[n - 1].into(); out(x[1]); }
});

/// the specified word stream: the words of the blocks of a counter (the cipher by c29_aes_one)
struct Stream { k: Aes, at: u64, b: B, ok: bool }
impl Stream {
  fn new(seed: B) -> Self { Stream { k: Aes::new(Block::from(seed)), at: 0, b: [0; 2], ok: true } }
  fn word(&mut self) -> u32 { let i = self.at; self.at += 1; if i % 4 == 0 { self.b = self.k.encrypt_block(Block::from([i / 4, 0])).into(); } (self.b[(i / 2 % 2) as usize] >> (32 * (i % 2))) as u32 }
  fn skip(&mut self, n: u64) { for _ in 0..n { let i = self.at; self.at += 1; if self.at % 4 != 0 && i % 4 == 0 { self.b = self.k.encrypt_block(Block::from([i / 4, 0])).into(); } } }
}
/// one request of kind o, compared with the stream
fn request(p: &mut Prg, s: &mut Stream, o: usize) {
  match o {
    0 => s.ok &= p.next_u32() == s.word(),
    1 => { let x = p.next_u64(); let l = s.word(); let h = s.word(); s.ok &= (x as u32 == l) & ((x >> 32) as u32 == h); }
    2 => { let x: B = p.random_block().into(); let w = [s.word(), s.word(), s.word(), s.word()];
      s.ok &= (x[0] == (w[0] as u64 | (w[1] as u64) << 32)) & (x[1] == (w[2] as u64 | (w[3] as u64) << 32)); }
    3 => { let mut v = [Block::ZERO; 3]; p.random_blocks(&mut v);
      for i in 0..3 { let x: B = v[i].into(); let w = [s.word(), s.word(), s.word(), s.word()];
        s.ok &= (x[0] == (w[0] as u64 | (w[1] as u64) << 32)) & (x[1] == (w[2] as u64 | (w[3] as u64) << 32)); } }
    4 | 5 | 6 => { let n = [8, 5, 30][o - 4]; let mut d = vec![0u8; n];
      if o == 4 { p.fill_bytes(&mut d) } else if o == 5 { p.random_bytes(&mut d) } else { p.try_fill_bytes(&mut d).unwrap() }
      for c in d.chunks(4) { let w = s.word(); for i in 0..c.len() { s.ok &= c[i] == (w >> (8 * i)) as u8; } } }
    7 => { let x = p.random_byte(); s.ok &= x == s.word() as u8; }
    8 => { let x = p.random_bool(); s.ok &= x == (s.word() >> 31 == 1); }
    9 => { let mut d = [false; 5]; p.random_bools(&mut d); for i in 0..5 { s.ok &= d[i] == (s.word() >> 31 == 1); } }
    _ => { let mut q = p.clone(); *p = q.clone(); let mut d = [0u8; 4]; q.fill_bytes(&mut d); }
  }
}
const OPS: usize = 11;
//@ c29_prg_* nomerge=1 xornorm=1 weight=4; every seed; every sequence of two requests out of 11 kinds from stream positions around block and batch ends (path by path)
harness!(c29_prg_one, {
  let seed = blk(); let mut p = Prg::from_seed(Block::from(seed)); let mut s = Stream::new(seed);
  let o = pick(OPS); request(&mut p, &mut s, o); out(p.next_u64()); let _ = (s.word(), s.word()); check!(s.ok, 71);
});
fn pairs(at: &[u64]) {
  let seed = blk(); let mut p = Prg::from_seed(Block::from(seed)); let mut s = Stream::new(seed);
  let n = at[pick(at.len())]; for _ in 0..n { p.next_u32(); } s.skip(n);
  let (a, b) = (pick(OPS), pick(OPS)); request(&mut p, &mut s, a); request(&mut p, &mut s, b); request(&mut p, &mut s, 1); check!(s.ok, 72);
}
harness!(c29_prg_pairs0, { pairs(&[0, 31]) });
harness!(c29_prg_pairs1, { pairs(&[27, 30]) });
harness!(c29_prg_pairs2, { pairs(&[29, 32]) });
harness!(c29_prg_pairs3, { pairs(&[28, 63]) });
//@ c29_prg_long nomerge=1 xornorm=1 weight=4; every seed; requests of up to 2048 bytes at once
harness!(c29_prg_long, {
  let seed = blk(); let mut p = Prg::from_seed(Block::from(seed)); let mut s = Stream::new(seed);
  let (n, skip) = ([128usize, 129, 1024, 2048][pick(4)], pick(3) as u64); for _ in 0..skip { p.next_u32(); } s.skip(skip);
  let mut d = vec![0u8; n]; p.random_bytes(&mut d);
  for (j, c) in d.chunks(4).enumerate() { let w = s.word(); if j < 8 || j + 40 > n / 4 || j % 67 == 0 { for i in 0..c.len() { s.ok &= c[i] == (w >> (8 * i)) as u8; } } }
  request(&mut p, &mut s, 1); check!(s.ok, 73);
});
//@ c29_prg_from nomerge=1 xornorm=1; every seed bytes
harness!(c29_prg_from, {
  let w: [u32; 4] = arr(); let seed = [w[0] as u64 | (w[1] as u64) << 32, w[2] as u64 | (w[3] as u64) << 32];
  let mut t = Tape(w.to_vec(), 0); let mut p = Prg::from_rng(&mut t).unwrap(); let mut s = Stream::new(seed); check!(t.1 == 4, 181);
  request(&mut p, &mut s, pick(OPS)); request(&mut p, &mut s, 0); check!(s.ok, 74);
});
