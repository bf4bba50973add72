//! Stand-in for the ChaCha generator (an external dependency): either an arbitrary word stream chosen by
//! the solver, or a fixed pseudo-random stream that is the same symbolically and natively.
use rand_core::block::BlockRngCore;
pub use rand_core;
use rand_core::{CryptoRng, Error, RngCore, SeedableRng};
extern "C" { fn sym_u32() -> u32; fn sym_u64() -> u64; fn sym_assume(c: bool); }
/// number of words that may still be drawn symbolically; -1: fixed stream
pub static mut BUDGET: i64 = -1;
/// words handed out so far in symbolic mode (32-bit draws are zero-extended)
pub static mut LOG: [u64; 64] = [0; 64];
pub static mut NLOG: usize = 0;
/// if SPLIT > 0, the top SPLIT bits of every symbolic draw are TOP
pub static mut TOP: u64 = 0;
pub static mut SPLIT: u32 = 0;
/// number of words the thread generator takes from WORDS in its next block, before a fixed stream
pub static mut CORE: usize = 0;
pub static mut WORDS: [u32; 4] = [0; 4];
static mut STATE: u64 = 0x9E3779B97F4A7C15;
fn fixed() -> u64 { unsafe { STATE ^= STATE << 13; STATE ^= STATE >> 7; STATE ^= STATE << 17; STATE.wrapping_mul(0x2545F4914F6CDD1D) } }
fn log(v: u64) { unsafe { LOG[NLOG] = v; NLOG += 1; } }
fn take() -> bool { unsafe { if BUDGET < 0 { return false; } if BUDGET == 0 { sym_assume(false); } BUDGET -= 1; true } }
fn w32() -> u32 { unsafe { if take() { let v = if SPLIT > 0 { (TOP as u32) << (32 - SPLIT) | sym_u32() >> SPLIT } else { sym_u32() }; log(v as u64); v } else { (fixed() >> 32) as u32 } } }
fn w64() -> u64 { unsafe { if take() { let v = if SPLIT > 0 { TOP << (64 - SPLIT) | sym_u64() >> SPLIT } else { sym_u64() }; log(v); v } else { fixed() } } }
macro_rules! chacha { ($($core:ident, $rng:ident);*) => { $(
    #[derive(Clone, Debug)] pub struct $core;
    pub struct Buf([u32; 64]);
    impl Default for Buf { fn default() -> Self { Buf([0; 64]) } }
    impl AsRef<[u32]> for Buf { fn as_ref(&self) -> &[u32] { &self.0 } }
    impl AsMut<[u32]> for Buf { fn as_mut(&mut self) -> &mut [u32] { &mut self.0 } }
    impl BlockRngCore for $core { type Item = u32; type Results = Buf; fn generate(&mut self, r: &mut Buf) { for (i, x) in r.0.iter_mut().enumerate() { *x = if i < unsafe { CORE } { unsafe { WORDS[i] } } else { (fixed() >> 32) as u32 }; } unsafe { CORE = 0; } } }
    impl SeedableRng for $core { type Seed = [u8; 32]; fn from_seed(_: [u8; 32]) -> Self { $core } }
    impl CryptoRng for $core {}
    #[derive(Clone, Debug, PartialEq, Eq)] pub struct $rng;
    impl SeedableRng for $rng { type Seed = [u8; 32]; fn from_seed(_: [u8; 32]) -> Self { $rng } }
    impl RngCore for $rng {
        fn next_u32(&mut self) -> u32 { w32() }
        fn next_u64(&mut self) -> u64 { w64() }
        fn fill_bytes(&mut self, d: &mut [u8]) { for x in d.iter_mut() { *x = w32() as u8; } }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { self.fill_bytes(d); Ok(()) }
    }
    impl CryptoRng for $rng {}
)* } }
mod c8 { use super::*; chacha!(ChaCha8Core, ChaCha8Rng); }
mod c12 { use super::*; chacha!(ChaCha12Core, ChaCha12Rng); }
mod c20 { use super::*; chacha!(ChaCha20Core, ChaCha20Rng); }
pub use c8::{ChaCha8Core, ChaCha8Rng};
pub use c12::{ChaCha12Core, ChaCha12Rng};
pub use c20::{ChaCha20Core, ChaCha20Rng};
pub type ChaChaRng = ChaCha20Rng;
pub type ChaChaCore = ChaCha20Core;
