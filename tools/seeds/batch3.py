FIELD = """use algebra::{derive::{Field, Prime, NTT, DecomposableField, FheField}, *};
#[derive(Field, Prime, DecomposableField, FheField, NTT)]
#[modulus = 132120577]
pub struct Fp(u32);
"""
seed("c30-miss", "C30", [("algebra_derive/src/ntt.rs",
"""                Self::init_ntt_table(&[log_n])?;
                Ok(find().unwrap())
""",
"""                // build the table without blocking the users of other tables
                let table = ::std::sync::Arc::new(Self::generate_ntt_table(log_n)?);
                #ntt_tables.write().unwrap().insert(log_n, ::std::sync::Arc::clone(&table));
                Ok(table)
""")],
FIELD + """
use std::sync::{Arc, Barrier};
fn main() {
    for l in 0..14u32 {
        let bar = Arc::new(Barrier::new(4));
        let hs: Vec<_> = (0..4).map(|_| { let bar = bar.clone(); std::thread::spawn(move || { bar.wait(); Fp::get_ntt_table(l).unwrap() }) }).collect();
        let ts: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        for t in &ts { assert!(Arc::ptr_eq(t, &ts[0]), "threads hold different tables of dimension 2^{l}"); }
    }
}
""", "two threads missing the same dimension at once", "each builds its own table, the later one replaces the earlier one in the cache")
