//! Regenerated table (see /verif/luts/gen_luts.c).
static T: &[u8] = include_bytes!("../../../tables/pow2_div_pow5.bin");
fn w(i: usize) -> u128 {
    u128::from_le_bytes(T[i..i + 16].try_into().unwrap())
}
pub fn lookup_pow2_div_pow5(idx: usize) -> (u128, u128, u128, u128) {
    let i = idx * 64;
    (w(i + 48), w(i + 32), w(i + 16), w(i))
}
