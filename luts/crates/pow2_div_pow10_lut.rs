//! Regenerated table (see /verif/luts/gen_luts.c).
static T: &[u8] = include_bytes!("../../../tables/pow2_div_pow10.bin");
static PARAMS: &[u8] =
    include_bytes!("../../../tables/pow2_div_pow10_params.bin");
const SEGMENT_OFFSET: u32 = (512 - 237) / 32;
const CUTOFF: usize = 6;
fn w(i: usize) -> u128 {
    u128::from_le_bytes(T[i..i + 16].try_into().unwrap())
}
pub fn get_pow2_div_pow10_params(exp2: i32) -> (usize, (u32, u32)) {
    assert!(exp2 > 0);
    let s = (exp2 as u32 / 32 - SEGMENT_OFFSET) as usize;
    let p = &PARAMS[s * 8..s * 8 + 8];
    (
        s,
        (
            u32::from_le_bytes(p[..4].try_into().unwrap()),
            u32::from_le_bytes(p[4..].try_into().unwrap()),
        ),
    )
}
pub fn lookup_pow2_div_pow10(
    segment_idx: usize,
    chunk_idx: usize,
) -> (u128, u128, u128) {
    let i = (segment_idx * CUTOFF + chunk_idx) * 48;
    (w(i + 32), w(i + 16), w(i))
}
