//! Regenerated table (see /verif/luts/gen_luts.c).
static T: &[u8] = include_bytes!("../../../tables/pow10_div_pow2.bin");
static PARAMS: &[u8] =
    include_bytes!("../../../tables/pow10_div_pow2_params.bin");
pub const CHUNK_SIZE: u32 = 19;
pub const CHUNK_BASE: u64 = 10_u64.pow(CHUNK_SIZE);
pub const CHUNK_CUTOFF: u32 = 6;
pub const COMPRESSION_RATE: u32 = 32;
pub const SHIFT: i32 = 304;
const SEGMENT_OFFSET: u32 = 236 / 32;
fn w(i: usize) -> u128 {
    u128::from_le_bytes(T[i..i + 16].try_into().unwrap())
}
pub fn get_pow10_div_pow2_params(exp2: i32) -> (usize, (u32, i32)) {
    assert!(exp2 < 0);
    let s = (exp2.unsigned_abs() / 32 - SEGMENT_OFFSET) as usize;
    let p = &PARAMS[s * 8..s * 8 + 8];
    (
        s,
        (
            u32::from_le_bytes(p[..4].try_into().unwrap()),
            i32::from_le_bytes(p[4..].try_into().unwrap()),
        ),
    )
}
pub fn lookup_pow10_div_pow2(
    segment_idx: usize,
    chunk_idx: usize,
) -> (u128, u128, u128) {
    let i = (segment_idx * CHUNK_CUTOFF as usize + chunk_idx) * 48;
    (w(i + 32), w(i + 16), w(i))
}
