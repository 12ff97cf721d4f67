/* Generate the lookup tables the f256 crate needs for decimal output.
 *
 * The table crates' sources are not part of /repo (only their manifests are),
 * so the tables are regenerated from the formulas documented in
 * /repo/analysis/gen_ryu_helper_tables.py and gen_ryu_print_helper_tables.py,
 * with exact GMP integer arithmetic.  Output: raw little-endian u64 words.
 */
#include <gmp.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

enum { P = 237, EMAX = 262143, EMIN = 1 - 262143, K = 501,
       CHUNK = 19, RATE = 32, BITS = 384 - 16 - 64, CUTOFF = 6,
       POS_OFF = (512 - P) / RATE, NEG_OFF = (P - 1) / RATE };

static FILE *open_out(const char *dir, const char *name) {
    char buf[4096];
    snprintf(buf, sizeof buf, "%s/%s", dir, name);
    FILE *f = fopen(buf, "wb");
    if (!f) { perror(buf); exit(2); }
    return f;
}
static void put(FILE *f, const mpz_t v, int words) {
    uint64_t w[8] = {0};
    size_t n = 0;
    if (mpz_sizeinbase(v, 2) > (size_t)words * 64) { fprintf(stderr, "overflow\n"); exit(2); }
    mpz_export(w, &n, -1, 8, -1, 0, v);
    fwrite(w, 8, words, f);
}
static void put2(FILE *f, int32_t a, int32_t b) { fwrite(&a, 4, 1, f); fwrite(&b, 4, 1, f); }
/* floor / ceil of n*log10(2), exact for |n| < 10^7: 60-digit constant */
static __int128 scaled(long n, int five) {
    /* log10(2), log10(5) * 10^30 (truncated) */
    __int128 c2 = ((__int128)301029995663981195LL) * 1000000000000LL + 213738894724LL;
    __int128 c5 = ((__int128)1000000000000000LL) * 1000000000000000LL - c2 - 1;
    return (__int128)n * (five ? c5 : c2);
}
static long fl(long n, int five) {
    __int128 d = ((__int128)1000000000000000LL) * 1000000000000000LL;
    __int128 v = scaled(n, five), q = v / d;
    if (v % d != 0 && v < 0) q--;
    return (long)q;
}
static long ce(long n, int five) { return n == 0 ? 0 : fl(n, five) + 1; }

int main(int argc, char **argv) {
    const char *dir = argv[1];
    mpz_t t, q, x, mod, base;
    mpz_inits(t, q, x, mod, base, NULL);
    FILE *f = open_out(dir, "pow2_div_pow5.bin");
    long n_ge = fl(EMAX - P - 1, 0) - 1 + 2;
    mpz_set_ui(t, 1);
    for (long g = 0; g < n_ge; g++) {
        long bl = mpz_sizeinbase(t, 2);
        /* floor(2^(bl-1+K)/t)+1 from the leading 700 bits of t when these
         * decide it, from all of t otherwise */
        int done = 0;
        if (bl > 800) {
            mpz_t hi, a, b; mpz_inits(hi, a, b, NULL);
            long s = bl - 700;
            mpz_tdiv_q_2exp(hi, t, s);
            mpz_set_ui(x, 1); mpz_mul_2exp(x, x, bl - 1 + K - s);
            mpz_tdiv_q(a, x, hi);
            mpz_add_ui(hi, hi, 1);
            mpz_tdiv_q(b, x, hi);
            if (mpz_cmp(a, b) == 0) { mpz_set(q, a); done = 1; }
            mpz_clears(hi, a, b, NULL);
        }
        if (!done) { mpz_set_ui(x, 1); mpz_mul_2exp(x, x, bl - 1 + K); mpz_tdiv_q(q, x, t); }
        mpz_add_ui(q, q, 1);
        mpz_mul_2exp(q, q, 2); /* the crate divides by 2^512, not 2^510 */
        put(f, q, 8);
        mpz_mul_ui(t, t, 5);
    }
    fclose(f);
    f = open_out(dir, "pow5_div_pow2.bin");
    long emin = EMIN - P - 1, n_lt = -emin - (fl(-emin, 1) - 1) + 2;
    mpz_set_ui(t, 1);
    for (long i = 0; i < n_lt; i++) {
        long h = (long)mpz_sizeinbase(t, 2) - K - 2; /* floor(5^i / 2^(h-2)) */
        if (h > 0) mpz_tdiv_q_2exp(q, t, h); else mpz_mul_2exp(q, t, -h);
        put(f, q, 8);
        mpz_mul_ui(t, t, 5);
    }
    fclose(f);
    mpz_ui_pow_ui(base, 10, CHUNK);
    mpz_mul_2exp(mod, base, BITS);
    f = open_out(dir, "pow2_div_pow10.bin");
    FILE *p = open_out(dir, "pow2_div_pow10_params.bin");
    int n_pos = (EMAX + 1 - P) / RATE + 1 - POS_OFF;
    for (int s = 0; s < n_pos; s++) {
        long upper = (long)(s + POS_OFF + 1) * RATE - 1, lower = upper - RATE + 1, shift = lower + BITS;
        long first = (ce(upper + P - 1, 0) + 1) / CHUNK;
        put2(p, first + 1, shift);
        for (long c = first; c > first - CUTOFF; c--) {
            if (c >= 0) {
                mpz_set_ui(x, 1); mpz_mul_2exp(x, x, shift);
                mpz_ui_pow_ui(t, 10, c * CHUNK);
                mpz_tdiv_q(q, x, t);
                mpz_add_ui(q, q, 1);
                mpz_tdiv_r(q, q, mod);
            } else mpz_set_ui(q, 0);
            put(f, q, 6);
        }
    }
    fclose(f); fclose(p);
    f = open_out(dir, "pow10_div_pow2.bin");
    p = open_out(dir, "pow10_div_pow2_params.bin");
    int n_neg = (-EMIN + 2 * P - 1) / RATE + 1 - NEG_OFF;
    for (int s = 0; s < n_neg; s++) {
        long upper = -(long)(s + NEG_OFF) * RATE, lower = upper - RATE + 1, shift = BITS + lower;
        long c0 = -ce(upper + P, 0);
        long nz = c0 > 0 ? c0 / CHUNK : 0;
        put2(p, nz, shift);
        for (long c = nz + 1; c < nz + 1 + CUTOFF; c++) {
            mpz_ui_pow_ui(t, 10, c * CHUNK);
            if (shift >= 0) mpz_mul_2exp(t, t, shift); else mpz_tdiv_q_2exp(t, t, -shift);
            mpz_tdiv_r(q, t, mod);
            put(f, q, 6);
        }
    }
    fclose(f); fclose(p);
    printf("tables: %ld %ld %d %d\n", n_ge, n_lt, n_pos, n_neg);
    return 0;
}
