@@ root
// ---- LZW as the GIF89a document describes it: codes packed low bit first,
// a string table, and the width rule.  Written without reference to the code.
pub mod lzspec {
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::bits::*;
use vstd::arithmetic::div_mod::*;
verus! {

pub open spec fn p2(n: nat) -> nat { pow2(n) }

pub proof fn p2_vals()
    ensures
        p2(0) == 1, p2(1) == 2, p2(2) == 4, p2(3) == 8, p2(4) == 16, p2(5) == 32, p2(6) == 64,
        p2(7) == 128, p2(8) == 256, p2(9) == 512, p2(10) == 1024, p2(11) == 2048, p2(12) == 4096,
{ lemma2_to64(); }

pub proof fn p2_mono(a: nat, b: nat)
    requires a < b,
    ensures p2(a) < p2(b),
{ lemma_pow2_strictly_increases(a, b); }

pub proof fn p2_pos(a: nat)
    ensures p2(a) > 0,
{ lemma_pow2_pos(a); }

/// The n low bits of v, low bit first
pub open spec fn bits(v: nat, n: nat) -> Seq<bool>
    decreases n
{
    if n == 0 { Seq::empty() } else { seq![v % 2 == 1] + bits(v / 2, (n - 1) as nat) }
}

/// Value of a bit sequence, low bit first
pub open spec fn val(s: Seq<bool>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { (if s[0] { 1nat } else { 0 }) + 2 * val(s.drop_first()) }
}

/// All bits of a byte sequence
pub open spec fn bb(s: Seq<u8>) -> Seq<bool>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { bits(s[0] as nat, 8) + bb(s.drop_first()) }
}

pub proof fn bits_len(v: nat, n: nat)
    ensures bits(v, n).len() == n,
    decreases n
{ if n > 0 { bits_len(v / 2, (n - 1) as nat); } }

pub proof fn val_bits(v: nat, n: nat)
    requires v < p2(n),
    ensures val(bits(v, n)) == v,
    decreases n
{
    if n == 0 { p2_vals(); }
    else {
        lemma_pow2_unfold(n);
        val_bits(v / 2, (n - 1) as nat);
        assert(bits(v, n).drop_first() =~= bits(v / 2, (n - 1) as nat));
    }
}

pub proof fn bits_join(a: nat, n: nat, b: nat, m: nat)
    requires a < p2(n),
    ensures bits(a + b * p2(n), n + m) == bits(a, n) + bits(b, m),
    decreases n
{
    if n == 0 {
        p2_vals();
        assert(bits(a, n) + bits(b, m) =~= bits(b, m));
        assert(a + b * p2(n) == b) by (nonlinear_arith) requires a == 0, p2(n) == 1;
    } else {
        let x = a + b * p2(n);
        let q = p2((n - 1) as nat);
        lemma_pow2_unfold(n);
        bits_join(a / 2, (n - 1) as nat, b, m);
        assert(b * p2(n) == 2 * (b * q)) by (nonlinear_arith) requires p2(n) == 2 * q;
        assert(x / 2 == a / 2 + b * q);
        assert(x % 2 == a % 2);
        assert(((n - 1) as nat) + m == ((n + m) - 1) as nat);
        assert(bits(x, n + m) =~= seq![a % 2 == 1] + (bits(a / 2, (n - 1) as nat) + bits(b, m)));
        assert(bits(a, n) + bits(b, m) =~= seq![a % 2 == 1] + (bits(a / 2, (n - 1) as nat) + bits(b, m)));
    }
}

pub proof fn bits_split(x: nat, k: nat, n: nat)
    requires k <= n,
    ensures
        bits(x, n).take(k as int) == bits(x % p2(k), k),
        bits(x, n).skip(k as int) == bits(x / p2(k), (n - k) as nat),
        x % p2(k) < p2(k),
{
    p2_pos(k);
    lemma_fundamental_div_mod(x as int, p2(k) as int);
    lemma_mod_bound(x as int, p2(k) as int);
    let a = x % p2(k);
    let b = x / p2(k);
    assert(x == a + b * p2(k)) by (nonlinear_arith)
        requires x as int == p2(k) as int * (x as int / p2(k) as int) + (x as int % p2(k) as int), a == x % p2(k), b == x / p2(k);
    bits_join(a, k, b, (n - k) as nat);
    bits_len(a, k);
    bits_len(x, n);
    assert(k + ((n - k) as nat) == n);
    assert((bits(a, k) + bits(b, (n - k) as nat)).take(k as int) =~= bits(a, k));
    assert((bits(a, k) + bits(b, (n - k) as nat)).skip(k as int) =~= bits(b, (n - k) as nat));
}

pub proof fn bb_len(s: Seq<u8>)
    ensures bb(s).len() == 8 * s.len(),
    decreases s.len()
{ if s.len() > 0 { bb_len(s.drop_first()); bits_len(s[0] as nat, 8); } }

pub proof fn bb_cat(a: Seq<u8>, b: Seq<u8>)
    ensures bb(a + b) == bb(a) + bb(b),
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(bb(a) + bb(b) =~= bb(b));
    } else {
        bb_cat(a.drop_first(), b);
        assert((a + b).drop_first() =~= a.drop_first() + b);
        assert(bb(a + b) =~= bb(a) + bb(b));
    }
}

pub proof fn bb_one(x: u8)
    ensures bb(seq![x]) == bits(x as nat, 8),
{
    assert(seq![x].drop_first() =~= Seq::empty());
    assert(bits(x as nat, 8) + Seq::<bool>::empty() =~= bits(x as nat, 8));
    assert(bb(Seq::<u8>::empty()) =~= Seq::empty());
}

pub proof fn bb_push(a: Seq<u8>, x: u8)
    ensures bb(a.push(x)) == bb(a) + bits(x as nat, 8),
{
    bb_one(x);
    bb_cat(a, seq![x]);
    assert(a.push(x) =~= a + seq![x]);
}

// ---- machine words

pub proof fn w_shl(x: u32, n: u32)
    requires n <= 20, x < 4096,
    ensures (x << n) as nat == x as nat * p2(n as nat), (x << n) < 4096 * p2(n as nat), p2(n as nat) <= 0x10_0000,
{
    lemma2_to64();
    if n < 20 { p2_mono(n as nat, 20); }
    let x = x as nat; 
    assert(x * p2(n as nat) < 4096 * p2(n as nat)) by (nonlinear_arith) requires x < 4096, p2(n as nat) > 0 { lemma_pow2_pos(n as nat); };
    assert(x * p2(n as nat) <= u32::MAX) by (nonlinear_arith) requires x < 4096, p2(n as nat) <= 0x10_0000;
    lemma_u32_shl_is_mul(x as u32, n);
}

pub proof fn w_or(a: u32, x: u32, n: u32)
    requires n <= 20, x < 4096, a < p2(n as nat),
    ensures (a | (x << n)) as nat == a as nat + x as nat * p2(n as nat),
{
    w_shl(x, n);
    lemma2_to64();
    w_shl(1, n);
    assert(p2(n as nat) == (1u32 << n) as nat);
    assert((a | (x << n)) == a + (x << n)) by (bit_vector)
        requires n <= 20, x < 4096, a < (1u32 << n);
}

pub proof fn w_shr(a: u32, n: u32)
    requires n < 32,
    ensures (a >> n) as nat == a as nat / p2(n as nat),
{ lemma_u32_shr_is_div(a, n); }

pub proof fn w_mask(a: u32, n: u32)
    requires n <= 12,
    ensures
        ((1u32 << n) - 1) as u32 == p2(n as nat) - 1,
        (1u32 << n) == p2(n as nat),
        (a & (((1u32 << n) - 1) as u32)) as nat == a as nat % p2(n as nat),
        (a as nat % p2(n as nat)) < p2(n as nat) <= 4096,
{
    p2_vals();
    if n < 12 { p2_mono(n as nat, 12); }
    p2_pos(n as nat);
    lemma_u32_low_bits_mask_is_mod(a, n as nat);
    lemma_low_bits_mask_values();
    w_shl(1, n);
    lemma_mod_bound(a as int, p2(n as nat) as int);
    assert(low_bits_mask(n as nat) == p2(n as nat) - 1);
}

pub proof fn w_shl16(n: u16)
    requires n <= 12,
    ensures (1u16 << n) as nat == p2(n as nat), p2(n as nat) <= 4096,
{
    p2_vals();
    assert(n <= 12 ==> (1u16 << n) as u32 == (1u32 << (n as u32))) by (bit_vector);
    w_shl(1, n as u32);
    if n < 12 { p2_mono(n as nat, 12); }
}

pub proof fn w_shl16_8(n: u8)
    requires n <= 12,
    ensures (1u16 << n) as nat == p2(n as nat), p2(n as nat) <= 4096,
{
    w_shl16(n as u16);
    assert((1u16 << n) == (1u16 << (n as u16))) by (bit_vector);
}

// ---- decoder

pub struct LzState {
    pub min: nat,
    pub dict: Seq<Seq<u8>>,
    pub w: nat,
    pub prefix: Option<nat>,
    pub ended: bool,
}

/// Table after a clear code: one string per data value; entries for the
/// clear and end codes are place holders which are never looked up
pub open spec fn base_dict(min: nat) -> Seq<Seq<u8>> {
    Seq::new(p2(min) + 2, |i: int| if i < p2(min) { seq![i as u8] } else { seq![0u8] })
}

pub open spec fn lz_init(min: nat) -> LzState {
    LzState { min, dict: base_dict(min), w: min + 1, prefix: None, ended: false }
}

/// String a code stands for
pub open spec fn lz_string(st: LzState, p: nat, code: nat) -> Seq<u8> {
    if code < st.dict.len() { st.dict[code as int] } else { st.dict[p as int].push(st.dict[p as int][0]) }
}

/// One code: next state and data, or None if the code is undefined
pub open spec fn lz_code(st: LzState, code: nat) -> Option<(LzState, Seq<u8>)> {
    if code == p2(st.min) {
        Some((lz_init(st.min), Seq::empty()))
    } else if code == p2(st.min) + 1 {
        Some((LzState { ended: true, ..st }, Seq::empty()))
    } else {
        match st.prefix {
            None => if code < p2(st.min) {
                Some((LzState { prefix: Some(code), ..st }, seq![code as u8]))
            } else {
                None
            },
            Some(p) => if code <= st.dict.len() {
                let s = lz_string(st, p, code);
                let dict = if st.dict.len() < 4096 { st.dict.push(st.dict[p as int].push(s[0])) } else { st.dict };
                let w = if st.dict.len() + 1 == p2(st.w) && st.w < 12 { st.w + 1 } else { st.w };
                Some((LzState { dict, w, prefix: Some(code), ..st }, s))
            } else {
                None
            },
        }
    }
}

pub struct LzRes {
    pub ok: bool,
    pub st: LzState,
    pub out: Seq<u8>,
    pub rest: Seq<bool>,
}

/// Decode codes until the end code or until too few bits are left
pub open spec fn lz_run(st: LzState, bs: Seq<bool>) -> LzRes
    decreases bs.len()
{
    if st.ended || st.w == 0 || bs.len() < st.w {
        LzRes { ok: true, st, out: Seq::empty(), rest: bs }
    } else {
        match lz_code(st, val(bs.take(st.w as int))) {
            None => LzRes { ok: false, st, out: Seq::empty(), rest: bs },
            Some((st2, o)) => {
                let r = lz_run(st2, bs.skip(st.w as int));
                LzRes { out: o + r.out, ..r }
            }
        }
    }
}

/// Decoding may be done in pieces
pub proof fn lz_run_cat(st: LzState, a: Seq<bool>, b: Seq<bool>)
    requires lz_run(st, a).ok,
    ensures ({
        let r = lz_run(st, a);
        let r2 = lz_run(r.st, r.rest + b);
        lz_run(st, a + b) == LzRes { out: r.out + r2.out, ..r2 }
    }),
    decreases a.len()
{
    let r = lz_run(st, a);
    let r2 = lz_run(r.st, r.rest + b);
    if st.ended || st.w == 0 || a.len() < st.w {
        assert(r.out + r2.out =~= r2.out);
    } else {
        assert((a + b).take(st.w as int) =~= a.take(st.w as int));
        assert((a + b).skip(st.w as int) =~= a.skip(st.w as int) + b);
        let (st2, o) = lz_code(st, val(a.take(st.w as int))).unwrap();
        lz_run_cat(st2, a.skip(st.w as int), b);
        assert(o + (lz_run(st2, a.skip(st.w as int)).out + r2.out) =~= r.out + r2.out);
    }
}

/// An undefined code is an error whatever follows it
pub proof fn lz_run_fail(st: LzState, a: Seq<bool>, b: Seq<bool>)
    requires !lz_run(st, a).ok,
    ensures !lz_run(st, a + b).ok, lz_run(st, a + b).out == lz_run(st, a).out,
    decreases a.len()
{
    assert((a + b).take(st.w as int) =~= a.take(st.w as int));
    assert((a + b).skip(st.w as int) =~= a.skip(st.w as int) + b);
    match lz_code(st, val(a.take(st.w as int))) {
        None => {}
        Some((st2, o)) => { lz_run_fail(st2, a.skip(st.w as int), b); }
    }
}

/// One more code at the end of a fully consumed run
pub proof fn lz_run_step(st: LzState, a: Seq<bool>, code: nat, b: Seq<bool>)
    requires
        lz_run(st, a).ok, lz_run(st, a).rest.len() == 0, !lz_run(st, a).st.ended,
        b == bits(code, lz_run(st, a).st.w), code < p2(lz_run(st, a).st.w), lz_run(st, a).st.w > 0,
        lz_code(lz_run(st, a).st, code).is_some(),
        lz_code(lz_run(st, a).st, code).unwrap().0.w > 0,
    ensures
        lz_run(st, a + b) == (LzRes {
            ok: true,
            st: lz_code(lz_run(st, a).st, code).unwrap().0,
            out: lz_run(st, a).out + lz_code(lz_run(st, a).st, code).unwrap().1,
            rest: Seq::empty(),
        }),
{
    let r = lz_run(st, a);
    lz_run_cat(st, a, b);
    bits_len(code, r.st.w);
    val_bits(code, r.st.w);
    assert(r.rest + b =~= b);
    assert(b.take(r.st.w as int) =~= b);
    assert(b.skip(r.st.w as int) =~= Seq::empty());
    let (st2, o) = lz_code(r.st, code).unwrap();
    let r3 = lz_run(st2, b.skip(r.st.w as int));
    assert(r3.out =~= Seq::empty());
    assert(o + r3.out =~= o);
}

} // verus!
}
