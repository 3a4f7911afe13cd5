//! Contracts that keep big integers, field elements and curve points in storage and compute on
//! them with the library's arithmetic, and a pool of notes committed to with Poseidon2.
use alloy_primitives::{Address, U256};
use openzeppelin_crypto::{
    arithmetic::{
        uint::{from_str_hex, from_str_radix, Uint, WideUint},
        BigInteger,
    },
    bits::BitIteratorBE,
    curve::{
        batch_inversion,
        sw::{Affine, Projective, SWCurveConfig},
        AffineRepr, CurveConfig, CurveGroup, PrimeGroup,
    },
    field::{
        fp::{Fp, Fp64, FpParams},
        group::AdditiveGroup,
        instance::*,
        prime::PrimeField,
        Field,
    },
    fp_from_hex, fp_from_num, from_hex,
    poseidon2::{
        instance::{babybear::*, bls12::*, bn256::*, goldilocks::*, pallas::*, vesta::*},
        params::PoseidonParams,
        Poseidon2,
    },
};
use openzeppelin_stylus::token::erc20::Erc20;
use stylus_sdk::{
    prelude::*,
    storage::{StorageBool, StorageMap, StorageU256},
};

use crate::contract;

type Er = Vec<u8>;
pub const REGS: usize = 6;
/// One step of a program: operation, destination, operands, variant, two literals.
pub struct Ins {
    pub op: u8,
    pub d: usize,
    pub a: usize,
    pub b: usize,
    pub how: u8,
    pub w: [U256; 2],
}
/// A program is a list of triples of words.
pub fn decode(p: &[U256]) -> Option<Vec<Ins>> {
    if p.len() % 3 != 0 || p.len() > 300 {
        return None;
    }
    Some(
        p.chunks(3)
            .map(|c| {
                let h = c[0].to_le_bytes::<32>();
                let r = |i: usize| h[i] as usize % REGS;
                Ins { op: h[0], d: r(1), a: r(2), b: r(3), how: h[4], w: [c[1], c[2]] }
            })
            .collect(),
    )
}
fn code(p: &[U256]) -> Result<Vec<Ins>, Er> {
    decode(p).ok_or(b"program".to_vec())
}
fn none() -> Er {
    b"no result".to_vec()
}
fn uint<const N: usize>(w: &[U256; 2]) -> Uint<N> {
    let mut b = w[0].to_le_bytes::<32>().to_vec();
    b.extend(w[1].to_le_bytes::<32>());
    Uint::from_bytes_le(&b[..8 * N])
}
fn words<const N: usize>(u: Uint<N>) -> [U256; 2] {
    let mut b = u.into_bytes_le();
    b.resize(64, 0);
    [U256::from_le_slice(&b[..32]), U256::from_le_slice(&b[32..])]
}
fn low(w: &[U256; 2]) -> u128 {
    let l = w[0].as_limbs();
    l[0] as u128 | (l[1] as u128) << 64
}

// ---------------------------------------------------------------- integers
fn int_run<const N: usize>(r: &mut [Uint<N>; REGS], prog: &[Ins], out: &mut Vec<U256>) -> Result<(), Er> {
    let flag = |out: &mut Vec<U256>, b: bool| out.push(U256::from(b as u64));
    for i in prog {
        let (a, b) = (r[i.a], r[i.b]);
        match i.op {
            0 => r[i.d] = uint(&i.w),
            1 => {
                let (v, c) = match i.how % 4 {
                    0 => {
                        let mut x = a;
                        let c = x.checked_add_assign(&b);
                        (x, c)
                    }
                    1 => a.ct_checked_add(&b),
                    2 => {
                        let (x, c) = a.ct_adc(&b, 0);
                        (x, c != 0)
                    }
                    _ => (a.ct_wrapping_add(&b), a.ct_checked_add(&b).1),
                };
                r[i.d] = v;
                flag(out, c);
            }
            2 => {
                let (v, c) = match i.how % 3 {
                    0 => {
                        let mut x = a;
                        let c = x.checked_sub_assign(&b);
                        (x, c)
                    }
                    1 => a.ct_checked_sub(&b),
                    _ => (a.ct_wrapping_sub(&b), a.ct_checked_sub(&b).1),
                };
                r[i.d] = v;
                flag(out, c);
            }
            3 => {
                let (lo, hi) = a.ct_widening_mul(&b);
                out.extend(words(hi));
                r[i.d] = lo;
            }
            4 => r[i.d] = if i.how % 2 == 0 { a.ct_mul(&b) } else { a.ct_add(&b) },
            5 => {
                let mut x = a;
                let c = x.checked_mul2_assign();
                r[i.d] = x;
                flag(out, c);
            }
            6 => {
                let mut x = a;
                x.div2_assign();
                r[i.d] = x;
            }
            7 => {
                let v = [a.ct_ge(&b), a.ct_gt(&b), a.ct_le(&b), a.ct_lt(&b), a.ct_eq(&b), a.ct_ne(&b), a == b, a < b, a > b];
                let n = v.iter().enumerate().map(|(i, x)| (*x as u64) << i).sum::<u64>();
                out.push(U256::from(n));
            }
            8 => {
                out.push(U256::from(a.num_bits()));
                let at = (low(&i.w) % 700) as usize;
                let v = [a.get_bit(at), a.is_odd(), a.is_even(), a.is_zero(), a.ct_is_zero()];
                let n = v.iter().enumerate().map(|(i, x)| (*x as u64) << i).sum::<u64>();
                out.push(U256::from(n));
            }
            9 => {
                r[i.d] = match i.how % 8 {
                    0 => a & b,
                    1 => a & &b,
                    2 => a | b,
                    3 => a | &b,
                    4 => a ^ b,
                    5 => a ^ &b,
                    6 => !a,
                    _ => {
                        let mut x = a;
                        x ^= &b;
                        x |= &b;
                        x &= a;
                        x
                    }
                }
            }
            10 => {
                let v: Vec<bool> = if i.how % 2 == 0 { a.bit_be_trimmed_iter().collect() } else { a.bit_be_iter().collect() };
                out.push(U256::from(v.len()));
                let mut x = Uint::<N>::ZERO;
                for b in v {
                    x.checked_mul2_assign();
                    if b {
                        x |= Uint::<N>::ONE;
                    }
                }
                r[i.d] = x;
            }
            11 => {
                r[i.d] = WideUint::new(a, r[i.d]).ct_rem(&b);
            }
            12 => {
                let x = low(&i.w);
                r[i.d] = match i.how % 6 {
                    0 => Uint::from(x as u8),
                    1 => Uint::from(x as u16),
                    2 => Uint::from(x as u32),
                    3 => Uint::from(x as u64),
                    4 => Uint::from(x as usize),
                    _ => Uint::from(if N == 1 { x as u64 as u128 } else { x }),
                };
            }
            13 => {
                let s = if i.how % 2 == 0 { format!("{a:X}") } else { i.w[0].to_string() };
                r[i.d] = if i.how % 2 == 0 {
                    from_str_hex(&s)
                } else if N >= 4 {
                    from_str_radix(&s, 10)
                } else {
                    from_str_radix(&format!("{}", i.w[0].as_limbs()[0]), 10)
                };
            }
            _ => out.extend(words(a)),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ fields
macro_rules! field {
    ($t:ident, $p:ident, $n:literal, $m:literal) => {
        pub struct $p;
        impl FpParams<$n> for $p {
            const GENERATOR: Fp<Self, $n> = fp_from_num!("3");
            const MODULUS: Uint<$n> = from_hex!($m);
        }
        pub type $t = Fp<$p, $n>;
    };
}
field!(F17, P17, 1, "11");
field!(F251, P251, 1, "FB");
field!(F64s, P64s, 1, "7FFFFFFFFFFFFFE7");
field!(F128, P128, 2, "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFF61");
field!(F128s, P128s, 2, "7FFFFFFFFFFFFFFEFFFFFFFFFFFFFFDF");
field!(F192, P192, 3, "7FFFFFFFFFFFFFFFFFFFFFFEFFFFFFFFFFFFFFFFFFFFFF19");
field!(SecpQ, PSecpQ, 4, "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F");
field!(SecpR, PSecpR, 4, "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141");
field!(F320, P320, 5, "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF3B");
field!(Bls381, PBls381, 6, "1A0111EA397FE69A4B1BA7B6434BACD764774B84F38512BF6730D2A0F6B0F6241EABFFFEB153FFFFB9FEFFFFFFFFAAAB");
field!(F448, P448, 7, "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF35");

fn int_of<F: Field>(x: u128, how: u8, wide: bool) -> F {
    match how % 11 {
        0 => F::from(x as u8),
        1 => F::from(x as u16),
        2 => F::from(x as u32),
        3 => F::from(x as u64),
        4 => F::from(if wide { x } else { x as u64 as u128 }),
        5 => F::from(x as i8),
        6 => F::from(x as i16),
        7 => F::from(x as i32),
        8 => F::from(x as i64),
        9 => F::from(if wide { x as i128 } else { x as i64 as i128 }),
        _ => F::from(x & 1 == 1),
    }
}
fn field_run<P: FpParams<N>, const N: usize>(r: &mut [Fp<P, N>; REGS], prog: &[Ins], out: &mut Vec<U256>) -> Result<(), Er> {
    for i in prog {
        let (a, b) = (r[i.a], r[i.b]);
        match i.op {
            0 => {
                r[i.d] = match i.how % 3 {
                    0 => Fp::from_bigint(uint(&i.w)),
                    1 => Fp::new(uint(&i.w)),
                    _ => uint(&i.w).into(),
                }
            }
            1 => {
                r[i.d] = match i.how % 9 {
                    6 => a + &mut b.clone(),
                    7 => [a, b].into_iter().sum(),
                    8 => {
                        let mut x = a;
                        x += &mut b.clone();
                        x
                    }
                    0 => a + b,
                    1 => a + &b,
                    2 => &a + &b,
                    3 => [a, b].iter().sum(),
                    4 => {
                        let mut x = a;
                        x += &b;
                        x
                    }
                    _ => {
                        let mut x = a;
                        x += b;
                        x
                    }
                }
            }
            2 => {
                r[i.d] = match i.how % 7 {
                    5 => a - &mut b.clone(),
                    6 => {
                        let mut x = a;
                        x -= &mut b.clone();
                        x
                    }
                    0 => a - b,
                    1 => a - &b,
                    2 => &a - &b,
                    3 => {
                        let mut x = a;
                        x -= b;
                        x
                    }
                    _ => {
                        let mut x = a;
                        x -= &b;
                        x
                    }
                }
            }
            3 => {
                r[i.d] = match i.how % 9 {
                    6 => a * &mut b.clone(),
                    7 => [a, b].iter().product(),
                    8 => {
                        let mut x = a;
                        x *= &mut b.clone();
                        x
                    }
                    0 => a * b,
                    1 => a * &b,
                    2 => &a * &b,
                    3 => [a, b].into_iter().product(),
                    4 => {
                        let mut x = a;
                        x *= &b;
                        x
                    }
                    _ => {
                        let mut x = a;
                        x *= b;
                        x
                    }
                }
            }
            4 => {
                r[i.d] = match i.how % 7 {
                    4 => a / &mut b.clone(),
                    5 => {
                        let mut x = a;
                        x /= &mut b.clone();
                        x
                    }
                    6 => {
                        let mut x = a;
                        x /= &b;
                        x
                    }
                    0 => a / b,
                    1 => a / &b,
                    2 => &a / &b,
                    _ => {
                        let mut x = a;
                        x /= b;
                        x
                    }
                }
            }
            5 => {
                r[i.d] = if i.how % 2 == 0 {
                    -a
                } else {
                    let mut x = a;
                    x.neg_in_place();
                    x
                }
            }
            6 => {
                r[i.d] = if i.how % 2 == 0 {
                    a.double()
                } else {
                    let mut x = a;
                    x.double_in_place();
                    x
                }
            }
            7 => {
                r[i.d] = if i.how % 2 == 0 {
                    a.square()
                } else {
                    let mut x = a;
                    x.square_in_place();
                    x
                }
            }
            8 => {
                r[i.d] = if i.how % 2 == 0 {
                    a.inverse().ok_or_else(none)?
                } else {
                    let mut x = a;
                    x.inverse_in_place().ok_or_else(none)?;
                    x
                }
            }
            9 => {
                r[i.d] = match i.how % 4 {
                    0 => a.pow(low(&i.w) as u8),
                    1 => a.pow(low(&i.w) as u64),
                    2 => a.pow(low(&i.w)),
                    _ => a.pow(uint::<4>(&i.w)),
                }
            }
            10 => {
                let v = [a == b, a < b, a > b, a.max(b) == a, a.min(b) == a];
                let n = v.iter().enumerate().map(|(i, x)| (*x as u64) << i).sum::<u64>();
                out.push(U256::from(n));
            }
            11 => {
                use num_traits::{One, Zero};
                let v = [a.is_zero(), a.is_one(), a == Fp::ZERO, a == Fp::ONE];
                let n = v.iter().enumerate().map(|(i, x)| (*x as u64) << i).sum::<u64>();
                out.push(U256::from(n));
            }
            12 => r[i.d] = int_of(low(&i.w), i.how, N > 1),
            13 => batch_inversion(&mut r[..]),
            14 => r[i.d] = Fp::sum_of_products(&[r[0], r[1], r[2]], &[r[3], r[4], r[5]]),
            _ => out.extend(words::<N>(if i.how % 2 == 0 { a.into_bigint() } else { a.into() })),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ curves
macro_rules! curve {
    ($c:ident, $q:ty, $r:ty, $cof:expr, $inv:literal, $a:expr, $b:literal, $x:literal, $y:literal) => {
        #[derive(Clone, Default, PartialEq, Eq)]
        pub struct $c;
        impl CurveConfig for $c {
            type BaseField = $q;
            type ScalarField = $r;
            const COFACTOR: &'static [u64] = &$cof;
            const COFACTOR_INV: $r = fp_from_num!($inv);
        }
        impl SWCurveConfig for $c {
            const COEFF_A: $q = $a;
            const COEFF_B: $q = fp_from_hex!($b);
            const GENERATOR: Affine<$c> = Affine::new_unchecked(fp_from_hex!($x), fp_from_hex!($y));
        }
    };
}
field!(P256Q, PP256Q, 4, "FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF");
field!(P256R, PP256R, 4, "FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551");
field!(F59, P59, 1, "3B");
field!(F103, P103, 1, "67");
field!(F31, P31, 1, "1F");
field!(F241, P241, 1, "F1");
field!(F131, P131, 1, "83");
field!(F211, P211, 1, "D3");
field!(F10007, P10007, 1, "2717");
field!(F829, P829, 1, "33D");
curve!(Secp, SecpQ, SecpR, [1], "1", SecpQ::ZERO, "7", "79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", "483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8");
curve!(
    P256,
    P256Q,
    P256R,
    [1, 0],
    "1",
    fp_from_hex!("FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC"),
    "5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B",
    "6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296",
    "4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5"
);
curve!(Pallas, FpPallas, FpVesta, [1], "1", FpPallas::ZERO, "5", "40000000000000000000000000000000224698FC094CF91B992D30ED00000000", "2");
curve!(T251, F251, F59, [4], "15", fp_from_num!("1"), "33", "6", "6F");
curve!(T103, F103, F31, [4, 0], "8", F103::ZERO, "3", "48", "2C");
curve!(T241, F241, F131, [2], "66", fp_from_num!("1"), "5", "E5", "75");
curve!(T241b, F241, F211, [1], "1", F241::ZERO, "D", "3", "2F");
curve!(T10007, F10007, F829, [12], "760", fp_from_num!("1"), "11", "14FA", "1CD4");

fn one_word<F: PrimeField>(x: F) -> U256
where
    F::BigInt: BigInteger,
{
    U256::from_le_slice(&x.into_bigint().into_bytes_le())
}
/// The words of a point: x, y, and whether it is a point at all.
fn point<C: SWCurveConfig>(p: Affine<C>) -> [U256; 3]
where
    C::BaseField: PrimeField,
{
    match p.xy() {
        None => [U256::ZERO; 3],
        Some((x, y)) => [one_word(x), one_word(y), U256::from(1)],
    }
}
fn elem<F: PrimeField>(x: U256) -> F {
    F::from_bigint(F::BigInt::from_bytes_le(&x.to_le_bytes::<32>()[..F::BigInt::NUM_LIMBS * 8]))
}
fn curve_run<C: SWCurveConfig>(r: &mut [Projective<C>; REGS], prog: &[Ins], out: &mut Vec<U256>) -> Result<(), Er>
where
    C::BaseField: PrimeField,
{
    use num_traits::Zero;
    for i in prog {
        let (a, b) = (r[i.a], r[i.b]);
        let (fa, fb) = (a.into_affine(), b.into_affine());
        match i.op {
            0 => r[i.d] = if i.how % 2 == 0 { Projective::<C>::generator() } else { Affine::<C>::generator().into_group() },
            1 => {
                r[i.d] = match i.how % 18 {
                    14 => [a, b].into_iter().sum(),
                    15 => [a, b].iter().sum(),
                    16 => a + &fb,
                    17 => fa + &b,
                    13 => &a + &mut b.clone(),
                    9 => &a + b,
                    10 => &a + &b,
                    11 => a + &mut b.clone(),
                    12 => {
                        let mut x = a;
                        x += &mut b.clone();
                        x
                    }
                    0 => a + b,
                    1 => a + &b,
                    2 => {
                        let mut x = a;
                        x += &b;
                        x
                    }
                    3 => {
                        let mut x = a;
                        x += b;
                        x
                    }
                    4 => a + fb,
                    5 => {
                        let mut x = a;
                        x += &fb;
                        x
                    }
                    6 => fa + fb,
                    7 => fa + b,
                    _ => [fa, fb].iter().sum(),
                }
            }
            2 => {
                r[i.d] = match i.how % 15 {
                    13 => a - &fb,
                    14 => fa - &b,
                    11 => &a - &mut b.clone(),
                    12 => {
                        let mut x = a;
                        x -= &mut b.clone();
                        x
                    }
                    8 => &a - b,
                    9 => &a - &b,
                    10 => a - &mut b.clone(),
                    0 => a - b,
                    1 => a - &b,
                    2 => {
                        let mut x = a;
                        x -= &b;
                        x
                    }
                    3 => {
                        let mut x = a;
                        x -= b;
                        x
                    }
                    4 => a - fb,
                    5 => {
                        let mut x = a;
                        x -= &fb;
                        x
                    }
                    6 => fa - fb,
                    _ => fa - b,
                }
            }
            3 => {
                r[i.d] = if i.how % 2 == 0 {
                    a.double()
                } else {
                    let mut x = a;
                    x.double_in_place();
                    x
                }
            }
            4 => {
                r[i.d] = match i.how % 3 {
                    0 => -a,
                    1 => (-fa).into(),
                    _ => {
                        let mut x = a;
                        x.neg_in_place();
                        x
                    }
                }
            }
            5 => {
                let k: C::ScalarField = elem(i.w[0]);
                r[i.d] = match i.how % 7 {
                    0 => a * k,
                    1 => fa * k,
                    2 => a.mul_bigint(uint::<4>(&i.w)),
                    3 => fa.mul_bigint(uint::<4>(&i.w)),
                    4 => fa.mul_bigint(low(&i.w) as u64),
                    5 => a.mul_bits_be(low(&i.w).bit_be_iter()),
                    _ => {
                        let mut x = a;
                        x *= k;
                        x
                    }
                }
            }
            6 => {
                let v = [a == b, fa == b, a == fb, fa == fb, a == fa];
                let n = v.iter().enumerate().map(|(i, x)| (*x as u64) << i).sum::<u64>();
                out.push(U256::from(n));
            }
            7 => {
                let v = [a.is_zero(), fa.is_zero(), a == Projective::<C>::zero(), fa == Affine::identity(), fa == <Affine<C> as AffineRepr>::zero(), fa.xy().is_none()];
                let n = v.iter().enumerate().map(|(i, x)| (*x as u64) << i).sum::<u64>();
                out.push(U256::from(n));
            }
            8 => {
                let v = Projective::normalize_batch(&r[..]);
                for (x, y) in r.iter_mut().zip(v) {
                    *x = y.into();
                }
            }
            9 => r[i.d] = Projective::zero(),
            10 => {
                // the same point in other coordinates
                let l: C::BaseField = elem(i.w[0]);
                if !l.is_zero() && !a.is_zero() {
                    let l2 = l * l;
                    r[i.d] = Projective::new_unchecked(a.x * l2, a.y * l2 * l, a.z * l);
                }
            }
            11 => {
                let (x, y): (C::BaseField, C::BaseField) = (elem(i.w[0]), elem(i.w[1]));
                r[i.d] = if i.how % 2 == 0 {
                    Affine::<C>::new(x, y).into()
                } else {
                    Projective::<C>::new(x, y, num_traits::One::one())
                };
            }
            12 => {
                let (x, y): (C::BaseField, C::BaseField) = (elem(i.w[0]), elem(i.w[1]));
                let p = Affine::<C>::new_unchecked(x, y);
                let on = p.is_on_curve();
                out.push(U256::from(on as u64));
                if on {
                    out.push(U256::from(p.is_in_correct_subgroup_assuming_on_curve() as u64));
                    r[i.d] = p.into();
                }
            }
            13 => {
                r[i.d] = match i.how % 4 {
                    0 => fa.clear_cofactor().into(),
                    1 => fa.mul_by_cofactor().into(),
                    2 => fa.mul_by_cofactor_to_group(),
                    _ => fa.mul_by_cofactor_inv().into(),
                }
            }
            _ => out.extend(point(fa)),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ sponge
fn sponge_run<P: PoseidonParams<F>, F: PrimeField>(prog: &[Ins]) -> Vec<U256> {
    let mut s = Poseidon2::<P, F>::new();
    let mut out = vec![];
    for i in prog {
        match i.op {
            0 => s.absorb(&elem(i.w[0])),
            1 => {
                // a batch of equal steps: w0, w0 + w1, w0 + 2 w1, ...
                let v: Vec<F> = (0..i.how).map(|k| elem(i.w[0].wrapping_add(i.w[1].wrapping_mul(U256::from(k))))).collect();
                s.absorb_batch(&v);
            }
            2 => out.push(one_word(s.squeeze())),
            3 => out.extend(s.squeeze_batch(i.how as usize % 40).into_iter().map(one_word)),
            _ => {}
        }
    }
    out
}
/// Small instances of the sizes no shipped instance has.
macro_rules! sponge {
    ($p:ident, $t:literal, $cap:literal, $c:ident) => {
        pub struct $p;
        const fn $c(r: u64) -> [FpBabyBear; $t] {
            let mut v = [FpBabyBear::ZERO; $t];
            let mut i = 0;
            while i < $t {
                v[i] = Fp64::new(Uint::from_u64((r * 1_000_003 + i as u64 * 7_919 + 12_345) * 48_271 % 2_013_265_921));
                i += 1;
            }
            v
        }
        impl PoseidonParams<FpBabyBear> for $p {
            const T: usize = $t;
            const D: u8 = 7;
            const CAPACITY: usize = $cap;
            const ROUNDS_F: usize = 4;
            const ROUNDS_P: usize = 3;
            const MAT_INTERNAL_DIAG_M_1: &'static [FpBabyBear] = &$c(99);
            const ROUND_CONSTANTS: &'static [&'static [FpBabyBear]] = &[&$c(1), &$c(2), &$c(3), &$c(4), &$c(5), &$c(6), &$c(7)];
        }
    };
}
sponge!(S2, 2, 1, s2);
sponge!(S3, 3, 2, s3);
sponge!(S4, 4, 2, s4);
sponge!(S8, 8, 3, s8);
sponge!(S16, 16, 8, s16);
sponge!(S20, 20, 5, s20);
/// The parameters of domain `d`, as words: diagonal and round constants.
pub fn params(d: usize) -> (Vec<U256>, Vec<Vec<U256>>) {
    fn get<P: PoseidonParams<F>, F: PrimeField>() -> (Vec<U256>, Vec<Vec<U256>>) {
        (
            P::MAT_INTERNAL_DIAG_M_1.iter().map(|x| one_word(*x)).collect(),
            P::ROUND_CONSTANTS.iter().map(|r| r.iter().map(|x| one_word(*x)).collect()).collect(),
        )
    }
    match d {
        0 => get::<BN256Params, FpBN256>(),
        1 => get::<PallasParams, FpPallas>(),
        2 => get::<VestaParams, FpVesta>(),
        3 => get::<BLS2Params, FpBLS12>(),
        4 => get::<BLS3Params, FpBLS12>(),
        5 => get::<BLS4Params, FpBLS12>(),
        6 => get::<Goldilocks12Params, FpGoldiLocks>(),
        7 => get::<BabyBear24Params, FpBabyBear>(),
        8 => get::<S2, FpBabyBear>(),
        9 => get::<S3, FpBabyBear>(),
        10 => get::<S4, FpBabyBear>(),
        11 => get::<S8, FpBabyBear>(),
        12 => get::<S16, FpBabyBear>(),
        _ => get::<S20, FpBabyBear>(),
    }
}
fn sponge(d: u64, p: &[Ins]) -> Result<Vec<U256>, Er> {
    Ok(match d {
        0 => sponge_run::<BN256Params, FpBN256>(p),
        1 => sponge_run::<PallasParams, FpPallas>(p),
        2 => sponge_run::<VestaParams, FpVesta>(p),
        3 => sponge_run::<BLS2Params, FpBLS12>(p),
        4 => sponge_run::<BLS3Params, FpBLS12>(p),
        5 => sponge_run::<BLS4Params, FpBLS12>(p),
        6 => sponge_run::<Goldilocks12Params, FpGoldiLocks>(p),
        7 => sponge_run::<BabyBear24Params, FpBabyBear>(p),
        8 => sponge_run::<S2, FpBabyBear>(p),
        9 => sponge_run::<S3, FpBabyBear>(p),
        10 => sponge_run::<S4, FpBabyBear>(p),
        11 => sponge_run::<S8, FpBabyBear>(p),
        12 => sponge_run::<S16, FpBabyBear>(p),
        13 => sponge_run::<S20, FpBabyBear>(p),
        _ => return Err(none()),
    })
}

#[storage]
pub struct Algebra {
    regs: StorageMap<U256, StorageU256>,
}
/// where a register lies
pub fn key(kind: u64, id: u64, reg: usize, part: usize) -> U256 {
    U256::from(kind << 48 | id << 32 | (reg as u64) << 8 | part as u64)
}
fn small(x: U256) -> u64 {
    u64::try_from(x).unwrap_or(u64::MAX)
}
impl Algebra {
    fn rd(&self, kind: u64, id: u64, r: usize, p: usize) -> U256 {
        self.regs.get(key(kind, id, r, p))
    }
    fn wr(&mut self, kind: u64, id: u64, r: usize, p: usize, v: U256) {
        let k = key(kind, id, r, p);
        if self.regs.get(k) != v {
            self.regs.setter(k).set(v);
        }
    }
    fn ints<const N: usize>(&mut self, id: u64, p: &[Ins]) -> Result<Vec<U256>, Er> {
        let mut r: [Uint<N>; REGS] = std::array::from_fn(|i| uint(&[self.rd(1, id, i, 0), self.rd(1, id, i, 1)]));
        let mut out = vec![];
        int_run(&mut r, p, &mut out)?;
        for (i, x) in r.into_iter().enumerate() {
            let w = words(x);
            self.wr(1, id, i, 0, w[0]);
            self.wr(1, id, i, 1, w[1]);
        }
        Ok(out)
    }
    fn fields<P: FpParams<N>, const N: usize>(&mut self, id: u64, p: &[Ins]) -> Result<Vec<U256>, Er> {
        let mut r: [Fp<P, N>; REGS] = std::array::from_fn(|i| Fp::from_bigint(uint(&[self.rd(2, id, i, 0), self.rd(2, id, i, 1)])));
        let mut out = vec![];
        field_run(&mut r, p, &mut out)?;
        for (i, x) in r.into_iter().enumerate() {
            let w = words(x.into_bigint());
            self.wr(2, id, i, 0, w[0]);
            self.wr(2, id, i, 1, w[1]);
        }
        Ok(out)
    }
    fn curves<C: SWCurveConfig>(&mut self, id: u64, p: &[Ins]) -> Result<Vec<U256>, Er>
    where
        C::BaseField: PrimeField,
    {
        let mut r: [Projective<C>; REGS] = std::array::from_fn(|i| {
            if self.rd(3, id, i, 2).is_zero() {
                Affine::identity().into()
            } else {
                Affine::new_unchecked(elem(self.rd(3, id, i, 0)), elem(self.rd(3, id, i, 1))).into()
            }
        });
        let mut out = vec![];
        curve_run(&mut r, p, &mut out)?;
        for (i, x) in r.into_iter().enumerate() {
            for (j, w) in point(x.into_affine()).into_iter().enumerate() {
                self.wr(3, id, i, j, w);
            }
        }
        Ok(out)
    }
}
#[public]
impl Algebra {
    fn reg(&self, k: U256) -> U256 {
        self.regs.get(k)
    }
    fn integer(&mut self, id: U256, prog: Vec<U256>) -> Result<Vec<U256>, Er> {
        let (id, p) = (small(id), code(&prog)?);
        match id {
            0 => self.ints::<1>(id, &p),
            1 => self.ints::<2>(id, &p),
            2 => self.ints::<4>(id, &p),
            3 => self.ints::<6>(id, &p),
            4 => self.ints::<7>(id, &p),
            _ => Err(none()),
        }
    }
    fn field(&mut self, id: U256, prog: Vec<U256>) -> Result<Vec<U256>, Er> {
        let (id, p) = (small(id), code(&prog)?);
        match id {
            0 => self.fields::<BN256Param, 4>(id, &p),
            1 => self.fields::<PallasParam, 4>(id, &p),
            2 => self.fields::<VestaParam, 4>(id, &p),
            3 => self.fields::<BLS12Param, 4>(id, &p),
            4 => self.fields::<GoldiLocksParam, 1>(id, &p),
            5 => self.fields::<BabyBearParam, 1>(id, &p),
            6 => self.fields::<P17, 1>(id, &p),
            7 => self.fields::<P251, 1>(id, &p),
            8 => self.fields::<P64s, 1>(id, &p),
            9 => self.fields::<P128, 2>(id, &p),
            10 => self.fields::<P128s, 2>(id, &p),
            11 => self.fields::<P192, 3>(id, &p),
            12 => self.fields::<PSecpQ, 4>(id, &p),
            13 => self.fields::<PSecpR, 4>(id, &p),
            14 => self.fields::<P320, 5>(id, &p),
            15 => self.fields::<PBls381, 6>(id, &p),
            16 => self.fields::<P448, 7>(id, &p),
            _ => Err(none()),
        }
    }
    fn curve(&mut self, id: U256, prog: Vec<U256>) -> Result<Vec<U256>, Er> {
        let (id, p) = (small(id), code(&prog)?);
        match id {
            0 => self.curves::<Secp>(id, &p),
            1 => self.curves::<P256>(id, &p),
            2 => self.curves::<Pallas>(id, &p),
            3 => self.curves::<T251>(id, &p),
            4 => self.curves::<T103>(id, &p),
            5 => self.curves::<T241>(id, &p),
            6 => self.curves::<T241b>(id, &p),
            7 => self.curves::<T10007>(id, &p),
            _ => Err(none()),
        }
    }
}
contract!(Algebra);

/// A pool of hidden notes: whoever knows what a note commits to can take the tokens out.
#[storage]
pub struct Notes {
    #[borrow]
    erc20: Erc20,
    notes: StorageMap<U256, StorageMap<U256, StorageBool>>,
    chain: StorageMap<U256, StorageU256>,
}
impl Notes {
    fn digest(&self, d: U256, v: &[U256]) -> Result<U256, Er> {
        let p: Vec<Ins> = v
            .iter()
            .map(|x| Ins { op: 0, d: 0, a: 0, b: 0, how: 0, w: [*x, U256::ZERO] })
            .chain([Ins { op: 2, d: 0, a: 0, b: 0, how: 0, w: [U256::ZERO; 2] }])
            .collect();
        Ok(sponge(small(d), &p)?[0])
    }
    /// addresses and amounts are cut into pieces that fit every field
    fn note(&self, d: U256, v: U256, secret: U256, to: Address) -> Result<U256, Er> {
        let mut w = vec![secret];
        for x in [v, U256::from_be_slice(to.as_slice())] {
            for i in 0..11 {
                w.push((x >> (24 * i)) & U256::from(0xff_ffff));
            }
        }
        self.digest(d, &w)
    }
}
#[public]
#[inherit(Erc20)]
impl Notes {
    fn mint(&mut self, to: Address, v: U256) -> Result<(), Er> {
        self.erc20._mint(to, v).map_err(Er::from)
    }
    fn note_of(&self, d: U256, v: U256, secret: U256, to: Address) -> Result<U256, Er> {
        self.note(d, v, secret, to)
    }
    fn is_open(&self, d: U256, note: U256) -> bool {
        self.notes.getter(d).get(note)
    }
    fn chain(&self, d: U256) -> U256 {
        self.chain.get(d)
    }
    fn lock(&mut self, d: U256, v: U256, secret: U256, to: Address) -> Result<U256, Er> {
        let n = self.note(d, v, secret, to)?;
        if self.notes.getter(d).get(n) {
            return Err(b"taken".to_vec());
        }
        self.erc20._burn(stylus_sdk::msg::sender(), v).map_err(Er::from)?;
        self.notes.setter(d).setter(n).set(true);
        let c = self.digest(d, &[self.chain.get(d), n])?;
        self.chain.setter(d).set(c);
        Ok(n)
    }
    fn unlock(&mut self, d: U256, v: U256, secret: U256, to: Address) -> Result<(), Er> {
        let n = self.note(d, v, secret, to)?;
        if !self.notes.getter(d).get(n) {
            return Err(b"unknown".to_vec());
        }
        self.notes.setter(d).setter(n).set(false);
        self.erc20._mint(to, v).map_err(Er::from)
    }
    fn transcript(&self, d: U256, prog: Vec<U256>) -> Result<Vec<U256>, Er> {
        sponge(small(d), &code(&prog)?)
    }
}
contract!(Notes);
