//! C12, C13: the parameter type, over all sign/exponent patterns and all short operation sequences and strings.
use gauss_quad::{FiniteAboveNegOneF64 as P, InfNanNegOneOrLessError, ParseFiniteAboveNegOneF64Error as ParseErr};
use mc_core::run::{Obs, Run};
use serde_json::json;
use std::collections::{HashSet, VecDeque};
use std::str::FromStr;

fn admissible(v: f64) -> bool {
    v > -1.0 && v < f64::INFINITY
}

/// low 48 bits put under every possible upper 16 bits
fn lows(thorough: bool) -> Vec<u64> {
    let mut v = vec![0, 1, 0xffff_ffff_ffff, 0x8000_0000_0000, 0x5555_5555_5555, 0x0000_ffff_ffff, 0x1234_5678_9abc];
    if thorough {
        v.extend((0..48).map(|i| 1u64 << i));
        v.extend((0..48).map(|i| 0xffff_ffff_ffff ^ (1u64 << i)));
        v.extend([0xaaaa_aaaa_aaaa, 0xffff_0000_0000, 2, 3, 0x7fff_ffff_ffff, 0x243f_6a88_85a3, 0x13198_a2e0_3707]);
    }
    v.sort();
    v.dedup();
    v
}
/// values whose closest neighbourhood is enumerated ulp by ulp
const CENTRES: [f64; 9] = [-1.0, f64::MAX, 0.0, 1.0, -0.5, 0.5, f64::MIN_POSITIVE, f64::MIN, 4503599627370496.0];

fn src(v: f64) -> String {
    format!("FiniteAboveNegOneF64::new(f64::from_bits({:#x})) /* {v:?} */", v.to_bits())
}

/// every way in, for one double
fn ways_in(v: f64, o: &mut Obs) {
    let ok = admissible(v);
    o.evals += 1;
    o.transitions += 2;
    let p = P::new(v);
    let t = P::try_from(v);
    if p.is_some() != ok {
        return o.fail(format!("new({v:?}) gives {p:?}"), src(v));
    }
    if t.is_ok() != ok || (!ok && t != Err(InfNanNegOneOrLessError)) {
        return o.fail(format!("try_from({v:?}) gives {t:?}"), src(v));
    }
    if let (Some(p), Ok(t)) = (p, t) {
        let q = p;
        #[allow(clippy::clone_on_copy)]
        let c = p.clone();
        for x in [p.get(), t.get(), q.get(), c.get(), f64::from(p), p.into()] {
            if x.to_bits() != v.to_bits() {
                return o.fail(format!("the parameter built from {v:?} holds {x:?}"), src(v));
            }
        }
    }
    #[cfg(feature = "full")]
    full::ways_in(v, ok, o);
}

#[cfg(feature = "full")]
pub mod full {
    use super::*;
    use bincode::Options;
    use serde::Deserialize;
    use serde::de::value::{Error as VErr, F64Deserializer, MapDeserializer, SeqDeserializer};
    use serde::de::IntoDeserializer;
    use zerocopy::{FromZeros, IntoBytes, TryFromBytes};

    fn got<E: std::fmt::Display>(how: &str, v: f64, ok: bool, r: Result<P, E>, o: &mut Obs) {
        o.evals += 1;
        o.transitions += 1;
        match r {
            Ok(p) if !ok => o.fail(format!("{how} of {v:?} produced a parameter holding {:?}", p.get()), src(v)),
            Ok(p) if p.get().to_bits() != v.to_bits() => o.fail(format!("{how} of {v:?} produced a parameter holding {:?}", p.get()), src(v)),
            Err(e) if ok => o.fail(format!("{how} of {v:?} was refused: {e}"), src(v)),
            _ => {}
        }
    }
    pub fn ways_in(v: f64, ok: bool, o: &mut Obs) {
        let d: F64Deserializer<VErr> = v.into_deserializer();
        // a bare number is no newtype, so it may be refused
        if let Ok(p) = P::deserialize(d) {
            got("deserializing a double", v, ok, Ok::<P, VErr>(p), o);
        }
        let raw = v.to_bits().to_le_bytes();
        got("bincode", v, ok, bincode::deserialize::<P>(&v.to_bits().to_le_bytes()), o);
        let mut b = vec![0xfbu8];
        b.extend(v.to_bits().to_be_bytes());
        if !v.is_nan() || v.to_bits() == f64::NAN.to_bits() {
            got("CBOR", v, ok, ciborium::from_reader::<P, _>(&b[..]), o);
        }
        // in-place deserialization over a valid value
        let mut slot = P::new(0.5).unwrap();
        let d: F64Deserializer<VErr> = v.into_deserializer();
        let r = P::deserialize_in_place(d, &mut slot);
        let mut bin = bincode::Deserializer::from_slice(&raw, bincode::options().with_fixint_encoding());
        let mut slot2 = slot;
        let r2 = P::deserialize_in_place(&mut bin, &mut slot2);
        if !admissible(slot2.get()) || r2.is_ok() != ok || (ok && slot2.get().to_bits() != v.to_bits()) {
            o.fail(format!("deserialize_in_place of {v:?} left {:?}", slot2.get()), src(v));
        }
        if !admissible(slot.get()) || (ok && r.is_ok() && slot.get().to_bits() != v.to_bits()) {
            o.fail(format!("deserialize_in_place of {v:?} left {:?}", slot.get()), src(v));
        }
        // wrapped in a sequence or in a map: whatever is accepted must be admissible
        let s: SeqDeserializer<_, VErr> = SeqDeserializer::new([v].into_iter());
        if let Ok(p) = P::deserialize(s)
            && !(ok && p.get().to_bits() == v.to_bits())
        {
            o.fail(format!("deserializing the sequence [{v:?}] produced {:?}", p.get()), src(v));
        }
        let m: MapDeserializer<_, VErr> = MapDeserializer::new([("0", v)].into_iter());
        if let Ok(p) = P::deserialize(m)
            && !(ok && p.get().to_bits() == v.to_bits())
        {
            o.fail(format!("deserializing a map holding {v:?} produced {:?}", p.get()), src(v));
        }
        if v.is_finite() {
            let text = serde_json::to_string(&v).unwrap();
            got("JSON", v, ok, serde_json::from_str::<P>(&text), o);
            if ok {
                let back = serde_json::to_string(&P::new(v).unwrap());
                if back.as_deref().ok() != Some(&text) {
                    o.fail(format!("the JSON of the parameter {v:?} is {back:?}"), src(v));
                }
            }
        }
        if ok {
            let p = P::new(v).unwrap();
            if p.as_bytes() != v.to_bits().to_ne_bytes() {
                o.fail(format!("the bytes of the parameter {v:?} are {:?}", p.as_bytes()), src(v));
            }
        }
        match P::try_read_from_bytes(&v.to_bits().to_ne_bytes()) {
            Ok(p) if !ok => {
                let exact = p.get().to_bits() == v.to_bits();
                o.fail_sig(
                    if exact { "zerocopy-try-from-bytes-unchecked" } else { "" },
                    format!("zerocopy::TryFromBytes::try_read_from_bytes of {v:?} produced a parameter holding {:?}", p.get()),
                    src(v),
                );
            }
            Ok(p) if p.get().to_bits() != v.to_bits() => o.fail(format!("try_read_from_bytes of {v:?} produced {:?}", p.get()), src(v)),
            Err(_) if ok => o.fail(format!("try_read_from_bytes of {v:?} was refused"), src(v)),
            _ => {}
        }
    }
    fn prim<'de, T: IntoDeserializer<'de, VErr> + Copy + std::fmt::Debug>(x: T, as_f64: f64, o: &mut Obs) {
        o.evals += 1;
        if let Ok(p) = P::deserialize(x.into_deserializer())
            && !(admissible(as_f64) && p.get() == as_f64)
        {
            o.fail(format!("deserializing {x:?} produced a parameter holding {:?}", p.get()), format!("{x:?}"));
        }
    }
    pub fn other_ways(o: &mut Obs) {
        for z in [P::new_zeroed(), { let mut p = P::new(3.0).unwrap(); p.zero(); p }] {
            if z.get().to_bits() != 0 {
                o.fail(format!("zero initialisation gives {:?}", z.get()), "zerocopy");
            }
        }
        for x in [i64::MIN, -4503599627370497, -3, -2, -1, 0, 1, 2, i64::MAX] {
            prim(x, x as f64, o);
            prim(x as i32, x as i32 as f64, o);
            prim(x as i16, x as i16 as f64, o);
            prim(x as i8, x as i8 as f64, o);
            prim(x as u64, x as u64 as f64, o);
            prim(x as u32, x as u32 as f64, o);
            prim(x as u8, x as u8 as f64, o);
        }
        for x in [-1.0f32, -1.0000001, -0.99999994, f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 0.0, -0.0, 0.1, 3e-45] {
            prim(x, x as f64, o);
        }
        prim(true, f64::NAN, o);
        prim('1', f64::NAN, o);
        prim("0.5", 0.5, o);
        prim("-2", f64::NAN, o);
        prim((), f64::NAN, o);
        // text forms of the self-describing formats
        let toks = ["", "null", "true", "{}", "[]", "[0.5]", "[-2.0]", "[1,2]", "\"0.5\"", "\"-2\"", "\"NaN\"", "-1", "-1.0", "-2", "-0", "0", "1e400", "-1e400", "1e308",
            "-0.9999999999999999", "-0.99999999999999999999", "-1.0000000000000000000001", "NaN", "inf", "-inf", "Infinity", "{\"0\":-2.0}", "{\"value\":-3}", "18446744073709551615", "-9223372036854775808", "00", "1.", ".5",
            "(0.5)", "(-2.0)", "FiniteAboveNegOneF64(0.5)", "FiniteAboveNegOneF64(-2.0)", "FiniteAboveNegOneF64(inf)", "FiniteAboveNegOneF64(NaN)", "FiniteAboveNegOneF64(-1)", "(-inf)", "Some(-2.0)"];
        for t in toks {
            o.evals += 2;
            o.distinct(&t);
            for (how, r) in [("JSON", serde_json::from_str::<P>(t).ok()), ("RON", ron::from_str::<P>(t).ok())] {
                if let Some(p) = r
                    && !admissible(p.get())
                {
                    o.fail(format!("{how} text {t} produced a parameter holding {:?}", p.get()), t.to_string());
                }
            }
        }
        // CBOR half and single precision, all 2^16 halves
        for h in 0..=u16::MAX {
            let b = [0xf9, (h >> 8) as u8, h as u8];
            o.evals += 1;
            if let Ok(p) = ciborium::from_reader::<P, _>(&b[..])
                && !admissible(p.get())
            {
                o.fail(format!("CBOR half {h:#06x} produced a parameter holding {:?}", p.get()), format!("{b:?}"));
            }
        }
        // every buffer of at most 2 bytes as CBOR
        for n in 0..=u16::MAX {
            for b in [&n.to_be_bytes()[..], &n.to_be_bytes()[1..]] {
                o.evals += 1;
                if let Ok(p) = ciborium::from_reader::<P, _>(b)
                    && !admissible(p.get())
                {
                    o.fail(format!("CBOR {b:?} produced a parameter holding {:?}", p.get()), format!("{b:?}"));
                }
            }
        }
        // FromBytes would be a safe way to any bit pattern
        use absent::*;
        if (&Probe::<P>(std::marker::PhantomData)).from_bytes() {
            o.fail("the parameter type implements zerocopy::FromBytes, so safe code can make any bit pattern one", "");
        }
    }
    mod absent {
        pub struct Probe<T>(pub std::marker::PhantomData<T>);
        pub trait Yes {
            fn from_bytes(&self) -> bool {
                true
            }
        }
        impl<T: zerocopy::FromBytes> Yes for Probe<T> {}
        pub trait No {
            fn from_bytes(&self) -> bool {
                false
            }
        }
        impl<T> No for &Probe<T> {}
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Pow,
}
const OPS: [Op; 5] = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Pow];

fn apply(p: P, op: Op, x: f64) -> Option<P> {
    match op {
        Op::Add => p.checked_add(x),
        Op::Sub => p.checked_sub(x),
        Op::Mul => p.checked_mul(x),
        Op::Div => p.checked_div(x),
        Op::Pow => p.checked_pow(x),
    }
}
/// Does the observed result agree with IEEE arithmetic?
fn agree(v: f64, op: Op, x: f64, got: Option<P>) -> Result<(), String> {
    let want = match op {
        Op::Add => v + x,
        Op::Sub => v - x,
        Op::Mul => v * x,
        Op::Div => v / x,
        Op::Pow => v.powf(x),
    };
    if let Some(g) = got
        && !admissible(g.get())
    {
        return Err(format!("produced the inadmissible {:?}", g.get()));
    }
    let show = got.map(|g| g.get());
    if let Op::Pow = op {
        // the backend of pow may differ by a few units
        let exact = want.is_nan() || want == 0.0 || x == 0.0 || x == 1.0 || v == 1.0;
        if !exact {
            // (libm's forms y ln x in one double when |y| > 2^31, whose rounding the exponential amplifies)
            let amplified = if x.abs() > 2e9 { 1.0 + want.abs().max(5e-324).log2().abs() } else { 1.0 };
            let tol = 8.0 * f64::EPSILON * want.abs() * amplified + 1e-322;
            return match show {
                Some(g) if (g - want).abs() <= tol => Ok(()),
                Some(g) if want.is_infinite() && want > 0.0 && g >= f64::MAX * (1.0 - 1e-12) => Ok(()),
                None if !admissible(want) || !admissible(want + tol) || !admissible(want - tol) => Ok(()),
                _ => Err(format!("gives {show:?}, IEEE arithmetic gives {want:?}")),
            };
        }
    }
    let expect = if admissible(want) { Some(want.to_bits()) } else { None };
    if show.map(f64::to_bits) == expect { Ok(()) } else { Err(format!("gives {show:?}, IEEE arithmetic gives {want:?}")) }
}

pub fn c12(r: &Run) {
    let low = lows(r.thorough);
    let chunks: Vec<u64> = (0..256).collect();
    r.rule(format!("all 65536 sign/exponent/leading-mantissa patterns x {} trailing patterns: accepted exactly when finite and above -1, value kept bit for bit, by new, try_from and (full build) every deserializer, zero-copy reading and in-place forms; distinct by bit pattern", low.len()));
    r.cases(&chunks, |c| format!("doubles with top byte {c:#04x}"), |c, o| {
        for mid in 0..256u64 {
            for l in &low {
                let v = f64::from_bits(c << 56 | mid << 48 | l);
                o.distinct(&v.to_bits());
                o.states += 1;
                ways_in(v, o);
            }
            if o.failed() && mid > 4 && !cfg!(feature = "full") {
                return;
            }
        }
        o.sample(json!({"double": format!("{:?}", f64::from_bits(c << 56 | low[1])), "admissible": admissible(f64::from_bits(c << 56 | low[1]))}));
    });
    let w = r.pick(200_000i64, 3_000_000);
    r.rule(format!("every double within {w} ulps of {CENTRES:?}"));
    let mut around: Vec<(f64, i64, i64)> = vec![];
    for c in CENTRES {
        let mut s = -w;
        while s < w {
            around.push((c, s, (s + 4000).min(w)));
            s += 4000;
        }
    }
    r.cases(&around, |(c, s, e)| format!("doubles around {c:?} {s}..{e}"), |&(c, s, e), o| {
        for d in s..=e {
            let v = f64::from_bits((c.to_bits() as i64).wrapping_add(d) as u64);
            o.distinct(&v.to_bits());
            o.states += 1;
            ways_in(v, o);
        }
    });
    r.cases(&[()], |_| "default, constants and other ways in".into(), |_, o| {
        o.evals += 1;
        if P::default().get().to_bits() != 0 {
            o.fail(format!("default() holds {:?}", P::default().get()), "FiniteAboveNegOneF64::default()");
        }
        const A: Option<P> = P::new(-1.0);
        const B: Option<P> = P::new(f64::NAN);
        const C: Option<P> = P::new(-0.5);
        const D: Option<P> = P::new(f64::INFINITY);
        const E: Option<P> = match C {
            Some(c) => c.checked_sub(0.5),
            None => C,
        };
        if A.is_some() || B.is_some() || C.map(|c| c.get()) != Some(-0.5) || D.is_some() || E.is_some() {
            o.fail(format!("in constant evaluation new gives {A:?} {B:?} {C:?} {D:?} {E:?}"), "const");
        }
        #[cfg(feature = "full")]
        full::other_ways(o);
    });
    // operation sequences: breadth-first over reachable parameter values
    let starts = [0.0, -0.0, 0.5, -0.5, 1.0, -0.75, 3.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, -1.0 + f64::EPSILON / 2.0, 1e10, 170.5, 0.1];
    let mut operands = vec![0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 2.0, -2.0, 0.1, 3.0, 1e300, -1e300, f64::MAX, f64::MIN, 5e-324, 1e-16, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1.0 + f64::EPSILON, 1.0 / 3.0, 1e-300, 1e10, 1e9 + 1.0, 4294967297.0, -4294967297.0, 65537.0, 0.75, -0.5 + f64::EPSILON, 1e5];
    {
        operands.extend([-0.1, 10.0, 0.25, -3.0, 1023.5, -1074.0, f64::MIN_POSITIVE, -1.0 + f64::EPSILON / 2.0, 7.0, 1e17]);
    }
    let cap = r.pick(200_000, 2_000_000);
    let depth = r.pick(4, 6);
    r.rule(format!("every sequence of at most {depth} checked operations (5 operations x {} operands) from {} values, breadth-first with equal values merged (values are all an operation can see), each value expanded once, at most {cap} values per start", operands.len(), starts.len()));
    r.cases(&starts, |s| format!("operation sequences from {s:?}"), |&s, o| {
        let mut seen: HashSet<u64> = HashSet::from([s.to_bits()]);
        let mut q: VecDeque<(P, Vec<(Op, f64)>)> = VecDeque::from([(P::new(s).expect("admissible"), vec![])]);
        while let Some((p, hist)) = q.pop_front() {
            o.states += 1;
            o.distinct(&p.get().to_bits());
            for op in OPS {
                for &x in &operands {
                    let got = apply(p, op, x);
                    o.transitions += 1;
                    o.evals += 1;
                    o.traces += 1;
                    if let Err(e) = agree(p.get(), op, x, got) {
                        return o.fail(format!("from {s:?} after {hist:?}: {:?} {op:?} {x:?} {e}", p.get()), format!("FiniteAboveNegOneF64::new({:?}).unwrap() {op:?} {x:?}", p.get()));
                    }
                    if let Some(g) = got
                        && hist.len() + 1 < depth
                        && seen.len() < cap
                        && seen.insert(g.get().to_bits())
                    {
                        let mut h = hist.clone();
                        h.push((op, x));
                        q.push_back((g, h));
                    }
                }
            }
        }
        o.count("values_reached", seen.len() as u64);
        if seen.len() >= cap {
            o.count("value_cap_hit", 1);
        }
    });
    // arithmetic over the exponent range: one operation on every pair of a coarse grid of doubles
    let grid: Vec<f64> = (0..4096u64).map(|e| f64::from_bits(e << 52 | 0x8_1234_5678_9abc)).chain(CENTRES).collect();
    let step = r.pick(2, 1);
    r.rule("every operation on every pair of sign/exponent patterns (coarse grid in the quick tier)");
    r.cases(&grid, |v| format!("pairs from {v:?}"), |&v, o| {
        let Some(p) = P::new(v) else { return };
        for x in grid.iter().step_by(step).copied().chain(CENTRES) {
            for op in OPS {
                o.evals += 1;
                o.transitions += 1;
                if let Err(e) = agree(v, op, x, apply(p, op, x)) {
                    return o.fail(format!("{v:?} {op:?} {x:?} {e}"), format!("FiniteAboveNegOneF64::new({v:?}).unwrap() {op:?} {x:?}"));
                }
            }
        }
        o.distinct(&v.to_bits());
    });
}

// ---------------------------------------------------------------------------------------------------------------------

fn text(v: f64, o: &mut Obs) {
    let p = P::new(v).expect("admissible");
    let forms = [format!("{p}"), format!("{p:e}"), format!("{p:E}"), p.to_string()];
    let plain = [format!("{v}"), format!("{v:e}"), format!("{v:E}"), v.to_string()];
    for (t, w) in forms.iter().zip(&plain) {
        o.evals += 1;
        if t != w {
            return o.fail(format!("{v:?} prints as {t}, the double prints as {w}"), src(v));
        }
        match P::from_str(t) {
            Ok(q) if q.get().to_bits() == v.to_bits() => {}
            q => return o.fail(format!("{v:?} prints as {t}, which parses as {q:?}"), src(v)),
        }
    }
}
fn parse(s: &str, o: &mut Obs) {
    o.evals += 1;
    let got: Result<P, ParseErr> = s.parse();
    let bad = match (s.parse::<f64>(), &got) {
        (Ok(v), Ok(p)) => !(admissible(v) && p.get().to_bits() == v.to_bits()),
        (Ok(v), Err(ParseErr::InvalidValue(InfNanNegOneOrLessError))) => admissible(v),
        (Err(e), Err(ParseErr::ParseError(g))) => *g != e,
        _ => true,
    };
    if bad {
        return o.fail(format!("{s:?} as a double is {:?}, as a parameter {got:?}", s.parse::<f64>()), format!("{s:?}.parse::<FiniteAboveNegOneF64>()"));
    }
    if let Err(e) = got {
        use std::error::Error;
        let inner: String = match &e {
            ParseErr::ParseError(e) => e.to_string(),
            ParseErr::InvalidValue(e) => e.to_string(),
        };
        let src_ok = match (e.source(), &e) {
            (Some(x), ParseErr::ParseError(e)) => x.downcast_ref() == Some(e),
            (Some(x), ParseErr::InvalidValue(e)) => x.downcast_ref() == Some(e),
            (None, _) => false,
        };
        if !src_ok || inner.is_empty() || e.to_string().is_empty() || e.clone() != e {
            o.fail(format!("the error for {s:?} is inconsistent: {e:?} / {e} / source {:?}", e.source().map(|s| s.to_string())), format!("{s:?}.parse::<FiniteAboveNegOneF64>()"));
        }
    }
}

pub fn c13(r: &Run) {
    let low = lows(r.thorough);
    let chunks: Vec<u64> = (0..256).collect();
    r.rule(format!("all admissible doubles among 65536 leading x {} trailing patterns and around special values: three text forms equal the double's and parse back bit for bit", low.len()));
    r.cases(&chunks, |c| format!("text of doubles with top byte {c:#04x}"), |c, o| {
        for mid in 0..256u64 {
            for l in &low {
                let v = f64::from_bits(c << 56 | mid << 48 | l);
                if admissible(v) {
                    o.distinct(&v.to_bits());
                    text(v, o);
                    if o.failed() {
                        return;
                    }
                }
            }
        }
        o.sample(json!({"text": format!("{:e}", f64::from_bits(c << 56 | low[1]))}));
        o.evals += 1;
    });
    let w = r.pick(50_000i64, 500_000);
    r.cases(&CENTRES, |c| format!("text of doubles around {c:?}"), |&c, o| {
        for d in -w..=w {
            let v = f64::from_bits((c.to_bits() as i64).wrapping_add(d) as u64);
            if admissible(v) {
                o.distinct(&v.to_bits());
                text(v, o);
                if o.failed() {
                    return;
                }
            }
        }
    });
    let alphabet: Vec<char> = "019.-+eEinfaN _x".chars().collect();
    let max = r.pick(6, 7);
    r.rule(format!("every string of length <= {max} over {:?}, plus strings at the edges of the number grammar: accepted, refused and classified exactly as by the standard parser; distinct by string", alphabet.iter().collect::<String>()));
    let mut heads: Vec<String> = vec![String::new()];
    for &a in &alphabet {
        heads.push(a.to_string());
        for &b in &alphabet {
            heads.push(format!("{a}{b}"));
        }
    }
    r.cases(&heads, |h| format!("strings starting with {h:?}"), |h, o| {
        parse(h, o);
        o.distinct(h);
        if h.chars().count() < 2 {
            return;
        }
        for n in 1..=max - 2 {
            let total = alphabet.len().pow(n as u32);
            let mut s = String::new();
            for i in 0..total {
                s.clear();
                s.push_str(h);
                let mut k = i;
                for _ in 0..n {
                    s.push(alphabet[k % alphabet.len()]);
                    k /= alphabet.len();
                }
                parse(&s, o);
                if o.failed() {
                    return;
                }
            }
            o.count("strings", total as u64);
        }
        o.sample(json!({"string": format!("{h}0"), "result": format!("{:?}", format!("{h}0").parse::<P>())}));
    });
    let mut edge: Vec<String> = ["inf", "-inf", "+inf", "infinity", "Infinity", "INF", "-Infinity", "nan", "NaN", "-nan", "+nan", "infinit", "∞", "１", "-1", "-1.0", "-1e0", "-10e-1", "-1.", "-0.99999999999999994", "-0.99999999999999995",
        "-0.9999999999999999444888487687421729788184165954589843", "-0.9999999999999999444888487687421729788184165954589844", "-1.0000000000000000000000000000000001", "1e308", "1e309", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308",
        "-1e309", "1e-400", "-1e-400", "0x1p3", "1_000", " 1", "1 ", "\t1", "1\n", "1f64", "1.0f", "1,0", "1e", "e1", ".", "-", "+", "+.5", "-.5", "5.", "--1", "+-1", "1e+5", "1e-5", "1e++5", "1e1.5", "0b1", "1d5", "1E5", "\u{0}", "0\u{0}", "-0", "+0", "0e999999999999", "1e99999999999999999999", "1e-99999999999999999999", "-1e99999999999999999999"]
        .map(String::from).to_vec();
    for n in [20usize, 300, 400, 800, 5000] {
        edge.push("9".repeat(n));
        edge.push(format!("-{}", "9".repeat(n)));
        edge.push(format!("0.{}1", "0".repeat(n)));
        edge.push(format!("-0.{}", "9".repeat(n)));
        edge.push(format!("-1.{}1", "0".repeat(n)));
    }
    r.cases(&edge, |s| format!("edge string {:?}", s.chars().take(60).collect::<String>() + &s.len().to_string()), |s, o| {
        o.distinct(s);
        for u in [s.clone(), format!("{s} "), format!("+{s}"), format!("-{s}"), s.to_uppercase(), format!("{s}e1"), format!("{s}0")] {
            parse(&u, o);
        }
    });
    // comparisons and error texts
    let mut vals: Vec<f64> = vec![0.0, -0.0, 5e-324, -5e-324, 1.0, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, -1.0 + f64::EPSILON / 2.0, -0.5, 0.5, f64::MAX, f64::MIN_POSITIVE, -f64::MIN_POSITIVE];
    vals.extend((0..r.pick(1000, 1000)).map(|i| f64::from_bits(0x3ff0_0000_0000_0000 / 500 * i)));
    vals.extend((0..60).map(|i| -f64::from_bits((0x3fe0_0000_0000_0000u64 / 60) * i)));
    vals.retain(|v| admissible(*v));
    r.rule(format!("comparison operators on every pair of {} values", vals.len()));
    r.cases(&vals.clone(), |v| format!("comparisons with {v:?} {:x}", v.to_bits()), |&a, o| {
        let p = P::new(a).unwrap();
        for &b in &vals {
            let q = P::new(b).unwrap();
            o.evals += 1;
            let got = (p == q, p != q, p < q, p <= q, p > q, p >= q, p.partial_cmp(&q));
            let want = (a == b, a != b, a < b, a <= b, a > b, a >= b, a.partial_cmp(&b));
            if got != want {
                return o.fail(format!("comparing {a:?} with {b:?} gives {got:?} instead of {want:?}"), src(a));
            }
        }
        o.distinct(&a.to_bits());
    });
}
