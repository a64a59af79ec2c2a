//! C14: stored forms. Round trips through every framework, and exhaustive single faults in the stored form.
use crate::grid;
use crate::rules::*;
use bincode::Options;
use gauss_quad::*;
use mc_core::run::{Obs, Run, panic_message};
use rkyv::rancor::Error as RErr;
use serde::{Serialize, de::DeserializeOwned};
use serde_json::json;
use std::fmt::Debug;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// What a stored value must keep, and what any value that was read must satisfy.
trait Stored: Serialize + DeserializeOwned + Clone + PartialEq + Debug {
    const NAME: &'static str;
    /// everything observable, bit for bit
    fn view(&self) -> Vec<u64>;
    fn invariant(&self) -> Result<(), String>;
    fn rkyv_trip(&self) -> Result<Self, String>;
}
macro_rules! rkyv_trip {
    () => {
        fn rkyv_trip(&self) -> Result<Self, String> {
            let bytes = rkyv::to_bytes::<RErr>(self).map_err(|e| e.to_string())?;
            // the crate does not enable rkyv's validation, so this is the only way to read an archive
            let a = unsafe { rkyv::access_unchecked::<<Self as rkyv::Archive>::Archived>(&bytes) };
            rkyv::deserialize::<Self, RErr>(a).map_err(|e| e.to_string())
        }
    };
}
fn good(p: FiniteAboveNegOneF64) -> Result<(), String> {
    if p.get() > -1.0 && p.get().is_finite() { Ok(()) } else { Err(format!("its parameter is {:?}", p.get())) }
}
macro_rules! gauss {
    ($t:ident, [$($p:ident),*], $s:ident => $int:expr) => {
        impl Stored for $t {
            const NAME: &'static str = stringify!($t);
            fn view(&self) -> Vec<u64> {
                let $s = self;
                let mut v = vec![self.degree() as u64];
                v.extend(self.as_node_weight_pairs().iter().flat_map(|p| [p.0.to_bits(), p.1.to_bits()]));
                $(v.push(self.$p().get().to_bits());)*
                v.extend($int.map(f64::to_bits));
                v
            }
            fn invariant(&self) -> Result<(), String> {
                $(good(self.$p())?;)*
                Ok(())
            }
            rkyv_trip!();
        }
    };
}
fn g(x: f64) -> f64 {
    0.25 * x * x + 1.0 / (3.0 + x * x)
}
gauss!(GaussLegendre, [], s => [s.integrate(-1.0, 2.0, g)]);
gauss!(GaussChebyshevFirstKind, [], s => [s.integrate(-1.0, 2.0, g)]);
gauss!(GaussChebyshevSecondKind, [], s => [s.integrate(-1.0, 2.0, g)]);
gauss!(GaussHermite, [], s => [s.integrate(g)]);
gauss!(GaussLaguerre, [alpha], s => [s.integrate(g)]);
gauss!(GaussJacobi, [alpha, beta], s => [s.integrate(-1.0, 2.0, g)]);
macro_rules! composite {
    ($t:ident) => {
        impl Stored for $t {
            const NAME: &'static str = stringify!($t);
            fn view(&self) -> Vec<u64> {
                let n = self.degree().get();
                let mut v = vec![n as u64, self.iter().len() as u64];
                if n <= 5000 {
                    v.push(self.integrate(-1.0, 2.0, g).to_bits());
                }
                v
            }
            fn invariant(&self) -> Result<(), String> {
                // read through a volatile-ish path: the type promises non-zero, the value must keep it
                let n = std::hint::black_box(self.degree()).get();
                if std::hint::black_box(n) as u64 == 0 || self.iter().len() == 0 { Err("its cell count is 0".into()) } else { Ok(()) }
            }
            rkyv_trip!();
        }
    };
}
composite!(Midpoint);
composite!(Trapezoid);
composite!(Simpson);
impl Stored for FiniteAboveNegOneF64 {
    const NAME: &'static str = "FiniteAboveNegOneF64";
    fn view(&self) -> Vec<u64> {
        vec![self.get().to_bits()]
    }
    fn invariant(&self) -> Result<(), String> {
        good(*self)
    }
    rkyv_trip!();
}

fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| panic_message(&*p))
}
fn to_cbor<T: Serialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    ciborium::into_writer(t, &mut v).expect("CBOR write");
    v
}
fn var() -> impl Options {
    bincode::options().with_varint_encoding().with_big_endian()
}

fn trips<T: Stored>(t: &T, ctor: &str, o: &mut Obs) {
    let v = t.view();
    let mut chk = |fmt: &str, r: Result<Result<T, String>, String>| {
        o.evals += 1;
        let bad = match r {
            Err(p) => format!("panicked: {p}"),
            Ok(Err(e)) => format!("failed: {e}"),
            Ok(Ok(b)) if b.view() != v => "came back different".into(),
            Ok(Ok(b)) if b != *t && t == t => "came back unequal".into(),
            Ok(Ok(b)) if format!("{b:?}") != format!("{t:?}") => "came back with different debug output".into(),
            _ => return,
        };
        o.fail(format!("{}: a round trip through {fmt} {bad}", T::NAME), format!("let rule = {ctor};"));
    };
    fn s<E: std::fmt::Display>(e: E) -> String {
        e.to_string()
    }
    chk("JSON text", guard(|| serde_json::to_string(t).map_err(s).and_then(|x| serde_json::from_str(&x).map_err(s))));
    chk("pretty JSON bytes", guard(|| serde_json::to_vec_pretty(t).map_err(s).and_then(|x| serde_json::from_slice(&x).map_err(s))));
    chk("a JSON reader", guard(|| serde_json::to_vec(t).map_err(s).and_then(|x| serde_json::from_reader(&x[..]).map_err(s))));
    chk("JSON values", guard(|| serde_json::to_value(t).map_err(s).and_then(|x| serde_json::from_value(x).map_err(s))));
    chk("RON", guard(|| ron::to_string(t).map_err(s).and_then(|x| ron::from_str(&x).map_err(s))));
    chk("pretty RON", guard(|| ron::ser::to_string_pretty(t, ron::ser::PrettyConfig::default().struct_names(true)).map_err(s).and_then(|x| ron::from_str(&x).map_err(s))));
    chk("CBOR", guard(|| ciborium::from_reader(&to_cbor(t)[..]).map_err(s)));
    chk("CBOR values", guard(|| ciborium::Value::serialized(t).map_err(s).and_then(|x| x.deserialized().map_err(s))));
    chk("bincode", guard(|| bincode::serialize(t).map_err(s).and_then(|x| bincode::deserialize(&x).map_err(s))));
    chk("bincode (big endian, variable width)", guard(|| var().serialize(t).map_err(s).and_then(|x| var().deserialize(&x).map_err(s))));
    chk("rkyv", guard(|| t.rkyv_trip()));
    chk("JSON in a list", guard(|| serde_json::to_string(&(Some(t), [t, t])).map_err(s).and_then(|x| serde_json::from_str::<(Option<T>, [T; 2])>(&x).map_err(s)).map(|x| x.1[1].clone())));
    chk("bincode in a list", guard(|| bincode::serialize(&vec![t, t]).map_err(s).and_then(|x| bincode::deserialize::<Vec<T>>(&x).map_err(s)).map(|mut x| x.pop().unwrap())));
    chk("deserialize_in_place", guard(|| {
        let x = serde_json::to_string(t).map_err(s)?;
        let mut place = t.clone();
        serde::Deserialize::deserialize_in_place(&mut serde_json::Deserializer::from_str(&x), &mut place).map_err(s)?;
        Ok(place)
    }));
    if bincode::serialize(t).ok() != bincode::serialize(&t.clone()).ok() {
        o.fail(format!("{}: storing a clone gives other bytes", T::NAME), ctor.to_string());
    }
    o.distinct(&(T::NAME, ctor));
}

/// judge one read of corrupted data
fn read<T: Stored>(what: impl Fn() -> String, r: Result<Option<T>, String>, o: &mut Obs) {
    o.evals += 1;
    match r {
        Err(p) => o.fail(format!("{}: reading {} panicked: {p}", T::NAME, what()), what()),
        Ok(None) => o.count("refused", 1),
        Ok(Some(t)) => {
            o.count("accepted", 1);
            if let Err(e) = t.invariant() {
                o.fail(format!("{}: reading {} was accepted, but {e}", T::NAME, what()), what());
            }
        }
    }
}

type J = serde_json::Value;
fn paths(v: &J, at: &mut Vec<String>, out: &mut Vec<(Vec<String>, bool)>) {
    match v {
        J::Array(a) => {
            out.push((at.clone(), false));
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                paths(x, at, out);
                at.pop();
            }
        }
        J::Object(m) => {
            out.push((at.clone(), false));
            for (k, x) in m {
                at.push(k.clone());
                paths(x, at, out);
                at.pop();
            }
        }
        _ => out.push((at.clone(), true)),
    }
}
fn at<'a>(v: &'a mut J, p: &[String]) -> &'a mut J {
    p.iter().fold(v, |v, k| match v {
        J::Array(a) => &mut a[k.parse::<usize>().unwrap()],
        J::Object(m) => m.get_mut(k).unwrap(),
        _ => unreachable!(),
    })
}
fn bad_leaves() -> Vec<J> {
    [
        "null", "true", "\"x\"", "\"-2\"", "\"NaN\"", "[]", "{}", "[-2.0]", "{\"a\":1}", "-1", "-1.0", "-2.0", "-1.0000000000000002", "-0.9999999999999999", "0", "0.0", "-0.0", "1", "1.5", "-1e308", "1e308", "4294967295", "4294967296",
        "18446744073709551615", "-9223372036854775808", "256", "65536",
    ]
    .iter()
    .map(|s| serde_json::from_str(s).unwrap())
    .collect()
}
const BAD_F64: [f64; 10] = [-1.0, -2.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.0, -0.0, f64::MIN, f64::MAX, -1.0 - f64::EPSILON];

fn cbor_leaves(v: &mut ciborium::Value, f: &mut dyn FnMut(&mut ciborium::Value) -> bool) -> bool {
    use ciborium::Value::*;
    if !f(v) {
        return false;
    }
    match v {
        Array(a) => a.iter_mut().all(|x| cbor_leaves(x, f)),
        Map(m) => m.iter_mut().all(|(k, x)| cbor_leaves(k, f) && cbor_leaves(x, f)),
        Tag(_, x) => cbor_leaves(x, f),
        _ => true,
    }
}

fn faults<T: Stored>(t: &T, ctor: &str, pairs: bool, o: &mut Obs) {
    let text = serde_json::to_string(t).expect("JSON");
    let tree: J = serde_json::from_str(&text).unwrap();
    let mut ps = vec![];
    paths(&tree, &mut vec![], &mut ps);
    let leaves = bad_leaves();
    let try_tree = |how: String, v: &J, o: &mut Obs| {
        let show = || format!("{how} of {ctor}");
        read::<T>(show, guard(|| serde_json::from_value::<T>(v.clone()).ok()), o);
        read::<T>(show, guard(|| serde_json::from_str::<T>(&v.to_string()).ok()), o);
        o.distinct(&v.to_string());
    };
    for (p, leaf) in &ps {
        for l in &leaves {
            let mut v = tree.clone();
            *at(&mut v, p) = l.clone();
            try_tree(format!("JSON with {p:?} = {l}"), &v, o);
            if pairs && *leaf {
                for (p2, leaf2) in &ps {
                    if *leaf2 && p2 > p {
                        for l2 in &leaves[9..] {
                            let mut v2 = v.clone();
                            *at(&mut v2, p2) = l2.clone();
                            try_tree(format!("JSON with {p:?} = {l} and {p2:?} = {l2}"), &v2, o);
                        }
                    }
                }
            }
        }
        // containers: drop, duplicate, reverse, add
        let mut v = tree.clone();
        match at(&mut v, p) {
            J::Array(a) => {
                for i in 0..a.len() {
                    let mut v = tree.clone();
                    if let J::Array(a) = at(&mut v, p) {
                        a.remove(i);
                    }
                    try_tree(format!("JSON without {p:?}[{i}]"), &v, o);
                    let mut v = tree.clone();
                    if let J::Array(a) = at(&mut v, p) {
                        let x = a[i].clone();
                        a.insert(i, x);
                    }
                    try_tree(format!("JSON with {p:?}[{i}] doubled"), &v, o);
                }
                a.reverse();
                try_tree(format!("JSON with {p:?} reversed"), &v, o);
            }
            J::Object(m) => {
                let keys: Vec<String> = m.keys().cloned().collect();
                for k in &keys {
                    let mut v = tree.clone();
                    if let J::Object(m) = at(&mut v, p) {
                        m.remove(k);
                    }
                    try_tree(format!("JSON without {p:?}.{k}"), &v, o);
                }
                m.insert("extra".into(), json!(-5));
                try_tree("JSON with an extra key".into(), &v, o);
            }
            _ => {}
        }
    }
    // JSON text: truncation, one deleted byte, one replaced byte
    if text.len() <= 400 {
        let b = text.as_bytes();
        for i in 0..b.len() {
            read::<T>(|| format!("the first {i} bytes of {text}"), guard(|| serde_json::from_slice::<T>(&b[..i]).ok()), o);
            let mut d = b.to_vec();
            d.remove(i);
            read::<T>(|| format!("{text} without byte {i}"), guard(|| serde_json::from_slice::<T>(&d).ok()), o);
            for c in b"0-1.e5,[]{}\"9n \xff" {
                let mut d = b.to_vec();
                d[i] = *c;
                read::<T>(|| format!("{text} with byte {i} = {c:#x}"), guard(|| serde_json::from_slice::<T>(&d).ok()), o);
                d[i] = b[i];
                d.insert(i, *c);
                read::<T>(|| format!("{text} with {c:#x} inserted at {i}"), guard(|| serde_json::from_slice::<T>(&d).ok()), o);
            }
        }
    }
    // RON: numbers replaced, including the non-finite ones JSON cannot write
    let text = ron::to_string(t).expect("RON");
    let is_num = |c: char| c.is_ascii_digit() || "+-.eE".contains(c);
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() || (b[i] == '-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) {
            let s = i;
            while i < b.len() && is_num(b[i]) {
                i += 1;
            }
            for l in ["-1", "-1.0", "-2.0", "inf", "-inf", "NaN", "0", "-0.0", "4294967296", "()", "\"a\"", "None", "-1.0000000000000002", ""] {
                let u = format!("{}{l}{}", b[..s].iter().collect::<String>(), b[i..].iter().collect::<String>());
                o.distinct(&u);
                read::<T>(|| format!("RON {u}"), guard(|| ron::from_str::<T>(&u).ok()), o);
            }
        } else {
            i += 1;
        }
    }
    // CBOR: every node of the value tree replaced
    let val = ciborium::Value::serialized(t).expect("CBOR");
    let mut n = 0;
    cbor_leaves(&mut val.clone(), &mut |_| { n += 1; true });
    let mut repl: Vec<ciborium::Value> = BAD_F64.iter().map(|v| ciborium::Value::Float(*v)).collect();
    repl.extend([0i64, -1, -2, 1 << 32, i64::MIN].map(|i| ciborium::Value::Integer(i.into())));
    repl.extend([ciborium::Value::Null, ciborium::Value::Bool(false), ciborium::Value::Text("x".into()), ciborium::Value::Bytes(vec![1]), ciborium::Value::Array(vec![]), ciborium::Value::Map(vec![]), ciborium::Value::Tag(2, Box::new(ciborium::Value::Bytes(vec![255]))), ciborium::Value::Array(vec![ciborium::Value::Float(-3.0)])]);
    for k in 0..n {
        for x in &repl {
            let mut v = val.clone();
            let mut i = 0;
            cbor_leaves(&mut v, &mut |y| {
                i += 1;
                if i - 1 == k {
                    *y = x.clone();
                    return false;
                }
                true
            });
            let bytes = to_cbor(&v);
            o.distinct(&bytes);
            read::<T>(|| format!("CBOR {v:?}"), guard(|| v.deserialized::<T>().ok()), o);
            read::<T>(|| format!("CBOR bytes {bytes:?}"), guard(|| ciborium::from_reader::<T, _>(&bytes[..]).ok()), o);
        }
    }
    // binary forms: every truncation, every bit flip, every byte value at the edges, every word replaced
    for (how, bytes) in [("bincode", bincode::serialize(t).unwrap()), ("CBOR bytes", to_cbor(t)), ("bincode varint", var().serialize(t).unwrap())] {
        let go = |d: &[u8], what: String, o: &mut Obs| {
            let r = guard(|| match how {
                "bincode" => bincode::options().with_fixint_encoding().allow_trailing_bytes().with_limit(1 << 20).deserialize::<T>(d).ok(),
                "CBOR bytes" => ciborium::from_reader::<T, _>(d).ok(),
                _ => var().with_limit(1 << 20).deserialize::<T>(d).ok(),
            });
            o.distinct(&(how, d));
            read::<T>(|| format!("{how} of {ctor} {what}: {d:?}"), r, o);
        };
        if bytes.len() > 600 {
            continue;
        }
        for i in 0..bytes.len() {
            go(&bytes[..i], format!("truncated to {i}"), o);
            let mut d = bytes.clone();
            d.remove(i);
            go(&d, format!("without byte {i}"), o);
            for bit in 0..8 {
                let mut d = bytes.clone();
                d[i] ^= 1 << bit;
                go(&d, format!("with bit {bit} of byte {i} flipped"), o);
            }
            for c in [0, 1, 0x7f, 0x80, 0xff, 0xbf, 0xf0, 0xc0, 0x3f] {
                let mut d = bytes.clone();
                d[i] = c;
                go(&d, format!("with byte {i} = {c:#x}"), o);
            }
            if i + 8 <= bytes.len() {
                for v in BAD_F64 {
                    let mut d = bytes.clone();
                    d[i..i + 8].copy_from_slice(&if how == "bincode" { v.to_le_bytes() } else { v.to_be_bytes() });
                    go(&d, format!("with {v:?} written at byte {i}"), o);
                }
            }
            if i + 4 <= bytes.len() {
                let mut d = bytes.clone();
                d[i..i + 4].fill(0);
                go(&d, format!("with 4 zero bytes at {i}"), o);
            }
        }
    }
    o.sample(json!({"value": ctor, "json_leaves": ps.len(), "cbor_nodes": n}));
}

/// Values that only storage can produce: every stored number altered, all results compared with one another.
fn altered<T: Stored>(t: &T, ctor: &str, o: &mut Obs) {
    let tree = serde_json::to_value(t).expect("JSON");
    let mut ps = vec![];
    paths(&tree, &mut vec![], &mut ps);
    let mut all: Vec<(T, String)> = vec![(t.clone(), "unaltered".into())];
    for (p, leaf) in &ps {
        for up in [true, false] {
            let mut v = tree.clone();
            let slot = at(&mut v, p);
            let (true, J::Number(x)) = (*leaf, &*slot) else { continue };
            *slot = match (x.as_u64(), x.as_f64()) {
                (Some(n), _) => json!(if up { n + 1 } else { n.saturating_sub(1) }),
                (_, Some(f)) => json!(if up { f.next_up() } else { f - 0.0625 }),
                _ => continue,
            };
            if let Ok(x) = serde_json::from_value::<T>(v) {
                all.push((x, format!("with {} {}", p.join("."), if up { "raised" } else { "lowered" })));
            }
        }
    }
    // degree, pairs and parameters as doubles
    let content = |x: &T| -> Vec<f64> { x.view().iter().enumerate().map(|(i, b)| if i == 0 { *b as f64 } else { f64::from_bits(*b) }).collect() };
    for (x, wx) in &all {
        for (y, wy) in &all {
            let (mut cx, mut cy) = (content(x), content(y));
            cx.pop();
            cy.pop();
            o.eval();
            o.distinct(&(wx, wy, ctor));
            // a difference that does not show is not judged
            if cx != cy && x == y {
                return o.fail(format!("{}: the rule {wx} equals the rule {wy} although their contents differ", T::NAME), ctor.to_string());
            }
        }
        if !(x == &x.clone()) && content(x).iter().all(|v| !v.is_nan()) {
            return o.fail(format!("{}: the rule {wx} does not equal its clone", T::NAME), ctor.to_string());
        }
    }
}

/// C15: equality of rules that were read back with altered contents
pub fn stored_equality(r: &Run) {
    let mut items: Vec<What> = vec![];
    for f in crate::integ::fams_c07() {
        items.extend((1..=r.pick(9, 20)).map(|n| What::G(f, n)));
    }
    r.rule("every stored number of every small Gaussian rule raised by one ulp and lowered by 1/16, read back, all results compared with one another");
    r.cases(&items, |w| format!("equality of altered {w:?}"), |&w, o| dispatch(w, Mode::Equality, o));
}

fn run<T: Stored>(t: T, ctor: &str, mode: Mode, o: &mut Obs) {
    if let Err(e) = t.invariant() {
        return o.fail(format!("{}: {e}", T::NAME), ctor.to_string());
    }
    match mode {
        Mode::Trips => trips(&t, ctor, o),
        Mode::Faults => faults(&t, ctor, false, o),
        Mode::Pairs => faults(&t, ctor, true, o),
        Mode::Equality => altered(&t, ctor, o),
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Trips,
    Faults,
    Pairs,
    Equality,
}
#[derive(Clone, Copy, Debug)]
enum What {
    G(Fam, usize),
    N(Nc, u32),
    P(f64),
}
fn dispatch(w: What, mode: Mode, o: &mut Obs) {
    match w {
        What::P(v) => run(par(v), &format!("FiniteAboveNegOneF64::new({v:?}).unwrap()"), mode, o),
        What::N(k, n) => match k {
            Nc::Mid => run(Midpoint::new(nz32(n)), &k.ctor(n), mode, o),
            Nc::Trap => run(Trapezoid::new(nz32(n)), &k.ctor(n), mode, o),
            Nc::Simp => run(Simpson::new(nz32(n)), &k.ctor(n), mode, o),
        },
        What::G(f, n) => {
            let (c, z) = (f.ctor(n), nzu(n));
            match f {
                Fam::Legendre => run(GaussLegendre::new(z), &c, mode, o),
                Fam::Cheb1 => run(GaussChebyshevFirstKind::new(z), &c, mode, o),
                Fam::Cheb2 => run(GaussChebyshevSecondKind::new(z), &c, mode, o),
                Fam::Hermite => run(GaussHermite::new(z), &c, mode, o),
                Fam::Laguerre(a) => run(GaussLaguerre::new(z, par(a)), &c, mode, o),
                Fam::Jacobi(a, b) => run(GaussJacobi::new(z, par(a), par(b)), &c, mode, o),
            }
        }
    }
}

pub fn c14(r: &Run) {
    let fams = crate::integ::fams_c07();
    let mut items: Vec<What> = vec![];
    for &f in &fams {
        for n in (1..=r.pick(130, 200)).chain([200]) {
            items.push(What::G(f, n));
        }
        if matches!(f, Fam::Legendre | Fam::Cheb1 | Fam::Cheb2) {
            items.extend([255, 256, 257, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 32_767, 32_769, 65_535, 65_536, 65_537, 131_073].map(|n| What::G(f, n)));
        } else {
            items.extend([255, 256, 257].map(|n| What::G(f, n)));
        }
    }
    for a in grid::laguerre_alphas(true) {
        items.push(What::G(Fam::Laguerre(a), 3));
    }
    for (a, b) in grid::jacobi_params(true) {
        if grid::jacobi_mu0_ok(a, b) && !grid::jacobi_gamma_overflow(a, b) {
            items.push(What::G(Fam::Jacobi(a, b), 3));
        }
    }
    for k in NCS {
        items.extend((1..=300u32).chain([65_535, 65_536, 65_537, 1 << 24, (1 << 24) + 1, 1 << 31, u32::MAX - 1, u32::MAX]).map(|n| What::N(k, n)));
    }
    for e in 0..4096u64 {
        let v = f64::from_bits(e << 52 | 0x4_5678_9abc_def1);
        if v > -1.0 && v.is_finite() {
            items.push(What::P(v));
        }
    }
    items.extend([0.0, -0.0, f64::MAX, -1.0 + f64::EPSILON / 2.0, 5e-324, -5e-324, 0.1].map(What::P));
    r.rule(format!("{} rules and parameter values through 14 storage paths (JSON text/bytes/reader/values/in a list, RON, CBOR, two bincode encodings, rkyv, in place): everything observable comes back bit for bit", items.len()));
    r.cases(&items, |w| format!("round trips of {w:?}"), |&w, o| dispatch(w, Mode::Trips, o));

    let mut items: Vec<(What, Mode)> = vec![];
    for &f in &fams {
        items.push((What::G(f, 1), Mode::Pairs));
        for n in 2..=r.pick(6, 9) {
            items.push((What::G(f, n), Mode::Faults));
        }
    }
    for k in NCS {
        items.extend([1, 2, 77, 256, 65_536, 1 << 24, u32::MAX].map(|n| (What::N(k, n), Mode::Pairs)));
    }
    items.extend([0.0, -0.5, 0.5, 1.5, -1.0 + f64::EPSILON / 2.0, f64::MAX, -0.9375, 5e-324].map(|v| (What::P(v), Mode::Pairs)));
    r.rule(format!("{} small values: every single fault of the stored form (each JSON and CBOR node replaced by 20+ values, each key or element dropped/doubled/reversed, each RON number replaced, each text byte dropped/replaced/inserted, each binary truncation, bit flip, byte and word overwrite), and every pair of replaced JSON leaves at degree 1; distinct by stored form", items.len()));
    r.cases(&items, |(w, m)| format!("{m:?} in {w:?}"), |&(w, m), o| dispatch(w, m, o));
}
