//! C11: every iterator is explored breadth-first over its reachable states and along every short operation
//! sequence, against the model "window [front, back) of one fixed sequence".
use crate::grid::laguerre_alphas;
use crate::integ::fams_c07;
use crate::rules::*;
use gauss_quad::*;
use mc_core::run::{Obs, Run};
use serde_json::json;
use std::collections::{HashMap, VecDeque};

type Key = (u64, u64);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Next,
    NextBack,
    Nth(usize),
    NthBack(usize),
}

/// The model: what remains is items[front..back].
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct St {
    front: u64,
    back: u64,
}
impl St {
    fn len(&self) -> u64 {
        self.back - self.front
    }
    fn step(&mut self, op: Op) -> Option<u64> {
        let (k, fwd) = match op {
            Op::Next => (0, true),
            Op::NextBack => (0, false),
            Op::Nth(k) => (k as u64, true),
            Op::NthBack(k) => (k as u64, false),
        };
        if k >= self.len() {
            // everything is consumed
            if fwd { self.front = self.back } else { self.back = self.front }
            return None;
        }
        if fwd {
            self.front += k + 1;
            Some(self.front - 1)
        } else {
            self.back -= k + 1;
            Some(self.back)
        }
    }
}

struct Subject<'a, I: Iterator> {
    name: String,
    ctor: String,
    n: u64,
    mk: &'a dyn Fn() -> I,
    key: fn(I::Item) -> Key,
    item: &'a dyn Fn(u64) -> Key,
    views: Vec<(&'static str, fn(&I) -> Vec<Key>)>,
}

fn apply<I: DoubleEndedIterator>(it: &mut I, op: Op) -> Option<I::Item> {
    match op {
        Op::Next => it.next(),
        Op::NextBack => it.next_back(),
        Op::Nth(k) => it.nth(k),
        Op::NthBack(k) => it.nth_back(k),
    }
}

impl<I: Iterator + DoubleEndedIterator + ExactSizeIterator + std::iter::FusedIterator + Clone> Subject<'_, I> {
    fn fail(&self, hist: &[Op], e: String, o: &mut Obs) {
        o.fail(format!("{} after {hist:?}: {e}", self.name), format!("let rule = {}; // {} then {hist:?}", self.ctor, self.name));
    }
    /// observations that do not consume, and consuming ones on clones
    fn observe(&self, it: &I, st: St, hist: &[Op], o: &mut Obs) -> bool {
        let len = st.len() as usize;
        if it.len() != len || it.size_hint() != (len, Some(len)) {
            self.fail(hist, format!("len() = {}, size_hint() = {:?}, but {len} items remain", it.len(), it.size_hint()), o);
            return false;
        }
        if len > 4096 {
            return true;
        }
        let want: Vec<Key> = (st.front..st.back).map(|i| (self.item)(i)).collect();
        let key = self.key;
        let mut rev = want.clone();
        rev.reverse();
        let c = || it.clone();
        let mut bad: Option<String> = None;
        let mut chk = |what: &str, got: Vec<Key>, exp: &[Key]| {
            if bad.is_none() && got != exp {
                bad = Some(format!("{what} yields {}, expected {}", show(&got), show(exp)));
            }
        };
        chk("collect", c().map(key).collect(), &want);
        chk("rev().collect", c().rev().map(key).collect(), &rev);
        chk("for loop", { let mut v = vec![]; for x in c() { v.push(key(x)) } v }, &want);
        chk("fold", c().fold(vec![], |mut v, x| { v.push(key(x)); v }), &want);
        chk("rfold", c().rfold(vec![], |mut v, x| { v.push(key(x)); v }), &rev);
        chk("last", c().last().map(key).into_iter().collect(), &want.last().copied().into_iter().collect::<Vec<_>>());
        chk("step_by(2)", c().step_by(2).map(key).collect(), &want.iter().step_by(2).copied().collect::<Vec<_>>());
        chk("rev().step_by(3)", c().rev().step_by(3).map(key).collect(), &rev.iter().step_by(3).copied().collect::<Vec<_>>());
        chk("skip(1)", c().skip(1).map(key).collect(), want.get(1..).unwrap_or(&[]));
        chk("rev().skip(2)", c().rev().skip(2).map(key).collect(), rev.get(2..).unwrap_or(&[]));
        chk("take(2)", c().take(2).map(key).collect(), &want[..want.len().min(2)]);
        chk("skip(1).rev()", c().skip(1).rev().map(key).collect(), &rev[..rev.len().saturating_sub(1)]);
        chk("rev().rev()", c().rev().rev().map(key).collect(), &want);
        chk("zip(self)", c().zip(c().rev()).map(|(a, b)| { let (a, b) = (key(a), key(b)); (a.0 ^ b.0.rotate_left(7), a.1 ^ b.1.rotate_left(7)) }).collect(), &want.iter().zip(&rev).map(|(a, b)| (a.0 ^ b.0.rotate_left(7), a.1 ^ b.1.rotate_left(7))).collect::<Vec<_>>());
        chk("chain", c().chain(c()).map(key).collect(), &[want.clone(), want.clone()].concat());
        chk("enumerate().rev()", c().enumerate().rev().map(|(i, x)| { let k = key(x); (k.0 ^ i as u64, k.1) }).collect(), &want.iter().enumerate().rev().map(|(i, k)| (k.0 ^ i as u64, k.1)).collect::<Vec<_>>());
        chk("peekable", { let mut p = c().peekable(); p.peek(); p.map(key).collect() }, &want);
        chk("by_ref", { let mut d = c(); let mut v: Vec<Key> = d.by_ref().take(1).map(key).collect(); v.extend(d.map(key)); v }, &want);
        for (name, view) in &self.views {
            chk(name, view(it), &want);
        }
        let n = want.len();
        if bad.is_none() && c().count() != n {
            bad = Some(format!("count() = {}, expected {n}", c().count()));
        }
        if bad.is_none() && n > 0 {
            // exact-size dependent searches
            for t in [0, n / 2, n - 1] {
                let mut d = c();
                let p = d.rposition(|x| key(x) == want[t]);
                let e = want.iter().rposition(|x| *x == want[t]);
                if p != e {
                    bad = Some(format!("rposition = {p:?}, expected {e:?}"));
                }
            }
        }
        if let Some(b) = bad {
            self.fail(hist, b, o);
            return false;
        }
        true
    }
    fn skips(&self, st: St, big: bool) -> Vec<usize> {
        let len = st.len() as usize;
        let mut v: Vec<usize> = if len <= 12 { (0..=len + 1).collect() } else if big { vec![0, 1, 2] } else { vec![0, 1, 2, len / 2, len - 2, len - 1, len, len + 1] };
        if !big {
            v.extend([usize::MAX, u32::MAX as usize + 1]);
        }
        v
    }
    fn ops(&self, st: St, big: bool) -> Vec<Op> {
        let mut v = vec![Op::Next, Op::NextBack];
        for k in self.skips(st, big) {
            v.push(Op::Nth(k));
            v.push(Op::NthBack(k));
        }
        v
    }
    fn bfs(&self, limit: usize, big: bool, o: &mut Obs) {
        let init = St { front: 0, back: self.n };
        let mut seen: HashMap<St, ()> = HashMap::new();
        let mut q: VecDeque<(I, St, Vec<Op>)> = VecDeque::new();
        q.push_back(((self.mk)(), init, vec![]));
        seen.insert(init, ());
        while let Some((it, st, hist)) = q.pop_front() {
            o.states += 1;
            o.distinct(&(&self.name, self.n, st));
            if !self.observe(&it, st, &hist, o) {
                return;
            }
            for op in self.ops(st, big) {
                let mut it2 = it.clone();
                let mut st2 = st;
                let got = apply(&mut it2, op).map(self.key);
                let want = st2.step(op).map(|i| (self.item)(i));
                o.transitions += 1;
                o.eval();
                let mut h2 = hist.clone();
                h2.push(op);
                if got != want {
                    self.fail(&h2, format!("the last operation returned {}, expected {}", show1(got), show1(want)), o);
                    return;
                }
                // the clone left the original untouched
                if it.len() != st.len() as usize {
                    self.fail(&h2, "operating on a clone changed the original".into(), o);
                    return;
                }
                // an exhausted iterator stays exhausted (also reached through different windows)
                if st2.len() == 0 && (it2.next().is_some() || it2.next_back().is_some() || it2.nth(0).is_some() || it2.nth_back(3).is_some() || it2.len() != 0) {
                    self.fail(&h2, "an exhausted iterator yields again".into(), o);
                    return;
                }
                if seen.len() < limit && seen.insert(st2, ()).is_none() {
                    q.push_back((it2, st2, h2));
                }
            }
        }
        o.sample(json!({"iterator": self.name, "degree": self.n, "states": seen.len()}));
    }
    /// every operation sequence of the given depth from a fresh iterator, no merging of states
    fn sequences(&self, depth: usize, o: &mut Obs) {
        fn go<I: Iterator + DoubleEndedIterator + ExactSizeIterator + std::iter::FusedIterator + Clone>(s: &Subject<I>, depth: usize, hist: &mut Vec<Op>, st: St, o: &mut Obs) -> bool {
            if hist.len() == depth {
                // replay on a fresh object
                let mut it = (s.mk)();
                let mut m = St { front: 0, back: s.n };
                for (i, &op) in hist.iter().enumerate() {
                    let got = apply(&mut it, op).map(s.key);
                    let want = m.step(op).map(|i| (s.item)(i));
                    o.transitions += 1;
                    if got != want || it.len() != m.len() as usize || it.size_hint() != (m.len() as usize, Some(m.len() as usize)) {
                        s.fail(&hist[..=i], format!("returned {}, expected {}, len {} expected {}", show1(got), show1(want), it.len(), m.len()), o);
                        return false;
                    }
                }
                let rest: Vec<Key> = it.map(s.key).collect();
                let want: Vec<Key> = (m.front..m.back).map(|i| (s.item)(i)).collect();
                o.traces += 1;
                o.eval();
                if rest != want {
                    s.fail(hist, format!("then collect yields {}, expected {}", show(&rest), show(&want)), o);
                    return false;
                }
                return true;
            }
            let mut ops = vec![Op::Next, Op::NextBack];
            for k in [0, 1, st.len() as usize, usize::MAX] {
                ops.push(Op::Nth(k));
                ops.push(Op::NthBack(k));
            }
            for op in ops {
                let mut st2 = st;
                st2.step(op);
                hist.push(op);
                let ok = go(s, depth, hist, st2, o);
                hist.pop();
                if !ok {
                    return false;
                }
            }
            true
        }
        go(self, depth, &mut vec![], St { front: 0, back: self.n }, o);
    }
}

fn show1(k: Option<Key>) -> String {
    k.map_or("None".into(), |k| format!("Some({:?}, {:?})", f64::from_bits(k.0), f64::from_bits(k.1)))
}
fn show(k: &[Key]) -> String {
    let v: Vec<String> = k.iter().take(6).map(|k| format!("({:?}, {:?})", f64::from_bits(k.0), f64::from_bits(k.1))).collect();
    format!("{} items [{}{}]", k.len(), v.join(", "), if k.len() > 6 { ", ..." } else { "" })
}
fn pk(p: &(f64, f64)) -> Key {
    (p.0.to_bits(), p.1.to_bits())
}

fn subject<I: Iterator + DoubleEndedIterator + ExactSizeIterator + std::iter::FusedIterator + Clone>(
    name: &str,
    ctor: &str,
    n: u64,
    mk: &dyn Fn() -> I,
    key: fn(I::Item) -> Key,
    item: &dyn Fn(u64) -> Key,
    views: Vec<(&'static str, fn(&I) -> Vec<Key>)>,
    depth: usize,
    o: &mut Obs,
) {
    let s = Subject { name: name.into(), ctor: ctor.into(), n, mk, key, item, views };
    let big = n > 2_000_000;
    s.bfs(if n <= 12 { 10_000 } else if big { 80 } else { 200 }, big, o);
    if depth > 0 && !o.failed() {
        s.sequences(depth, o);
    }
}

macro_rules! gauss_iters {
    ($rule:expr, $name:expr, $ctor:expr, $depth:expr, $o:expr, $iter:ty, $into:ty) => {{
        let rule = &$rule;
        let o: &mut Obs = $o;
        let pairs: Vec<(f64, f64)> = rule.as_node_weight_pairs().to_vec();
        let n = pairs.len() as u64;
        if rule.degree() as u64 != n {
            o.fail(format!("{}: degree() = {} but {n} pairs", $name, rule.degree()), $ctor);
        }
        let boxed = rule.clone().into_node_weight_pairs();
        if boxed.iter().map(pk).ne(pairs.iter().map(pk)) {
            o.fail(format!("{}: into_node_weight_pairs differs from as_node_weight_pairs", $name), $ctor);
        }
        let p = |i: u64| pk(&pairs[i as usize]);
        let nd = |i: u64| (pairs[i as usize].0.to_bits(), 0);
        let wt = |i: u64| (pairs[i as usize].1.to_bits(), 0);
        let d = $depth;
        subject(&format!("{}.nodes()", $name), $ctor, n, &|| rule.nodes(), |x| (x.to_bits(), 0), &nd, vec![], d, o);
        subject(&format!("{}.weights()", $name), $ctor, n, &|| rule.weights(), |x| (x.to_bits(), 0), &wt, vec![], d, o);
        subject(&format!("{}.iter()", $name), $ctor, n, &|| rule.iter(), pk, &p,
            vec![("as_slice", |i: &$iter| i.as_slice().iter().map(pk).collect()), ("as_ref", |i: &$iter| i.as_ref().iter().map(pk).collect())], d, o);
        subject(&format!("(&{}).into_iter()", $name), $ctor, n, &|| rule.into_iter(), pk, &p,
            vec![("as_slice", |i: &$iter| i.as_slice().iter().map(pk).collect())], d.min(3), o);
        subject(&format!("{}.into_iter()", $name), $ctor, n, &|| rule.clone().into_iter(), |x| pk(&x), &p,
            vec![("as_slice", |i: &$into| i.as_slice().iter().map(pk).collect()), ("as_ref", |i: &$into| i.as_ref().iter().map(pk).collect())], d, o);
        // the borrowed slice view outlives the steps taken on the iterator
        {
            let mut it = rule.iter();
            let v = it.as_slice();
            it.next();
            if v.len() as u64 != n {
                o.fail(format!("{}: as_slice changed after next()", $name), $ctor);
            }
        }
    }};
}
macro_rules! nc_iters {
    ($rule:expr, $name:expr, $ctor:expr, $depth:expr, $o:expr) => {{
        let rule = &$rule;
        let o: &mut Obs = $o;
        let n = rule.degree().get() as u64;
        let id = |i: u64| ((i as f64).to_bits(), 0);
        subject(&format!("{}.iter()", $name), $ctor, n, &|| rule.iter(), |x| (x.to_bits(), 0), &id, vec![], $depth, o);
        subject(&format!("(&{}).into_iter()", $name), $ctor, n, &|| rule.into_iter(), |x| (x.to_bits(), 0), &id, vec![], $depth, o);
        subject(&format!("{}.into_iter()", $name), $ctor, n, &|| rule.clone().into_iter(), |x| (x.to_bits(), 0), &id, vec![], $depth, o);
    }};
}

fn gauss(f: Fam, n: usize, depth: usize, o: &mut Obs) {
    let (name, ctor) = (f.key(), f.ctor(n));
    let c = ctor.as_str();
    use chebyshev::*;
    use {hermite::*, jacobi::*, laguerre::*, legendre::*};
    match f {
        Fam::Legendre => gauss_iters!(GaussLegendre::new(nzu(n)), name, c, depth, o, GaussLegendreIter, GaussLegendreIntoIter),
        Fam::Hermite => gauss_iters!(GaussHermite::new(nzu(n)), name, c, depth, o, GaussHermiteIter, GaussHermiteIntoIter),
        Fam::Laguerre(a) => gauss_iters!(GaussLaguerre::new(nzu(n), par(a)), name, c, depth, o, GaussLaguerreIter, GaussLaguerreIntoIter),
        Fam::Jacobi(a, b) => gauss_iters!(GaussJacobi::new(nzu(n), par(a), par(b)), name, c, depth, o, GaussJacobiIter, GaussJacobiIntoIter),
        Fam::Cheb1 => gauss_iters!(GaussChebyshevFirstKind::new(nzu(n)), name, c, depth, o, GaussChebyshevFirstKindIter, GaussChebyshevFirstKindIntoIter),
        Fam::Cheb2 => gauss_iters!(GaussChebyshevSecondKind::new(nzu(n)), name, c, depth, o, GaussChebyshevSecondKindIter, GaussChebyshevSecondKindIntoIter),
    }
}
fn nc(k: Nc, n: u32, depth: usize, o: &mut Obs) {
    let ctor = k.ctor(n);
    let c = ctor.as_str();
    match k {
        Nc::Mid => nc_iters!(Midpoint::new(nz32(n)), k.key(), c, depth, o),
        Nc::Trap => nc_iters!(Trapezoid::new(nz32(n)), k.key(), c, depth, o),
        Nc::Simp => nc_iters!(Simpson::new(nz32(n)), k.key(), c, depth, o),
    }
}

pub fn c11(r: &Run) {
    let deep = r.pick(5, 6);
    let fams = fams_c07();
    let mut items: Vec<(Result<Fam, Nc>, usize)> = vec![];
    let mut ns: Vec<usize> = vec![1, 2, 3, 4, 5];
    ns.extend(r.pick(vec![6, 7, 8, 9, 12, 100, 101, 128], vec![6, 7, 8, 9, 12, 100, 101, 128, 300]));
    for n in ns {
        items.extend(fams.iter().map(|&f| (Ok(f), n)));
        items.extend(NCS.iter().map(|&k| (Err(k), n)));
    }
    for k in NCS {
        items.extend([65_535usize, 65_536, 65_537, 1_000_000, u32::MAX as usize].map(|n| (Err(k), n)));
    }
    if r.thorough {
        items.extend(laguerre_alphas(false).into_iter().map(|a| (Ok(Fam::Laguerre(a)), 4)));
    }
    r.rule(format!("every iterator (nodes, weights, iter, &rule, owning, cell indices) of every rule: breadth-first search over all reachable windows [front, back) with next/next_back/nth(k)/nth_back(k) for every k up to past the end and usize::MAX (complete for degrees <= 12, first 80-200 states above), 20 adaptor/consuming observations and slice views in every state; plus every sequence of {deep} operations (10 operations each) replayed on a fresh iterator without merging states for degrees <= 3"));
    r.cases(&items, |(f, n)| format!("{} n={n} iterators", match f { Ok(f) => f.key(), Err(k) => k.key().into() }), |(f, n), o| {
        let depth = if *n <= 3 { deep } else { 0 };
        match f {
            Ok(f) => gauss(*f, *n, depth, o),
            Err(k) => nc(*k, *n as u32, depth, o),
        }
    });
    // agreement of all views at many degrees
    let max = r.pick(600, 1500);
    let mut items: Vec<(Fam, usize)> = vec![];
    for &f in &fams {
        let lin = matches!(f, Fam::Legendre | Fam::Cheb1 | Fam::Cheb2);
        for n in 1..=(if lin { max } else { max.min(128) }) {
            items.push((f, n));
        }
        items.extend(if lin { vec![4095, 4096, 4097, 65_535, 65_536, 65_537, 1_000_003] } else { vec![255, 256, 257] }.into_iter().map(|n| (f, n)));
    }
    r.rule(format!("all views of a rule agree at every degree 1..={max} (128 for the eigenvalue rules)"));
    r.cases(&items, |(f, n)| format!("{} n={n} views", f.key()), |&(f, n), o| {
        let rule = f.build(n);
        let (x, w, p) = (rule.nodes(), rule.weights(), rule.pairs());
        o.eval();
        o.distinct(&(f.key(), n));
        if x.len() != n || w.len() != n || rule.degree() != n || !p.iter().zip(x.iter().zip(&w)).all(|(p, (x, w))| p.0.to_bits() == x.to_bits() && p.1.to_bits() == w.to_bits()) {
            o.fail(format!("{} degree {n}: nodes()/weights()/as_node_weight_pairs()/degree() disagree", f.key()), f.ctor(n));
        }
    });
}
