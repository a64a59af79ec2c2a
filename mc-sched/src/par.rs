//! C09 parallel integration, C10 parallel construction, C19 nested parallel integration.
use crate::{Book, Sys};
use mc_core::run::{Obs, Run};
use mc_ops::rules::*;
use mc_ops::{Answer, Any, F, Op, PLACES, R, Scenario, Spec};
use mc_rt::Config;
use serde_json::json;

const EPS: f64 = f64::EPSILON;

fn rules_of(n: usize) -> Vec<Spec> {
    let mut v: Vec<Spec> = [Fam::Legendre, Fam::Cheb1, Fam::Cheb2, Fam::Hermite, Fam::Laguerre(1.5), Fam::Jacobi(0.5, 1.5)].map(|f| Spec::G(f, n)).to_vec();
    v.extend(NCS.map(|k| Spec::N(k, n as u32)));
    v
}
fn cheap(s: &Spec) -> bool {
    matches!(s, Spec::N(..) | Spec::G(Fam::Legendre | Fam::Cheb1 | Fam::Cheb2, _))
}
fn one(shared: Spec, ops: Vec<Op>) -> Scenario {
    Scenario { shared: vec![shared], users: vec![ops] }
}
/// allowed difference of two integrals: when the integrand is called at the same points, and when the points differ
/// in the last places
fn tolerance(s: &Spec, a: f64, b: f64, f: F) -> [f64; 2] {
    let size = a.abs().max(b.abs());
    let (mut sum, mut move_, mut n) = (0.0, 0.0, 0.0);
    let mut add = |x: f64, w: f64, size: f64| {
        sum += (w * f.value(x)).abs();
        move_ += (w * f.slope(x)).abs() * 16.0 * EPS * x.abs().max(size);
        n += 1.0;
    };
    match s {
        Spec::G(fam, n) => {
            let (m, h) = if fam.finite() { (f64::midpoint(a, b), 0.5 * (b - a)) } else { (0.0, 1.0) };
            fam.build(*n).pairs().iter().for_each(|(x, w)| add(m + h * x, w * h, if fam.finite() { size } else { 0.0 }));
        }
        Spec::N(k, n) => {
            let h = (b - a) / *n as f64;
            k.samples(*n as u64).iter().for_each(|(x, w)| add(a + 0.5 * h * *x as f64, w * h, size));
        }
    }
    let round = (f64::min(n, 8.0 * n.sqrt()) + 32.0) * EPS * sum + 1e-300;
    [round, round + move_]
}
fn allowed(tol: [f64; 2], want: &[f64], got: &[f64]) -> f64 {
    tol[(want != got) as usize]
}
fn sorted(c: &[(u64, f64)]) -> Vec<f64> {
    let mut v: Vec<f64> = c.iter().map(|c| c.1).collect();
    v.sort_by(f64::total_cmp);
    v
}
fn same_points(want: &[f64], got: &[f64], size: f64) -> Result<(), String> {
    if want.len() != got.len() {
        return Err(format!("the integrand is called {} times, sequentially {}", got.len(), want.len()));
    }
    let tiny = (16.0 + 4.0 * want.len() as f64) * 5e-324;
    for (w, g) in want.iter().zip(got) {
        if !((w - g).abs() <= 8.0 * EPS * w.abs().max(size) + tiny) {
            return Err(format!("the integrand is called at {g:?}, sequentially at {w:?} (in sorted order)"));
        }
    }
    Ok(())
}
fn op<'a>(a: &'a Answer, u: usize, i: usize) -> Result<&'a [u64], String> {
    a.users[u].get(i).map(|v| &v[..]).ok_or_else(|| "an operation is missing".to_string())
}
fn value(w: &[u64]) -> Result<f64, String> {
    match w[0] {
        0 => Ok(f64::from_bits(w[1])),
        1 => Err("panics".into()),
        _ => Err("panics with a payload that is not the integrand's".into()),
    }
}
fn close(got: f64, want: f64, tol: f64) -> Result<(), String> {
    let same = if want.is_finite() { (got - want).abs() <= tol } else { got == want || got.is_nan() && want.is_nan() };
    if same { Ok(()) } else { Err(format!("par_integrate gives {got:?}, integrate {want:?} (allowed difference {tol:e})")) }
}

struct Item {
    what: &'static str,
    spec: Spec,
    a: f64,
    b: f64,
    f: F,
    par: u32,
    seq: u32,
    cfgs: Vec<Config>,
}
/// pools far larger than usual, at a few degrees below, around and above the number of threads
fn many_threads(n: usize, thorough: bool) -> Vec<Config> {
    let at: &[usize] = if thorough { &[1, 2, 3, 5, 17, 33, 63, 64, 65, 67, 99, 100, 127, 128, 129, 131, 200, 255, 256, 257, 700] } else { &[1, 2, 19, 67, 100, 131, 300] };
    let pools: &[u32] = if thorough { &[24, 33, 48, 65, 96, 100, 129, 257] } else { &[33, 100, 129] };
    if at.contains(&n) { pools.iter().map(|w| default_schedule(*w)).collect() } else { vec![] }
}
fn default_schedule(w: u32) -> Config {
    Config::new(w, 0, 0)
}

pub fn c09(r: &Run) {
    let mut b = Book::default();
    let mut items: Vec<Item> = vec![];
    let mut singles = vec![];
    let mut add = |what, spec: Spec, a: f64, bb: f64, f: F, after: bool, cfgs: Vec<Config>| {
        let (sh, ok) = (R::Shared(0), F::Smooth);
        let seq = b.add(one(spec, vec![Op::Int(sh, a, bb, if after { ok } else { f })]));
        let mut ops = vec![Op::Par(sh, a, bb, f)];
        if after {
            ops.extend([Op::Par(sh, a, bb, ok), Op::Int(sh, a, bb, ok)]);
        }
        let par = b.add(one(spec, ops));
        singles.push(seq);
        items.push(Item { what, spec, a, b: bb, f, par, seq, cfgs });
    };
    // A: many degrees, the default schedule (no job is taken by another worker), all pool sizes
    let pools = [1u32, 2, 3, 4, 5, 8, 16, 64];
    let top = r.pick(700, 2500);
    let mut degrees: Vec<usize> = (1..=top).collect();
    for k in [256usize, 512, 1000, 1024, 2048, 4096, 8192, 10_000, 65_536, 131_072] {
        degrees.extend([k - 1, k, k + 1]);
    }
    degrees.extend([20_011, 100_003, 200_003, 1_000_003]);
    degrees.sort();
    degrees.dedup();
    for &n in &degrees {
        for s in rules_of(n) {
            if !cheap(&s) && n > r.pick(100, 200) || (matches!(s, Spec::G(..)) && n > 200_003) {
                continue;
            }
            let few = n > 20_000 || n > 100 && n % 8 > 1;
            let mut cfgs: Vec<Config> = pools.iter().filter(|w| !few || [1, 3, 8].contains(*w)).map(|w| default_schedule(*w)).collect();
            cfgs.extend(many_threads(n, r.thorough));
            add("default schedule", s, -0.75, 2.5, if n % 2 == 0 { F::Smooth } else { F::Wild }, false, cfgs);
        }
    }
    // extreme bounds, special answers
    let bounds = [
        (0.0, 0.0), (2.5, 2.5), (1.0, -1.0), (-0.0, 1.0), (1e8, 1e8 + 1.0), (1e-300, 2e-300), (0.0, 1e-310), (5e-324, 1.0), (5e-324, 5e-324),
        (1.0, 1.0 + 4.0 * EPS), (-3e-8, 1e5), (-1e300, 1e300), (0.0, 1.6e308), (7e307, -8e307), (1e308, 1.25e308), (-1.6e308, -1e308), (1.5e308, 1.5e308),
    ];
    for n in (1..=r.pick(5, 40)).chain([9usize, 33, 128]) {
        for s in rules_of(n) {
            if !cheap(&s) && n > 101 {
                continue;
            }
            let cfgs: Vec<Config> = vec![default_schedule(1), default_schedule(3), Config::new(2, 0, if n <= 9 { r.pick(1, 3) } else { 0 })];
            if !matches!(s, Spec::G(Fam::Hermite | Fam::Laguerre(_), _)) {
                for (a, bb) in bounds {
                    add("extreme bounds", s, a, bb, F::Bounded, false, cfgs.clone());
                }
            }
            for f in [F::Special(f64::NAN), F::Special(f64::INFINITY), F::Special(f64::NEG_INFINITY), F::Special(0.0), F::Special(-0.0), F::TwoInfinities] {
                for (a, bb) in [(-0.75, 2.5), (2.5, -0.75)] {
                    add("special answers", s, a, bb, f, false, cfgs.clone());
                }
            }
        }
    }
    // B: every schedule
    for n in 1..=r.pick(6, 9) {
        for s in rules_of(n) {
            let mut cfgs = vec![];
            for w in 1..=r.pick(3, 5) {
                let big = n > 5;
                cfgs.push(Config::new(w, 0, r.pick(if big { 3 } else { 99 }, if n > 7 { 4 } else { 99 })));
                if w > 1 {
                    cfgs.push(Config::new(w, 1, r.pick(2, 3)));
                    if n <= r.pick(3, 5) {
                        cfgs.push(Config::new(w, 2, 2));
                    }
                }
            }
            for (a, bb) in [(-0.75, 2.5), (3.0, 1.0)] {
                add("all schedules", s, a, bb, F::Wild, false, cfgs.clone());
            }
        }
    }
    for n in [17usize, 64, 130] {
        for s in rules_of(n) {
            let cfgs = [2u32, 3, 8].iter().map(|&w| Config::new(w, 0, r.pick(1, 2))).collect();
            add("all schedules with few steals", s, -0.75, 2.5, F::Wild, false, cfgs);
        }
    }
    // large rules: steals and one preemption at a few integrand calls, at atomic operations and between jobs
    for n in [300usize, 1000, 1025, 2049, 3500, 5000, 8193, 10_001, 20_000, 40_000, 66_000] {
        for s in rules_of(n) {
            if !cheap(&s) || (matches!(s, Spec::G(..)) && n > 10_001) || (!r.thorough && n > 10_001 && n != 66_000) {
                continue;
            }
            let few = (2 * n / r.pick(5, 12)) as u32;
            let mut cfgs = vec![Config::new(2, 1, 1).sparse(few), Config::new(3, 0, 1).sparse(few)];
            if r.thorough {
                cfgs.extend([Config::new(2, 1, 2).sparse(few), Config::new(4, 1, 1).sparse(few), Config::new(16, 0, 1).sparse(few)]);
            }
            add("large", s, -0.75, 2.5, F::Smooth, false, cfgs);
        }
    }
    // C: panics
    for n in 1..=r.pick(4, 6) {
        for s in rules_of(n) {
            let count = match s {
                Spec::N(Nc::Trap, n) => n as usize + 1,
                Spec::N(Nc::Simp, n) => 2 * n as usize + 1,
                _ => n,
            };
            let mut fs: Vec<F> = (0..count).map(F::PanicNth).collect();
            fs.extend([F::PanicAbove(0.5), F::PanicBelow(0.5), F::PanicAbove(-1e9)]);
            let cfgs: Vec<Config> = vec![
                default_schedule(1),
                Config::new(2, 1, 2),
                Config::new(3, 0, r.pick(3, 5)),
            ];
            for f in fs {
                add("panic", s, -0.75, 2.5, f, true, cfgs.clone());
            }
        }
    }
    // called from a thread of the pool, which may have other things to do
    for n in (1..=r.pick(4usize, 6)).chain([9, 33, 128, 300]) {
        for s in rules_of(n) {
            if !cheap(&s) && n > 33 {
                continue;
            }
            for place in PLACES {
                let mut cfgs = vec![default_schedule(1), default_schedule(4), Config::new(2, 0, if n < 4 { 4 } else { r.pick(1, 2) })];
                if n < 5 {
                    cfgs.extend([Config::new(3, 0, r.pick(2, 3)), Config::new(2, 1, r.pick(1, 2))]);
                }
                let (sh, f) = (R::Shared(0), F::Wild);
                let seq = b.add(one(s, vec![Op::Int(sh, -0.75, 2.5, f)]));
                let par = b.add(one(s, vec![Op::ParAt(place, sh, -0.75, 2.5, f)]));
                singles.push(seq);
                items.push(Item { what: "inside the pool", spec: s, a: -0.75, b: 2.5, f, par, seq, cfgs });
            }
        }
    }
    // D: two threads integrate with one rule at the same time
    let mut duo = vec![];
    for n in 1..=r.pick(3usize, 4) {
        for s in rules_of(n) {
            let o = Op::Par(R::Shared(0), -0.75, 2.5, F::Wild);
            duo.push((s, b.add(Scenario { shared: vec![s], users: vec![vec![o], vec![o]] }), b.add(one(s, vec![Op::Int(R::Shared(0), -0.75, 2.5, F::Wild)]))));
        }
    }
    singles.extend(duo.iter().map(|d| d.2));
    r.rule(format!("all nine rules; (A) degrees 1..={top} and around powers of two and powers of ten up to a million with pools of 1..64 (at a few degrees up to 129 or 257) threads under the default schedule; 17 extreme pairs of bounds (equal, reversed, subnormal, as large as doubles get) and NaN, infinite and zero answers on half lines at small degrees; (B) degrees 1..={} under every schedule (which worker takes which pending job, which thread continues at every integrand call) within the preemption and steal budgets listed per case, pools of 1..={}; degrees 17, 64, 130 with every placement of few steals; large rules up to 66 000 cells with every placement of a steal and of a preemption at a few integrand calls, atomic operations and job boundaries; (C) every single panicking call and panicking half lines, then the same rule again; (D) two threads integrating with one rule at once; (E) integrations from inside the pool (either side of a join, a scope, another pool, an item of a parallel iterator, a broadcast). A case is one rule, bounds and integrand; a trace is one schedule run on the real code in a process of its own", r.pick(6, 9), r.pick(3, 5)));
    let sys = Sys::open(b, &singles);
    let cap = r.pick(4_000, 150_000);
    r.cases(&items, |i| format!("{} {} [{:?}, {:?}] {:?}", i.what, i.spec.ctor(), i.a, i.b, i.f), |it, o| {
        let base = match sys.baseline(it.seq) {
            Ok(b) => b,
            Err(e) => return o.fail(format!("integrate {e}"), it.spec.ctor()),
        };
        let size = it.a.abs().max(it.b.abs());
        let finite = !matches!(it.spec, Spec::G(Fam::Hermite | Fam::Laguerre(_), _));
        let size = if finite { size } else { 0.0 };
        let after = it.what == "panic";
        let f = if after { F::Smooth } else { it.f };
        let tol = tolerance(&it.spec, it.a, it.b, f);
        let want_points = sorted(&base.calls);
        for cfg in &it.cfgs {
            o.distinct(&(cfg.workers, cfg.preemptions, cfg.steals, cfg.sparse));
            let ok = sys.all(it.par, *cfg, cap, o, |a| {
                let want = value(op(base, 0, 0)?)?;
                let n = want_points.len();
                if !after {
                    let got = sorted(&a.calls);
                    close(value(op(a, 0, 0)?)?, want, allowed(tol, &want_points, &got))?;
                    return same_points(&want_points, &got, size);
                }
                match op(a, 0, 0)?[0] {
                    1 => {}
                    // a half line without any point of this rule
                    0 if !want_points.iter().any(|&x| it.f.stops_at(x)) => {}
                    0 => return Err("the panic of the integrand does not reach the caller".into()),
                    _ => return Err("the caller gets a panic that is not the integrand's".into()),
                }
                let m = a.calls.len();
                if m < 2 * n || m > 3 * n {
                    return Err(format!("{m} integrand calls for a panicking and two complete integrations with {n} points"));
                }
                for i in [1, 2] {
                    let got = sorted(&a.calls[m - (3 - i) * n..m - (2 - i) * n]);
                    let tol = allowed(tol, &want_points, &got);
                    close(value(op(a, 0, i)?).map_err(|e| format!("after the panic {e}"))?, want, tol).map_err(|e| format!("after the panic: {e}"))?;
                }
                same_points(&want_points, &sorted(&a.calls[m - n..]), size)?;
                same_points(&want_points, &sorted(&a.calls[m - 2 * n..m - n]), size)?;
                let first = sorted(&a.calls[..m - 2 * n]);
                if first.len() > n || first.windows(2).any(|w| w[0] == w[1]) {
                    return Err("a point is sampled twice in the panicking integration".into());
                }
                Ok(())
            });
            if !ok {
                return;
            }
        }
        o.sample(json!({"rule": it.spec.ctor(), "bounds": [it.a, it.b], "kind": it.what, "schedules": o.traces}));
    });
    r.cases(&duo, |d| format!("two threads, {}", d.0.ctor()), |d, o| {
        let Ok(base) = sys.baseline(d.2) else { return o.fail("integrate fails", d.0.ctor()) };
        let tol = tolerance(&d.0, -0.75, 2.5, F::Wild);
        let mut twice = sorted(&base.calls);
        twice.extend(sorted(&base.calls));
        twice.sort_by(f64::total_cmp);
        for (w, p, s) in [(1, 1, 1), (2, 1, 1), (2, 0, 4), (3, r.pick(0, 1), 2)] {
            o.distinct(&(w, p, s));
            let cfg = Config::new(w, p, s);
            let ok = sys.all(d.1, cfg, cap, o, |a| {
                let want = value(op(base, 0, 0)?)?;
                let got = sorted(&a.calls);
                let tol = allowed(tol, &twice, &got);
                close(value(op(a, 0, 0)?)?, want, tol)?;
                close(value(op(a, 1, 0)?)?, want, tol)?;
                same_points(&twice, &got, 2.5)
            });
            if !ok {
                return;
            }
        }
    });
}

pub fn c10(r: &Run) {
    let mut b = Book::default();
    let fams = [Fam::Legendre, Fam::Cheb1, Fam::Cheb2];
    let top = r.pick(1500, 4000);
    let mut degrees: Vec<usize> = (1..=top).collect();
    for k in [512usize, 1000, 1024, 2048, 4096, 8192, 10_000, 20_000, 65_536, 100_000, 131_072, 200_000] {
        degrees.extend([k - 1, k, k + 1]);
    }
    degrees.sort();
    degrees.dedup();
    let large = [128usize, 150, 200, 256, 300, 511, 1000, 1024, 2049, 4095, 4096, 10_001, 65_536];
    let mut items = vec![];
    for &n in &degrees {
        for f in fams {
            let s = Spec::G(f, n);
            let (p, q) = (b.add(one(s, vec![Op::ParNew(s)])), b.add(one(s, vec![Op::New(s)])));
            let mut cfgs: Vec<Config> = [1u32, 2, 3, 4, 5, 8, 16, 64].iter().filter(|w| n <= 300 || [1, 3, 8].contains(*w)).map(|w| default_schedule(*w)).collect();
            cfgs.extend(many_threads(n, r.thorough));
            let small = n <= r.pick(8, 12) || (n > 100 && n <= r.pick(103, 106));
            if small {
                for w in 2..=r.pick(3, 4) {
                    cfgs.push(Config::new(w, 0, if n <= r.pick(4, 6) { 99 } else { r.pick(2, 3) }));
                    cfgs.push(Config::new(w, 1, r.pick(if n <= 5 { 2 } else { 1 }, 2)));
                }
                cfgs.push(Config::new(2, 2, r.pick(if n <= 5 { 2 } else { 1 }, 2)));
                cfgs.push(Config::new(8, 1, 1));
            } else if n <= r.pick(60, 250) || large.contains(&n) {
                cfgs.push(Config::new(2, 1, 1));
                cfgs.push(Config::new(3, 0, r.pick(1, 2)));
                if r.thorough || large.contains(&n) {
                    cfgs.push(Config::new(8, 0, 1));
                }
            }
            items.push((s, p, q, cfgs));
        }
    }
    // called from a thread of the pool
    for n in [1usize, 2, 3, 5, 8, 64, 100, 101, 102, 130, 300] {
        for f in fams {
            for place in PLACES {
                let s = Spec::G(f, n);
                let mut cfgs = vec![default_schedule(1), default_schedule(4)];
                cfgs.push(Config::new(2, 0, if n < 4 { 4 } else { r.pick(1, 2) }));
                if n < 6 {
                    cfgs.push(Config::new(3, 0, r.pick(2, 3)));
                }
                items.push((s, b.add(one(s, vec![Op::ParNewAt(place, s)])), b.add(one(s, vec![Op::New(s)])), cfgs));
            }
        }
    }
    // two threads construct at the same time
    let mut duo = vec![];
    for n in [1usize, 2, 3, 5, 101] {
        for f in fams {
            for g in fams {
                let (s, t) = (Spec::G(f, n), Spec::G(g, n));
                duo.push(([s, t], b.add(Scenario { shared: vec![], users: vec![vec![Op::ParNew(s)], vec![Op::ParNew(t)]] }), [b.add(one(s, vec![Op::New(s)])), b.add(one(t, vec![Op::New(t)]))]));
            }
        }
    }
    let singles: Vec<u32> = items.iter().map(|i| i.2).chain(duo.iter().flat_map(|d| d.2)).collect();
    r.rule(format!("the three parallel constructors; degrees 1..={top} and around powers of two and powers of ten up to a million with pools of 1..64 (at a few degrees up to 129 or 257) threads under the default schedule; small degrees on both sides of the table limit under every schedule within the listed budgets, further degrees with every placement of few steals; pairs of simultaneous parallel constructions; constructions from inside the pool (either side of a join, a scope, another pool, an item of a parallel iterator, a broadcast). A trace is one schedule run on the real code in a process of its own"));
    let sys = Sys::open(b, &singles);
    let cap = r.pick(4_000, 150_000);
    let same = |spec: &Spec, want: &[u64], got: &[u64]| -> Result<(), String> {
        if want.len() != got.len() || want.last() != got.last() {
            return Err(format!("{} pairs instead of {}", got.len() / 2, want.len() / 2));
        }
        let Spec::G(_, n) = spec else { unreachable!() };
        let top = 8.0 * EPS;
        for i in 0..*n {
            let (x, w) = (f64::from_bits(want[2 * i]), f64::from_bits(want[2 * i + 1]));
            let (y, v) = (f64::from_bits(got[2 * i]), f64::from_bits(got[2 * i + 1]));
            if !((x - y).abs() <= top * x.abs() + 2.0 * EPS && (w - v).abs() <= 64.0 * EPS * w.abs()) {
                return Err(format!("pair {i} is ({y:?}, {v:?}), built sequentially it is ({x:?}, {w:?})"));
            }
        }
        Ok(())
    };
    r.cases(&items, |i| format!("par_new {}", i.0.ctor()), |(s, p, q, cfgs), o| {
        let base = match sys.baseline(*q) {
            Ok(b) => b,
            Err(e) => return o.fail(format!("new {e}"), s.ctor()),
        };
        let mut first: Option<Vec<u64>> = None;
        for cfg in cfgs {
            o.distinct(&(cfg.workers, cfg.preemptions, cfg.steals, cfg.sparse));
            let ok = sys.all(*p, *cfg, cap, o, |a| {
                let (want, got) = (op(base, 0, 0)?, op(a, 0, 0)?);
                same(s, want, got)?;
                match &first {
                    None => first = Some(got.to_vec()),
                    Some(f) if f == got => {}
                    Some(_) => return Err("differs from the rule built in parallel under another schedule".into()),
                }
                Ok(())
            });
            if !ok {
                return;
            }
        }
        o.sample(json!({"rule": s.ctor(), "schedules": o.traces}));
    });
    r.cases(&duo, |d| format!("par_new {} and {} at once", d.0[0].ctor(), d.0[1].ctor()), |d, o| {
        let big = matches!(d.0[0], Spec::G(_, 101));
        for (w, p, s) in [(1, 1, 1), (2, 1, r.pick(1, if big { 1 } else { 3 })), (3, 0, r.pick(if big { 1 } else { 2 }, if big { 2 } else { 4 }))] {
            o.distinct(&(w, p, s));
            let cfg = Config::new(w, p, s);
            let ok = sys.all(d.1, cfg, cap, o, |a| {
                for i in 0..2 {
                    let base = sys.baseline(d.2[i]).as_ref().map_err(|e| e.clone())?;
                    same(&d.0[i], op(base, 0, 0)?, op(a, i, 0)?)?;
                }
                Ok(())
            });
            if !ok {
                return;
            }
        }
    });
}

pub fn c19(r: &Run) {
    let mut b = Book::default();
    let mut items = vec![];
    let mut singles = vec![];
    for (n, m) in if r.thorough { vec![(1usize, 2usize), (2, 1), (2, 2), (3, 1), (1, 3), (3, 2), (4, 2)] } else { vec![(1, 2), (2, 1), (2, 2), (3, 1), (4, 2)] } {
        for s in rules_of(n) {
            for t in rules_of(m) {
                // a thread waiting in one piece of the outer rule takes another one only if the outer rule has three of
                // them, the inner two, and both are parallel
                if n + m >= 6 && !(r.thorough || cheap(&s) && cheap(&t)) {
                    continue;
                }
                for (po, pi) in [(true, false), (false, true), (true, true)] {
                    if n + m >= 6 && !(po && pi) {
                        continue;
                    }
                    for same in [false, true] {
                        if same && s != t {
                            continue;
                        }
                        let inner = if same { R::Shared(0) } else { R::Shared(1) };
                        let shared = if same { vec![s] } else { vec![s, t] };
                        let p = b.add(Scenario { shared: shared.clone(), users: vec![vec![Op::Nest(R::Shared(0), po, inner, pi)]] });
                        let q = b.add(Scenario { shared, users: vec![vec![Op::Nest(R::Shared(0), false, inner, false)]] });
                        singles.push(q);
                        items.push((s, t, po, pi, p, q));
                    }
                }
            }
        }
    }
    r.rule(format!("{} nestings of two rules with parallel integration at the outer, the inner or both levels, every schedule within the budgets, compared with the sequential nesting", items.len()));
    let sys = Sys::open(b, &singles);
    let cap = r.pick(600, 20_000);
    r.cases(&items, |i| format!("{}{} around {}{}", i.0.ctor(), if i.2 { " par" } else { "" }, i.1.ctor(), if i.3 { " par" } else { "" }), |i, o: &mut Obs| {
        let base = match sys.baseline(i.5) {
            Ok(b) => b,
            Err(e) => return o.fail(format!("sequential nesting {e}"), ""),
        };
        for (w, p, s) in [(1, 0, 0), (2, 0, r.pick(4, 99)), (2, 1, 2), (3, 0, r.pick(3, 4)), (4, 0, 1), (2, 2, 1)] {
            o.distinct(&(w, p, s));
            let ok = sys.all(i.4, Config::new(w, p, s), cap, o, |a| {
                let (want, got) = (value(op(base, 0, 0)?)?, value(op(a, 0, 0)?)?);
                let n = base.calls.len();
                if !((got - want).abs() <= 1e-13 * (want.abs() + 40.0)) {
                    return Err(format!("nested integral {got:?}, sequentially {want:?}"));
                }
                if a.calls.len() != n {
                    return Err(format!("the innermost integrand is called {} times instead of {n}", a.calls.len()));
                }
                same_points(&sorted(&base.calls), &sorted(&a.calls), 8.0)
            });
            if !ok {
                return;
            }
        }
        o.sample(json!({"outer": i.0.ctor(), "inner": i.1.ctor(), "parallel": [i.2, i.3], "schedules": o.traces}));
    });
    let _ = Any::new;
}
