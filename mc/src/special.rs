//! C16: Jacobi special cases, conversions, reported parameters, mirror symmetry, continuity.
use crate::exact::EPS;
use crate::grid;
use crate::rules::*;
use gauss_quad::*;
use mc_core::run::{Obs, Run};
use serde_json::json;

type Pairs = [(f64, f64)];

fn same(p: &Pairs, q: &Pairs) -> Option<String> {
    if p.len() != q.len() {
        return Some(format!("{} pairs instead of {}", p.len(), q.len()));
    }
    p.iter().zip(q).position(|(a, b)| a != b).map(|i| format!("pair {i} is {:?} instead of {:?}", p[i], q[i]))
}
/// nodes within `dx`, weights within `dw` of each other
fn close(p: &Pairs, q: &Pairs, dx: f64, dw: f64) -> Option<String> {
    if p.len() != q.len() {
        return Some(format!("{} pairs instead of {}", p.len(), q.len()));
    }
    p.iter()
        .zip(q)
        .position(|(a, b)| !((a.0 - b.0).abs() <= dx) || !((a.1 - b.1).abs() <= dw))
        .map(|i| format!("pair {i} is {:?} but should be within {dx:.1e} / {dw:.1e} of {:?}", p[i], q[i]))
}
fn jac(n: usize, a: f64, b: f64) -> GaussJacobi {
    GaussJacobi::new(nzu(n), par(a), par(b))
}
/// the rule reports the parameters it was given (0.0 and -0.0 are the same parameter)
fn reports(n: usize, a: f64, b: f64, r: &GaussJacobi, o: &mut Obs) {
    for (name, want, got) in [("alpha", a, r.alpha().get()), ("beta", b, r.beta().get())] {
        if want != got {
            o.fail(format!("GaussJacobi({a:?}, {b:?}) of degree {n} reports {name} = {got:?}"), Fam::Jacobi(a, b).ctor(n));
        }
    }
}
const SPECIAL: [(f64, Fam); 3] = [(0.0, Fam::Legendre), (-0.5, Fam::Cheb1), (0.5, Fam::Cheb2)];

pub fn c16(r: &Run) {
    let max = r.pick(6000, 15_000);
    let mut items: Vec<(usize, usize)> = vec![];
    for n in (1..=max).rev().chain([65_536, 200_001]) {
        for k in 0..3 {
            items.push((k, n));
        }
    }
    r.rule(format!("three special parameter pairs at every degree 1..={max}: same pairs as the dedicated rule (also through From, clone, signed zeros), same integrals, parameters reported"));
    r.cases(&items, |(k, n)| format!("{} n={n} delegation", SPECIAL[*k].1.key()), |&(k, n), o| {
        let (s, fam) = SPECIAL[k];
        let ded = fam.build(n);
        let z = nzu(n);
        let conv: GaussJacobi = match fam {
            Fam::Legendre => GaussLegendre::new(z).into(),
            Fam::Cheb1 => GaussChebyshevFirstKind::new(z).into(),
            _ => GaussChebyshevSecondKind::new(z).into(),
        };
        o.distinct(&(k, n));
        let signs: &[(f64, f64)] = if s == 0.0 { &[(0.0, 0.0), (-0.0, 0.0), (0.0, -0.0), (-0.0, -0.0)] } else { &[(s, s)] };
        for (a, b) in signs {
            let j = jac(n, *a, *b);
            o.eval();
            if let Some(e) = same(j.as_node_weight_pairs(), ded.pairs()) {
                return o.fail(format!("GaussJacobi({a:?}, {b:?}) of degree {n} is not the {} rule: {e}", fam.key()), Fam::Jacobi(*a, *b).ctor(n));
            }
            reports(n, *a, *b, &j, o);
            if j != conv || j.clone() != j {
                return o.fail(format!("GaussJacobi({a:?}, {b:?}) of degree {n} does not equal the converted {} rule", fam.key()), Fam::Jacobi(*a, *b).ctor(n));
            }
            if n <= 400 {
                for (x, y) in [(-1.0, 1.0), (2.0, 5.0)] {
                    let f = |x: f64| 1.0 + 0.3 * x + 1.0 / (2.0 + x * x);
                    let (u, v) = (j.integrate(x, y, f), ded.integrate(x, y, &mut |x| f(x)));
                    if !((u - v).abs() <= (n as f64 + 10.0) * EPS * 40.0) {
                        return o.fail(format!("GaussJacobi({a:?}, {b:?}) of degree {n} integrates to {u:?}, {} to {v:?}", fam.key()), Fam::Jacobi(*a, *b).ctor(n));
                    }
                }
            }
        }
        reports(n, s, s, &conv, o);
        if let Some(e) = same(conv.as_node_weight_pairs(), ded.pairs()) {
            o.fail(format!("GaussJacobi::from({}) of degree {n}: {e}", fam.key()), fam.ctor(n));
        }
        if n == 3 {
            o.sample(json!({"dedicated": fam.key(), "degree": n, "pairs": format!("{:?}", ded.pairs())}));
        }
    });

    // parameters around the special values
    let axis: Vec<f64> = {
        let mut v = vec![];
        for s in [0.0f64, -0.5, 0.5] {
            v.push(s);
            let (mut u, mut d) = (s, s);
            for _ in 0..r.pick(4, 6) {
                u = grid::up(u);
                d = grid::down(d);
                v.extend([u, d]);
            }
            for e in [1e-18, 1e-16, 1e-15, 1e-14, 1e-12, 1e-9, 1e-6] {
                v.extend([s + e, s - e]);
            }
        }
        v.extend([1.0, 2.0, -0.75, 0.25, -0.25, 3.5]);
        v.sort_by(f64::total_cmp);
        v.dedup_by(|a, b| a.to_bits() == b.to_bits());
        v
    };
    let mut items: Vec<(f64, f64)> = vec![];
    for &a in &axis {
        items.extend(axis.iter().map(|&b| (a, b)));
    }
    let degs: Vec<usize> = (1..=r.pick(24, 40)).chain(r.pick(vec![31, 32, 63, 64, 101], vec![63, 64, 65, 100, 101, 128, 201])).collect();
    r.rule(format!("every ordered pair of {} parameters (special values, their floating-point neighbours, offsets down to 1e-18) at {} degrees: reported parameters, mirror image, and distance to the dedicated rule when both are within 1e-6 of a special pair", axis.len(), degs.len()));
    r.cases(&items, |(a, b)| format!("neighbours alpha={a:?} beta={b:?}"), |&(a, b), o| {
        for &n in &degs {
            let j = jac(n, a, b);
            let m = jac(n, b, a);
            o.eval();
            reports(n, a, b, &j, o);
            let p = j.as_node_weight_pairs();
            let total: f64 = p.iter().map(|p| p.1).sum();
            let mut mir: Vec<(f64, f64)> = m.as_node_weight_pairs().iter().map(|p| (-p.0, p.1)).collect();
            mir.reverse();
            if let Some(e) = close(p, &mir, 1e-12, 1e-10 * total) {
                return o.fail(format!("GaussJacobi({a:?}, {b:?}) of degree {n} is not the mirror image of ({b:?}, {a:?}): {e}"), Fam::Jacobi(a, b).ctor(n));
            }
            for (s, fam) in SPECIAL {
                let d = (a - s).abs().max((b - s).abs());
                if d <= 2e-6 {
                    let ded = fam.build(n);
                    let n = n as f64;
                    if let Some(e) = close(p, ded.pairs(), 4.0 * d + 1e-13, (8.0 + 4.0 * n.ln()) * d + 1e-12) {
                        return o.fail(format!("GaussJacobi({a:?}, {b:?}) of degree {n} is {d:.1e} away from {} in its parameters, but {e}", fam.key()), Fam::Jacobi(a, b).ctor(n as usize));
                    }
                    o.count("near_special", 1);
                }
            }
            o.distinct(&n);
        }
    });
    // the parameters of all kinds are reported bit for bit
    let mut ps: Vec<f64> = (0..4096u64).map(|e| f64::from_bits(e << 52 | 0x5_a5a5_a5a5_a5a5)).chain([-0.0, f64::MAX, grid::up(-1.0), 5e-324]).filter(|v| *v > -1.0 && v.is_finite()).collect();
    ps.sort_by(f64::total_cmp);
    r.rule(format!("alpha() and beta() of GaussLaguerre and GaussJacobi over {} sign/exponent patterns, degrees 1 and 2", ps.len()));
    r.cases(&ps, |v| format!("reported parameter {v:?}"), |&v, o| {
        for n in 1..=2 {
            let l = GaussLaguerre::new(nzu(n), par(v));
            o.eval();
            if l.alpha().get().to_bits() != v.to_bits() {
                o.fail(format!("GaussLaguerre({v:?}) reports alpha = {:?}", l.alpha().get()), Fam::Laguerre(v).ctor(n));
            }
            for w in [0.25, 1.0] {
                for (a, b) in [(v, w), (w, v)] {
                    if (a == 0.0 && b == 0.0) || !grid::jacobi_mu0_ok(a, b) {
                        continue;
                    }
                    let j = jac(n, a, b);
                    if j.alpha().get().to_bits() != a.to_bits() || j.beta().get().to_bits() != b.to_bits() {
                        o.fail(format!("GaussJacobi({a:?}, {b:?}) reports ({:?}, {:?})", j.alpha().get(), j.beta().get()), Fam::Jacobi(a, b).ctor(n));
                    }
                }
            }
        }
        o.distinct(&v.to_bits());
    });
    // Mirror image over a lattice
    let steps = r.pick(60, 160);
    let ax: Vec<f64> = (0..steps).map(|i| -1.0 + (i as f64 + 1.0) * 5.0 / steps as f64).chain([10.0, 30.0, 1e-3 - 1.0]).collect();
    r.rule(format!("mirror symmetry over a {0} x {0} lattice of parameters in (-1, 4] and beyond, degrees 1..=8", ax.len()));
    r.cases(&ax, |a| format!("mirror lattice {a:?}"), |&a, o| {
        for &b in &ax {
            for n in 1..=8 {
                o.eval();
                let (j, m) = (jac(n, a, b), jac(n, b, a));
                let mut mir: Vec<(f64, f64)> = m.as_node_weight_pairs().iter().map(|p| (-p.0, p.1)).collect();
                mir.reverse();
                let total: f64 = mir.iter().map(|p| p.1).sum();
                if let Some(e) = close(j.as_node_weight_pairs(), &mir, 1e-12, 1e-10 * total) {
                    return o.fail(format!("GaussJacobi({a:?}, {b:?}) of degree {n} is not the mirror image of ({b:?}, {a:?}): {e}"), Fam::Jacobi(a, b).ctor(n));
                }
                reports(n, a, b, &j, o);
            }
        }
        o.distinct(&a.to_bits());
    });
    // Laguerre is continuous in alpha
    let mut items = vec![];
    for s in [0.0f64, -0.5, 0.5, 1.0, 2.0, 5.0] {
        for d in [0.0, 1e-16, 1e-15, 1e-12, 1e-9, 1e-6] {
            for sg in [1.0, -1.0] {
                items.push((s, s + sg * d));
            }
        }
    }
    r.rule("GaussLaguerre is continuous in alpha around special values, degrees 1..=24");
    r.cases(&items, |(s, a)| format!("Laguerre continuity {s:?} {a:?} {:x}", a.to_bits()), |&(s, a), o| {
        for n in 1..=24 {
            let (p, q) = (GaussLaguerre::new(nzu(n), par(s)), GaussLaguerre::new(nzu(n), par(a)));
            let d = (a - s).abs();
            let top = p.nodes().last().copied().unwrap_or(1.0).max(1.0);
            let total: f64 = p.weights().sum();
            o.eval();
            if let Some(e) = close(q.as_node_weight_pairs(), p.as_node_weight_pairs(), 8.0 * d + 1e-13 * top, (20.0 * d + 1e-11) * total) {
                return o.fail(format!("GaussLaguerre({a:?}) of degree {n} against ({s:?}): {e}"), Fam::Laguerre(a).ctor(n));
            }
        }
        o.distinct(&a.to_bits());
    });
}
