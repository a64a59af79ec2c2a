//! C15, long gaps: an operation, any number k of small different ones, then the operation again (or its neighbour), for
//! every k up to some hundreds and around the powers of two at which a counter of 8 to 16 bits comes around.
use crate::laws::{Any, Spec};
use crate::rules::*;
use gauss_quad::*;
use mc_core::run::{Obs, Run};
use serde_json::json;

#[derive(Clone, Copy, Debug)]
enum Act {
    Build(Fam, usize),
    Int(Spec, f64, f64),
    Pow(f64, f64),
}
fn g(x: f64) -> f64 {
    1.0 / (1.25 + x * x) + 0.5 * x
}
fn run(a: Act) -> Vec<u64> {
    match a {
        Act::Build(f, n) => f.build(n).pairs().iter().flat_map(|p| [p.0.to_bits(), p.1.to_bits()]).collect(),
        Act::Int(s, a, b) => {
            let mut v = vec![];
            let r = Any::new(&s).integrate(a, b, &mut |x| {
                v.push(x.to_bits());
                g(x)
            });
            v.push(r.to_bits());
            v
        }
        Act::Pow(a, b) => vec![par(a).checked_pow(b).map_or(0, |p| p.get().to_bits())],
    }
}
/// the i-th small operation of a kind: one call, so that the k-th is the k-th of whatever counts calls
fn small(kind: usize, i: usize) {
    let x = (i % 509) as f64 / 64.0;
    let n = kind % 2 + 1;
    let c = nz32(n as u32);
    let _ = std::hint::black_box(match kind / 2 {
        0 => GaussLaguerre::new(nzu(n), par(x)).degree() as f64,
        1 => GaussJacobi::new(nzu(n), par(x), par(0.25 + x / 2.0)).degree() as f64,
        2 => GaussHermite::new(nzu(n)).degree() as f64,
        3 => GaussLegendre::new(nzu(n)).integrate(x, 9.0, g),
        4 => GaussChebyshevFirstKind::new(nzu(n)).integrate(x, 9.0, g),
        5 => GaussChebyshevSecondKind::new(nzu(n)).integrate(x, 9.0, g),
        6 => Midpoint::new(c).integrate(x, 9.0, g),
        7 => Trapezoid::new(c).integrate(x, 9.0, g),
        8 => Simpson::new(c).integrate(x, 9.0, g),
        _ => par(x).checked_pow(0.5).map_or(0.0, |p| p.get()),
    });
}
const KINDS: usize = 19;
fn kind_of(s: &Spec) -> usize {
    match s {
        Spec::G(Fam::Laguerre(_), _) => 0,
        Spec::G(Fam::Jacobi(..), _) => 1,
        Spec::G(Fam::Hermite, _) => 2,
        Spec::G(Fam::Legendre, _) => 3,
        Spec::G(Fam::Cheb1, _) => 4,
        Spec::G(Fam::Cheb2, _) => 5,
        Spec::N(Nc::Mid, _) => 6,
        Spec::N(Nc::Trap, _) => 7,
        Spec::N(Nc::Simp, _) => 8,
    }
}

pub fn gaps(r: &Run) {
    let mut acts: Vec<[Act; 2]> = vec![];
    let two = |v: &mut Vec<[Act; 2]>, a: Act, b: Act| v.extend([[a, a], [a, b], [b, a]]);
    for n in [4usize, 12] {
        let fams = [(Fam::Legendre, Fam::Legendre), (Fam::Hermite, Fam::Hermite), (Fam::Cheb1, Fam::Cheb2), (Fam::Laguerre(0.75), Fam::Laguerre(2.5)), (Fam::Jacobi(0.75, 2.5), Fam::Jacobi(2.5, 0.75)), (Fam::Jacobi(0.75, 2.5), Fam::Jacobi(0.75, 1.5))];
        for (f, h) in fams {
            two(&mut acts, Act::Build(f, n), Act::Build(h, if f == h { n + 1 } else { n }));
            two(&mut acts, Act::Int(Spec::G(f, n), -1.0, 2.0), Act::Int(Spec::G(h, n), -1.0, 3.0));
        }
        for k in NCS {
            two(&mut acts, Act::Int(Spec::N(k, n as u32), -1.0, 2.0), Act::Int(Spec::N(k, n as u32), -1.0, 3.0));
        }
    }
    two(&mut acts, Act::Pow(2.0, 0.5), Act::Pow(3.0, 0.5));
    let mut gaps: Vec<usize> = (0..=r.pick(520, 1100)).collect();
    for p in r.pick(vec![10, 12, 15, 16], vec![11, 12, 13, 14, 15, 16, 17]) {
        gaps.extend((1 << p) - 2..=(1 << p) + 2);
    }
    let mut items = vec![];
    for kind in 0..KINDS {
        for a in &acts {
            // expensive operations only with small ones of their own kind
            let own = match a[0] {
                Act::Build(f, n) => kind_of(&Spec::G(f, n)),
                Act::Int(s, ..) => kind_of(&s),
                Act::Pow(..) => 9,
            };
            if own == kind / 2 || r.thorough {
                items.push((kind, *a));
            }
        }
    }
    r.rule(format!("{} pairs of operations with k small different ones between them, for {} values of k: all up to {} and around powers of two up to 2^{}", items.len(), gaps.len(), r.pick(520, 1100), r.pick(16, 17)));
    r.cases(&items, |(k, a)| format!("gap of small operations of kind {k} between {:?} and {:?}", a[0], a[1]), |&(kind, [first, second]), o: &mut Obs| {
        let out = std::thread::scope(|s| {
            let want = s.spawn(|| run(second)).join().map_err(|_| "it panics".to_string())?;
            let (gaps, o) = (&gaps, &mut *o);
            s.spawn(move || {
                let mut i = 0;
                for &k in gaps {
                    run(first);
                    for _ in 0..k {
                        small(kind, i);
                        i += 1;
                    }
                    o.evals += 1;
                    o.states += 1;
                    o.transitions += k as u64 + 2;
                    o.traces += 1;
                    if run(second) != want {
                        return Err(format!("after {first:?} and {k} small operations it shows something else than on a fresh thread"));
                    }
                }
                Ok(())
            })
            .join()
            .map_err(|_| "it panics".to_string())?
        });
        o.distinct(&(kind, format!("{first:?} {second:?}")));
        match out {
            Ok(()) if kind == 1 => o.sample(json!({"first": format!("{first:?}"), "second": format!("{second:?}"), "gaps": gaps.len()})),
            Ok(()) => {}
            Err(e) => o.fail(format!("{second:?}: {e}"), format!("{first:?}, {second:?}")),
        }
    });
}
