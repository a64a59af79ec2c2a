//! C15: concurrent use of the crate. Every interleaving (within the budgets) at integrand calls, operation boundaries and
//! atomic or lock operations; each schedule in a fresh process; every operation must show what it shows alone.
use crate::{Book, Sys};
use mc_core::run::Run;
use mc_ops::rules::*;
use mc_ops::{F, Op, R, Scenario, Spec};
use mc_rt::Config;
use serde_json::json;

fn show(v: &[u64]) -> String {
    let s: Vec<String> = v.iter().take(5).map(|&b| if b < 4096 { format!("{b}") } else { format!("{:?}", f64::from_bits(b)) }).collect();
    format!("[{}{}]", s.join(", "), if v.len() > 5 { ", ..." } else { "" })
}

pub fn shared() -> Vec<Spec> {
    vec![
        Spec::G(Fam::Legendre, 3),
        Spec::G(Fam::Laguerre(1.5), 2),
        Spec::G(Fam::Jacobi(0.5, 1.5), 2),
        Spec::N(Nc::Simp, 1),
        Spec::G(Fam::Legendre, 3),
        Spec::N(Nc::Trap, 2),
        Spec::G(Fam::Hermite, 2),
    ]
}

/// operations whose simultaneous execution is explored
fn alphabet(thorough: bool) -> Vec<Op> {
    let g = |f, n| Op::New(Spec::G(f, n));
    let sh = |i| Op::Int(R::Shared(i), -1.0, 2.0, F::Smooth);
    let mut v = vec![
        g(Fam::Legendre, 3),
        g(Fam::Legendre, 4),
        g(Fam::Legendre, 101),
        g(Fam::Legendre, 102),
        g(Fam::Hermite, 3),
        g(Fam::Hermite, 4),
        g(Fam::Laguerre(0.0), 3),
        g(Fam::Laguerre(1.5), 3),
        g(Fam::Laguerre(1.5), 2),
        g(Fam::Jacobi(0.5, 1.5), 3),
        g(Fam::Jacobi(1.5, 0.5), 3),
        g(Fam::Jacobi(0.5, 1.5), 2),
        g(Fam::Jacobi(0.0, 0.0), 3),
        g(Fam::Cheb1, 3),
        g(Fam::Cheb2, 3),
        g(Fam::Cheb2, 2),
        sh(0),
        sh(1),
        sh(2),
        sh(3),
        Op::Int(R::Shared(0), 3.0, 1.0, F::Smooth),
        Op::Int(R::Shared(0), -1.0, 2.0, F::PanicAbove(-9.0)),
        Op::Int(R::Shared(3), -1.0, 2.0, F::PanicAbove(0.0)),
        Op::Par(R::Shared(0), -1.0, 1.0, F::PanicAbove(0.0)),
        Op::Clone(0),
        Op::Clone(3),
        Op::Equal(0, 4),
        Op::Change(Nc::Simp, 1, 2),
        Op::Change(Nc::Trap, 1, 2),
        Op::Change(Nc::Mid, 2, 1),
        Op::Nest(R::Shared(2), false, R::Shared(2), false),
        Op::Parse("0.5"),
        Op::Parse("-1"),
        Op::Pow(2.0, 0.5),
        Op::ParNew(Spec::G(Fam::Cheb1, 3)),
        Op::ParNew(Spec::G(Fam::Legendre, 3)),
    ];
    if thorough {
        v.extend([
            g(Fam::Legendre, 1),
            g(Fam::Hermite, 1),
            g(Fam::Jacobi(-0.5, -0.5), 3),
            g(Fam::Jacobi(0.5, 0.5), 3),
            g(Fam::Laguerre(-0.5), 2),
            sh(5),
            sh(6),
            Op::Show(2),
            Op::Clone(1),
            Op::Equal(0, 0),
            Op::Nest(R::Shared(0), true, R::Shared(3), false),
            Op::ParNew(Spec::G(Fam::Legendre, 102)),
            Op::ParNew(Spec::G(Fam::Cheb2, 3)),
            Op::Par(R::Shared(1), 0.0, 0.0, F::PanicAbove(1.0)),
        ]);
    }
    v
}

pub fn c15(r: &Run) {
    let mut b = Book::default();
    let ops = alphabet(r.thorough);
    let n = ops.len();
    let alone: Vec<u32> = ops.iter().map(|o| b.add(Scenario { shared: shared(), users: vec![vec![*o]] })).collect();
    let mut teams: Vec<(u32, Vec<Vec<usize>>)> = vec![];
    let mut add = |b: &mut Book, t: Vec<Vec<usize>>| {
        let s = Scenario { shared: shared(), users: t.iter().map(|u| u.iter().map(|&i| ops[i]).collect()).collect() };
        teams.push((b.add(s), t));
    };
    for i in 0..n {
        for j in 0..n {
            add(&mut b, vec![vec![i], vec![j]]);
            // the same operation before and after, against another one
            add(&mut b, vec![vec![i, i], vec![j]]);
            add(&mut b, vec![vec![i, j], vec![j, i]]);
            if i <= j {
                add(&mut b, vec![vec![i], vec![j], vec![i]]);
            }
        }
    }
    r.rule(format!("{n} operations (constructors with equal degrees and different parameters, integrations and panicking integrations with shared rules, clones, comparisons, degree changes, parallel calls); teams of two and three threads with one or two of them each; every interleaving at integrand calls, operation boundaries and atomic or lock operations within the budgets, each in a fresh process; every operation must show exactly what it shows alone in a fresh process"));
    let sys = Sys::open(b, &alone);
    let cap = r.pick(2_000, 30_000);
    r.cases(&teams, |t| format!("threads {:?}", t.1.iter().map(|s| s.iter().map(|&i| ops[i]).collect::<Vec<_>>()).collect::<Vec<_>>()), |(s, team), o| {
        let p = if team.len() == 2 { r.pick(2, 3) } else { r.pick(1, 2) };
        let cfg = Config::new(2, p, r.pick(0, 1));
        o.distinct(s);
        sys.all(*s, cfg, cap, o, |a| {
            for (u, seq) in team.iter().enumerate() {
                for (k, &i) in seq.iter().enumerate() {
                    let base = sys.baseline(alone[i]).as_ref().map_err(|e| format!("{:?} alone: {e}", ops[i]))?;
                    let got = a.users[u].get(k).ok_or("an operation is missing")?;
                    if *got != base.users[0][0] {
                        return Err(format!("{:?} on thread {u} shows {}, alone {}", ops[i], show(got), show(&base.users[0][0])));
                    }
                }
            }
            Ok(())
        });
        if s % 500 == 1 {
            o.sample(json!({"threads": format!("{:?}", sys.scenario(*s).users), "schedules": o.traces}));
        }
    });
}
