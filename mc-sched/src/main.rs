//! Exploration of schedules of the real parallel entry points and of concurrent use of the real crate.
mod par;
mod race;

use mc_core::run::{Obs, Run};
use mc_ops::{Answer, Scenario, decode};
use mc_rt::Config;
use mc_rt::explore::{OK, Outcome, Zygotes, zygotes};
use serde_json::json;
use std::sync::OnceLock;

static TABLE: OnceLock<Vec<Scenario>> = OnceLock::new();
fn entry(cmd: &[u8], cfg: Config, prefix: Vec<u16>) -> ! {
    let i = u32::from_le_bytes(cmd.try_into().unwrap()) as usize;
    mc_ops::run(&TABLE.get().unwrap()[i], cfg, prefix)
}

/// scenarios in the making; identical ones share an index
#[derive(Default)]
pub struct Book(Vec<Scenario>, std::collections::HashMap<String, u32>);
impl Book {
    pub fn add(&mut self, s: Scenario) -> u32 {
        let key = format!("{:?} {:?}", s.shared, s.users);
        let n = self.0.len() as u32;
        *self.1.entry(key).or_insert_with(|| {
            self.0.push(s);
            n
        })
    }
}
pub struct Sys {
    z: Zygotes,
    quiet: std::collections::HashMap<u32, OnceLock<Result<Answer, String>>>,
}
pub const LIMIT_S: u32 = 100;
/// seconds for one exploration (one scenario and configuration); normal ones take a fraction of a second
pub const EXPLORE_S: u64 = 20;
impl Sys {
    pub fn open(b: Book, singles: &[u32]) -> Sys {
        if TABLE.set(b.0).is_err() {
            unreachable!();
        }
        Sys { z: zygotes(16, entry), quiet: singles.iter().map(|&i| (i, OnceLock::new())).collect() }
    }
    pub fn scenario(&self, i: u32) -> &'static Scenario {
        &TABLE.get().unwrap()[i as usize]
    }
    fn read(&self, i: u32, o: &Outcome) -> Result<Answer, String> {
        if o.status != OK {
            return Err(o.describe());
        }
        Ok(decode(&o.out, self.scenario(i).users.len()))
    }
    /// the scenario under the default schedule in a fresh process (remembered)
    pub fn baseline(&self, i: u32) -> &Result<Answer, String> {
        self.quiet[&i].get_or_init(|| self.read(i, &self.z.one(&i.to_le_bytes(), Config::new(2, 0, 0), &[], LIMIT_S)))
    }
    /// every schedule within the budgets; `judge` returns what is wrong
    pub fn all(&self, i: u32, cfg: Config, cap: u64, o: &mut Obs, mut judge: impl FnMut(&Answer) -> Result<(), String>) -> bool {
        let mut ok = true;
        // code with far more scheduling points than expected is explored as far as this time goes (a cut is counted)
        let (start, mut late) = (std::time::Instant::now(), false);
        let st = self.z.explore(&i.to_le_bytes(), cfg, cap, LIMIT_S, |x| {
            let r = self.read(i, x).and_then(|a| judge(&a));
            if let Err(e) = r {
                ok = false;
                let s = self.scenario(i);
                o.fail(
                    format!("{e}; {} workers, schedule [{}]", cfg.workers, x.schedule()),
                    format!("shared {:?}, threads {:?}, {cfg:?}, choices {}", s.shared, s.users, x.schedule()),
                );
            }
            late = start.elapsed().as_secs() >= EXPLORE_S;
            ok && !late
        });
        o.count("explorations_cut_by_time", late as u64);
        o.evals += st.schedules;
        o.traces += st.schedules;
        o.states += st.choices;
        o.transitions += st.points;
        o.count("schedules", st.schedules);
        o.count("scheduling_points", st.points);
        o.count("atomic_operations", st.atomics);
        o.count("explorations_cut_at_cap", st.capped as u64);
        o.count("schedules_whose_choices_differed_on_replay", st.diverged);
        o.max("schedules_of_one_case", st.schedules as f64);
        o.max("steals", st.max_steals as f64);
        if std::env::var_os("MC_SHOW").is_some() {
            eprintln!("{} {cfg:?}: {} schedules{}, {} points", o.case, st.schedules, if st.capped { " (cap)" } else { "" }, st.points / st.schedules);
        }
        ok
    }
}

fn main() {
    let r = Run::from_args();
    // every execution has its own limit (LIMIT_S); a case of many explorations may take long on a busy machine
    *r.limit_s.lock().unwrap() = 3000;
    match r.prop.as_str() {
        "C09" => par::c09(&r),
        "C10" => par::c10(&r),
        "C15" => race::c15(&r),
        "C19" => par::c19(&r),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2);
        }
    }
    r.note("instrumented_crates", json!(["gauss_quad", "mc_ops"]));
    r.finish();
}
