//! Execution of an enumerated list of cases: parallel, watched, replayable, counted.
use serde_json::{Map, Value, json};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Fail {
    pub case: String,
    /// signature of a known defect this failure has exactly the shape of, or ""
    pub sig: String,
    pub detail: String,
    pub repro: String,
    order: (usize, usize),
}

/// What one case reports.
pub struct Obs {
    pub case: String,
    group: usize,
    index: usize,
    pub evals: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    distinct: HashSet<u64>,
    fails: Vec<Fail>,
    nfails: u64,
    samples: Vec<Value>,
    counters: Map<String, Value>,
}
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
impl Obs {
    fn new(case: String, group: usize, index: usize) -> Obs {
        Obs {
            case,
            group,
            index,
            evals: 0,
            states: 0,
            transitions: 0,
            traces: 0,
            distinct: HashSet::new(),
            fails: vec![],
            nfails: 0,
            samples: vec![],
            counters: Map::new(),
        }
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    /// registers one explored, non-trivial case by its content
    pub fn distinct<T: Hash>(&mut self, t: &T) {
        self.distinct.insert(hash_of(&(&self.case, t)));
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 2 {
            self.samples.push(v);
        }
    }
    pub fn count(&mut self, key: &str, n: u64) {
        let old = self.counters.get(key).and_then(|v| v.as_u64()).unwrap_or(0);
        self.counters.insert(key.into(), json!(old + n));
    }
    pub fn max(&mut self, key: &str, x: f64) {
        let k = format!("max_{key}");
        let old = self.counters.get(&k).and_then(|v| v.as_f64()).unwrap_or(0.0);
        if x > old {
            self.counters.insert(k, json!(x));
        }
    }
    pub fn fail(&mut self, detail: impl Into<String>, repro: impl Into<String>) {
        self.fail_sig("", detail, repro)
    }
    pub fn fail_sig(&mut self, sig: &str, detail: impl Into<String>, repro: impl Into<String>) {
        self.nfails += 1;
        if self.fails.len() < 8 || (sig.is_empty() && self.fails.iter().filter(|f| f.sig.is_empty()).count() < 8) {
            self.fails.push(Fail {
                case: self.case.clone(),
                sig: sig.into(),
                detail: detail.into(),
                repro: repro.into(),
                order: (self.group, self.index),
            });
        }
    }
    pub fn failed(&self) -> bool {
        self.nfails > 0
    }
}

struct Slot {
    case: String,
    since: Option<Instant>,
    limit: Duration,
    order: (usize, usize),
}

#[derive(Default)]
struct Total {
    evals: u64,
    states: u64,
    transitions: u64,
    traces: u64,
    distinct: HashSet<u64>,
    fails: Vec<Fail>,
    nfails: u64,
    samples: Vec<Value>,
    counters: Map<String, Value>,
    cases: u64,
}

pub struct Run {
    pub prop: String,
    pub part: String,
    pub thorough: bool,
    pub only: Option<String>,
    out: String,
    start: Instant,
    total: Mutex<Total>,
    group: AtomicUsize,
    pub rule: Mutex<Vec<String>>,
    pub notes: Mutex<Map<String, Value>>,
    pub threads: usize,
    /// seconds after which one case is reported as not terminating
    pub limit_s: Mutex<u64>,
}

impl Run {
    /// args: PROP PART TIER OUT [CASE]
    pub fn from_args() -> Run {
        let a: Vec<String> = std::env::args().collect();
        if a.len() < 5 {
            eprintln!("usage: {} PROP PART TIER OUT [CASE]", a[0]);
            std::process::exit(2);
        }
        install_quiet_panic_hook();
        Run {
            prop: a[1].clone(),
            part: a[2].clone(),
            thorough: a[3] == "thorough",
            out: a[4].clone(),
            only: a.get(5).cloned(),
            start: Instant::now(),
            total: Mutex::new(Total::default()),
            group: AtomicUsize::new(0),
            rule: Mutex::new(vec![]),
            notes: Mutex::new(Map::new()),
            threads: std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
            limit_s: Mutex::new(150),
        }
    }
    pub fn rule(&self, s: impl Into<String>) {
        self.rule.lock().unwrap().push(s.into());
    }
    pub fn note(&self, k: &str, v: Value) {
        self.notes.lock().unwrap().insert(k.into(), v);
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }

    /// Run every case of an enumerated space.
    pub fn cases<T: Sync>(&self, items: &[T], id: impl Fn(&T) -> String + Sync, f: impl Fn(&T, &mut Obs) + Sync) {
        self.cases_n(self.threads, items, id, f)
    }
    pub fn cases_n<T: Sync>(
        &self,
        threads: usize,
        items: &[T],
        id: impl Fn(&T) -> String + Sync,
        f: impl Fn(&T, &mut Obs) + Sync,
    ) {
        let group = self.group.fetch_add(1, Ordering::Relaxed);
        let limit = Duration::from_secs(*self.limit_s.lock().unwrap());
        let next = AtomicUsize::new(0);
        let left = AtomicUsize::new(threads);
        let slots: Vec<Mutex<Slot>> = (0..threads)
            .map(|_| Mutex::new(Slot { case: String::new(), since: None, limit, order: (0, 0) }))
            .collect();
        std::thread::scope(|sc| {
            for slot in &slots {
                let (next, left, id, f) = (&next, &left, &id, &f);
                sc.spawn(move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= items.len() {
                            break;
                        }
                        let cid = id(&items[i]);
                        if let Some(o) = &self.only
                            && *o != cid
                        {
                            continue;
                        }
                        {
                            let mut s = slot.lock().unwrap();
                            s.case = cid.clone();
                            s.since = Some(Instant::now());
                            s.order = (group, i);
                        }
                        let mut obs = Obs::new(cid, group, i);
                        let r = catch_unwind(AssertUnwindSafe(|| f(&items[i], &mut obs)));
                        if let Err(p) = r {
                            let m = panic_message(&*p);
                            if m.contains(ENGINE) {
                                eprintln!("engine error in case {}: {m}", obs.case);
                                std::process::exit(3);
                            }
                            obs.fail(format!("unexpected panic: {m}"), String::new());
                        }
                        slot.lock().unwrap().since = None;
                        self.merge(obs);
                    }
                    left.fetch_sub(1, Ordering::Relaxed);
                });
            }
            let (slots, left) = (&slots, &left);
            sc.spawn(move || {
                while left.load(Ordering::Relaxed) > 0 {
                    std::thread::sleep(Duration::from_millis(20));
                    for s in slots {
                        let s = s.lock().unwrap();
                        if let Some(t) = s.since
                            && t.elapsed() > s.limit
                        {
                            let mut obs = Obs::new(s.case.clone(), s.order.0, s.order.1);
                            obs.fail(
                                format!("does not terminate within {} s (takes well below a tenth of that normally)", s.limit.as_secs()),
                                "",
                            );
                            self.merge(obs);
                            self.write();
                            std::process::exit(0);
                        }
                    }
                }
            });
        });
    }

    fn merge(&self, o: Obs) {
        let mut t = self.total.lock().unwrap();
        t.cases += 1;
        t.evals += o.evals;
        t.states += o.states;
        t.transitions += o.transitions;
        t.traces += o.traces;
        t.distinct.extend(o.distinct);
        t.nfails += o.nfails;
        t.fails.extend(o.fails);
        if t.fails.len() > 4000 {
            t.fails.sort_by_key(|f| (!f.sig.is_empty(), f.order));
            t.fails.truncate(2000);
        }
        if t.samples.len() < 12 || o.index % 997 == 1 {
            t.samples.extend(o.samples);
            t.samples.truncate(24);
        }
        for (k, v) in o.counters {
            let n = match (t.counters.get(&k), k.starts_with("max_")) {
                (Some(old), true) => json!(old.as_f64().unwrap().max(v.as_f64().unwrap())),
                (Some(old), false) => json!(old.as_u64().unwrap() + v.as_u64().unwrap()),
                (None, _) => v,
            };
            t.counters.insert(k, n);
        }
    }

    /// Write the part file the driver merges.
    pub fn write(&self) {
        let mut t = self.total.lock().unwrap();
        t.fails.sort_by_key(|f| f.order);
        let fails: Vec<Value> = t
            .fails
            .iter()
            .map(|f| json!({"case": f.case, "sig": f.sig, "detail": f.detail, "repro": f.repro}))
            .collect();
        let v = json!({
            "property": self.prop,
            "part": self.part,
            "cases": t.cases,
            "evaluations": t.evals,
            "states": t.states,
            "transitions": t.transitions,
            "traces": t.traces,
            "distinct_nontrivial": t.distinct.len(),
            "rule": *self.rule.lock().unwrap(),
            "notes": *self.notes.lock().unwrap(),
            "counters": t.counters,
            "samples": t.samples,
            "failures": t.nfails,
            "fails": fails,
            "wall_s": self.start.elapsed().as_secs_f64(),
        });
        std::fs::write(&self.out, serde_json::to_string_pretty(&v).unwrap()).expect("cannot write part file");
    }
    pub fn finish(self) {
        self.write();
        let t = self.total.lock().unwrap();
        if t.cases == 0 {
            eprintln!("no case was run");
            std::process::exit(4);
        }
    }
}

pub const ENGINE: &str = "[engine]";

pub fn panic_message(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "(non-string payload)".into()
    }
}

pub fn install_quiet_panic_hook() {
    if std::env::var_os("MC_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}
