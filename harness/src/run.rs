//! Executing cases and logging them.
use crate::desc::{build, snapshot};
use crate::json::{self, J};
use crate::ops::apply;
use lumberjack::Tree;
use std::fs::File;
use std::io::{BufWriter, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static CLOCK: Mutex<Option<Instant>> = Mutex::new(None);
pub const HANG_SECS: u64 = 20;

pub struct Log {
    out: BufWriter<File>,
    plans: BufWriter<File>,
    inflight: File,
    pub cases: usize,
    pub events: usize,
    pub skipped: usize,
    pub stop_at: Option<Instant>,
    limit_events: usize,
}

/// An event to run: the operation and its arguments.
pub type Op = (String, J);

pub fn op(name: &str, args: Vec<(&str, J)>) -> Op {
    (name.to_string(), json::o(args))
}

impl Log {
    pub fn new(path: &str, limit_events: usize) -> Log {
        std::panic::set_hook(Box::new(|_| {}));
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(500));
            if let Some(t) = *CLOCK.lock().unwrap() {
                if t.elapsed() > Duration::from_secs(HANG_SECS) {
                    std::process::exit(77);
                }
            }
        });
        Log {
            out: BufWriter::new(File::create(path).unwrap()),
            plans: BufWriter::new(File::create(format!("{}.plans", path)).unwrap()),
            inflight: File::create(format!("{}.inflight", path)).unwrap(),
            cases: 0,
            events: 0,
            skipped: 0,
            stop_at: None,
            limit_events,
        }
    }

    pub fn full(&self) -> bool {
        self.events >= self.limit_events
            || self.stop_at.map(|t| Instant::now() > t).unwrap_or(false)
    }

    /// Run one event; `None` as tree afterwards if nothing sensible is left.
    fn event(&mut self, pre: &J, o: &Op, t: &mut Tree, plan: &J, prior: &[Op]) -> (J, bool) {
        let mut line = json::o(vec![
            ("id", json::n(self.cases)),
            ("plan", plan.clone()),
            ("prior", json::a(prior.iter().map(|q| json::a(vec![json::s(q.0.clone()), q.1.clone()])))),
            ("pre", pre.clone()),
            ("op", json::s(o.0.clone())),
            ("a", o.1.clone()),
        ])
        .text();
        line.push('\n');
        self.inflight.seek(SeekFrom::Start(0)).unwrap();
        self.inflight.write_all(line.as_bytes()).unwrap();
        self.inflight.set_len(line.len() as u64).unwrap();
        *CLOCK.lock().unwrap() = Some(Instant::now());
        let r = catch_unwind(AssertUnwindSafe(|| {
            let r = apply(&o.0, &o.1, t);
            (r, snapshot(t))
        }));
        *CLOCK.lock().unwrap() = None;
        self.events += 1;
        let (out, ret, post, alive) = match r {
            Ok((Ok(ret), post)) => ("ok", ret, post, true),
            Ok((Err(_), post)) => ("err", json::a(vec![]), post, true),
            Err(_) => ("panic", json::a(vec![]), pre.clone(), false),
        };
        (
            json::o(vec![
                ("op", json::s(o.0.clone())),
                ("a", o.1.clone()),
                ("out", json::s(out)),
                ("ret", ret),
                ("post", post),
            ]),
            alive,
        )
    }

    fn finish(&mut self, kind: &str, plan: &J, pre: J, evs: Vec<(J, usize)>) {
        let ops = json::a(evs.iter().map(|(e, _)| json::a(vec![e.get("op").clone(), e.get("a").clone()])));
        let line = json::o(vec![
            ("id", json::n(self.cases)),
            ("pre", pre),
            (
                "evs",
                json::a(evs.into_iter().map(|(e, b)| match e {
                    J::O(mut v) => {
                        v.push(("b".into(), json::n(b)));
                        J::O(v)
                    }
                    x => x,
                })),
            ),
        ]);
        writeln!(self.out, "{}", line.text()).unwrap();
        let p = json::o(vec![
            ("id", json::n(self.cases)),
            ("kind", json::s(kind)),
            ("plan", plan.clone()),
            ("ops", ops),
        ]);
        writeln!(self.plans, "{}", p.text()).unwrap();
        self.cases += 1;
    }

    pub fn close(mut self) -> J {
        self.out.flush().unwrap();
        self.plans.flush().unwrap();
        self.inflight.set_len(0).unwrap();
        json::o(vec![
            ("cases", json::n(self.cases)),
            ("events", json::n(self.events)),
            ("skipped", json::n(self.skipped)),
        ])
    }

    /// Every operation from the same tree.
    pub fn star<F>(&mut self, plan: &J, ops: F)
    where
        F: FnOnce(&Tree) -> Vec<Op>,
    {
        let t = match build(plan) {
            Some(t) => t,
            None => {
                self.skipped += 1;
                return;
            }
        };
        let pre = snapshot(&t);
        let ops = match catch_unwind(AssertUnwindSafe(|| ops(&t))) {
            Ok(o) => o,
            Err(_) => {
                self.skipped += 1;
                return;
            }
        };
        let mut evs = Vec::new();
        for o in ops {
            let mut c = t.clone();
            let (e, _) = self.event(&pre, &o, &mut c, plan, &[]);
            evs.push((e, 0));
        }
        self.finish("star", plan, pre, evs);
    }

    /// A history: each operation from the tree the previous one left behind.
    pub fn chain<F>(&mut self, plan: &J, mut next: F)
    where
        F: FnMut(&Tree, usize) -> Option<Op>,
    {
        let mut t = match build(plan) {
            Some(t) => t,
            None => {
                self.skipped += 1;
                return;
            }
        };
        let pre = snapshot(&t);
        let mut cur = pre.clone();
        let mut evs = Vec::new();
        let mut done: Vec<Op> = Vec::new();
        while let Ok(Some(o)) = catch_unwind(AssertUnwindSafe(|| next(&t, done.len()))) {
            let (e, alive) = self.event(&cur, &o, &mut t, plan, &done);
            cur = e.get("post").clone();
            evs.push((e, done.len()));
            done.push(o);
            if !alive {
                break;
            }
        }
        self.finish("chain", plan, pre, evs);
    }
}
