//! Minimisation of a failing execution: input, schedule and fault trace.
use crate::drive::{execute, isolated, Failure, Verdict};
use crate::model::*;
use crate::props::Prop;
use crate::stats::Stats;
use std::os::unix::fs::FileExt;
use std::path::Path;
use std::time::{Duration, Instant};

struct Ctx<'a> {
    test: Box<dyn FnMut(&Case) -> Option<Failure> + 'a>,
    until: Instant,
    best: Case,
    fail: Failure,
}
impl Ctx<'_> {
    fn over(&self) -> bool {
        Instant::now() >= self.until
    }
    /// Keep the candidate if it still fails in the same way.
    fn try_(&mut self, c: Case) -> bool {
        if self.over() || c == self.best {
            return false;
        }
        match (self.test)(&c) {
            Some(f) if f.class == self.fail.class => {
                self.best = c;
                self.fail = f;
                true
            }
            _ => false,
        }
    }
    /// Delete ranges of a vector inside the case, halving the range size.
    fn ddmin<T: Clone>(&mut self, get: impl Fn(&mut Case) -> Option<&mut Vec<T>>) {
        let len = |c: &mut Case| get(c).map_or(0, |v| v.len());
        let mut n = len(&mut self.best.clone());
        let mut step = n.max(1).next_power_of_two();
        while step > 0 && !self.over() {
            let mut i = 0;
            while i < n && !self.over() {
                let mut c = self.best.clone();
                let ok = match get(&mut c) {
                    Some(v) => {
                        let e = (i + step).min(v.len());
                        if i >= e {
                            break;
                        }
                        v.drain(i..e);
                        true
                    }
                    None => false,
                };
                if ok && self.try_(c) {
                    n = len(&mut self.best.clone());
                } else {
                    i += step;
                }
            }
            step /= 2;
        }
    }
    fn edit(&mut self, f: impl Fn(&mut Case)) -> bool {
        let mut c = self.best.clone();
        f(&mut c);
        self.try_(c)
    }
}

/// The smallest depth that still fails, by bisection.
fn depth(c: &mut Ctx) {
    let mut step = c.best.p("deep") / 2;
    while step > 0 && !c.over() {
        let d = c.best.p("deep");
        if d <= step || !c.edit(|k| k.set("deep", d - step)) {
            step /= 2;
        }
    }
}

fn nums(c: &mut Ctx, get: impl Fn(&mut Case) -> Option<&mut Vec<u32>> + Copy) {
    c.ddmin(get);
    let n = get(&mut c.best.clone()).map_or(0, |v| v.len());
    for i in 0..n {
        let fs: [fn(u32) -> u32; 3] = [|_| 0, |x| x / 2, |x| x.saturating_sub(1)];
        for f in fs {
            c.edit(|k| {
                if let Some(x) = get(k).and_then(|v| v.get_mut(i)) {
                    *x = f(*x);
                }
            });
        }
    }
}

fn pass(c: &mut Ctx) {
    c.ddmin(|k| Some(&mut k.sched));
    for r in 0..c.best.rd.len() {
        c.edit(|k| k.rd[r].plan = RPlan::default());
        c.edit(|k| k.rd[r].plan.fault = None);
        c.edit(|k| k.rd[r].plan.wrap = 0);
        c.edit(|k| k.rd[r].plan.tail.clear());
        c.edit(|k| {
            k.rd[r].plan.chunks.clear();
            k.rd[r].plan.rest = 0;
        });
        c.edit(|k| {
            k.rd[r].plan.chunks.clear();
            k.rd[r].plan.rest = 1;
        });
        c.edit(|k| k.rd[r].plan.rest = 0);
        c.edit(|k| k.rd[r].plan.eintr.clear());
        c.ddmin(|k| Some(&mut k.rd[r].bytes));
        nums(c, move |k| Some(&mut k.rd[r].plan.chunks));
        nums(c, move |k| Some(&mut k.rd[r].plan.eintr));
        for at in [0u64, 1, 2, 3] {
            c.edit(|k| {
                if let Some(f) = &mut k.rd[r].plan.fault {
                    f.at = f.at.min(at);
                }
            });
        }
        loop {
            let a = c.edit(|k| {
                if let Some(f) = &mut k.rd[r].plan.fault {
                    f.at /= 2;
                }
            });
            let b = c.edit(|k| {
                if let Some(f) = &mut k.rd[r].plan.fault {
                    f.at = f.at.saturating_sub(1);
                }
            });
            if !a && !b {
                break;
            }
        }
        c.edit(|k| {
            if let Some(f) = &mut k.rd[r].plan.fault {
                f.kind = 0;
            }
        });
        c.edit(|k| {
            if let Some(f) = &mut k.rd[r].plan.fault {
                f.mode = 0;
            }
        });
        c.edit(|k| k.rd[r].enc = 0);
        // simplify bytes
        let n = c.best.rd[r].bytes.len().min(400);
        for i in 0..n {
            for b in [b'a', b' ', b'\n'] {
                if c.best.rd[r].bytes.get(i).is_some_and(|x| *x != b && *x != b'a') && c.edit(|k| k.rd[r].bytes[i] = b) {
                    break;
                }
            }
        }
    }
    for e in 0..c.best.em.len() {
        c.edit(|k| k.em[e].plan = WPlan::default());
        c.edit(|k| k.em[e].plan.fault = None);
        c.edit(|k| {
            k.em[e].plan.chunks.clear();
            k.em[e].plan.rest = 0;
        });
        c.edit(|k| k.em[e].plan.eintr.clear());
        c.edit(|k| k.em[e].cfg = Cfg::default());
        c.ddmin(|k| Some(&mut k.em[e].evs));
        // remove matching start/end pairs, lifting their content
        let mut i = 0;
        while i < c.best.em[e].evs.len() && !c.over() {
            if let Some(j) = matching(&c.best.em[e].evs, i) {
                if c.edit(|k| {
                    k.em[e].evs.drain(i..=j);
                }) {
                    continue;
                }
                if c.edit(|k| {
                    k.em[e].evs.drain(i..=j);
                    k.em[e].evs.insert(i, Ev::plain("a"));
                }) {
                    continue;
                }
                if c.edit(|k| {
                    k.em[e].evs.remove(j);
                    k.em[e].evs.remove(i);
                }) {
                    continue;
                }
            } else if i + 1 < c.best.em[e].evs.len()
                && c.edit(|k| {
                    k.em[e].evs.drain(i..i + 2);
                })
            {
                continue;
            }
            i += 1;
        }
        nums(c, move |k| Some(&mut k.em[e].plan.chunks));
        nums(c, move |k| Some(&mut k.em[e].plan.eintr));
        for f in [
            (|g: &mut Cfg| g.enc = 0) as fn(&mut Cfg),
            |g| g.canonical = false,
            |g| g.indent = None,
            |g| g.width = None,
            |g| g.unicode = false,
            |g| g.brk = 0,
        ] {
            c.edit(|k| f(&mut k.em[e].cfg));
        }
        loop {
            let a = c.edit(|k| {
                if let Some(f) = &mut k.em[e].plan.fault {
                    f.at /= 2;
                }
            });
            let b = c.edit(|k| {
                if let Some(f) = &mut k.em[e].plan.fault {
                    f.at = f.at.saturating_sub(1);
                }
            });
            if !a && !b {
                break;
            }
        }
        let n = c.best.em[e].evs.len().min(200);
        for i in 0..n {
            for f in SIMPLER {
                loop {
                    if !c.edit(|k| {
                        if let Some(x) = k.em[e].evs.get_mut(i) {
                            f(x);
                        }
                    }) {
                        break;
                    }
                }
            }
            let len = c.best.em[e].evs.get(i).map_or(0, |x| if let Ev::Scalar { value, .. } = x { value.chars().count() } else { 0 });
            let mut p = 0;
            let mut left = len.min(300);
            while p < left {
                let ok = c.edit(|k| {
                    if let Some(Ev::Scalar { value, .. }) = k.em[e].evs.get_mut(i) {
                        *value = value.chars().enumerate().filter(|(q, _)| *q != p).map(|(_, ch)| ch).collect();
                    }
                });
                if ok {
                    left -= 1;
                } else {
                    p += 1;
                }
            }
        }
    }
    for d in 0..c.best.docs.len() {
        // drop the last node and every reference to it
        while c.best.docs[d].nodes.len() > 1
            && c.edit(|k| {
                let n = k.docs[d].nodes.len() as u32 - 1;
                k.docs[d].nodes.pop();
                for x in &mut k.docs[d].nodes {
                    match &mut x.k {
                        NodeK::Seq(v, _) => v.retain(|y| *y != n),
                        NodeK::Map(v, _) => v.retain(|y| y.0 != n && y.1 != n),
                        NodeK::Scalar(..) => {}
                    }
                }
            })
        {}
        for i in 0..c.best.docs[d].nodes.len() {
            c.edit(|k| k.docs[d].nodes[i].tag = None);
            c.edit(|k| match &mut k.docs[d].nodes[i].k {
                NodeK::Scalar(v, s) => {
                    *v = "a".into();
                    *s = 0;
                }
                NodeK::Seq(_, s) | NodeK::Map(_, s) => *s = 0,
            });
            let n = match &c.best.docs[d].nodes[i].k {
                NodeK::Seq(v, _) => v.len(),
                NodeK::Map(v, _) => v.len(),
                NodeK::Scalar(..) => 0,
            };
            for j in (0..n).rev() {
                c.edit(|k| match &mut k.docs[d].nodes[i].k {
                    NodeK::Seq(v, _) if j < v.len() => {
                        v.remove(j);
                    }
                    NodeK::Map(v, _) if j < v.len() => {
                        v.remove(j);
                    }
                    _ => {}
                });
            }
        }
        c.edit(|k| {
            k.docs[d].version = None;
            k.docs[d].tags.clear();
        });
    }
    nums(c, |k| Some(&mut k.sched));
    // whole participants
    for r in (0..c.best.rd.len()).rev() {
        c.edit(|k| {
            k.rd.remove(r);
        });
    }
    for r in (0..c.best.em.len()).rev() {
        c.edit(|k| {
            k.em.remove(r);
        });
    }
    for r in (0..c.best.docs.len()).rev() {
        c.edit(|k| {
            k.docs.remove(r);
        });
    }
}

const SIMPLER: &[fn(&mut Ev)] = &[
    |e| {
        if let Ev::Scalar { value, .. } = e {
            *value = "a".into();
        }
    },
    |e| match e {
        Ev::Scalar { anchor, .. } | Ev::SeqStart { anchor, .. } | Ev::MapStart { anchor, .. } => *anchor = None,
        Ev::DocStart { version, .. } => *version = None,
        _ => {}
    },
    |e| match e {
        Ev::Scalar { tag, .. } | Ev::SeqStart { tag, .. } | Ev::MapStart { tag, .. } => *tag = None,
        Ev::DocStart { tags, .. } => tags.clear(),
        _ => {}
    },
    |e| match e {
        Ev::Scalar { style, .. } | Ev::SeqStart { style, .. } | Ev::MapStart { style, .. } => *style = 0,
        _ => {}
    },
    |e| match e {
        Ev::Scalar { plain, quoted, .. } => {
            *plain = true;
            *quoted = true;
        }
        Ev::SeqStart { implicit, .. } | Ev::MapStart { implicit, .. } | Ev::DocStart { implicit, .. } | Ev::DocEnd(implicit) => {
            *implicit = true;
        }
        _ => {}
    },
    |e| {
        if let Ev::Scalar { value, .. } = e {
            let n = value.chars().count();
            *value = value.chars().take(n / 2).collect();
        }
    },
    |e| {
        if let Ev::Scalar { value, .. } = e {
            let n = value.chars().count();
            *value = value.chars().skip(n - n / 2).collect();
        }
    },
];

fn matching(evs: &[Ev], i: usize) -> Option<usize> {
    if !matches!(evs[i], Ev::SeqStart { .. } | Ev::MapStart { .. } | Ev::DocStart { .. }) {
        return None;
    }
    let mut d = 0i32;
    for (j, e) in evs.iter().enumerate().skip(i) {
        match e {
            Ev::SeqStart { .. } | Ev::MapStart { .. } | Ev::DocStart { .. } => d += 1,
            Ev::SeqEnd | Ev::MapEnd | Ev::DocEnd(_) => d -= 1,
            _ => {}
        }
        if d == 0 {
            return Some(j);
        }
    }
    None
}

fn run(mut c: Ctx) -> (Case, Failure) {
    loop {
        let before = c.best.clone();
        depth(&mut c);
        pass(&mut c);
        if c.over() || c.best == before {
            return (c.best, c.fail);
        }
    }
}

pub fn shrink(prop: &Prop, case: &Case, f: &Failure, budget: Duration, hb: &std::fs::File, run_no: u64) -> (Case, Failure) {
    let mut n = 0u64;
    let test = Box::new(move |c: &Case| {
        n += 1;
        // a heartbeat that always changes: shrinking is progress
        let _ = hb.write_all_at(&(u64::MAX - 1 - n).to_le_bytes(), 0);
        let mut st = Stats::default();
        st.begin();
        match execute(prop, c, &mut st) {
            Verdict::Fail(f) => Some(f),
            _ => None,
        }
    });
    let r = run(Ctx { test, until: Instant::now() + budget, best: case.clone(), fail: f.clone() });
    let _ = hb.write_all_at(&run_no.to_le_bytes(), 0);
    r
}

pub fn shrink_isolated(case: &Case, f: &Failure, budget: Duration, dir: &Path) -> (Case, Failure) {
    let cpu = if f.class == "hang" { 3 } else { 10 };
    let test = Box::new(move |c: &Case| isolated(c, cpu, dir).ok().flatten());
    run(Ctx { test, until: Instant::now() + budget, best: case.clone(), fail: f.clone() })
}

/// Minimise by a test of the caller's.
pub fn shrink_by<'a>(case: &Case, f: &Failure, budget: Duration, test: impl FnMut(&Case) -> Option<Failure> + 'a) -> (Case, Failure) {
    run(Ctx { test: Box::new(test), until: Instant::now() + budget, best: case.clone(), fail: f.clone() })
}
