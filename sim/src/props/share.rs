//! C15: instances do not influence each other, whether they live at the same time or one after another.
use super::{Prop, Res};
use crate::guard::guard;
use crate::io::{hook, IoState, SimWriter};
use crate::rng::mix;
use crate::model::*;
use crate::real::{self, step_cap, LDoc, RealParser, RealScanner};
use crate::stats::Stats;
use crate::{ensure, fork, gen};
use libyaml_safer as y;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// What one instance did, from its creation on.
#[derive(Clone, Debug, PartialEq)]
enum History {
    Events(Vec<(Ev, Mk, Mk)>, Option<End>),
    Tokens(Vec<(Tok, Mk, Mk)>, Option<End>),
    Docs(Vec<LDoc>, Option<End>),
    /// Sink length after each successful call, the first failure, what the sink holds.
    Out(Vec<u64>, Option<ErrInfo>, Vec<u8>),
}
fn starts<T: PartialEq>(part: &[T], all: &[T]) -> bool {
    all.starts_with(part)
}
impl History {
    /// Whether this is the beginning of `all`.
    fn begins(&self, all: &History) -> bool {
        let sub = |a: &Option<End>, b: &Option<End>| a.is_none() || a == b;
        match (self, all) {
            (History::Events(a, x), History::Events(b, y)) => starts(a, b) && sub(x, y),
            (History::Tokens(a, x), History::Tokens(b, y)) => starts(a, b) && sub(x, y),
            (History::Docs(a, x), History::Docs(b, y)) => starts(a, b) && sub(x, y),
            (History::Out(a, x, o), History::Out(b, y, p)) => starts(a, b) && (x.is_none() || x == y) && starts(o, p),
            _ => false,
        }
    }
    fn text(&self) -> String {
        let s = format!("{self:?}");
        if s.chars().count() > 700 {
            format!("{}…", s.chars().take(700).collect::<String>())
        } else {
            s
        }
    }
}

/// An emitter together with the sink it writes to.
struct Sink {
    e: Option<y::Emitter<'static>>,
    w: *mut SimWriter,
    data: Rc<RefCell<Vec<u8>>>,
    st: Rc<IoState>,
}
impl Sink {
    fn new(plan: &WPlan, cfg: &Cfg, id: u64) -> Sink {
        let w = SimWriter::new(plan, id);
        let (data, st) = (w.data.clone(), w.st.clone());
        let w = Box::into_raw(Box::new(w));
        let mut e = y::Emitter::new();
        // SAFETY: the sink is freed after the emitter, in `drop`, and used by nobody else.
        e.set_output(unsafe { &mut *w });
        real::configure(&mut e, cfg);
        Sink { e: Some(e), w, data, st }
    }
}
impl Drop for Sink {
    fn drop(&mut self) {
        self.e = None;
        // SAFETY: made by `Box::into_raw` in `new`; the emitter that borrowed it is gone.
        drop(unsafe { Box::from_raw(self.w) });
    }
}

enum Kind {
    Parse(RealParser),
    Scan(RealScanner),
    Load(RealParser),
    Emit(Sink, usize),
    Dump(Sink, usize),
}
struct Actor {
    k: Kind,
    h: History,
}

fn actors(c: &Case) -> usize {
    c.rd.len() + c.em.len()
}
/// Which emitters dump documents instead of emitting events.
fn dumps(c: &Case, k: usize) -> bool {
    c.p("dumpers") >> k & 1 == 1
}
fn docs_of(c: &Case, k: usize) -> Vec<&Doc> {
    let mine: Vec<usize> = (0..c.em.len()).filter(|j| dumps(c, *j)).collect();
    let Some(at) = mine.iter().position(|j| *j == k) else { return vec![] };
    c.docs.iter().enumerate().filter(|(i, _)| i % mine.len() == at).map(|(_, d)| d).collect()
}

impl Actor {
    fn new(c: &Case, i: usize) -> Actor {
        let id = i as u64;
        if let Some(rd) = c.rd.get(i) {
            match (id as i64 + c.p("mix")) % 3 {
                0 => Actor { k: Kind::Parse(RealParser::new(rd, id)), h: History::Events(vec![], None) },
                1 => Actor { k: Kind::Scan(RealScanner::new(rd, id)), h: History::Tokens(vec![], None) },
                _ => Actor { k: Kind::Load(RealParser::new(rd, id)), h: History::Docs(vec![], None) },
            }
        } else {
            let k = i - c.rd.len();
            let em = &c.em[k];
            let s = Sink::new(&em.plan, &em.cfg, 100 + id);
            Actor { k: if dumps(c, k) { Kind::Dump(s, 0) } else { Kind::Emit(s, 0) }, h: History::Out(vec![], None, vec![]) }
        }
    }
    /// One call. False if there is nothing left to do.
    fn step(&mut self, c: &Case, i: usize) -> bool {
        match (&mut self.k, &mut self.h) {
            (Kind::Parse(p), History::Events(v, end)) => {
                if end.is_some() || v.len() > step_cap(c.rd[i].bytes.len()) {
                    return false;
                }
                match p.step() {
                    Ok(s) => {
                        *end = (s.ev == Ev::StreamEnd).then_some(End::Eos);
                        v.push((s.ev, s.sm, s.em));
                    }
                    Err(e) => *end = Some(End::Err(e)),
                }
            }
            (Kind::Scan(p), History::Tokens(v, end)) => {
                if end.is_some() || v.len() > step_cap(c.rd[i].bytes.len()) {
                    return false;
                }
                match p.step() {
                    Ok(s) => {
                        *end = (s.ev.kind == "STREAM-END").then_some(End::Eos);
                        v.push((s.ev, s.sm, s.em));
                    }
                    Err(e) => *end = Some(End::Err(e)),
                }
            }
            (Kind::Load(p), History::Docs(v, end)) => {
                if end.is_some() || v.len() > step_cap(c.rd[i].bytes.len()) {
                    return false;
                }
                match p.load() {
                    Ok(d) if d.nodes.is_empty() => *end = Some(End::Eos),
                    Ok(d) => v.push(d),
                    Err(e) => *end = Some(End::Err(e)),
                }
            }
            (Kind::Emit(s, at), History::Out(lens, err, _)) => {
                let evs = &c.em[i - c.rd.len()].evs;
                if err.is_some() || *at >= evs.len() {
                    return false;
                }
                let r = real::emit_ev(s.e.as_mut().unwrap(), &evs[*at]);
                *at += 1;
                match r {
                    Ok(()) => lens.push(s.data.borrow().len() as u64),
                    Err(x) => *err = Some(real::err_from(x)),
                }
            }
            (Kind::Dump(s, at), History::Out(lens, err, _)) => {
                let docs = docs_of(c, i - c.rd.len());
                if err.is_some() || *at > docs.len() || docs.is_empty() {
                    return false;
                }
                let e = s.e.as_mut().unwrap();
                let r = if *at < docs.len() { real::build_doc(docs[*at]).dump(e) } else { e.close() };
                *at += 1;
                match r {
                    Ok(()) => lens.push(s.data.borrow().len() as u64),
                    Err(x) => *err = Some(real::err_from(x)),
                }
            }
            _ => unreachable!(),
        }
        true
    }
    fn history(&self) -> History {
        let mut h = self.h.clone();
        if let (Kind::Emit(s, _) | Kind::Dump(s, _), History::Out(_, _, out)) = (&self.k, &mut h) {
            out.clone_from(&s.data.borrow());
        }
        h
    }
    /// Back to the state of a new instance, as one does before using it for something else.
    fn reset(&mut self) {
        match &mut self.k {
            Kind::Parse(p) | Kind::Load(p) => p.p.reset(),
            Kind::Scan(p) => p.s.reset(),
            Kind::Emit(s, _) | Kind::Dump(s, _) => s.e.as_mut().unwrap().reset(),
        }
    }
    fn account(&self, c: &Case, i: usize, st: &mut Stats) {
        match &self.k {
            Kind::Parse(p) | Kind::Load(p) => st.src(&p.st, &c.rd[i].plan),
            Kind::Scan(p) => st.src(&p.st, &c.rd[i].plan),
            Kind::Emit(s, _) | Kind::Dump(s, _) => st.sink(&s.st, &c.em[i - c.rd.len()].plan),
        }
    }
}

/// Everything instance `i` does when it is alone.
fn solo(c: &Case, i: usize) -> History {
    let mut a = Actor::new(c, i);
    while a.step(c, i) {}
    a.history()
}

/// What each instance did in the interleaving: whole lives, and lives that were cut short.
#[derive(Default)]
struct Lives {
    whole: Vec<History>,
    cut: Vec<(usize, History)>,
}

/// The instances of one run. An instance is taken out while it works, so that others (never
/// itself) can be stepped from inside its source or sink.
struct World {
    c: Case,
    live: RefCell<Vec<Option<Actor>>>,
    done: RefCell<Vec<Option<History>>>,
    cut: RefCell<Vec<(usize, History)>>,
    /// Who is at work, innermost last.
    stack: RefCell<Vec<usize>>,
    last: Cell<usize>,
    switches: Cell<u64>,
    nested: Cell<u64>,
    ios: Cell<u64>,
    /// The statistics of the run, borrowed from the caller of `interleave`.
    st: *mut Stats,
}
impl World {
    fn new(c: &Case, st: &mut Stats) -> World {
        let n = actors(c);
        // life 0: all are made at the start; else when first used, and dropped when they are done
        let live = (0..n).map(|i| (c.p("life") == 0).then(|| Actor::new(c, i))).collect();
        World {
            c: c.clone(),
            live: RefCell::new(live),
            done: RefCell::new(vec![None; n]),
            cut: RefCell::default(),
            stack: RefCell::default(),
            last: Cell::new(usize::MAX),
            switches: Cell::new(0),
            nested: Cell::new(0),
            ios: Cell::new(0),
            st,
        }
    }
    #[allow(clippy::mut_from_ref)]
    fn st(&self) -> &mut Stats {
        // SAFETY: outlives the world, and no reference obtained here lives across a call.
        unsafe { &mut *self.st }
    }
    fn is_done(&self, i: usize) -> bool {
        self.done.borrow()[i].is_some()
    }
    /// One call on instance `i`. False if it had finished before.
    fn call(&self, i: usize) -> bool {
        if self.is_done(i) || self.stack.borrow().contains(&i) {
            return false;
        }
        if i != self.last.get() {
            self.switches.set(self.switches.get() + 1);
            self.last.set(i);
        }
        self.stack.borrow_mut().push(i);
        let a = self.live.borrow_mut()[i].take();
        let mut a = a.unwrap_or_else(|| Actor::new(&self.c, i));
        let went = a.step(&self.c, i);
        if went {
            self.st().mixin(i as u64);
            self.st().step(1);
            self.live.borrow_mut()[i] = Some(a);
        } else {
            a.account(&self.c, i, self.st());
            self.done.borrow_mut()[i] = Some(a.history());
            if self.c.p("life") == 0 {
                self.live.borrow_mut()[i] = Some(a);
            }
        }
        self.stack.borrow_mut().pop();
        true
    }
    fn abandon(&self, i: usize, reset: bool) {
        let a = self.live.borrow_mut()[i].take();
        if let Some(mut a) = a {
            a.account(&self.c, i, self.st());
            self.st().fault("instance_abandoned", 1);
            self.cut.borrow_mut().push((i, a.history()));
            if reset {
                a.reset();
            }
        }
    }
    /// An instance has called its source or sink: others may be used from in there.
    fn on_io(&self) {
        let k = self.ios.get();
        self.ios.set(k + 1);
        let depth = self.stack.borrow().len();
        let x = mix(self.c.p("nest") as u64, k);
        if depth == 0 || depth > 3 || x % 3 > 0 {
            return;
        }
        let n = actors(&self.c);
        let i = (x >> 8) as usize % n;
        for _ in 0..1 + (x >> 20) % 4 {
            if self.call(i) {
                self.nested.set(self.nested.get() + 1);
            }
        }
    }
}
fn interleave(c: &Case, st: &mut Stats) -> Lives {
    let n = actors(c);
    let w = Rc::new(World::new(c, st));
    let _hook = (c.p("nest") > 0).then(|| {
        let w = w.clone();
        hook(Rc::new(move || w.on_io()))
    });
    for x in &c.sched {
        let i = (*x % 1000) as usize % n;
        if *x >= 1000 && !w.is_done(i) {
            // abandoned in the middle of its life, and started again
            w.abandon(i, *x >= 2000);
        }
        w.call(i);
    }
    // then everyone runs to the end, in turn
    let mut busy = true;
    while busy {
        busy = false;
        for i in 0..n {
            busy |= w.call(i);
        }
    }
    w.st().fault("context_switch", w.switches.get());
    w.st().fault("used_from_a_callback", w.nested.get());
    let whole = w.done.borrow_mut().drain(..).map(|h| h.expect("ran to its end")).collect();
    let cut = w.cut.take();
    Lives { whole, cut }
}

/// In a pristine process: one instance alone, or (-1) all of them together.
pub fn pristine(c: &Case, what: i64) -> String {
    let mut st = Stats::default();
    st.begin();
    let r = guard(|| {
        if what >= 0 {
            return format!("{:?}", solo(c, what as usize));
        }
        let l = interleave(c, &mut st);
        l.whole.iter().map(|h| format!("{h:?}")).collect::<Vec<_>>().join("\u{1}")
    });
    match r {
        Ok(s) => s,
        Err(p) => format!("PANIC {} at {}", p.msg, p.loc),
    }
}

fn differ(a: &str, b: &str) -> String {
    let at = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let b = s.as_bytes();
        String::from_utf8_lossy(&b[at.saturating_sub(120).min(b.len())..(at + 160).min(b.len())]).into_owned()
    };
    format!("…{}… alone …{}…", cut(a), cut(b))
}

pub const C15: Prop = Prop {
    id: "C15",
    quick: 400_000,
    deep: 60,
    gen: |r, _, _| {
        let mut c = Case::new("C15");
        for _ in 0..1 + r.small(4) {
            let mut rd = gen::input(r);
            if r.chance(1, 8) {
                gen::corrupt(r, &mut rd.bytes);
            }
            if rd.bytes.len() > 3000 {
                rd.bytes.truncate(3000);
            }
            rd.plan = gen::rplan(r, &rd.bytes);
            if r.chance(1, 5) {
                rd.plan.fault = Some(gen::rfault(r, rd.bytes.len()));
            }
            c.rd.push(rd);
        }
        let mut dumpers = 0;
        for k in 0..r.small(4) {
            let mut plan = gen::wplan(r);
            if r.chance(1, 5) {
                plan.fault = Some(gen::wfault(r, 200));
            }
            if r.chance(1, 3) {
                dumpers |= 1 << k;
                for _ in 0..1 + r.small(3) {
                    let mut d = gen::doc(r);
                    if d.nodes.len() > 300 {
                        d = gen::doc(r);
                    }
                    c.docs.push(d);
                }
                c.em.push(Em { evs: vec![], cfg: gen::cfg(r), plan });
                continue;
            }
            let bad = if r.chance(1, 6) { 3 } else { 0 };
            let mut evs = gen::events(r, bad);
            if r.chance(1, 8) {
                gen::settings(r, &mut evs);
            }
            c.em.push(Em { evs, cfg: gen::cfg(r), plan });
        }
        c.set("dumpers", dumpers);
        if actors(&c) < 2 {
            let again = c.rd[0].clone();
            c.rd.push(again);
        }
        let n = actors(&c);
        let len = 20 + r.small(400);
        // bursts, up to whole lives one after another, as well as fine interleavings
        let burst = *r.pick(&[1, 1, 2, 5, 20, 400]);
        let restart = *r.pick(&[0, 0, 1, 4]);
        while c.sched.len() < len {
            let who = r.below(n) as u32;
            for _ in 0..1 + r.small(burst) {
                c.sched.push(who);
            }
            if r.below(20) < restart {
                c.sched.push([1000, 2000][r.below(2)] + r.below(n) as u32);
            }
        }
        c.set("mix", r.below(3) as i64);
        c.set("life", r.below(2) as i64);
        if r.chance(1, 3) {
            c.set("nest", 1 + r.below(1 << 30) as i64);
        }
        c.set("pristine", i64::from(r.chance(1, 8)));
        c
    },
    run: |c, st| {
        if actors(c) < 2 {
            return Res::Skip("needs two participants");
        }
        let lives = interleave(c, st);
        // Each participant behaved as it does alone.
        for i in 0..actors(c) {
            let alone = solo(c, i);
            ensure!(lives.whole[i] == alone, "interference", "instance {i}: {}, alone {}", lives.whole[i].text(), alone.text());
            for (_, h) in lives.cut.iter().filter(|(j, _)| *j == i) {
                ensure!(h.begins(&alone), "interference", "instance {i}, abandoned: {}, alone {}", h.text(), alone.text());
            }
        }
        if c.p("pristine") == 0 {
            return Res::Ok;
        }
        // The same in processes in which nothing has happened before.
        let Some(all) = fork::ask(c, -1) else { return Res::Ok };
        st.probe("pristine_processes");
        let together: Vec<&str> = all.split('\u{1}').collect();
        for i in 0..actors(c) {
            let Some(alone) = fork::ask(c, i as i64) else { return Res::Ok };
            if alone.starts_with("PANIC") || alone.starts_with("DIED") {
                return Res::Skip("fails on its own");
            }
            let it = if together.len() == actors(c) { together[i] } else { &all };
            ensure!(it == alone, "interference-pristine", "instance {i}, in a process of its own: {}", differ(it, &alone));
        }
        Res::Ok
    },
    rule: "a run steps 2 to 9 parsers, scanners, loaders, emitters and dumpers in a seeded interleaving (fine-grained, in bursts, one after another; made and dropped at different times, some abandoned and started again, in one of three runs also from inside the sources and sinks of others), each with its own source or sink plan and faults, and compares every one with its run alone, in one of eight runs also between processes in which nothing has happened before; non-trivial: at least one context switch and 3 steps",
    stubs: "byte sources and sinks (simulated BufRead / Write following explicit plans)",
    assumptions: &["single-threaded interleaving at call granularity: the library has no locks or atomics, so a finer interleaving has nothing to act on"],
};
