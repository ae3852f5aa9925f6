//! C05, C08, C14: the whole library under every kind of adversity at once.
use super::common::*;
use super::{Prop, Res};
use crate::alloc;
use crate::io::RepReader;
use crate::model::*;
use crate::real::{self, step_cap, LData, LDoc, LNode, RealParser, RealScanner};
use crate::rng::Rng;
use crate::stats::Stats;
use crate::{attempt, ensure, gen};
use libyaml_safer as y;

const BOTH_STUB: &str = "byte sources and sinks (simulated BufRead / Write following explicit plans)";

// ---------------------------------------------------------------- C05

fn nested(r: &mut Rng, thorough: bool) -> Vec<u8> {
    let depth = match r.below(10) {
        0..=5 => 50 + r.below(400),
        6..=8 => 400 + r.below(1500),
        _ => 2000 + r.below(if thorough { 20_000 } else { 3000 }),
    };
    let mut s = deep_text(r.below(9), depth, r.chance(1, 2));
    if r.chance(1, 3) {
        s.push('\n');
    }
    s.into_bytes()
}
fn deep_text(shape: usize, depth: usize, closed: bool) -> String {
    let both = |a: &str, b: &str| a.repeat(depth) + &if closed { b.repeat(depth) } else { String::new() };
    match shape {
        0 => both("[", "]"),
        1 => both("{a: ", "}"),
        2 => "- ".repeat(depth),
        3 => (0..depth.min(1200)).map(|i| " ".repeat(i) + "a:\n").collect(),
        4 => "? ".repeat(depth),
        5 => "[{".repeat(depth / 2),
        6 => "&a !t ".repeat(depth),
        7 => "a: &x [".repeat(depth),
        _ => format!("{}a{}", "[[".repeat(depth / 2), "]]".repeat(depth / 2)),
    }
}
/// A chain of collections: items, keys, values, or nodes that are each other's key and value.
fn deep_doc(shape: usize, depth: usize, style: u8) -> Doc {
    let mut nodes: Vec<Nd> = vec![];
    for i in 0..depth as u32 {
        let leaf = depth as u32;
        let k = match shape {
            0 => NodeK::Seq(vec![i + 1], style),
            1 => NodeK::Map(vec![(i + 1, leaf)], style),
            2 => NodeK::Map(vec![(leaf, i + 1)], style),
            3 => NodeK::Seq(vec![i + 1, i + 1], style),
            _ => NodeK::Map(vec![(i + 1, i + 1)], style),
        };
        nodes.push(Nd { tag: None, k });
    }
    nodes.push(Nd { tag: None, k: NodeK::Scalar("a".into(), 0) });
    Doc { nodes, version: None, tags: vec![], start_implicit: true, end_implicit: true }
}

fn garbage(r: &mut Rng) -> Vec<u8> {
    let n = r.small(300);
    let mut b: Vec<u8> = match r.below(4) {
        0 => (0..n).map(|_| r.below(256) as u8).collect(),
        1 => (0..n).map(|_| r.below(128) as u8).collect(),
        2 => (0..n).map(|_| *r.pick(b"-?:,[]{}#&*!|>'\"%@` \n\r\ta0\\~.<=+\xc3\xa9\xe2\x80\xa8")).collect(),
        _ => {
            let t = gen::soup(r);
            t.into_bytes()
        }
    };
    match r.below(8) {
        0 => {
            b.splice(0..0, [0xff, 0xfe]);
        }
        1 => {
            b.splice(0..0, [0xfe, 0xff]);
        }
        2 => {
            b.splice(0..0, [0xef, 0xbb, 0xbf]);
        }
        _ => {}
    }
    b
}

/// A graph of any shape, including cycles and nodes nobody refers to.
pub fn any_doc(r: &mut Rng) -> Doc {
    let mut d = gen::doc(r);
    if r.chance(1, 4) {
        let n = d.nodes.len();
        for _ in 0..1 + r.small(3) {
            let (p, ch) = (r.below(n), r.below(n) as u32);
            match &mut d.nodes[p].k {
                NodeK::Seq(v, _) => v.push(ch),
                NodeK::Map(v, _) => v.push((r.below(n) as u32, ch)),
                NodeK::Scalar(..) => {}
            }
        }
    }
    d
}

pub const C05: Prop = Prop {
    id: "C05",
    quick: 800_000,
    deep: 60,
    gen: |r, _, thorough| {
        let mut c = Case::new("C05");
        let k = if r.chance(1, 2500) { 6 } else { r.weighted(&[10, 6, 1, 8, 4, 4]) };
        c.set("kind", k as i64);
        if k == 6 {
            // deeper than any stack would allow; the rest is made from these numbers
            c.set("api", r.below(4) as i64);
            c.set("shape", r.below(9) as i64);
            c.set("closed", r.below(2) as i64);
            let deep = if c.p("api") == 3 { 20_000 + r.below(if thorough { 400_000 } else { 80_000 }) } else { 8_000 + r.below(if thorough { 30_000 } else { 12_000 }) };
            c.set("deep", deep as i64);
            c.em.push(Em { evs: vec![], cfg: Cfg { width: Some(-1), ..gen::cfg(r) }, plan: gen::wplan(r) });
            return c;
        }
        match k {
            0..=2 => {
                let mut rd = match k {
                    0 => gen::input(r),
                    1 => Rd { bytes: garbage(r), enc: if r.chance(1, 8) { 1 + r.below(3) as u8 } else { 0 }, plan: RPlan::default() },
                    _ => {
                        let b = nested(r, thorough);
                        Rd { bytes: b, enc: 0, plan: RPlan::default() }
                    }
                };
                if k == 0 && r.chance(1, 2) {
                    gen::corrupt(r, &mut rd.bytes);
                }
                rd.plan = gen::rplan(r, &rd.bytes);
                if r.chance(1, 3) {
                    rd.plan.fault = Some(gen::rfault(r, rd.bytes.len()));
                }
                c.rd.push(rd);
                c.set("api", r.below(5) as i64);
                c.set("more", r.small(4) as i64);
            }
            3 => {
                let bad = r.small(20);
                let mut evs = gen::events(r, bad);
                for _ in 0..r.small(3) {
                    gen::scramble(r, &mut evs);
                }
                if r.chance(1, 4) && !evs.is_empty() {
                    gen::settings(r, &mut evs);
                }
                let mut plan = gen::wplan(r);
                if r.chance(1, 3) {
                    plan.fault = Some(gen::wfault(r, 400));
                }
                c.em.push(Em { evs, cfg: gen::cfg(r), plan });
            }
            4 => {
                for _ in 0..1 + r.small(3) {
                    c.docs.push(any_doc(r));
                }
                let mut plan = gen::wplan(r);
                if r.chance(1, 3) {
                    plan.fault = Some(gen::wfault(r, 400));
                }
                c.em.push(Em { evs: vec![], cfg: gen::cfg(r), plan });
            }
            _ => {
                // pipeline: whatever is parsed, well-formed or not, goes to an emitter
                let mut rd = gen::input(r);
                while gen::very_deep(&rd.bytes) {
                    rd = gen::input(r);
                }
                if r.chance(1, 3) {
                    gen::corrupt(r, &mut rd.bytes);
                }
                rd.plan = gen::rplan(r, &rd.bytes);
                if r.chance(1, 4) {
                    rd.plan.fault = Some(gen::rfault(r, rd.bytes.len()));
                }
                c.rd.push(rd);
                let mut plan = gen::wplan(r);
                if r.chance(1, 4) {
                    plan.fault = Some(gen::wfault(r, 400));
                }
                c.em.push(Em { evs: vec![], cfg: gen::cfg(r), plan });
                c.set("more", r.small(4) as i64);
            }
        }
        c
    },
    run: |c, st| {
        let base = alloc::live();
        alloc::reset_peak();
        let more = c.p("more").clamp(0, 20);
        let mut size;
        match (c.p("kind"), c.rd.first(), c.em.first()) {
            (0..=2, Some(rd), _) => {
                size = rd.bytes.len();
                let cap = step_cap(size);
                match c.p("api") {
                    0 | 3 => {
                        let mut p = RealParser::new(rd, 1);
                        let t = if c.p("api") == 0 { p.run(cap) } else { real::parse_iter(rd, 1).0 };
                        hash(st, &t);
                        ensure!(t.end != End::Runaway, "runaway", "no end after {cap} events");
                        for _ in 0..more {
                            let _ = p.step();
                        }
                        attempt!(contract(&p.st));
                        st.src(&p.st, &rd.plan);
                    }
                    1 | 4 => {
                        let mut s = RealScanner::new(rd, 1);
                        let t = s.run(cap);
                        hash(st, &t);
                        ensure!(t.end != End::Runaway, "runaway", "no end after {cap} tokens");
                        for _ in 0..more {
                            let _ = s.step();
                        }
                        attempt!(contract(&s.st));
                        st.src(&s.st, &rd.plan);
                    }
                    _ => {
                        let mut p = RealParser::new(rd, 1);
                        let (d, e) = p.run_load(cap);
                        st.step(d.iter().map(|d| d.nodes.len()).sum());
                        ensure!(e != End::Runaway, "runaway", "no end after {cap} documents");
                        for _ in 0..more {
                            let _ = p.load();
                        }
                        attempt!(contract(&p.st));
                        st.src(&p.st, &rd.plan);
                    }
                }
                if c.p("kind") == 2 {
                    st.probe("deep_nesting");
                }
            }
            (3, _, Some(em)) => {
                size = em.evs.iter().map(|e| if let Ev::Scalar { value, .. } = e { value.len() } else { 8 }).sum::<usize>() * 8;
                let ((), out, io) = real::with_emitter(&em.plan, &em.cfg, 1, |e, _, _| {
                    // the caller does not stop at failures
                    let mut started = false;
                    for ev in &em.evs {
                        started |= matches!(ev, Ev::StreamStart(_));
                        if real::emit_ev(e, ev).is_err() {
                            st.probe("emitter_used_after_error");
                            if started && em.cfg.enc != 0 {
                                let _ = e.flush();
                            }
                        }
                        st.step(1);
                    }
                });
                size += out.len();
                st.sink(&io, &em.plan);
                st.fault("illegal_call_sequence", 1);
            }
            (4, _, Some(em)) => {
                size = c.docs.iter().map(|d| d.nodes.iter().map(|n| if let NodeK::Scalar(v, _) = &n.k { v.len() + 64 } else { 64 }).sum::<usize>()).sum::<usize>() * 8;
                let ((), out, io) = real::with_emitter(&em.plan, &em.cfg, 1, |e, _, _| {
                    let mut opened = false;
                    for d in &c.docs {
                        opened |= real::build_doc(d).dump(e).is_ok();
                        st.step(d.nodes.len());
                    }
                    if opened {
                        let _ = e.close();
                        let _ = e.close();
                    }
                });
                size += out.len();
                st.sink(&io, &em.plan);
                st.probe("dumped_documents");
            }
            (5, Some(rd), Some(em)) => {
                size = rd.bytes.len();
                let cap = step_cap(size);
                let (t, out, io) = real::with_emitter(&em.plan, &em.cfg, 2, |e, _, _| {
                    let mut p = RealParser::new(rd, 1);
                    let mut steps = vec![];
                    let mut left = more;
                    loop {
                        match p.step() {
                            Ok(s) => {
                                let end = s.ev == Ev::StreamEnd;
                                let _ = real::emit_ev(e, &s.ev);
                                steps.push(s);
                                if end {
                                    return (Trace { steps, end: End::Eos }, p.st);
                                }
                            }
                            Err(x) => {
                                if left == 0 {
                                    return (Trace { steps, end: End::Err(x) }, p.st);
                                }
                                left -= 1;
                            }
                        }
                        if steps.len() > cap {
                            return (Trace { steps, end: End::Runaway }, p.st);
                        }
                    }
                });
                hash(st, &t.0);
                st.src(&t.1, &rd.plan);
                size += out.len();
                st.sink(&io, &em.plan);
                ensure!(t.0.end != End::Runaway, "runaway", "no end after {cap} events");
                st.probe("pipeline");
            }
            (6, _, Some(em)) => {
                let depth = c.p("deep").clamp(0, 1_000_000) as usize;
                let shape = c.p("shape").clamp(0, 8) as usize;
                let rd = Rd { bytes: deep_text(shape, depth, c.p("closed") == 1).into_bytes(), enc: 0, plan: RPlan::default() };
                size = rd.bytes.len();
                let cap = step_cap(size);
                match c.p("api") {
                    0 => {
                        let t = RealScanner::new(&rd, 1).run(cap);
                        st.step(t.steps.len());
                        ensure!(t.end != End::Runaway, "runaway", "no end after {cap} tokens");
                    }
                    1 => {
                        let t = RealParser::new(&rd, 1).run(cap);
                        hash(st, &t);
                        ensure!(t.end != End::Runaway, "runaway", "no end after {cap} events");
                        // and out again, in flow style: a block would need more indentation than memory
                        let evs: Vec<Ev> = t
                            .steps
                            .into_iter()
                            .map(|s| match s.ev {
                                Ev::SeqStart { anchor, tag, implicit, .. } => Ev::SeqStart { anchor, tag, implicit, style: 2 },
                                Ev::MapStart { anchor, tag, implicit, .. } => Ev::MapStart { anchor, tag, implicit, style: 2 },
                                e => e,
                            })
                            .collect();
                        if !em.cfg.canonical {
                            let o = real::emit(&Em { evs, cfg: em.cfg.clone(), plan: em.plan.clone() }, 2);
                            size += o.0.out.len();
                            st.sink(&o.1, &em.plan);
                        }
                    }
                    2 => {
                        let (d, e) = RealParser::new(&rd, 1).run_load(cap);
                        st.step(d.iter().map(|d| d.nodes.len()).sum());
                        ensure!(e != End::Runaway, "runaway", "no end after {cap} documents");
                    }
                    _ => {
                        let flow = !em.cfg.canonical;
                        let d = deep_doc(shape % 5, if flow { depth } else { depth.min(2000) }, if flow { 2 } else { 0 });
                        st.step(d.nodes.len());
                        size = d.nodes.len() * 64;
                        let o = real::dump_all(&[d], &em.plan, &em.cfg, 2);
                        size += o.0.out.len();
                        st.sink(&o.1, &em.plan);
                        ensure!(o.0.err.is_none(), "rejected", "a document of depth {depth}: {:?}", o.0.err);
                    }
                }
                st.probe("very_deep_nesting");
            }
            _ => return Res::Skip("incomplete"),
        }
        let used = alloc::peak().saturating_sub(base);
        let limit = 2_000_000 + 1500 * size;
        ensure!(used <= limit, "memory", "{used} bytes of memory were in use at once for {size} bytes of input");
        Res::Ok
    },
    rule: "a run throws one adversarial workload at the library (corrupted or random bytes, nesting up to 100 000 deep on a stack of 1 MiB, ill-formed emitter call sequences continued after failures, arbitrary document graphs, a parser feeding an emitter) through sources and sinks with random delivery plans and faults; it must end without panic, abort, runaway memory or endless looping; non-trivial: a fault, EINTR, short transfer or illegal call sequence and at least 3 steps",
    stubs: BOTH_STUB,
    assumptions: &["documented misuse is not simulated: set_output/set_encoding twice, flush before the stream start, node indexes that do not exist", "allocation failure aborts by Rust convention and is not injected"],
};

// ---------------------------------------------------------------- C08

struct Windows {
    n: u64,
    base: usize,
    early: usize,
    late: usize,
    top: usize,
}
impl Windows {
    fn new(n: u64) -> Windows {
        Windows { n, base: alloc::live(), early: usize::MAX, late: usize::MAX, top: 0 }
    }
    fn at(&mut self, i: u64) {
        let live = alloc::live().saturating_sub(self.base);
        self.top = self.top.max(live);
        if i * 10 >= self.n && i * 4 <= self.n {
            self.early = self.early.min(live);
        } else if i * 20 >= self.n * 17 {
            self.late = self.late.min(live);
        }
    }
    fn grew(&self) -> Option<usize> {
        if self.early == usize::MAX || self.late == usize::MAX || self.late <= self.early + 2048 {
            None
        } else {
            Some(self.late - self.early)
        }
    }
}

fn c08_once(c: &Case, n: u64, st: &mut Stats) -> Result<Windows, String> {
    let kind = c.p("kind");
    let piece = c.p("piece").clamp(1, 1 << 20) as usize;
    let mut w = Windows::new(n);
    match kind {
        0..=3 => {
            let rd = &c.rd[0];
            // a single long document: the unit is an item of one collection
            let (head, tail): (&[u8], &[u8]) = match c.p("shape") {
                1 => (b"---\n", b""),
                2 => (b"--- [\n", b"]\n"),
                3 => (b"--- {\n", b"}\n"),
                _ => (b"", b""),
            };
            let src = RepReader::new(head, &rd.bytes, n, tail, piece);
            let io = src.st.clone();
            let mut i;
            match kind {
                0 => {
                    let mut p = RealParser::repeat(src);
                    w.base = alloc::live();
                    let mut depth = 0u64;
                    loop {
                        let s = p.step().map_err(|e| e.display)?;
                        let d0 = depth;
                        match s.ev {
                            Ev::StreamEnd => break,
                            Ev::DocStart { .. } | Ev::SeqStart { .. } | Ev::MapStart { .. } => depth += 1,
                            Ev::DocEnd(_) | Ev::SeqEnd | Ev::MapEnd => depth -= 1,
                            _ => {}
                        }
                        st.step(1);
                        let item = if c.p("shape") == 0 { matches!(s.ev, Ev::DocEnd(_)) } else { d0 <= 3 };
                        drop(s);
                        if item {
                            i = io.pulled.get() / (rd.bytes.len() as u64).max(1);
                            w.at(i);
                        }
                    }
                }
                1 => {
                    let mut p = RealScanner::repeat(src);
                    w.base = alloc::live();
                    loop {
                        let s = p.step().map_err(|e| e.display)?;
                        if s.ev.kind == "STREAM-END" {
                            break;
                        }
                        drop(s);
                        st.step(1);
                        i = io.pulled.get() / (rd.bytes.len() as u64).max(1);
                        w.at(i);
                    }
                }
                _ => {
                    let mut p = RealParser::repeat(src);
                    w.base = alloc::live();
                    loop {
                        let d = p.load().map_err(|e| e.display)?;
                        if d.nodes.is_empty() {
                            break;
                        }
                        st.step(d.nodes.len());
                        drop(d);
                        i = io.pulled.get() / (rd.bytes.len() as u64).max(1);
                        w.at(i);
                    }
                }
            }
            st.src(&io, &RPlan { rest: piece as u32, ..RPlan::default() });
        }
        4 => {
            // the same parser reset for input after input
            let rd = &c.rd[0];
            let mut p = RealParser::new(rd, 1);
            w.base = alloc::live();
            for i in 0..n {
                let _ = if c.p("shape") == 1 { p.run_load(1000).1 } else { p.run(100_000).end };
                st.src(&p.st, &rd.plan);
                p.reuse(&Rd { bytes: crate::io::numbered(&rd.bytes, i), ..rd.clone() }, 1);
                w.at(i);
                st.step(1);
            }
        }
        5 | 6 => {
            let em = &c.em[0];
            let cfg = em.cfg.clone();
            let mut sink = CountingSink::default();
            let mut e = y::Emitter::new();
            e.set_output(&mut sink);
            real::configure(&mut e, &cfg);
            w.base = alloc::live();
            let r: Result<(), y::Error> = (|| {
                if kind == 5 {
                    e.emit(y::Event::stream_start(y::Encoding::Any))?;
                    let long = c.p("shape") != 0;
                    if long {
                        e.emit(real::ev_to(&Ev::DocStart { version: None, tags: vec![], implicit: false }))?;
                        e.emit(real::ev_to(&Ev::SeqStart { anchor: None, tag: None, implicit: true, style: c.p("shape") as u8 }))?;
                    }
                    for i in 0..n {
                        for ev in &em.evs {
                            if long && matches!(ev, Ev::DocStart { .. } | Ev::DocEnd(_) | Ev::StreamStart(_) | Ev::StreamEnd) {
                                continue;
                            }
                            real::emit_ev(&mut e, &unique_ev(ev, i))?;
                            st.step(1);
                        }
                        w.at(i);
                    }
                } else {
                    for i in 0..n {
                        for d in &c.docs {
                            real::build_doc(d).dump(&mut e)?;
                        }
                        st.step(1);
                        w.at(i);
                    }
                }
                Ok(())
            })();
            r.map_err(|e| e.to_string())?;
            st.fault("short_write", 1);
        }
        _ => return Err("unknown".into()),
    }
    Ok(w)
}

/// The event with the counter in its names (see `io::numbered`).
fn unique_ev(ev: &Ev, i: u64) -> Ev {
    let f = |s: &mut String| {
        if s.contains("0000") {
            *s = s.replace("0000", &format!("{:04}", i % 10_000));
        }
    };
    let mut e = ev.clone();
    match &mut e {
        Ev::Alias(a) => f(a),
        Ev::Scalar { anchor, tag, .. } | Ev::SeqStart { anchor, tag, .. } | Ev::MapStart { anchor, tag, .. } => {
            for s in [anchor, tag].into_iter().flatten() {
                f(s);
            }
        }
        Ev::DocStart { tags, .. } => {
            for t in tags {
                f(&mut t.0);
                f(&mut t.1);
            }
        }
        _ => {}
    }
    e
}

#[derive(Default)]
struct CountingSink(u64);
impl std::io::Write for CountingSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(4000);
        self.0 += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Units that can be repeated into a longer valid stream or document.
fn unit(r: &mut Rng, shape: i64) -> Vec<u8> {
    let doc = |r: &mut Rng| -> String {
        loop {
            let mut t = gen::good_text(r);
            if t.len() > 600 {
                continue;
            }
            if !t.ends_with('\n') {
                t.push('\n');
            }
            let t = format!("---\n{t}...\n");
            let rd = Rd { bytes: t.repeat(2).into_bytes(), enc: 0, plan: RPlan::default() };
            if real::parse(&rd, 0).0.end == End::Eos && real::load(&rd, 0).1 == End::Eos {
                return t;
            }
        }
    };
    let items: [&[&str]; 4] = [
        &[
            "%YAML 1.1\n%TAG !e! tag:e.com,1:\n---\n- &a !e!x [1, {b: *a2}]\n...\n",
            "%TAG !e! tag:e.com,1:\n--- !e!x\na: &x {b: [c, ? d : e]}\nf: *x\n...\n",
            "a: b\n---\n",
            "%TAG !e0000! tag:e.com,1:\n--- !e0000!x\na: &x0000 {b: [c, ? d : e]}\nf: *x0000\n...\n",
            "%TAG !e! tag:e.com,0000:\n---\n- &k0000 !e!x b\n- *k0000\n- key0000: !<v0000> w0000\n...\n",
            "--- &r0000\n- &a0000 b\n- *a0000\n",
            "--- |\n literal\n text\n--- >\n folded\n\n text\n",
            "--- {a: [b, c: d]}\n",
            "---\n? - a\n: - b\n",
            "- &a b\n- *a\n...\n",
            "# comment\n---\na:\n- b\n- c: d\n  e: f\n",
        ],
        &[
            "- a\n",
            "- {b: [c, d], e: \"f g\"}\n",
            "- &x a: b\n  c:\n  - d\n  - e\n- *x\n",
            "- ? k\n  : v\n- |\n  text\n- >-\n  more\n  text\n",
            "- - - - a\n",
            "- &a0000 key0000: !t0000 value0000\n- *a0000\n",
            "- !!str 'quoted'\n# comment\n",
            "- a: &z\n    b: *z\n",
        ],
        &["a,\n", "{b: c}, [d, e: f],\n", "? g : h,\n", "\"i\": &x j, *x ,\n", "[[[[k]]]], # comment\n", "&a0000 !b0000 c0000, *a0000 ,\n", "!t l, !!m n,\n"],
        &["a: b,\n", "? c,\n", "{d: e}: [f],\n", "\"g\":h,\n", "&a0000 k0000: !t0000 v0000,\n", "&i j: *i ,\n", "k,\n"],
    ];
    if shape == 0 && r.chance(1, 2) {
        return doc(r).into_bytes();
    }
    let pool = items[shape as usize];
    let mut s = String::new();
    for _ in 0..1 + r.small(3) {
        s.push_str(r.pick::<&str>(pool));
    }
    s.into_bytes()
}

pub const C08: Prop = Prop {
    id: "C08",
    quick: 7_000,
    deep: 60,
    gen: |r, _, _| {
        let mut c = Case::new("C08");
        let kind = r.weighted(&[6, 3, 4, 0, 3, 4, 3]) as i64;
        c.set("kind", kind);
        c.set("n", *r.pick(&[2000, 3000, 6000]));
        c.set("piece", *r.pick(&[1i64, 7, 64, 100, 1000, 4096, 65536]));
        match kind {
            0 | 1 => {
                let shape = r.weighted(&[4, 3, 2, 2]) as i64;
                c.set("shape", shape);
                let b = unit(r, shape);
                c.rd.push(Rd { bytes: b, enc: 0, plan: RPlan::default() });
            }
            2 => {
                c.set("shape", 0);
                let b = unit(r, 0);
                c.rd.push(Rd { bytes: b, enc: 0, plan: RPlan::default() });
            }
            4 => {
                c.set("shape", r.below(2) as i64);
                let mut rd = gen::input(r);
                if rd.bytes.len() > 400 {
                    rd.bytes.truncate(400);
                }
                rd.plan = gen::rplan(r, &rd.bytes);
                if r.chance(1, 3) {
                    rd.plan.fault = Some(gen::rfault(r, rd.bytes.len()));
                }
                c.rd.push(rd);
            }
            5 => {
                c.set("shape", r.below(3) as i64);
                let mut evs = gen::events(r, 0);
                evs.retain(|e| !matches!(e, Ev::StreamStart(_) | Ev::StreamEnd));
                if r.chance(1, 2) {
                    // names that are different in every repetition
                    for e in &mut evs {
                        match e {
                            Ev::Alias(a) => a.push_str("0000"),
                            Ev::Scalar { anchor, tag, .. } | Ev::SeqStart { anchor, tag, .. } | Ev::MapStart { anchor, tag, .. } => {
                                for s in [anchor, tag].into_iter().flatten() {
                                    s.push_str("0000");
                                }
                            }
                            Ev::DocStart { tags, .. } => {
                                for t in tags {
                                    t.1.push_str("0000");
                                    if t.0.len() > 2 {
                                        t.0 = format!("{}0000!", t.0.trim_end_matches('!'));
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                }
                c.em.push(Em { evs, cfg: gen::cfg(r), plan: WPlan::default() });
            }
            _ => {
                let d = gen::doc(r);
                c.docs.push(d);
                c.em.push(Em { evs: vec![], cfg: gen::cfg(r), plan: WPlan::default() });
            }
        }
        c
    },
    run: |c, st| {
        let size: usize = c.rd.iter().map(|r| r.bytes.len()).sum::<usize>()
            + c.em.iter().flat_map(|e| &e.evs).map(|e| if let Ev::Scalar { value, .. } = e { value.len() + 40 } else { 40 }).sum::<usize>()
            + c.docs.iter().flat_map(|d| &d.nodes).map(|n| if let NodeK::Scalar(v, _) = &n.k { v.len() + 40 } else { 40 }).sum::<usize>();
        if size == 0 {
            return Res::Skip("nothing to repeat");
        }
        // about the same amount of work per run
        let n = (c.p("n").max(400) as u64).min((1_200_000 / size as u64).max(400));
        let w = match c08_once(c, n, st) {
            Ok(w) => w,
            Err(_) => return Res::Skip("the repeated unit is not valid"),
        };
        st.probe(match c.p("kind") {
            0 => "long_stream_parsed",
            1 => "long_stream_scanned",
            2 => "long_stream_loaded",
            4 => "parser_reset_repeatedly",
            5 => "long_stream_emitted",
            _ => "many_documents_dumped",
        });
        st.add_probe("repetitions", n);
        let limit = 400_000 + 1500 * size;
        ensure!(w.top <= limit, "memory", "{} bytes in use while handling units of {size} bytes", w.top);
        if let Some(g) = w.grew() {
            // A buffer may still have been growing to its final size; a leak keeps growing.
            let mut late = vec![w.late];
            for k in [4, 16] {
                let Ok(w) = c08_once(c, n * k, st) else { return Res::Skip("the repeated unit is not valid") };
                late.push(w.late);
            }
            let by = |i: usize| late[i + 1].saturating_sub(late[i]);
            ensure!(
                by(0) <= 2048 || by(1) < 2 * by(0),
                "growth",
                "memory in use grows with the length of the stream: {g} bytes more after {n} repetitions, and in use after {n}, {} and {}: {late:?}",
                n * 4,
                n * 16
            );
        }
        Res::Ok
    },
    rule: "a run repeats one unit (a document, or an item of one long collection) thousands of times through the parser, scanner, loader, a repeatedly reset parser, the emitter or the dumper, over a source with a random piece size, and compares the live heap early and late in the stream; non-trivial: short deliveries happened and at least 3 steps were taken",
    stubs: "the byte source (a generator that never holds the whole text), the byte sink (counts bytes), the global allocator (counts live bytes)",
    assumptions: &["live heap is measured at unit boundaries; growth is confirmed with streams four and sixteen times as long"],
};

// ---------------------------------------------------------------- C14

/// The documents that a well-formed event stream denotes, and how composing it must end.
pub fn compose(t: &Trace<Ev>) -> (Vec<LDoc>, Option<(String, Mk)>) {
    const STR: &str = "tag:yaml.org,2002:str";
    const SEQ: &str = "tag:yaml.org,2002:seq";
    const MAP: &str = "tag:yaml.org,2002:map";
    let tag = |t: &Option<String>, d: &str| -> Option<String> {
        Some(match t.as_deref() {
            None | Some("!") => d.to_string(),
            Some(x) => x.to_string(),
        })
    };
    let mut docs = vec![];
    let mut d = LDoc::default();
    let mut open: Vec<(usize, Option<i32>)> = vec![];
    let mut anchors: Vec<(String, i32)> = vec![];
    fn link(d: &mut LDoc, open: &mut [(usize, Option<i32>)], id: i32) {
        if let Some((p, key)) = open.last_mut() {
            match &mut d.nodes[*p].data {
                LData::Seq(v, _) => v.push(id),
                LData::Map(v, _) => match key.take() {
                    None => *key = Some(id),
                    Some(k) => v.push((k, id)),
                },
                _ => {}
            }
        }
    }
    for s in &t.steps {
        let node = |data: LData, tag: Option<String>| LNode { tag, data, sm: s.sm, em: s.em };
        let (anchor, new) = match &s.ev {
            Ev::StreamStart(_) | Ev::StreamEnd | Ev::Set(..) => continue,
            Ev::DocStart { version, tags, implicit } => {
                d = LDoc { version: *version, tags: tags.clone(), start_implicit: *implicit, sm: s.sm, ..LDoc::default() };
                anchors.clear();
                open.clear();
                continue;
            }
            Ev::DocEnd(i) => {
                d.end_implicit = *i;
                d.em = s.em;
                docs.push(std::mem::take(&mut d));
                continue;
            }
            Ev::Alias(a) => {
                match anchors.iter().find(|x| x.0 == *a) {
                    Some((_, id)) => {
                        let id = *id;
                        link(&mut d, &mut open, id);
                    }
                    None => return (docs, Some(("found undefined alias".into(), s.sm))),
                }
                continue;
            }
            Ev::SeqEnd | Ev::MapEnd => {
                if let Some((p, _)) = open.pop() {
                    d.nodes[p].em = s.em;
                }
                continue;
            }
            Ev::Scalar { anchor, tag: t, value, style, .. } => (anchor, node(LData::Scalar(value.clone(), *style), tag(t, STR))),
            Ev::SeqStart { anchor, tag: t, style, .. } => (anchor, node(LData::Seq(vec![], *style), tag(t, SEQ))),
            Ev::MapStart { anchor, tag: t, style, .. } => (anchor, node(LData::Map(vec![], *style), tag(t, MAP))),
        };
        let coll = !matches!(new.data, LData::Scalar(..));
        d.nodes.push(new);
        let id = d.nodes.len() as i32;
        if let Some(a) = anchor {
            if anchors.iter().any(|x| x.0 == *a) {
                return (docs, Some(("found duplicate anchor".into(), s.sm)));
            }
            anchors.push((a.clone(), id));
        }
        link(&mut d, &mut open, id);
        if coll {
            open.push((id as usize - 1, None));
        }
    }
    (docs, None)
}

pub fn doc_diff(a: &LDoc, b: &LDoc) -> Option<String> {
    for (i, (x, y)) in a.nodes.iter().zip(&b.nodes).enumerate() {
        if x != y {
            return Some(format!("node {}: {x:?}, model {y:?}", i + 1));
        }
    }
    if a.nodes.len() != b.nodes.len() {
        return Some(format!("{} nodes, model {}", a.nodes.len(), b.nodes.len()));
    }
    if a != b {
        return Some(format!(
            "document {:?}, model {:?}",
            LDoc { nodes: vec![], ..a.clone() },
            LDoc { nodes: vec![], ..b.clone() }
        ));
    }
    None
}

/// Is the loaded graph the one that was built, seen from the root?
pub fn isomorphic(built: &Doc, got: &LDoc) -> Option<String> {
    let mut map: Vec<Option<i32>> = vec![None; built.nodes.len()];
    let mut used = std::collections::HashSet::new();
    let mut todo = vec![(0u32, 1i32)];
    while let Some((b, g)) = todo.pop() {
        match map[b as usize] {
            Some(x) if x == g => continue,
            Some(x) => return Some(format!("node {} is both {x} and {g} after loading: sharing was lost", b + 1)),
            None => {}
        }
        if !used.insert(g) {
            return Some(format!("loaded node {g} stands for two different nodes"));
        }
        map[b as usize] = Some(g);
        let Some(n) = got.nodes.get(g as usize - 1) else { return Some(format!("loaded node {g} does not exist")) };
        let w = &built.nodes[b as usize];
        let dflt = match w.k {
            NodeK::Scalar(..) => "tag:yaml.org,2002:str",
            NodeK::Seq(..) => "tag:yaml.org,2002:seq",
            NodeK::Map(..) => "tag:yaml.org,2002:map",
        };
        let want = w.tag.clone().unwrap_or_else(|| dflt.into());
        if n.tag.as_deref() != Some(&want) {
            return Some(format!("node {}: tag {want:?} came back as {:?}", b + 1, n.tag));
        }
        match (&w.k, &n.data) {
            (NodeK::Scalar(v, _), LData::Scalar(x, _)) => {
                if v != x {
                    return Some(format!("node {}: {v:?} came back as {x:?}", b + 1));
                }
            }
            (NodeK::Seq(v, _), LData::Seq(x, _)) if v.len() == x.len() => {
                todo.extend(v.iter().copied().zip(x.iter().copied()));
            }
            (NodeK::Map(v, _), LData::Map(x, _)) if v.len() == x.len() => {
                for (p, q) in v.iter().zip(x) {
                    todo.push((p.0, q.0));
                    todo.push((p.1, q.1));
                }
            }
            (a, b2) => return Some(format!("node {}: {a:?} came back as {b2:?}", b + 1)),
        }
    }
    None
}

pub const C14: Prop = Prop {
    id: "C14",
    quick: 3_000_000,
    deep: 60,
    gen: |r, _, _| {
        let mut c = Case::new("C14");
        if r.chance(1, 2) {
            let mut rd = gen::input(r);
            match r.below(6) {
                0 => gen::corrupt(r, &mut rd.bytes),
                1 if !rd.bytes.is_empty() => {
                    let n = r.below(rd.bytes.len());
                    rd.bytes.truncate(n);
                }
                _ => {}
            }
            rd.plan = gen::rplan(r, &rd.bytes);
            if r.chance(1, 5) {
                rd.plan.fault = Some(gen::rfault(r, rd.bytes.len()));
            }
            c.rd.push(rd);
        } else {
            for _ in 0..1 + r.small(3) {
                c.docs.push(any_doc(r));
            }
            c.em.push(Em { evs: vec![], cfg: gen::cfg(r), plan: gen::wplan(r) });
            c.rd.push(Rd { bytes: vec![], enc: 0, plan: gen::rplan(r, &[0u8; 300]) });
        }
        c
    },
    run: |c, st| {
        let Some(rd) = c.rd.first() else { return Res::Skip("no input") };
        if c.docs.is_empty() {
            // loading: the parser's own events on the same source are the input of the model
            let (docs, end, io) = real::load(rd, 1);
            st.step(docs.iter().map(|d| d.nodes.len() + 1).sum());
            st.src(&io, &rd.plan);
            let (t, _) = real::parse(rd, 1);
            let (want, err) = compose(&t);
            for (i, (a, b)) in docs.iter().zip(&want).enumerate() {
                if let Some(m) = doc_diff(a, b) {
                    return Res::Fail("document", format!("document {i}: {m}"));
                }
            }
            st.add_probe("loaded_document", docs.len() as u64);
            ensure!(docs.len() == want.len(), "documents", "{} documents, model {} (ends with {end:?})", docs.len(), want.len());
            match (&err, &end) {
                (Some((p, m)), End::Err(e)) => {
                    let text = e.context.as_deref().unwrap_or("").contains(p.as_str()) || e.problem.contains(p.as_str());
                    ensure!(e.kind == EK::Composer && text && e.pmark == Some(*m), "error", "{e:?}, model {p} at {m:?}");
                    st.probe("composer_error");
                }
                (Some(x), e) => return Res::Fail("error", format!("{e:?}, model {x:?}")),
                (None, e) => ensure!(*e == t.end, "error", "{e:?}, the parser {:?}", t.end),
            }
            return Res::Ok;
        }
        let Some(em) = c.em.first() else { return Res::Skip("no output") };
        if c.docs.iter().any(|d| d.nodes.is_empty()) {
            return Res::Skip("empty document");
        }
        let (run, io) = real::dump_all(&c.docs, &em.plan, &em.cfg, 1);
        st.sink(&io, &em.plan);
        if let Some((i, e)) = &run.err {
            return Res::Fail("rejected", format!("dump {i}: {}", e.display));
        }
        let src = Rd { bytes: run.out.clone(), enc: 0, plan: rd.plan.clone() };
        let (docs, end, io) = real::load(&src, 2);
        st.src(&io, &src.plan);
        st.step(docs.iter().map(|d| d.nodes.len() + 1).sum());
        st.add_probe("dumped_and_loaded_document", docs.len() as u64);
        let text = || String::from_utf8_lossy(&run.out).chars().take(400).collect::<String>();
        ensure!(end == End::Eos, "unreadable", "{end:?} from {:?}", text());
        ensure!(docs.len() == c.docs.len(), "documents", "{} documents came back as {} from {:?}", c.docs.len(), docs.len(), text());
        for (i, (a, b)) in c.docs.iter().zip(&docs).enumerate() {
            if let Some(m) = isomorphic(a, b) {
                return Res::Fail("graph", format!("document {i}: {m} from {:?}", text()));
            }
            ensure!(b.version == a.version && b.tags == a.tags, "directives", "{:?} {:?} came back as {:?} {:?}", a.version, a.tags, b.version, b.tags);
            ensure!(a.start_implicit || !b.start_implicit, "markers", "the explicit start of document {i} became implicit in {:?}", text());
            ensure!(a.end_implicit || !b.end_implicit, "markers", "the explicit end of document {i} became implicit in {:?}", text());
        }
        Res::Ok
    },
    rule: "a run either loads documents from a simulated source (valid, malformed, torn or failing) and compares them node by node with a composer model over the parser's events, or builds document graphs (shared nodes, cycles) through the public API, dumps them to a simulated sink, loads the bytes back and compares the graphs; non-trivial: a fault, short transfer or EINTR fired and at least 3 nodes were compared",
    stubs: BOTH_STUB,
    assumptions: &["the parser's events are C02's subject; here they are the model's input"],
};
