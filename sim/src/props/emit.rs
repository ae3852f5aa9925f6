//! C09-C13: the output side (emitter, dumper) under simulated sinks, and what survives in storage.
use super::common::*;
use super::{Prop, Res};
use crate::guard::guard;
use crate::io::kind;
use crate::model::*;
use crate::real;
use crate::rng::Rng;
use crate::stats::Stats;
use crate::{attempt, ensure, gen, refr};
use libyaml_safer as y;

const SINK_STUB: &str = "the byte sink (an in-process Write following a plan: accepted sizes, EINTR, faults)";

fn note_run(st: &mut Stats, run: &real::EmitRun) {
    st.step(run.lens.len());
    st.mixin(run.out.len() as u64);
    st.mixin(run.err.as_ref().map_or(0, |e| e.0 as u64 + 1));
    if let Some((_, e)) = &run.err {
        st.probe(if e.kind == EK::Io { "io_error" } else { "emitter_error" });
    }
}

pub fn out_events(r: &mut Rng) -> Vec<Ev> {
    let mut evs = out_events0(r);
    if r.chance(1, 10) {
        gen::settings(r, &mut evs);
    }
    evs
}
fn out_events0(r: &mut Rng) -> Vec<Ev> {
    if r.chance(1, 300) {
        return gen::big_events(r);
    }
    match r.below(10) {
        0..=5 => {
            let bad = if r.chance(1, 4) { 3 } else { 0 };
            gen::events(r, bad)
        }
        6 => gen::faithful_events(r),
        _ => parsed_events(r),
    }
}
/// What the parser makes of some text.
/// How much these events will write, by the reference where it can tell; used to place faults.
pub fn out_len(evs: &[Ev], cfg: &Cfg) -> usize {
    let utf16 = cfg.enc > 1 || matches!(evs.first(), Some(Ev::StreamStart(2..)));
    let n = if has_nul(evs) || !matches!(evs.first(), Some(Ev::StreamStart(_))) {
        None
    } else {
        guard(|| refr::emit(&Em { evs: evs.to_vec(), cfg: cfg.clone(), plan: WPlan::default() }).out.len()).ok()
    };
    n.unwrap_or_else(|| evs.iter().map(|e| if let Ev::Scalar { value, .. } = e { value.len() + 8 } else { 6 }).sum()) << usize::from(utf16)
}
/// The same for documents, roughly.
pub fn dump_len(r: &mut Rng, docs: &[Doc], cfg: &Cfg) -> usize {
    let n: usize = docs
        .iter()
        .flat_map(|d| &d.nodes)
        .map(|n| match &n.k {
            NodeK::Scalar(v, _) => v.len() + 2 + n.tag.as_ref().map_or(0, |t| t.len() + 4),
            NodeK::Seq(v, _) => 2 + 4 * v.len(),
            NodeK::Map(v, _) => 2 + 5 * v.len(),
        })
        .sum();
    (n * *r.pick(&[1, 2, 2, 3, 5]) / 2 + 4) << usize::from(cfg.enc > 1)
}

fn parsed_events(r: &mut Rng) -> Vec<Ev> {
    let t = gen::good_text(r);
    // by the reference: what is generated does not depend on the code under test
    let cap = real::step_cap(t.len());
    let tr = refr::parse(t.as_bytes(), 0, usize::MAX, cap);
    let mut evs: Vec<Ev> = tr.steps.into_iter().map(|s| s.ev).collect();
    if tr.end != End::Eos {
        // keep the whole documents
        let n = evs.iter().rposition(|e| matches!(e, Ev::DocEnd(_))).map_or(1.min(evs.len()), |i| i + 1);
        evs.truncate(n);
        if evs.is_empty() {
            evs.push(Ev::StreamStart(1));
        }
        evs.push(Ev::StreamEnd);
    }
    evs
}

fn utf16(utf8: &[u8], enc: u8) -> Option<Vec<u8>> {
    let s = std::str::from_utf8(utf8).ok()?;
    Some(gen::encode(s, enc))
}

// ---------------------------------------------------------------- C09

pub const C09: Prop = Prop {
    id: "C09",
    quick: 3_500_000,
    deep: 60,
    gen: |r, _, _| {
        let mut c = Case::new("C09");
        if r.chance(1, 8) {
            let n = 1 + r.small(3);
            for _ in 0..n {
                let d = gen::doc(r);
                c.docs.push(d);
            }
        }
        let evs = out_events(r);
        let n = evs.len();
        c.em.push(Em { evs, cfg: gen::cfg(r), plan: gen::wplan(r) });
        if r.chance(1, 2) {
            for _ in 0..1 + r.small(6) {
                c.sched.push(r.below(n + 1) as u32);
            }
        }
        c
    },
    run: |c, st| {
        let Some(em) = c.em.first() else { return Res::Skip("no output") };
        if !c.docs.is_empty() {
            let (got, io) = real::dump_all(&c.docs, &em.plan, &em.cfg, 1);
            let (base, _) = real::dump_all(&c.docs, &WPlan::default(), &em.cfg, 0);
            note_run(st, &got);
            st.sink(&io, &em.plan);
            st.probe("dumped_documents");
            ensure!(got.err == base.err, "result", "{:?} vs {:?}", got.err, base.err);
            ensure!(got.out == base.out, "output", "{} vs {}", show(&got.out), show(&base.out));
            ensure!(got.lens == base.lens, "acknowledged", "{:?} vs {:?} bytes after each document", got.lens, base.lens);
            return Res::Ok;
        }
        // planned sink, with extra flushes wherever the schedule puts them
        let base = real::emit_flushed(&em.evs, &em.cfg);
        let ((err, lens), out, io) = real::with_emitter(&em.plan, &em.cfg, 1, |e, d, _| {
            let mut lens = vec![];
            for (i, ev) in em.evs.iter().enumerate() {
                if let Err(x) = real::emit_ev(e, ev) {
                    if i > 0 {
                        let _ = e.flush();
                    }
                    return (Some((i, real::err_from(x))), lens);
                }
                lens.push(d.borrow().len() as u64);
                for _ in c.sched.iter().filter(|k| **k as usize == i) {
                    if let Err(x) = e.flush() {
                        return (Some((i, real::err_from(x))), lens);
                    }
                }
            }
            if !em.evs.is_empty() {
                let _ = e.flush();
            }
            (None, lens)
        });
        let got = real::EmitRun { err, lens, out };
        note_run(st, &got);
        st.sink(&io, &em.plan);
        if !c.sched.is_empty() {
            st.fault("extra_flush", c.sched.len() as u64);
        }
        ensure!(got.err == base.err, "result", "{:?} vs {:?}", got.err, base.err);
        ensure!(got.out == base.out, "output", "{} vs {}", show(&got.out), show(&base.out));
        // in another encoding
        let enc = if em.cfg.enc != 0 {
            em.cfg.enc
        } else {
            match em.evs.first() {
                Some(Ev::StreamStart(e)) if *e != 0 => *e,
                _ => 1,
            }
        };
        if enc > 1 {
            st.probe("utf16_output");
            let plain = real::emit_flushed(&em.evs, &Cfg { enc: 1, ..em.cfg.clone() });
            ensure!(plain.err == base.err, "encoding", "UTF-16 gives {:?}, UTF-8 {:?}", base.err, plain.err);
            let mut want = utf16("\u{feff}".as_bytes(), enc).unwrap();
            match utf16(&plain.out, enc) {
                Some(x) => want.extend(x),
                None => return Res::Fail("encoding", format!("output is not UTF-8: {}", show(&plain.out))),
            }
            if matches!(base.err, Some((0, _))) || em.evs.is_empty() {
                want.clear();
            }
            ensure!(base.out == want, "encoding", "UTF-16 output is not the byte order mark and the UTF-8 text: {} vs {}", show(&base.out), show(&want));
        } else {
            ensure!(std::str::from_utf8(&base.out).is_ok(), "encoding", "output is not UTF-8: {}", show(&base.out));
            let s = real::emit_string(em);
            ensure!(s.err == base.err, "string", "to a string: {:?}, to a sink: {:?}", s.err, base.err);
            ensure!(base.err.is_some() || s.out == base.out || !complete_stream(&em.evs), "string", "to a string {} vs {}", show(&s.out), show(&base.out));
        }
        Res::Ok
    },
    rule: "a run emits one generated event sequence (or dumps documents) with a random configuration to a sink that accepts arbitrary pieces and interrupts, with explicit flushes at random points, and compares with a sink that takes everything, with string output, and UTF-16 with the transcoded UTF-8 text; non-trivial: a short write, EINTR or extra flush happened and at least 3 events were emitted",
    stubs: SINK_STUB,
    assumptions: &["sinks obey the Write contract"],
};

fn complete_stream(evs: &[Ev]) -> bool {
    super::input::grammar(&evs.iter().filter(|e| !matches!(e, Ev::Set(..))).collect::<Vec<_>>(), true).is_none()
}
fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.chars().count() > 400 {
        format!("{:?}… ({} bytes)", s.chars().take(400).collect::<String>(), b.len())
    } else {
        format!("{s:?}")
    }
}

// ---------------------------------------------------------------- C10

pub const C10: Prop = Prop {
    id: "C10",
    quick: 5_000_000,
    deep: 60,
    gen: |r, _, _| {
        let mut c = Case::new("C10");
        let mut evs = if r.chance(1, 400) { gen::big_events(r) } else if r.chance(1, 5) { parsed_events(r) } else { let bad = r.small(6); gen::events(r, bad) };
        if r.chance(1, 12) {
            gen::scramble(r, &mut evs);
        }
        if r.chance(1, 10) {
            gen::settings(r, &mut evs);
        }
        let mut cfg = gen::cfg(r);
        if cfg.enc > 1 && r.chance(1, 2) {
            cfg.enc = 1;
        }
        if r.chance(1, 8) {
            // the encoding chosen by the event counts where none was configured
            cfg.enc = 0;
            if let Some(Ev::StreamStart(e)) = evs.first_mut() {
                *e = r.below(4) as u8;
            }
        }
        if r.chance(1, 8) {
            // documents instead
            evs = vec![Ev::StreamStart(0)];
            for _ in 0..1 + r.small(3) {
                let mut d = gen::doc(r);
                if r.chance(1, 12) {
                    d.nodes.clear();
                }
                c.docs.push(d);
            }
        }
        c.em.push(Em { evs, cfg, plan: gen::wplan(r) });
        c
    },
    run: |c, st| {
        let Some(em) = c.em.first() else { return Res::Skip("no output") };
        if !c.docs.is_empty() {
            return dumped_like_libyaml(c, em, st);
        }
        if !matches!(em.evs.first(), Some(Ev::StreamStart(_))) {
            return Res::Skip("no stream start");
        }
        if has_nul(&em.evs) {
            return Res::Skip("NUL cannot be given to the reference");
        }
        let (mut got, io) = real::emit(em, 1);
        note_run(st, &got);
        st.sink(&io, &em.plan);
        let mut f = refr::emit(em);
        let enc = match (em.cfg.enc, em.evs.first()) {
            (0, Some(Ev::StreamStart(e))) => *e,
            (e, _) => e,
        };
        if enc > 1 {
            st.probe("utf16_output");
            // libyaml's own UTF-16 encoder mangles supplementary characters
            let Some(text) = utf16(&f.out, enc) else { return Res::Skip("the reference's output is not UTF-8") };
            f.out = utf16("\u{feff}".as_bytes(), enc).unwrap();
            f.out.extend(text);
        }
        let e = got.err.as_ref().map(|e| (e.0, e.1.problem.clone()));
        ensure!(e == f.err, "result", "{:?}, libyaml {:?}", got.err, f.err);
        if let Some((_, e)) = &got.err {
            ensure!(e.kind == EK::Emitter, "result", "{e:?}");
            got.out = real::emit_flushed(&em.evs, &em.cfg).out;
        } else if !complete_stream(&em.evs) {
            got.out = real::emit_flushed(&em.evs, &em.cfg).out;
        }
        if got.out != f.out {
            if let Some(why) = lossy_in_libyaml(&em.evs) {
                return Res::Skip(why);
            }
        }
        ensure!(got.out == f.out, "output", "{}, libyaml {}", show(&got.out), show(&f.out));
        Res::Ok
    },
    rule: "a run emits one generated or parsed event sequence (some with invalid content or order) with a random configuration to a simulated sink and compares the bytes, the failing event and the problem with libyaml (unsafe-libyaml 0.2.11); non-trivial: a short write or EINTR happened and at least 3 events were emitted",
    stubs: "the byte sink (simulated Write); libyaml is the reference model (unsafe-libyaml, real code, not under test)",
    assumptions: &["unsafe-libyaml 0.2.11 is faithful to libyaml", "UTF-16 output is compared with UTF-8 output (C09), since libyaml's UTF-16 encoder mangles supplementary characters"],
};

/// Documents against libyaml's emitter, through the events they stand for.
fn dumped_like_libyaml(c: &Case, em: &Em, st: &mut Stats) -> Res {
    let (evs, call) = dump_events(&c.docs);
    if has_nul(&evs) {
        return Res::Skip("NUL cannot be given to the reference");
    }
    let (got, io) = real::dump_all(&c.docs, &em.plan, &em.cfg, 1);
    note_run(st, &got);
    st.sink(&io, &em.plan);
    st.probe("dumped_documents");
    if c.docs.iter().any(|d| d.nodes.is_empty()) {
        st.probe("document_without_nodes");
    }
    let em = Em { evs, cfg: em.cfg.clone(), plan: WPlan::default() };
    let mut f = refr::emit(&em);
    if em.cfg.enc > 1 {
        let Some(text) = utf16(&f.out, em.cfg.enc) else { return Res::Skip("the reference's output is not UTF-8") };
        f.out = utf16("\u{feff}".as_bytes(), em.cfg.enc).unwrap();
        f.out.extend(text);
    }
    let e = got.err.as_ref().map(|e| (e.0, e.1.problem.clone()));
    let want = f.err.as_ref().map(|e| (call[e.0], e.1.clone()));
    ensure!(e == want, "result", "dumping: {:?}, libyaml {:?}", got.err, f.err);
    let out = if got.err.is_some() { real::dump_flushed(&c.docs, &em.cfg).out } else { got.out };
    if out != f.out {
        if let Some(why) = lossy_in_libyaml(&em.evs) {
            return Res::Skip(why);
        }
    }
    ensure!(out == f.out, "output", "dumping: {}, libyaml {}", show(&out), show(&f.out));
    Res::Ok
}

/// Content that libyaml writes in a form that cannot be read back, or reads back changed; the crate
/// deliberately writes something else (see the `fix:` commits), which C12 and C14 check.
fn lossy_in_libyaml(evs: &[Ev]) -> Option<&'static str> {
    let brk = |c: char| matches!(c, '\n' | '\r' | '\u{85}' | '\u{2028}' | '\u{2029}');
    let evs: Vec<&Ev> = evs.iter().filter(|e| !matches!(e, Ev::Set(..))).collect();
    for (i, e) in evs.iter().enumerate() {
        match e {
            Ev::Scalar { value, style: 5, .. }
                if value.split(brk).any(|l| l.starts_with([' ', '\t'])) =>
            {
                return Some("libyaml folds the indented lines of a folded scalar");
            }
            Ev::DocStart { implicit: true, .. } => {
                if let Some(Ev::Scalar { value, anchor: None, plain: true, style: 0 | 1, .. }) = evs.get(i + 1) {
                    if value.is_empty() {
                        return Some("libyaml writes nothing for an empty plain root");
                    }
                }
            }
            _ => {}
        }
        if let Ev::Scalar { tag: Some(t), .. } | Ev::SeqStart { tag: Some(t), .. } | Ev::MapStart { tag: Some(t), .. } = e {
            // the prefixes that may be abbreviated anywhere in the stream
            let dirs = evs.iter().flat_map(|e| if let Ev::DocStart { tags, .. } = e { &tags[..] } else { &[] }).map(|t| t.1.as_str());
            if dirs.chain(["!", "tag:yaml.org,2002:"]).any(|p| t.strip_prefix(p).is_some_and(|s| s.contains([',', '[', ']']))) {
                return Some("libyaml writes flow indicators in shorthand tags");
            }
        }
    }
    None
}

fn has_nul(evs: &[Ev]) -> bool {
    let z = |s: &Option<String>| s.as_ref().is_some_and(|s| s.contains('\0'));
    evs.iter().any(|e| match e {
        Ev::Alias(a) => a.contains('\0'),
        Ev::Scalar { anchor, tag, .. } | Ev::SeqStart { anchor, tag, .. } | Ev::MapStart { anchor, tag, .. } => z(anchor) || z(tag),
        Ev::DocStart { tags, .. } => tags.iter().any(|t| t.0.contains('\0') || t.1.contains('\0')),
        _ => false,
    })
}

// ---------------------------------------------------------------- C11

fn io_name(f: &WFault) -> String {
    if f.kind == 255 {
        "WriteZero".into()
    } else {
        format!("{:?}", kind(f.kind))
    }
}
/// An error that a call returned while an injected sink failure fired in it.
fn is_injected(e: &ErrInfo, f: &WFault, id: u64) -> bool {
    let want = (io_name(f), if f.kind == 255 { None } else { Some(id) });
    e.kind == EK::Io && e.io.as_ref() == Some(&want)
}

pub const C11: Prop = Prop {
    id: "C11",
    quick: 2_750_000,
    deep: 60,
    gen: |r, _, _| {
        let mut c = Case::new("C11");
        let mode = r.weighted(&[6, 3, 3]);
        c.set("mode", mode as i64);
        let cfg = gen::cfg(r);
        let mut plan = gen::wplan(r);
        if mode == 1 {
            let n = 1 + r.small(3);
            for _ in 0..n {
                let d = gen::doc(r);
                c.docs.push(d);
            }
            let len = dump_len(r, &c.docs, &cfg);
            plan.fault = Some(gen::wfault(r, len));
            c.em.push(Em { evs: vec![], cfg, plan });
            return c;
        }
        let evs = out_events(r);
        let len = out_len(&evs, &cfg);
        let mut f = gen::wfault(r, len);
        if mode == 2 {
            f.mode = if r.chance(1, 3) { 0 } else { 2 };
            if f.mode == 2 {
                f.at = r.small(12) as u64;
            }
            for _ in 0..1 + r.small(8) {
                c.sched.push(r.below(evs.len() + 1) as u32);
            }
        }
        plan.fault = Some(f);
        c.em.push(Em { evs, cfg, plan });
        c
    },
    run: |c, st| {
        let Some(em) = c.em.first() else { return Res::Skip("no output") };
        let Some(f) = em.plan.fault.clone() else { return Res::Skip("no fault") };
        match c.p("mode") {
            1 => c11_dump(c, em, &f, st),
            2 => c11_flush(c, em, &f, st),
            _ => c11_emit(em, &f, st),
        }
    },
    rule: "a run emits events, or dumps documents, to a sink that fails at a random accepted-byte count (14 error kinds or accepting nothing; once, forever or periodically), checks after every call that the sink holds a prefix of the fault-free output, that the failing call and only it reports the injected error, and that acknowledged documents are completely in the sink; or lets explicit flushes fail and retries them; non-trivial: a fault, short write or EINTR fired and at least 3 calls were made",
    stubs: SINK_STUB,
    assumptions: &["the fault-free execution is the baseline", "a document is acknowledged when the call with its DocumentEnd event (or Document::dump) succeeds"],
};

fn c11_emit(em: &Em, f: &WFault, st: &mut Stats) -> Res {
    let base = real::emit_flushed(&em.evs, &em.cfg);
    let base_err = base.err.clone();
    let (res, _, io) = real::with_emitter(&em.plan, &em.cfg, 1, |e, d, io| {
        for (i, ev) in em.evs.iter().enumerate() {
            let fired0 = io.fault_fired.get();
            let r = real::emit_ev(e, ev);
            let fired = io.fault_fired.get() > fired0;
            {
                let d = d.borrow();
                ensure!(base.out.starts_with(&d), "garbled", "after event {i} the sink holds {}, which is not a prefix of {}", show(&d), show(&base.out));
            }
            match r {
                Ok(()) => {
                    st.step(1);
                    ensure!(!fired, "swallowed", "the sink failed with {} during event {i} {ev:?}, but the call succeeded", io_name(f));
                    if matches!(ev, Ev::DocEnd(_) | Ev::StreamEnd) {
                        let full = real::emit_flushed(&em.evs[..=i], &em.cfg).out;
                        let d = d.borrow();
                        ensure!(
                            *d == full,
                            "lost",
                            "event {i} {ev:?} was acknowledged, but the sink holds {} of {}",
                            show(&d),
                            show(&full)
                        );
                        st.probe("acknowledged");
                    }
                }
                Err(x) => {
                    let x = real::err_from(x);
                    if !fired {
                        ensure!(
                            base_err.as_ref().is_some_and(|b| b.0 == i && b.1 == x),
                            "result",
                            "event {i} failed with {x:?}; without sink faults {base_err:?}"
                        );
                        return Res::Ok;
                    }
                    ensure!(is_injected(&x, f, 1), "io-identity", "the sink failed with {}, event {i} reported {:?}", io_name(f), x);
                    st.probe("io_error");
                    // Retry what is left in the buffers: nothing is lost, nothing is repeated.
                    if i > 0 && f.mode != 1 {
                        let mut ok = false;
                        for _ in 0..4 * base.out.len() + 8 {
                            let fired0 = io.fault_fired.get();
                            match e.flush() {
                                Ok(()) => {
                                    ensure!(io.fault_fired.get() == fired0, "swallowed", "the sink failed during flush(), but the call succeeded");
                                    ok = true;
                                    break;
                                }
                                Err(x) => {
                                    let x = real::err_from(x);
                                    ensure!(io.fault_fired.get() > fired0 && is_injected(&x, f, 1), "io-identity", "flush() reported {x:?}");
                                }
                            }
                        }
                        ensure!(ok, "stuck", "flush() never succeeds although the sink makes progress");
                        let d = d.borrow();
                        ensure!(base.out.starts_with(&d), "garbled", "after a retried flush the sink holds {}, not a prefix of {}", show(&d), show(&base.out));
                        let least = real::emit_flushed(&em.evs[..i], &em.cfg).out;
                        ensure!(d.len() >= least.len(), "lost", "after a retried flush the sink holds {} bytes; the accepted events make {}", d.len(), least.len());
                        st.probe("flush_retried_after_failure");
                    }
                    return Res::Ok;
                }
            }
        }
        Res::Ok
    });
    st.sink(&io, &em.plan);
    res
}

/// Faults strike only explicit flushes; each is retried until it succeeds; the output must be as if
/// nothing had happened.
fn c11_flush(c: &Case, em: &Em, f: &WFault, st: &mut Stats) -> Res {
    let base = real::emit_flushed(&em.evs, &em.cfg);
    let (res, out, io) = real::with_emitter(&em.plan, &em.cfg, 1, |e, d, io| {
        for (i, ev) in em.evs.iter().enumerate() {
            // with a calm sink, documents are flushed as they end; buffered text is at risk below
            io.calm.set(true);
            let r = real::emit_ev(e, ev);
            io.calm.set(false);
            if r.is_err() {
                break;
            }
            st.step(1);
            for _ in c.sched.iter().filter(|k| **k as usize == i) {
                let mut tries = 0;
                loop {
                    let fired0 = io.fault_fired.get();
                    let r = e.flush();
                    let fired = io.fault_fired.get() > fired0;
                    match r {
                        Ok(()) => {
                            ensure!(!fired, "swallowed", "the sink failed during flush(), but the call succeeded");
                            break;
                        }
                        Err(x) => {
                            let x = real::err_from(x);
                            ensure!(fired && is_injected(&x, f, 1), "io-identity", "the sink failed with {} ({fired}), flush() reported {x:?}", io_name(f));
                        }
                    }
                    let d = d.borrow();
                    ensure!(base.out.starts_with(&d), "garbled", "after a failed flush the sink holds {}, not a prefix of {}", show(&d), show(&base.out));
                    tries += 1;
                    ensure!(tries < 4 * base.out.len() + 8, "stuck", "flush() never succeeds although the sink makes progress");
                }
                let full = real::emit_flushed(&em.evs[..=i], &em.cfg).out;
                // everything the accepted events produce is in the sink
                let d = d.borrow();
                ensure!(*d == full, "lost", "after flush() at event {i} the sink holds {} of {}", show(&d), show(&full));
                st.probe("flush_acknowledged");
            }
        }
        if !em.evs.is_empty() && !matches!(base.err, Some((0, _))) {
            io.calm.set(true);
            let _ = e.flush();
        }
        Res::Ok
    });
    st.sink(&io, &em.plan);
    attempt!(res);
    ensure!(out == base.out, "output", "{} vs fault-free {}", show(&out), show(&base.out));
    Res::Ok
}

fn c11_dump(c: &Case, em: &Em, f: &WFault, st: &mut Stats) -> Res {
    if c.docs.is_empty() {
        return Res::Skip("no documents");
    }
    let (base, _) = real::dump_all(&c.docs, &WPlan::default(), &em.cfg, 0);
    let (res, _, io) = real::with_emitter(&em.plan, &em.cfg, 1, |e, d, io| {
        for i in 0..=c.docs.len() {
            let fired0 = io.fault_fired.get();
            let r = if i < c.docs.len() { real::build_doc(&c.docs[i]).dump(e) } else { e.close() };
            let fired = io.fault_fired.get() > fired0;
            let d = d.borrow();
            ensure!(base.out.starts_with(&d), "garbled", "after document {i} the sink holds {}, which is not a prefix of {}", show(&d), show(&base.out));
            match r {
                Ok(()) => {
                    st.step(c.docs.get(i).map_or(1, |d| d.nodes.len()));
                    ensure!(!fired, "swallowed", "the sink failed with {} during document {i}, but the call succeeded", io_name(f));
                    // the fault-free run flushed here; it is complete by C09/C14
                    let want = base.lens.get(i).copied().unwrap_or(0);
                    ensure!(d.len() as u64 == want, "lost", "document {i} was acknowledged with {} of {want} bytes in the sink", d.len());
                    st.probe("acknowledged");
                }
                Err(x) => {
                    let x = real::err_from(x);
                    if fired {
                        ensure!(is_injected(&x, f, 1), "io-identity", "the sink failed with {}, dump {i} reported {x:?}", io_name(f));
                        st.probe("io_error");
                    } else {
                        ensure!(base.err.as_ref().is_some_and(|b| b.0 == i && b.1 == x), "result", "dump {i} failed with {x:?}; without sink faults {:?}", base.err);
                    }
                    return Res::Ok;
                }
            }
        }
        Res::Ok
    });
    st.sink(&io, &em.plan);
    st.probe("dumped_documents");
    res
}

// ---------------------------------------------------------------- C12

/// What must survive emitting and parsing.
#[derive(Clone, Debug, PartialEq)]
enum Core {
    /// version, tag directives, was an explicit start asked for
    Doc(Option<(i32, i32)>, Vec<(String, String)>, bool),
    DocEnd(bool),
    Alias(String),
    Scalar(Option<String>, Option<String>, String, bool),
    Seq(Option<String>, Option<String>),
    Map(Option<String>, Option<String>),
    End,
}
/// The tag a reader of the text will see: an omitted one when the event says it may be implied.
fn core(evs: &[Ev], emitted: bool, canonical: bool) -> Vec<Core> {
    let t = |t: &Option<String>, implied: bool| -> Option<String> {
        match t {
            Some(x) if emitted && implied && !canonical => {
                let _ = x;
                None
            }
            o => o.clone(),
        }
    };
    evs.iter()
        .filter_map(|e| {
            Some(match e {
                Ev::StreamStart(_) | Ev::StreamEnd | Ev::Set(..) => return None,
                Ev::DocStart { version, tags, implicit } => Core::Doc(*version, tags.clone(), *implicit),
                Ev::DocEnd(i) => Core::DocEnd(*i),
                Ev::Alias(a) => Core::Alias(a.clone()),
                // whether the reader may resolve the value (a plain scalar) or must take it as text
                Ev::Scalar { anchor, tag, value, .. } => Core::Scalar(anchor.clone(), t(tag, false), value.clone(), false),
                Ev::SeqStart { anchor, tag, implicit, .. } => Core::Seq(anchor.clone(), t(tag, *implicit)),
                Ev::MapStart { anchor, tag, implicit, .. } => Core::Map(anchor.clone(), t(tag, *implicit)),
                Ev::SeqEnd | Ev::MapEnd => Core::End,
            })
        })
        .collect()
}

/// A plain or implicitly tagged scalar means the same to both sides: resolve what the emitter was
/// told about the tag into what the parser reports.
fn scalar_tags(want: &mut [Core], got: &[Core], evs: &[Ev], back: &[Ev]) {
    let a: Vec<&Ev> = evs.iter().filter(|e| !matches!(e, Ev::StreamStart(_) | Ev::StreamEnd)).collect();
    let b: Vec<&Ev> = back.iter().filter(|e| !matches!(e, Ev::StreamStart(_) | Ev::StreamEnd)).collect();
    for i in 0..want.len().min(got.len()) {
        if let (Some(Ev::Scalar { tag: Some(_), plain, quoted, .. }), Some(Ev::Scalar { tag: None, style, plain: bp, quoted: bq, .. })) = (a.get(i), b.get(i)) {
            // the tag was omitted: allowed only if the event said so for the style in which it was written
            let ok = if *style == 1 { *plain && *bp } else { *quoted && *bq };
            if ok {
                if let Core::Scalar(_, t, _, _) = &mut want[i] {
                    *t = None;
                }
            }
        }
        if let (Some(Ev::Scalar { tag: None, plain, quoted, .. }), Some(Ev::Scalar { style, .. })) = (a.get(i), b.get(i)) {
            // an untagged scalar that may only be quoted must not come back plain, and vice versa
            let ok = if *style == 1 { *plain } else { *quoted };
            if !ok {
                // the emitter adds the non-specific tag in that case
                if let (Core::Scalar(_, t, _, _), Core::Scalar(_, gt, _, _)) = (&mut want[i], &got[i]) {
                    if gt.as_deref() == Some("!") {
                        *t = Some("!".into());
                    }
                }
            }
        }
    }
}

pub const C12: Prop = Prop {
    id: "C12",
    quick: 4_000_000,
    deep: 60,
    gen: |r, _, _| {
        let mut c = Case::new("C12");
        let evs = if r.chance(2, 5) { parsed_events(r) } else { gen::faithful_events(r) };
        c.em.push(Em { evs, cfg: gen::cfg(r), plan: gen::wplan(r) });
        c.rd.push(Rd { bytes: vec![], enc: 0, plan: gen::rplan(r, &[0u8; 200]) });
        c
    },
    run: |c, st| {
        let (Some(em), Some(rd)) = (c.em.first(), c.rd.first()) else { return Res::Skip("incomplete") };
        if let Some(m) = super::input::grammar(&em.evs.iter().collect::<Vec<_>>(), true) {
            let _ = m;
            return Res::Skip("not a complete stream");
        }
        let (run, io) = real::emit(em, 1);
        note_run(st, &run);
        st.sink(&io, &em.plan);
        if let Some((i, e)) = &run.err {
            return Res::Fail("rejected", format!("event {i} {:?} of a valid stream: {}", em.evs[*i], e.display));
        }
        let src = Rd { bytes: run.out.clone(), enc: 0, plan: rd.plan.clone() };
        let (t, io) = real::parse(&src, 2);
        hash(st, &t);
        st.src(&io, &src.plan);
        ensure!(t.end == End::Eos, "unreadable", "the output {} gives {:?}", show(&run.out), t.end);
        let back: Vec<Ev> = t.steps.into_iter().map(|s| s.ev).collect();
        compare_events(&em.evs, &back, em.cfg.canonical, &run.out)
    },
    rule: "a run emits one valid event stream (generated, or parsed from generated text) in a random configuration and encoding to a simulated sink, reads the stored bytes back through a simulated source and compares structure, values, anchors, aliases, tags and directives; non-trivial: a short write, short read or EINTR fired and at least 3 events were compared",
    stubs: "the byte sink and source (simulated storage)",
    assumptions: &["the events are valid: a complete stream of well-formed documents, anchors of letters, digits, '-' and '_', printable and unprintable characters alike"],
};

fn compare_events(evs: &[Ev], back: &[Ev], canonical: bool, out: &[u8]) -> Res {
    let mut want = core(evs, true, canonical);
    let got = core(back, false, false);
    scalar_tags(&mut want, &got, evs, back);
    // an explicit marker must stay explicit; one may be added
    for (a, b) in want.iter_mut().zip(&got) {
        match (a, b) {
            (Core::Doc(_, _, x), Core::Doc(_, _, y)) | (Core::DocEnd(x), Core::DocEnd(y)) => *x &= *y,
            _ => {}
        }
    }
    for (i, (a, b)) in want.iter().zip(&got).enumerate() {
        ensure!(a == b, "changed", "node event {i}: {a:?} came back as {b:?} from {}", show(out));
    }
    ensure!(want.len() == got.len(), "changed", "{} node events came back as {} from {}", want.len(), got.len(), show(out));
    Res::Ok
}

// ---------------------------------------------------------------- C13

pub const C13: Prop = Prop {
    id: "C13",
    quick: 4_000_000,
    deep: 60,
    gen: |r, _, _| {
        let mut c = Case::new("C13");
        let mut evs = if r.chance(1, 3) { parsed_events(r) } else { gen::faithful_events(r) };
        for e in &mut evs {
            if let Ev::DocEnd(i) = e {
                *i = false;
            }
        }
        let cfg = gen::cfg(r);
        let len = out_len(&evs, &cfg);
        let mut plan = gen::wplan(r);
        // the process dies when the sink has taken that many bytes
        let at = match r.below(5) {
            0 => len.saturating_sub(r.below(6)),
            _ => r.below(len + 1),
        };
        c.set("crash", at as i64);
        plan.fault = None;
        c.em.push(Em { evs, cfg, plan });
        c.rd.push(Rd { bytes: vec![], enc: 0, plan: gen::rplan(r, &[0u8; 200]) });
        c
    },
    run: |c, st| {
        let (Some(em), Some(rd)) = (c.em.first(), c.rd.first()) else { return Res::Skip("incomplete") };
        if super::input::grammar(&em.evs.iter().collect::<Vec<_>>(), true).is_some() {
            return Res::Skip("not a complete stream");
        }
        if em.evs.iter().any(|e| matches!(e, Ev::DocEnd(true))) {
            return Res::Skip("document without an explicit end");
        }
        let crash = c.p("crash").max(0) as u64;
        // Run until the crash: the sink takes `crash` bytes and nothing after that.
        let mut plan = em.plan.clone();
        plan.fault = Some(WFault { at: crash, kind: 0, mode: 1 });
        let ((acked, failed), disk, io) = real::with_emitter(&plan, &em.cfg, 1, |e: &mut y::Emitter, _, _| {
            let mut acked = 0usize;
            for (i, ev) in em.evs.iter().enumerate() {
                if let Err(x) = real::emit_ev(e, ev) {
                    return (acked, Some((i, real::err_from(x))));
                }
                if matches!(ev, Ev::DocEnd(_)) {
                    acked = i + 1;
                }
                st.step(1);
            }
            (acked, None)
        });
        st.sink(&io, &plan);
        if let Some((i, e)) = &failed {
            if e.kind != EK::Io {
                return Res::Fail("rejected", format!("event {i} {:?} of a valid stream: {}", em.evs[*i], e.display));
            }
            st.fault("crash", 1);
        }
        // Restart: read what is on disk.
        let src = Rd { bytes: disk.clone(), enc: 0, plan: rd.plan.clone() };
        let (t, io) = real::parse(&src, 2);
        hash(st, &t);
        st.src(&io, &src.plan);
        let back: Vec<Ev> = t.steps.into_iter().map(|s| s.ev).collect();
        let docs = em.evs[..acked].iter().filter(|e| matches!(e, Ev::DocEnd(_))).count();
        if docs == 0 {
            return Res::Ok;
        }
        st.add_probe("recovered_document", docs as u64);
        let mut seen = 0;
        let mut cut = None;
        for (i, e) in back.iter().enumerate() {
            if matches!(e, Ev::DocEnd(_)) {
                seen += 1;
                if seen == docs {
                    cut = Some(i + 1);
                    break;
                }
            }
        }
        let Some(cut) = cut else {
            return Res::Fail(
                "lost",
                format!("{docs} documents were acknowledged before the crash at byte {crash}, {seen} can be read back from {} (then {:?})", show(&disk), t.end),
            );
        };
        compare_events(&em.evs[..acked], &back[..cut], em.cfg.canonical, &disk)
    },
    rule: "a run emits a stream of explicitly ended documents to a simulated disk, crashes at a random byte, and reads the surviving bytes back through a simulated source: every acknowledged document must be there, complete and unchanged, whatever follows it; non-trivial: a crash, short write, short read or EINTR happened and at least 3 events were emitted",
    stubs: "the byte sink and source (simulated disk that keeps a prefix of the accepted bytes)",
    assumptions: &["the disk keeps accepted bytes in order up to the crash point", "documents end explicitly ('...'), since an implicitly ended document may be continued by torn bytes"],
};

// ---------------------------------------------------------------- C16

pub const C16: Prop = Prop {
    id: "C16",
    quick: 3_000_000,
    deep: 60,
    gen: |r, _, _| {
        let mut c = Case::new("C16");
        let mut evs = out_events(r);
        if r.chance(1, 2) {
            gen::scramble(r, &mut evs);
        }
        if r.chance(1, 40) {
            // something else comes first, and is refused
            let i = r.below(evs.len().max(1)).min(evs.len().max(1) - 1);
            if let Some(e) = evs.get(i).cloned() {
                evs.insert(0, e);
            }
        } else if !matches!(evs.first(), Some(Ev::StreamStart(_))) {
            evs.insert(0, Ev::StreamStart(*r.pick(&[0, 1, 2, 3])));
        }
        let cfg = gen::cfg(r);
        let len = out_len(&evs, &cfg);
        let mut plan = gen::wplan(r);
        if r.chance(1, 2) {
            plan.fault = Some(gen::wfault(r, len));
        }
        // abandoned part of the way, or driven to its failure
        c.set("stop", if r.chance(1, 3) { r.below(evs.len() + 1) as i64 } else { 1 << 20 });
        c.set("more", r.small(6) as i64);
        c.set("more_kind", r.below(5) as i64);
        // with its output abandoned, or flushed before the reset
        c.set("abandon", r.chance(1, 2) as i64);
        c.em.push(Em { evs, cfg, plan });
        // often much like the first, so that what is left of the first would matter
        let mut evs = if r.chance(1, 4) { c.em[0].evs.clone() } else { out_events(r) };
        if r.chance(1, 8) {
            gen::scramble(r, &mut evs);
        }
        let cfg = gen::cfg(r);
        let mut plan = gen::wplan(r);
        if r.chance(1, 6) {
            plan.fault = Some(gen::wfault(r, 300));
        }
        if r.chance(1, 3) {
            for _ in 0..1 + r.small(2) {
                c.docs.push(gen::doc(r));
            }
        }
        c.em.push(Em { evs, cfg, plan });
        if r.chance(1, 4) {
            // a first life of documents
            let n = 1 + r.small(2);
            for _ in 0..n {
                let mut d = gen::doc(r);
                if r.chance(1, 12) {
                    d.nodes.clear();
                }
                c.docs.insert(0, d);
            }
            c.set("docs1", n as i64);
            let len = dump_len(r, &c.docs[..n], &c.em[0].cfg);
            c.em[0].plan.fault = if r.chance(1, 2) { Some(gen::wfault(r, len)) } else { None };
            if c.p("stop") < 1 << 20 {
                c.set("stop", r.below(n + 1) as i64);
            }
        }
        c
    },
    run: |c, st| {
        if c.em.len() < 2 {
            return Res::Skip("incomplete");
        }
        let (a, b) = (&c.em[0], &c.em[1]);
        let (docs1, docs) = c.docs.split_at((c.p("docs1").max(0) as usize).min(c.docs.len()));
        let base = if docs1.is_empty() { real::emit_flushed(&a.evs, &a.cfg) } else { real::dump_flushed(docs1, &a.cfg) };
        let (mut w1, mut w2) = (crate::io::SimWriter::new(&a.plan, 1), crate::io::SimWriter::new(&b.plan, 2));
        let (d1, io1, d2, io2) = (w1.data.clone(), w1.st.clone(), w2.data.clone(), w2.st.clone());
        let mut e = y::Emitter::new();
        e.set_output(&mut w1);
        real::configure(&mut e, &a.cfg);
        let stop = c.p("stop").max(0) as usize;
        let mut failed = None;
        let calls = if docs1.is_empty() { a.evs.len() } else { docs1.len() + 1 };
        for i in 0..calls.min(stop) {
            let r = match docs1.get(i) {
                Some(d) => real::build_doc(d).dump(&mut e),
                None if docs1.is_empty() => real::emit_ev(&mut e, &a.evs[i]),
                None => e.close(),
            };
            if let Err(x) = r {
                failed = Some((i, real::err_from(x)));
                break;
            }
            st.step(1);
        }
        if !docs1.is_empty() {
            st.probe("dump_before_reset");
        }
        if let Some((at, x)) = &failed {
            st.probe(if x.kind == EK::Io { "io_error" } else { "emitter_error" });
            // The failure is final: nothing is accepted and nothing more is produced.
            let before = d1.borrow().len();
            let begun = !docs1.is_empty() || real::begun(&a.evs[..*at]);
            // opened by the documents before, and not closed
            let open = *at > 0 && !docs1.is_empty() && docs1[..(*at).min(docs1.len())].iter().all(|d| !d.nodes.is_empty());
            for k in 0..c.p("more").clamp(0, 20) as usize {
                // closing what is closed already does nothing, so not a document without nodes
                let doc = c.docs.iter().find(|d| !d.nodes.is_empty());
                let r = match c.p("more_kind") {
                    1 if doc.is_some() && begun => real::build_doc(doc.unwrap()).dump(&mut e),
                    2 if docs1.is_empty() => emit_again(&mut e, &a.evs, at + 1 + k),
                    3 => e.emit(y::Event::stream_end()),
                    4 if open => {
                        st.probe("close_after_failure");
                        e.close()
                    }
                    _ if docs1.is_empty() => e.emit(real::ev_to(&a.evs[*at])),
                    _ => e.emit(y::Event::document_end(true)),
                };
                ensure!(r.is_err(), "terminal", "event {at} failed with {}, a later call succeeded", x.display);
                st.probe("call_after_failure");
            }
            ensure!(d1.borrow().len() == before, "terminal", "after the failure of event {at} ({}) the sink grew from {before} to {} bytes", x.display, d1.borrow().len());
            // What was accepted can still be flushed.
            if begun && c.p("abandon") == 0 {
                io1.calm.set(true);
                let r = e.flush();
                ensure!(r.is_ok(), "flush", "flush() after the failure of event {at}: {:?}", r.err().map(|e| e.to_string()));
                let d = d1.borrow();
                ensure!(base.out.starts_with(&d), "garbled", "after the failure of event {at} and flush() the sink holds {}, not a prefix of {}", show(&d), show(&base.out));
                st.probe("flush_after_failure");
            }
        }
        let len1 = d1.borrow().len();
        e.reset();
        st.probe("reset");
        e.set_output(&mut w2);
        real::configure(&mut e, &b.cfg);
        // The second life equals that of a fresh emitter.
        let (want, wio) = if docs.is_empty() { real::emit(b, 2) } else { real::dump_all(docs, &b.plan, &b.cfg, 2) };
        let mut got = real::EmitRun { err: None, lens: vec![], out: vec![] };
        if docs.is_empty() {
            for (i, ev) in b.evs.iter().enumerate() {
                match real::emit_ev(&mut e, ev) {
                    Ok(()) => got.lens.push(d2.borrow().len() as u64),
                    Err(x) => {
                        got.err = Some((i, real::err_from(x)));
                        break;
                    }
                }
            }
        } else {
            for i in 0..=docs.len() {
                match if i < docs.len() { real::build_doc(&docs[i]).dump(&mut e) } else { e.close() } {
                    Ok(()) => got.lens.push(d2.borrow().len() as u64),
                    Err(x) => {
                        got.err = Some((i, real::err_from(x)));
                        break;
                    }
                }
            }
            st.probe("dump_after_reset");
        }
        drop(e);
        got.out = d2.borrow().clone();
        note_run(st, &got);
        st.sink(&io1, &a.plan);
        st.sink(&io2, &b.plan);
        ensure!(got.err == want.err, "reset", "after reset {:?}, fresh {:?}", got.err, want.err);
        ensure!(got.out == want.out, "reset", "after reset {}, fresh {}", show(&got.out), show(&want.out));
        ensure!(got.lens == want.lens && io2.writes.get() == wio.writes.get(), "reset", "after reset the sink is written at other times than by a fresh emitter");
        ensure!(d1.borrow().len() == len1, "reset", "the first sink was written after the reset");
        Res::Ok
    },
    rule: "a run drives an emitter with a valid or ill-formed event sequence, or dumps documents to it, with a sink that may fail, to its failure or part of the way, keeps calling it (same event, next events, stream end, a document), flushes it or abandons its output, resets it and gives it a second sink, configuration and stream (events or documents), which must behave as on a fresh emitter; non-trivial: a fault, short write or EINTR fired and at least 3 events were accepted",
    stubs: SINK_STUB,
    assumptions: &["the fresh execution is the baseline"],
};

/// The next event (settings are not events) at or after position `i`, cyclically.
fn emit_again(e: &mut y::Emitter, evs: &[Ev], i: usize) -> Result<(), y::Error> {
    let n = evs.len();
    match (0..n).map(|k| &evs[(i + k) % n]).find(|x| !matches!(x, Ev::Set(..))) {
        Some(x) => real::emit_ev(e, x),
        None => e.emit(y::Event::stream_end()),
    }
}
