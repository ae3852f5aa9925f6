//! C01-C04, C06, C07: the input side (reader, scanner, parser, composer) under simulated sources.
use super::common::*;
use super::{Prop, Res};
use crate::io::kind;
use crate::model::*;
use crate::real::{self, step_cap, RealParser, RealScanner};
use crate::rng::Rng;
use crate::stats::Stats;
use crate::{attempt, ensure, gen, refr};

const SRC_STUB: &str = "the byte source (an in-process BufRead following a delivery plan: delivery sizes, EINTR, faults, end of file)";

fn kind_name(p: &RPlan) -> String {
    p.fault.as_ref().map_or(String::new(), |f| format!("{:?}", kind(f.kind)))
}

pub fn delivered_input(r: &mut Rng) -> Rd {
    let mut rd = gen::input(r);
    if r.chance(1, 5) {
        gen::corrupt(r, &mut rd.bytes);
    }
    rd.plan = gen::rplan(r, &rd.bytes);
    rd
}

pub fn note_delivery(rd: &Rd, d: &Decoded, st: &mut Stats) {
    // did a delivery boundary fall inside a character or a line break?
    if rd.plan.rest != 0 || !rd.plan.chunks.is_empty() {
        let ends: std::collections::HashSet<u64> = d.after.iter().copied().collect();
        let mut at = 0u64;
        let mut it = rd.plan.chunks.iter();
        let mut inside = false;
        let mut crlf = false;
        while at < rd.bytes.len() as u64 {
            let c = match it.next() {
                Some(c) => u64::from((*c).max(1)),
                None if rd.plan.rest == 0 => break,
                None => u64::from(rd.plan.rest),
            };
            at += c;
            if at < rd.bytes.len() as u64 && at > d.bom as u64 {
                inside |= !ends.contains(&at) && d.bad.map_or(true, |b| at < b as u64);
                crlf |= rd.bytes[at as usize - 1] == b'\r' && rd.bytes[at as usize] == b'\n';
            } else if at < d.bom as u64 {
                st.probe("delivery_splits_bom");
            }
        }
        if inside {
            st.probe("delivery_splits_character");
        }
        if crlf {
            st.probe("delivery_splits_crlf");
        }
    }
    st.probe(match d.enc {
        2 => "utf16le_input",
        3 => "utf16be_input",
        _ => "utf8_input",
    });
    if d.bad.is_some() {
        st.probe("undecodable_input");
    }
    if rd.plan.wrap > 0 {
        st.probe("bufreader_wrapped");
    }
}

/// Run one API over the case's first source.
enum Got {
    Events(Trace<Ev>),
    Tokens(Trace<Tok>),
    Docs(Trace<Option<real::LDoc>>),
}

fn run_api(rd: &Rd, api: i64, st: &mut Stats) -> (Got, std::rc::Rc<crate::io::IoState>) {
    let (g, s) = match api {
        1 => {
            let (t, s) = real::scan(rd, 1);
            hash(st, &t);
            (Got::Tokens(t), s)
        }
        2 => {
            let (v, e, s) = real::load(rd, 1);
            let t = doc_trace(v, e);
            hash(st, &t);
            (Got::Docs(t), s)
        }
        3 => {
            let (t, s) = real::parse_iter(rd, 1);
            hash(st, &t);
            (Got::Events(t), s)
        }
        4 => {
            let (t, s) = real::scan_iter(rd, 1);
            hash(st, &t);
            (Got::Tokens(t), s)
        }
        _ => {
            let (t, s) = real::parse(rd, 1);
            hash(st, &t);
            (Got::Events(t), s)
        }
    };
    st.src(&s, &rd.plan);
    (g, s)
}

// ---------------------------------------------------------------- C01

pub const C01: Prop = Prop {
    id: "C01",
    quick: 3_750_000,
    deep: 60,
    gen: |r, _, _| {
        let mut c = Case::new("C01");
        c.rd.push(delivered_input(r));
        c.set("api", r.weighted(&[6, 3, 3, 1, 1]) as i64);
        c.set("slice", i64::from(r.chance(1, 3)));
        c
    },
    run: |c, st| {
        let Some(rd) = c.rd.first() else { return Res::Skip("no input") };
        let d = decode(&rd.bytes, rd.enc);
        note_delivery(rd, &d, st);
        let (got, io) = run_api(rd, c.p("api"), st);
        attempt!(contract(&io));
        match &got {
            Got::Events(t) => {
                let m = if c.p("slice") == 1 {
                    real::parse_slice(&rd.bytes[..d.bad.unwrap_or(rd.bytes.len())], rd.enc)
                } else {
                    model_parse(rd, &d)
                };
                attempt!(judge(t, &m, d.bad));
                if d.bad.is_some() {
                    attempt!(same_reader_error(&t.end, &real::parse(&whole(rd), 0).0.end));
                }
            }
            Got::Tokens(t) => {
                attempt!(judge(t, &model_scan(rd, &d), d.bad));
                if d.bad.is_some() {
                    attempt!(same_reader_error(&t.end, &real::scan(&whole(rd), 0).0.end));
                }
            }
            Got::Docs(t) => {
                let (v, e) = model_load(rd, &d);
                attempt!(judge(t, &doc_trace(v, e), d.bad));
                if d.bad.is_some() {
                    attempt!(same_reader_error(&t.end, &real::load(&whole(rd), 0).1));
                }
            }
        }
        Res::Ok
    },
    rule: "a run parses, scans or loads one generated input (grammar-directed text, mutations, token soup, corpus, corrupted bytes; UTF-8/16, with and without BOM) through a source with a random delivery plan (piece sizes, cuts inside characters, EINTR, BufReader of odd capacity) and compares with delivery in one piece; non-trivial: at least one short delivery or EINTR fired and at least 3 events, tokens or documents were compared",
    stubs: SRC_STUB,
    assumptions: &["delivery in one piece is the baseline; its own correctness is C02's subject", "sources obey the BufRead contract"],
};

fn whole(rd: &Rd) -> Rd {
    Rd { bytes: rd.bytes.clone(), enc: rd.enc, plan: RPlan::default() }
}
fn same_reader_error(a: &End, b: &End) -> Res {
    if let (End::Err(a), End::Err(b)) = (a, b) {
        if a.kind == EK::Reader && b.kind == EK::Reader && a.display != b.display {
            return Res::Fail("reader-error", format!("{:?} vs {:?}", a.display, b.display));
        }
    }
    Res::Ok
}

// ---------------------------------------------------------------- C02

/// Percent escapes that the reference accepts although they denote no text (its strings are bytes).
/// Octets that libyaml takes for a character (it looks at their high bits only), but that are none, or NUL.
fn accepted_but_not_text(v: &[u8]) -> bool {
    let mut i = 0;
    while i < v.len() {
        let w = match v[i] {
            0..=0x7f => 1,
            x if x & 0xe0 == 0xc0 => 2,
            x if x & 0xf0 == 0xe0 => 3,
            x if x & 0xf8 == 0xf0 => 4,
            _ => return false,
        };
        let Some(c) = v.get(i..i + w) else { return false };
        if c[1..].iter().any(|x| x & 0xc0 != 0x80) {
            return false;
        }
        if v[i] == 0 || std::str::from_utf8(c).is_err() {
            return true;
        }
        i += w;
    }
    false
}
fn unrepresentable_escapes(chars: &[char]) -> bool {
    let mut i = 0;
    while i < chars.len() {
        if chars[i] == '%' {
            let mut v = vec![];
            while i + 2 < chars.len() && chars[i] == '%' {
                match (chars[i + 1].to_digit(16), chars[i + 2].to_digit(16)) {
                    (Some(a), Some(b)) => v.push((a * 16 + b) as u8),
                    _ => break,
                }
                i += 3;
            }
            if accepted_but_not_text(&v) {
                return true;
            }
            if v.is_empty() {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    false
}

fn norm(e: &End) -> (u8, String, String, Option<Mk>, Option<Mk>) {
    match e {
        End::Eos => (0, String::new(), String::new(), None, None),
        End::Runaway => (9, String::new(), String::new(), None, None),
        End::Err(e) => {
            if e.kind == EK::Reader {
                // reduced fidelity is documented: only the category is compared
                (1, String::new(), String::new(), None, None)
            } else {
                let n = |s: &str| s.replace("hexadecimal", "hexdecimal");
                (2 + e.kind as u8, n(&e.problem), n(e.context.as_deref().unwrap_or("")), e.pmark, e.cmark)
            }
        }
    }
}

fn against<T: PartialEq + Clone + std::fmt::Debug>(got: &Trace<T>, model: &Trace<T>, bad: Option<usize>) -> Res {
    ensure!(got.end != End::Runaway, "runaway", "no end after {} steps", got.steps.len());
    if let End::Err(e) = &model.end {
        if e.kind == EK::Memory {
            return Res::Skip("reference ran out of memory");
        }
    }
    let reader = matches!(&got.end, End::Err(e) if e.kind == EK::Reader);
    if bad.is_some() && reader {
        let n = if model.end == End::Eos { model.steps.len() - 1 } else { model.steps.len() };
        let open = Trace { steps: model.steps[..n].to_vec(), end: End::Eos };
        if let Some(d) = got.prefix_diff(&open) {
            return Res::Fail("steps", d);
        }
        return Res::Ok;
    }
    if let Some(d) = got.steps_diff(model) {
        return Res::Fail("steps", d);
    }
    if let (End::Err(a), End::Err(b)) = (&got.end, &model.end) {
        // two faults in one node: libyaml scans the token after the properties before it looks at the tag
        if a.problem == "found undefined tag handle" && b.kind == EK::Scanner && b.pmark.map_or(false, |m| a.pmark.is_some_and(|p| p.index < m.index)) {
            return Res::Ok;
        }
    }
    ensure!(norm(&got.end) == norm(&model.end), "end", "ends with {:?}, libyaml with {:?}", got.end, model.end);
    ensure!(bad.is_none() || got.end != End::Eos, "accepted", "undecodable input accepted");
    Res::Ok
}

pub const C02: Prop = Prop {
    id: "C02",
    quick: 5_000_000,
    deep: 60,
    gen: |r, _, _| {
        let mut c = Case::new("C02");
        let mut rd = gen::input(r);
        match r.below(8) {
            0 => gen::corrupt(r, &mut rd.bytes),
            1 | 2 if !rd.bytes.is_empty() => {
                // a torn file or a connection closed early
                let n = r.below(rd.bytes.len());
                rd.bytes.truncate(n);
            }
            _ => {}
        }
        rd.plan = gen::rplan(r, &rd.bytes);
        c.rd.push(rd);
        c.set("api", r.weighted(&[4, 3]) as i64);
        c
    },
    run: |c, st| {
        let Some(rd) = c.rd.first() else { return Res::Skip("no input") };
        let d = decode(&rd.bytes, rd.enc);
        note_delivery(rd, &d, st);
        let (got, io) = run_api(rd, c.p("api").min(1), st);
        attempt!(contract(&io));
        if unrepresentable_escapes(&d.chars) {
            return Res::Skip("percent escapes that are not text");
        }
        let b = &rd.bytes[..d.bad.unwrap_or(rd.bytes.len())];
        let cap = step_cap(rd.bytes.len());
        match &got {
            Got::Events(t) => against(t, &refr::parse(b, rd.enc, 4096, cap), d.bad),
            Got::Tokens(t) => against(t, &refr::scan(b, rd.enc, 4096, cap), d.bad),
            Got::Docs(_) => Res::Ok,
        }
    },
    rule: "a run parses or scans one generated, mutated, truncated or corrupted input through a simulated source and compares every event or token with its marks, and the error's category, problem, context and marks, with libyaml (unsafe-libyaml 0.2.11) on the same bytes; non-trivial: at least one short delivery or EINTR fired and at least 3 events or tokens were compared",
    stubs: "the byte source (simulated BufRead); libyaml is the reference model (unsafe-libyaml, real code, not under test)",
    assumptions: &[
        "unsafe-libyaml 0.2.11 is faithful to libyaml",
        "Reader errors are compared by category only (the README documents reduced fidelity); inputs with percent escapes that libyaml accepts although they are no text (overlong forms, surrogates, %00) are skipped, since it keeps them as octets",
        "undecodable input: only the steps libyaml gives for the decodable part may be delivered, followed by an error",
    ],
};

// ---------------------------------------------------------------- C03

pub const C03: Prop = Prop {
    id: "C03",
    quick: 5_000_000,
    deep: 60,
    gen: |r, _, _| {
        let mut c = Case::new("C03");
        let mut rd = delivered_input(r);
        rd.plan.fault = Some(gen::rfault(r, rd.bytes.len()));
        c.rd.push(rd);
        c.set("api", r.weighted(&[5, 3, 4, 1, 1]) as i64);
        c
    },
    run: |c, st| {
        let Some(rd) = c.rd.first() else { return Res::Skip("no input") };
        let d = decode(&rd.bytes, rd.enc);
        note_delivery(rd, &d, st);
        let (got, io) = run_api(rd, c.p("api"), st);
        attempt!(contract(&io));
        let fired = io.fault_fired.get() > 0;
        let name = kind_name(&rd.plan);
        if fired {
            let f = rd.plan.fault.as_ref().unwrap();
            if f.at == rd.bytes.len() as u64 {
                st.probe("fault_instead_of_eof");
            } else if f.at == 0 {
                st.probe("fault_before_first_byte");
            } else if f.at < d.bom as u64 {
                st.probe("fault_inside_bom");
            } else if f.at > d.bom as u64 && !d.after.contains(&f.at) && d.bad.map_or(true, |b| f.at < b as u64) {
                st.probe("fault_inside_character");
            }
        }
        match &got {
            Got::Events(t) => judge_fault(t, &model_parse(rd, &d), d.bad, fired, &name, 1),
            Got::Tokens(t) => judge_fault(t, &model_scan(rd, &d), d.bad, fired, &name, 1),
            Got::Docs(t) => {
                let (v, e) = model_load(rd, &d);
                judge_fault(t, &doc_trace(v, e), d.bad, fired, &name, 1)
            }
        }
    },
    rule: "a run parses, scans or loads one generated input through a source that fails at a random byte offset (14 error kinds; once, forever, or once and then end of file) on top of a random delivery plan with EINTR; non-trivial: a fault, EINTR or short delivery fired and at least 3 events, tokens or documents were compared",
    stubs: SRC_STUB,
    assumptions: &["the fault-free execution of the same bytes is the baseline"],
};

// ---------------------------------------------------------------- C04

pub const C04: Prop = Prop {
    id: "C04",
    quick: 4_000_000,
    deep: 60,
    gen: |r, _, _| {
        let mut c = Case::new("C04");
        for k in 0..2 {
            let mut rd = if k == 0 || r.chance(1, 2) { delivered_input(r) } else { gen::input(r) };
            if r.chance(1, 2) {
                rd.plan.fault = Some(gen::rfault(r, rd.bytes.len()));
            }
            c.rd.push(rd);
        }
        c.set("api", r.below(3) as i64);
        c.set("more", 1 + r.below(5) as i64);
        // abandon the first input after that many steps (0: run it to its end)
        if r.chance(1, 4) {
            c.set("stop", 1 + r.small(12) as i64);
        }
        c.set("mixed", i64::from(r.chance(1, 3)));
        c
    },
    run: |c, st| {
        if c.rd.len() < 2 {
            return Res::Skip("needs two inputs");
        }
        let (a, b) = (&c.rd[0], &c.rd[1]);
        let stop = if c.p("stop") > 0 { c.p("stop") as usize } else { usize::MAX };
        let more = c.p("more").clamp(0, 50);
        if stop != usize::MAX {
            st.probe("reset_in_mid_stream");
        }
        match c.p("api") {
            1 => {
                let mut s = RealScanner::new(a, 1);
                let first = s.run(step_cap(a.bytes.len()).min(stop));
                hash(st, &first);
                if first.end != End::Runaway {
                    let t0 = s.st.ticks.get();
                    for i in 0..more {
                        match s.step() {
                            Ok(x) if x.ev.kind == "STREAM-END" => {}
                            Ok(x) => return Res::Fail("resurrected", format!("call {i} after {:?} returned {:?}", first.end, x.ev)),
                            Err(e) => return Res::Fail("error-again", format!("call {i} after {:?} failed: {}", first.end, e.display)),
                        }
                    }
                    ensure!(s.st.ticks.get() == t0, "read-after-end", "the source was read again after {:?}", first.end);
                    if let Some(x) = s.iter_next() {
                        return Res::Fail("iterator", format!("the iterator continued after the end: {x:?}"));
                    }
                } else if stop == usize::MAX {
                    return Res::Fail("runaway", "no end".into());
                }
                st.src(&s.st, &a.plan);
                s.reuse(b, 2);
                let again = s.run(step_cap(b.bytes.len()));
                hash(st, &again);
                st.src(&s.st, &b.plan);
                let (fresh, _) = real::scan(b, 2);
                attempt!(same_run(&again, &fresh));
            }
            2 => {
                let mut p = RealParser::new(a, 1);
                let (docs, end) = p.run_load(step_cap(a.bytes.len()).min(stop));
                st.step(docs.len());
                if end != End::Runaway {
                    let t0 = p.st.ticks.get();
                    for i in 0..more {
                        match p.load() {
                            Ok(x) if x.nodes.is_empty() => {}
                            Ok(x) => return Res::Fail("resurrected", format!("load {i} after {end:?} returned {x:?}")),
                            Err(e) => return Res::Fail("error-again", format!("load {i} after {end:?} failed: {}", e.display)),
                        }
                        if c.p("mixed") == 1 {
                            match p.step() {
                                Ok(x) if x.ev == Ev::StreamEnd => {}
                                Ok(x) => return Res::Fail("resurrected", format!("parse after {end:?} returned {:?}", x.ev)),
                                Err(e) => return Res::Fail("error-again", format!("parse after {end:?} failed: {}", e.display)),
                            }
                        }
                    }
                    ensure!(p.st.ticks.get() == t0, "read-after-end", "the source was read again after {end:?}");
                } else if stop == usize::MAX {
                    return Res::Fail("runaway", "no end".into());
                }
                st.src(&p.st, &a.plan);
                p.reuse(b, 2);
                let (docs, end) = p.run_load(step_cap(b.bytes.len()));
                let again = doc_trace(docs, end);
                hash(st, &again);
                st.src(&p.st, &b.plan);
                let (v, e, _) = real::load(b, 2);
                attempt!(same_run(&again, &doc_trace(v, e)));
            }
            _ => {
                let mut p = RealParser::new(a, 1);
                let first = p.run(step_cap(a.bytes.len()).min(stop));
                hash(st, &first);
                if first.end != End::Runaway {
                    let t0 = p.st.ticks.get();
                    for i in 0..more {
                        match p.step() {
                            Ok(x) if x.ev == Ev::StreamEnd => {}
                            Ok(x) => return Res::Fail("resurrected", format!("call {i} after {:?} returned {:?}", first.end, x.ev)),
                            Err(e) => return Res::Fail("error-again", format!("call {i} after {:?} failed: {}", first.end, e.display)),
                        }
                        if c.p("mixed") == 1 {
                            match p.load() {
                                Ok(x) if x.nodes.is_empty() => {}
                                Ok(x) => return Res::Fail("resurrected", format!("load after {:?} returned {x:?}", first.end)),
                                Err(e) => return Res::Fail("error-again", format!("load after {:?} failed: {}", first.end, e.display)),
                            }
                        }
                    }
                    ensure!(p.st.ticks.get() == t0, "read-after-end", "the source was read again after {:?}", first.end);
                    if let Some(x) = p.iter_next() {
                        return Res::Fail("iterator", format!("the iterator continued after the end: {x:?}"));
                    }
                } else if stop == usize::MAX {
                    return Res::Fail("runaway", "no end".into());
                }
                st.src(&p.st, &a.plan);
                p.reuse(b, 2);
                let again = p.run(step_cap(b.bytes.len()));
                hash(st, &again);
                st.src(&p.st, &b.plan);
                let (fresh, _) = real::parse(b, 2);
                attempt!(same_run(&again, &fresh));
            }
        }
        Res::Ok
    },
    rule: "a run drives a parser, scanner or loader over a first input (valid, malformed, undecodable or with an injected read error) to its end, to its failure, or only part of the way, keeps calling it, then resets it and runs a second input, which must behave as on a fresh instance; non-trivial: a fault, EINTR or short delivery fired and at least 3 steps were taken",
    stubs: SRC_STUB,
    assumptions: &["load() and parse() are only mixed after the end or a failure (mixing them earlier is documented misuse)"],
};

fn same_run<T: PartialEq + std::fmt::Debug>(a: &Trace<T>, b: &Trace<T>) -> Res {
    if let Some(d) = a.steps_diff(b) {
        return Res::Fail("reset", format!("after reset vs fresh: {d}"));
    }
    ensure!(a.end == b.end, "reset", "after reset ends with {:?}, fresh with {:?}", a.end, b.end);
    Res::Ok
}

// ---------------------------------------------------------------- C06

/// Pushdown acceptor for event streams. Returns the complaint for the first illegal step.
pub fn grammar(evs: &[&Ev], complete: bool) -> Option<String> {
    #[derive(Debug, PartialEq)]
    enum S {
        Stream,
        Doc,
        DocDone,
        Seq,
        Key,
        Value,
    }
    let mut st: Vec<S> = vec![];
    let mut ended = false;
    for (i, e) in evs.iter().enumerate() {
        if ended {
            return Some(format!("event {i} {e:?} after the stream end"));
        }
        let top = st.last();
        let node_ok = matches!(top, Some(S::Doc | S::Seq | S::Key | S::Value));
        let bad = || Some(format!("event {i} {e:?} in state {top:?}"));
        match e {
            Ev::Set(..) => return bad(),
            Ev::StreamStart(_) => {
                if i != 0 {
                    return bad();
                }
                st.push(S::Stream);
            }
            _ if i == 0 => return Some(format!("first event is {e:?}")),
            Ev::StreamEnd => {
                if top != Some(&S::Stream) {
                    return bad();
                }
                ended = true;
            }
            Ev::DocStart { .. } => {
                if top != Some(&S::Stream) {
                    return bad();
                }
                st.push(S::Doc);
            }
            Ev::DocEnd(_) => {
                if top != Some(&S::DocDone) {
                    return bad();
                }
                st.pop();
            }
            Ev::Alias(_) | Ev::Scalar { .. } | Ev::SeqStart { .. } | Ev::MapStart { .. } => {
                if !node_ok {
                    return bad();
                }
                let t = match st.pop().unwrap() {
                    S::Doc => S::DocDone,
                    S::Key => S::Value,
                    S::Value => S::Key,
                    o => o,
                };
                st.push(t);
                match e {
                    Ev::SeqStart { .. } => st.push(S::Seq),
                    Ev::MapStart { .. } => st.push(S::Key),
                    _ => {}
                }
            }
            Ev::SeqEnd => {
                if top != Some(&S::Seq) {
                    return bad();
                }
                st.pop();
            }
            Ev::MapEnd => {
                if top != Some(&S::Key) {
                    return bad();
                }
                st.pop();
            }
        }
    }
    if complete && !ended {
        return Some("ended without a stream end event".into());
    }
    None
}

/// The decoded input, with the line and column of every character boundary (marks count octets of
/// the UTF-8 form, columns count characters).
pub struct Text {
    s: String,
    pos: Vec<Option<(u64, u64)>>,
}

impl Text {
    pub fn new(chars: &[char]) -> Text {
        let s: String = chars.iter().collect();
        let mut pos = vec![None; s.len() + 1];
        let (mut l, mut c, mut at) = (0, 0, 0);
        for (i, ch) in chars.iter().enumerate() {
            pos[at] = Some((l, c));
            at += ch.len_utf8();
            let brk = match ch {
                '\n' | '\u{85}' | '\u{2028}' | '\u{2029}' => true,
                '\r' => chars.get(i + 1) != Some(&'\n'),
                _ => false,
            };
            if brk {
                l += 1;
                c = 0;
            } else {
                c += 1;
            }
        }
        pos[at] = Some((l, c));
        Text { s, pos }
    }
}

pub fn mark_ok(m: Mk, text: &Text, what: &str) -> Res {
    let at = m.index as usize;
    ensure!(at <= text.s.len(), "mark-range", "{what}: index {at} beyond the {} octets of the input", text.s.len());
    let Some(p) = text.pos[at] else {
        return Res::Fail("mark-range", format!("{what}: index {at} is within a character"));
    };
    // at the end of an input without a final break, the scanner "forces a new line" as libyaml does
    let forced = at == text.s.len() && p.1 != 0 && (m.line, m.column) == (p.0 + 1, 0);
    ensure!(
        (m.line, m.column) == p || forced,
        "mark-position",
        "{what}: index {at} is line {} column {}, reported line {} column {}",
        p.0,
        p.1,
        m.line,
        m.column
    );
    Res::Ok
}

fn event_text(s: &Step<Ev>, text: &Text) -> Res {
    let slice = &text.s[s.sm.index as usize..s.em.index as usize];
    match &s.ev {
        Ev::Alias(n) => ensure!(slice == format!("*{n}"), "extent", "alias {n:?} covers {slice:?}"),
        Ev::Scalar { anchor, tag, value, style, .. } => {
            let bare = anchor.is_none() && tag.is_none();
            match style {
                1 => {
                    if bare && !value.contains('\n') && !slice.chars().any(|c| matches!(c, '\n' | '\r' | '\u{85}' | '\u{2028}' | '\u{2029}')) {
                        ensure!(slice == *value, "extent", "plain scalar {value:?} covers {slice:?}");
                    }
                    if !value.is_empty() {
                        ensure!(
                            slice.chars().last() == value.chars().last(),
                            "extent",
                            "plain scalar {value:?} covers {slice:?}"
                        );
                    }
                }
                2 | 3 => {
                    let q = if *style == 2 { '\'' } else { '"' };
                    ensure!(slice.ends_with(q) && (!bare || slice.starts_with(q)), "extent", "quoted scalar {value:?} covers {slice:?}");
                }
                4 | 5 => {
                    let q = if *style == 4 { '|' } else { '>' };
                    ensure!(!bare || slice.starts_with(q), "extent", "block scalar {value:?} covers {slice:?}");
                }
                _ => {}
            }
            if let (Some(a), true) = (anchor, tag.is_none()) {
                ensure!(slice.starts_with(&format!("&{a}")), "extent", "scalar with anchor {a:?} covers {slice:?}");
            }
        }
        Ev::SeqStart { anchor, tag, style, .. } => {
            if *style == 2 {
                ensure!(slice.ends_with('['), "extent", "flow sequence start covers {slice:?}");
            }
            if let (Some(a), true) = (anchor, tag.is_none()) {
                ensure!(slice.starts_with(&format!("&{a}")), "extent", "sequence with anchor {a:?} covers {slice:?}");
            }
        }
        Ev::MapStart { .. } | Ev::DocStart { .. } | Ev::DocEnd(_) | Ev::StreamStart(_) | Ev::StreamEnd | Ev::SeqEnd | Ev::MapEnd | Ev::Set(..) => {}
    }
    Res::Ok
}

pub const C06: Prop = Prop {
    id: "C06",
    quick: 5_000_000,
    deep: 60,
    gen: |r, _, _| {
        let mut c = Case::new("C06");
        let mut rd = delivered_input(r);
        if r.chance(2, 5) {
            rd.plan.fault = Some(gen::rfault(r, rd.bytes.len()));
        }
        c.rd.push(rd);
        c.set("api", i64::from(r.chance(1, 4)));
        c
    },
    run: |c, st| {
        let Some(rd) = c.rd.first() else { return Res::Skip("no input") };
        let d = decode(&rd.bytes, rd.enc);
        note_delivery(rd, &d, st);
        let (got, _) = run_api(rd, c.p("api").min(1), st);
        let text = Text::new(&d.chars);
        let check_err = |end: &End| -> Res {
            if let End::Err(e) = end {
                if let Some(m) = e.pmark {
                    attempt!(mark_ok(m, &text, "problem mark"));
                }
                if let Some(m) = e.cmark {
                    attempt!(mark_ok(m, &text, "context mark"));
                    if let Some(p) = e.pmark {
                        ensure!(m.index <= p.index, "mark-order", "context mark {m:?} after problem mark {p:?}");
                    }
                }
            }
            Res::Ok
        };
        match &got {
            Got::Events(t) => {
                let evs: Vec<&Ev> = t.steps.iter().map(|s| &s.ev).collect();
                if let Some(m) = grammar(&evs, t.end == End::Eos) {
                    return Res::Fail("grammar", m);
                }
                let mut last = 0;
                let mut depth = 0u64;
                for (i, s) in t.steps.iter().enumerate() {
                    let what = format!("event {i} {:?}", s.ev.kind());
                    attempt!(mark_ok(s.sm, &text, &what));
                    attempt!(mark_ok(s.em, &text, &what));
                    ensure!(s.sm.index <= s.em.index, "mark-order", "{what}: start {:?} after end {:?}", s.sm, s.em);
                    ensure!(s.sm.index >= last, "mark-order", "{what}: starts at {} before an earlier event's start {last}", s.sm.index);
                    last = s.sm.index;
                    attempt!(event_text(s, &text));
                    match s.ev {
                        Ev::SeqStart { .. } | Ev::MapStart { .. } => depth += 1,
                        Ev::SeqEnd | Ev::MapEnd => depth -= 1,
                        _ => {}
                    }
                    if depth > 20 {
                        st.probe("deep_nesting");
                    }
                }
                // anchors are defined before use is the composer's business (C14); directives here
                attempt!(check_err(&t.end));
            }
            Got::Tokens(t) => {
                let mut last = 0;
                for (i, s) in t.steps.iter().enumerate() {
                    let what = format!("token {i} {}", s.ev.kind);
                    attempt!(mark_ok(s.sm, &text, &what));
                    attempt!(mark_ok(s.em, &text, &what));
                    ensure!(s.sm.index <= s.em.index, "mark-order", "{what}: start {:?} after end {:?}", s.sm, s.em);
                    ensure!(s.sm.index >= last, "mark-order", "{what}: starts at {} before {last}", s.sm.index);
                    last = s.sm.index;
                    let slice = &text.s[s.sm.index as usize..s.em.index as usize];
                    let want = match s.ev.kind {
                        "ALIAS" => format!("*{}", s.ev.a),
                        "ANCHOR" => format!("&{}", s.ev.a),
                        "FLOW-SEQ-START" => "[".into(),
                        "FLOW-SEQ-END" => "]".into(),
                        "FLOW-MAP-START" => "{".into(),
                        "FLOW-MAP-END" => "}".into(),
                        "FLOW-ENTRY" => ",".into(),
                        "BLOCK-ENTRY" => "-".into(),
                        "VALUE" => ":".into(),
                        "DOC-START" => "---".into(),
                        "DOC-END" => "...".into(),
                        "BLOCK-END" | "BLOCK-SEQ-START" | "BLOCK-MAP-START" | "STREAM-END" => String::new(),
                        _ => continue,
                    };
                    ensure!(slice == want, "extent", "{what} covers {slice:?}, not {want:?}");
                }
                attempt!(check_err(&t.end));
            }
            Got::Docs(_) => {}
        }
        Res::Ok
    },
    rule: "a run parses or scans one generated, mutated or corrupted input through a simulated source (2 in 5 with an injected read error) and checks every prefix of the delivered events against a pushdown model of the event grammar, and every mark against positions computed independently from the decoded bytes; non-trivial: a fault, EINTR or short delivery fired and at least 3 steps were checked",
    stubs: SRC_STUB,
    assumptions: &["a mark's index counts octets of the UTF-8 form after the byte order mark, its column counts characters, its lines end at CR, LF, CRLF, NEL, LS or PS"],
};

// ---------------------------------------------------------------- C07

pub const C07: Prop = Prop {
    id: "C07",
    quick: 3_750_000,
    deep: 60,
    gen: |r, _, _| {
        let mut c = Case::new("C07");
        if r.chance(1, 3) {
            // a conversation: the peer sends document n+1 only after document n was delivered
            c.set("talk", 1);
            let n = 2 + r.small(4);
            let mut bytes = vec![];
            let enc = *r.pick(&[0u8, 0, 0, 2, 3]);
            if enc == 2 {
                bytes.extend_from_slice(b"\xff\xfe");
            } else if enc == 3 {
                bytes.extend_from_slice(b"\xfe\xff");
            }
            for k in 0..n {
                let mut t = gen::good_text(r);
                if !t.ends_with('\n') {
                    t.push('\n');
                }
                let t = match r.below(4) {
                    0 => t,
                    1 => format!("message {k}\n"),
                    _ => format!("- {k}\n- {{a: b}}\n"),
                };
                bytes.extend(gen::encode(&format!("---\n{t}...\n"), enc));
                c.sched.push(bytes.len() as u32);
            }
            let mut rd = Rd { bytes, enc: 0, plan: RPlan::default() };
            rd.plan = gen::rplan(r, &rd.bytes);
            c.rd.push(rd);
            c.set("api", if r.chance(1, 3) { 2 } else { 0 });
        } else {
            c.set("api", *r.pick(&[0, 0, 1, 2]));
            let mut rd = gen::input(r);
            rd.plan = gen::rplan(r, &rd.bytes);
            c.rd.push(rd);
        }
        c
    },
    run: |c, st| {
        let Some(rd) = c.rd.first() else { return Res::Skip("no input") };
        let d = decode(&rd.bytes, rd.enc);
        if d.bad.is_some() {
            return Res::Skip("undecodable input");
        }
        note_delivery(rd, &d, st);
        if c.p("talk") == 1 {
            return talk(c, rd, st);
        }
        let cap = step_cap(rd.bytes.len());
        // boundaries of the deliveries
        let len = rd.bytes.len() as u64;
        let up = |need: u64| -> u64 {
            let mut at = 0u64;
            for ch in &rd.plan.chunks {
                if at >= need {
                    break;
                }
                at += u64::from((*ch).max(1));
            }
            if at < need {
                at = if rd.plan.rest == 0 { len } else { at + (need - at).div_ceil(u64::from(rd.plan.rest)) * u64::from(rd.plan.rest) };
            }
            at.min(len)
        };
        let late = |i: usize, what: &dyn std::fmt::Debug, pulled: u64, needed: u64| -> Res {
            let allowed = up((needed + SLACK).min(len));
            ensure!(pulled <= allowed, "late", "{i}: {what:?} was delivered after {pulled} bytes; libyaml needs {needed} and the delivery boundary is {allowed}");
            Res::Ok
        };
        let (io, early) = match c.p("api") {
            1 => {
                let f = refr::scan(&rd.bytes, rd.enc, 1, cap);
                let mut p = RealScanner::new(rd, 1);
                let t = p.run(cap);
                hash(st, &t);
                let mut early = false;
                for (i, (a, b)) in t.steps.iter().zip(&f.steps).enumerate() {
                    if a.ev.kind != b.ev.kind {
                        break;
                    }
                    attempt!(late(i, &a.ev, a.pulled, b.pulled));
                    early |= a.pulled < len;
                }
                if t.end == End::Eos {
                    p.st.closed.set(true);
                    let _ = p.step();
                }
                (p.st.clone(), early)
            }
            2 => {
                let f = refr::parse(&rd.bytes, rd.enc, 1, cap);
                let ends: Vec<u64> = f.steps.iter().filter(|s| matches!(s.ev, Ev::DocEnd(_))).map(|s| s.pulled).collect();
                let mut p = RealParser::new(rd, 1);
                let (mut i, mut early, mut size) = (0, false, 0);
                let end = loop {
                    match p.load() {
                        Ok(d) if d.nodes.is_empty() => break true,
                        Ok(d) => {
                            let Some(need) = ends.get(i) else { break false };
                            attempt!(late(i, &"document", p.st.pulled.get(), *need));
                            early |= p.st.pulled.get() < len;
                            i += 1;
                            size += d.nodes.len();
                        }
                        Err(_) => break false,
                    }
                    if i > cap {
                        break false;
                    }
                };
                st.step(size);
                if end {
                    p.st.closed.set(true);
                    let _ = p.load();
                    let _ = p.step();
                }
                (p.st.clone(), early)
            }
            _ => {
                let f = refr::parse(&rd.bytes, rd.enc, 1, cap);
                let mut p = RealParser::new(rd, 1);
                let t = p.run(cap);
                hash(st, &t);
                let mut early = false;
                for (i, (a, b)) in t.steps.iter().zip(&f.steps).enumerate() {
                    if a.ev.kind() != b.ev.kind() {
                        break;
                    }
                    attempt!(late(i, &a.ev, a.pulled, b.pulled));
                    early |= a.pulled < len;
                }
                if t.end == End::Eos {
                    p.st.closed.set(true);
                    let _ = p.step();
                    let _ = p.load();
                }
                (p.st.clone(), early)
            }
        };
        ensure!(io.after_close.get() == 0, "read-after-end", "the source was read after the stream end");
        if early {
            st.probe("event_before_end_of_input");
        }
        st.src(&io, &rd.plan);
        Res::Ok
    },
    rule: "a run either compares, event by event, token by token or document by document, how much of the input had been pulled from a source with random delivery sizes with what libyaml needs (one byte at a time), or holds a conversation in which a peer sends the next document only after the previous one was delivered; non-trivial: a short delivery, stall or EINTR fired and at least 3 events were compared",
    stubs: SRC_STUB,
    assumptions: &["libyaml reading one byte at a time defines how much input an event needs", "documents of a conversation end with an explicit '...' line"],
};
const SLACK: u64 = 4;

fn talk(c: &Case, rd: &Rd, st: &mut Stats) -> Res {
    let mut ends: Vec<u64> = c.sched.iter().map(|x| u64::from(*x).min(rd.bytes.len() as u64)).collect();
    if ends.last() != Some(&(rd.bytes.len() as u64)) {
        return Res::Skip("the messages do not cover the input");
    }
    ends.dedup();
    // only conversations in which every message is a whole number of complete documents
    let mut want = vec![];
    for e in &ends {
        let part = Rd { bytes: rd.bytes[..*e as usize].to_vec(), enc: rd.enc, plan: RPlan::default() };
        let t = refr::parse(&part.bytes, part.enc, 4096, step_cap(part.bytes.len()));
        if t.end != End::Eos {
            return Res::Skip("malformed message");
        }
        let docs: Vec<bool> = t.steps.iter().filter_map(|s| if let Ev::DocEnd(i) = s.ev { Some(i) } else { None }).collect();
        if docs.last() != Some(&false) {
            return Res::Skip("message without an explicit end");
        }
        want.push(docs.len());
    }
    let mut p = RealParser::new(rd, 1);
    p.st.gate.set(ends[0]);
    let mut got = 0;
    let mut turn = 0;
    let mut n = 0;
    let load = c.p("api") == 2;
    loop {
        let r = if load {
            p.load().map(|d| if d.nodes.is_empty() { Ev::StreamEnd } else { Ev::DocEnd(false) })
        } else {
            p.step().map(|s| s.ev)
        };
        match r {
            Ok(ev) => {
                n += 1;
                match ev {
                    Ev::DocEnd(_) => {
                        got += 1;
                        if turn + 1 < ends.len() && got == want[turn] {
                            turn += 1;
                            p.st.gate.set(ends[turn]);
                            st.fault("peer_turn", 1);
                        } else if turn + 1 == ends.len() && got == want[turn] {
                            p.st.gate.set(u64::MAX);
                        }
                    }
                    Ev::StreamEnd => break,
                    _ => {}
                }
            }
            Err(e) => {
                if p.st.blocked.get() > 0 {
                    return Res::Fail(
                        "deadlock",
                        format!(
                            "after {} documents the parser waits for more input, but the peer has sent {} complete documents ({} bytes) and waits for a reply",
                            got, want[turn], ends[turn]
                        ),
                    );
                }
                if load && e.kind == EK::Composer {
                    return Res::Skip("the composer refuses a document");
                }
                return Res::Fail("steps", format!("a valid conversation failed: {}", e.display));
            }
        }
        if n > step_cap(rd.bytes.len()) {
            return Res::Fail("runaway", "no end".into());
        }
    }
    st.step(n);
    st.probe("conversation");
    st.src(&p.st, &rd.plan);
    ensure!(got == *want.last().unwrap(), "steps", "{got} documents, not {}", want.last().unwrap());
    Res::Ok
}
