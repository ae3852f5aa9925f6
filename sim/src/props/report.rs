//! C18: what errors say, for errors of every origin under injected faults.
use super::common::decode;
use super::input::{delivered_input, mark_ok, note_delivery, Text};
use super::{Prop, Res};
use crate::io::SimFault;
use crate::model::*;
use crate::real::{self, mk};
use crate::stats::Stats;
use crate::{attempt, ensure, gen};
use libyaml_safer as y;
use std::error::Error as _;

/// What the simulator knows about the failure.
struct Known<'a> {
    input: Option<&'a Rd>,
    fired: bool,
    kind: Option<std::io::ErrorKind>,
    id: u64,
}

fn place(m: y::Mark) -> String {
    format!("line {} column {}", m.line + 1, m.column + 1)
}

fn judge(e: y::Error, k: &Known, st: &mut Stats) -> Res {
    use y::ErrorKind as K;
    let shown = e.to_string();
    let name = match e.kind() {
        K::Reader => "Reader",
        K::Scanner => "Scanner",
        K::Parser => "Parser",
        K::Composer => "Composer",
        K::Emitter => "Emitter",
        K::Io => "I/O",
    };
    st.probe(match e.kind() {
        K::Reader => "reader_error",
        K::Scanner => "scanner_error",
        K::Parser => "parser_error",
        K::Composer => "composer_error",
        K::Emitter => "emitter_error",
        K::Io => "io_error",
    });
    ensure!(e.kind().to_string() == name, "display", "kind {:?} displays as {}", e.kind(), e.kind());
    let (problem, context, pm, cm) = (e.problem(), e.context(), e.problem_mark(), e.context_mark());
    let Some(body) = shown.strip_prefix(&format!("{name} error: ")) else {
        return Res::Fail("display", format!("{shown:?} does not begin with its kind {name}"));
    };
    for m in [pm, cm].into_iter().flatten() {
        ensure!(m.to_string() == place(m), "display", "{m:?} displays as {m}");
    }
    match e.kind() {
        K::Scanner | K::Parser | K::Composer => {
            let Some(p) = pm else { return Res::Fail("accessors", format!("{shown:?} has no position")) };
            ensure!(context.is_some() == cm.is_some(), "accessors", "context {context:?} at {cm:?}");
            ensure!(!problem.is_empty() && context != Some(""), "accessors", "problem {problem:?}, context {context:?}");
            let want = match (context, cm) {
                (Some(c), Some(m)) => format!("{}: {problem} {c} ({})", place(p), place(m)),
                _ => format!("{}: {problem}", place(p)),
            };
            ensure!(body == want, "display", "{body:?} for {want:?}");
            if let Some(rd) = k.input {
                let text = Text::new(&decode(&rd.bytes, rd.enc).chars);
                attempt!(mark_ok(mk(p), &text, "problem mark"));
                if let Some(m) = cm {
                    attempt!(mark_ok(mk(m), &text, "context mark"));
                }
            }
        }
        K::Reader => {
            ensure!(pm.is_none() && cm.is_none() && context.is_none() && !problem.is_empty(), "accessors", "{problem:?} {context:?} {pm:?} {cm:?}");
            let Some(rd) = k.input else { return Res::Fail("accessors", "a reader error without a reader".into()) };
            let d = decode(&rd.bytes, rd.enc);
            let Some(bad) = d.bad else { return Res::Fail("reader", format!("{shown:?}, but all of the input can be decoded")) };
            let rest = &rd.bytes[bad..];
            let unit = |i: usize| rest.get(i..i + 2).map(|b| if d.enc == 2 { u16::from_le_bytes([b[0], b[1]]) } else { u16::from_be_bytes([b[0], b[1]]) });
            // what stands there: a character that is not allowed, something cut off by the end, or something invalid
            let utf8 = || match std::str::from_utf8(&rest[..rest.len().min(4)]) {
                Ok(s) => s.chars().next().map(|c| c as i64),
                Err(e) if e.valid_up_to() > 0 => std::str::from_utf8(&rest[..e.valid_up_to()]).unwrap().chars().next().map(|c| c as i64),
                Err(e) if e.error_len().is_none() => Some(-1),
                Err(_) => Some(i64::from(rest[0])),
            };
            let utf16 = || match (unit(0), unit(2)) {
                (None, _) => Some(-1),
                (Some(u), None) if (0xd800..0xdc00).contains(&u) => Some(-1),
                (Some(u), _) => Some(i64::from(u)),
            };
            let value = if d.enc == 1 { utf8() } else { utf16() };
            // an octet that could begin a byte order mark but does not is reported as such
            let mark = bad == 0 && rd.enc == 0 && matches!(rest[0], 0xff | 0xfe | 0xef);
            let head = format!("{problem} (offset {bad}, value ");
            ensure!(body.starts_with(&head) && body.ends_with(')'), "offset", "{body:?}, but the first octet that cannot be decoded is at {bad}");
            if !mark {
                ensure!(body == format!("{head}{})", value.unwrap_or(-1)), "value", "{body:?}, expected value {value:?}");
            }
            st.probe(if mark { "reader_error_at_mark" } else { "reader_error_located" });
        }
        K::Emitter => {
            ensure!(pm.is_none() && cm.is_none() && context.is_none() && !problem.is_empty(), "accessors", "{problem:?} {context:?} {pm:?} {cm:?}");
            ensure!(body == problem, "display", "{body:?} for {problem:?}");
        }
        K::Io => {
            ensure!(pm.is_none() && cm.is_none() && context.is_none() && !problem.is_empty(), "accessors", "{problem:?} {context:?} {pm:?} {cm:?}");
            ensure!(k.fired, "io", "{shown:?}, but nothing failed");
        }
    }
    // the chain of causes, and conversion into an I/O error
    let is_io = e.kind() == K::Io;
    match (is_io, e.source().and_then(|s| s.downcast_ref::<std::io::Error>())) {
        (true, Some(s)) => {
            ensure!(body == s.to_string(), "display", "{body:?} for {s}");
            // a sink that accepts nothing has no error of its own
            if let Some(kind) = k.kind {
                ensure!(s.kind() == kind, "cause", "the cause is {:?}, injected was {kind:?}", s.kind());
                let id = s.get_ref().and_then(|r| r.downcast_ref::<SimFault>()).map(|f| f.id);
                ensure!(id == Some(k.id), "cause", "the cause is {s:?}, injected was fault {}", k.id);
            } else {
                ensure!(s.kind() == std::io::ErrorKind::WriteZero, "cause", "the cause is {s:?} where the sink accepted nothing");
            }
        }
        (false, None) => ensure!(e.source().is_none(), "cause", "{shown:?} has a cause"),
        (_, s) => return Res::Fail("cause", format!("{shown:?} has the cause {s:?}")),
    }
    match (is_io, std::io::Error::try_from(e)) {
        (true, Ok(io)) => {
            if let Some(kind) = k.kind {
                let id = io.get_ref().and_then(|r| r.downcast_ref::<SimFault>()).map(|f| f.id);
                ensure!(io.kind() == kind && id == Some(k.id), "conversion", "converted into {io:?}");
            }
            // and back
            let text = io.to_string();
            let kind = io.kind();
            let again = y::Error::from(io);
            ensure!(again.kind() == K::Io && again.to_string() == shown, "conversion", "{again} from {text}");
            ensure!(std::io::Error::try_from(again).map(|x| x.kind()).ok() == Some(kind), "conversion", "{text} is not what went in");
            Res::Ok
        }
        (false, Err(back)) => {
            ensure!(back.to_string() == shown, "conversion", "{shown:?} became {back}");
            Res::Ok
        }
        (io, x) => Res::Fail("conversion", format!("{shown:?} (I/O: {io}) converts into {x:?}")),
    }
}

pub const C18: Prop = Prop {
    id: "C18",
    quick: 3_000_000,
    deep: 60,
    gen: |r, _, _| {
        let mut c = Case::new("C18");
        let api = r.weighted(&[4, 2, 4, 3, 1]);
        c.set("api", api as i64);
        match api {
            0..=2 => {
                let mut rd = if api == 2 && r.chance(1, 2) {
                    let mut t = gen::good_text(r);
                    if r.chance(1, 2) {
                        t.push_str(["\n--- *nope\n", "\n--- [&a 1, &a 2]\n", "\n--- {&b k: *c}\n"][r.below(3)]);
                    }
                    let mut rd = gen::encode_input(r, &t);
                    rd.plan = gen::rplan(r, &rd.bytes);
                    rd
                } else {
                    delivered_input(r)
                };
                if r.chance(1, 4) {
                    gen::corrupt(r, &mut rd.bytes);
                }
                if r.chance(1, 4) {
                    rd.plan.fault = Some(gen::rfault(r, rd.bytes.len()));
                }
                c.rd.push(rd);
            }
            3 => {
                let mut evs = super::emit::out_events(r);
                if r.chance(1, 2) {
                    gen::scramble(r, &mut evs);
                }
                let cfg = gen::cfg(r);
                let mut plan = gen::wplan(r);
                if r.chance(1, 2) {
                    let len = super::emit::out_len(&evs, &cfg);
                    plan.fault = Some(gen::wfault(r, len));
                }
                c.em.push(Em { evs, cfg, plan });
            }
            _ => {
                c.docs.push(gen::doc(r));
                let cfg = gen::cfg(r);
                let mut plan = gen::wplan(r);
                let len = super::emit::dump_len(r, &c.docs, &cfg);
                plan.fault = Some(gen::wfault(r, len));
                c.em.push(Em { evs: vec![], cfg, plan });
            }
        }
        c
    },
    run: |c, st| {
        let api = c.p("api");
        let (err, fired);
        if api <= 2 {
            let Some(rd) = c.rd.first() else { return Res::Skip("no input") };
            let d = decode(&rd.bytes, rd.enc);
            note_delivery(rd, &d, st);
            let cap = real::step_cap(rd.bytes.len());
            let mut n = 0;
            let io;
            if api == 1 {
                let mut s = real::RealScanner::new(rd, 3);
                io = s.st.clone();
                err = loop {
                    match y::Scanner::scan(&mut s.s) {
                        Ok(t) if matches!(t.data, y::TokenData::StreamEnd) => break None,
                        Ok(_) if n > cap => return Res::Fail("runaway", "no end".into()),
                        Ok(_) => n += 1,
                        Err(e) => break Some(e),
                    }
                };
            } else {
                let mut p = real::RealParser::new(rd, 3);
                io = p.st.clone();
                err = loop {
                    if n > cap {
                        return Res::Fail("runaway", "no end".into());
                    }
                    n += 1;
                    if api == 0 {
                        match p.p.parse() {
                            Ok(e) if matches!(e.data, y::EventData::StreamEnd) => break None,
                            Ok(_) => {}
                            Err(e) => break Some(e),
                        }
                    } else {
                        match y::Document::load(&mut p.p) {
                            Ok(x) if x.nodes.is_empty() => break None,
                            Ok(_) => {}
                            Err(e) => break Some(e),
                        }
                    }
                };
            }
            st.step(n);
            st.src(&io, &rd.plan);
            fired = io.fault_fired.get() > 0;
            st.mixin(io.fp.get());
            let Some(e) = err else { return Res::Ok };
            let kind = rd.plan.fault.as_ref().map(|f| crate::io::kind(f.kind));
            return judge(e, &Known { input: Some(rd), fired, kind, id: 3 }, st);
        }
        let Some(em) = c.em.first() else { return Res::Skip("no output") };
        let mut n = 0;
        let (e, _, io) = real::with_emitter(&em.plan, &em.cfg, 3, |e, _, _| {
            if api == 3 {
                for ev in &em.evs {
                    real::emit_ev(e, ev)?;
                    n += 1;
                }
            } else {
                for d in &c.docs {
                    real::build_doc(d).dump(e)?;
                    n += 1;
                }
                if n > 0 {
                    e.close()?;
                }
            }
            Ok(())
        });
        st.step(n);
        st.sink(&io, &em.plan);
        st.mixin(io.fp.get());
        fired = io.fault_fired.get() > 0;
        let Err(e) = e else { return Res::Ok };
        let kind = em.plan.fault.as_ref().and_then(|f| if f.kind == 255 { None } else { Some(crate::io::kind(f.kind)) });
        judge(e, &Known { input: None, fired, kind, id: 3 }, st)
    },
    rule: "a run reads a generated or corrupted input (events, tokens or documents) or writes generated events or documents, with injected read and write failures, and examines the error it ends with: accessors, displayed text, positions and offsets against independent models, causes and conversions against the injected failure; non-trivial: a fault, EINTR or short transfer happened and at least 3 steps were made",
    stubs: "the byte source and sink",
    assumptions: &["the format of displayed errors is the one the crate's tests pin for parser errors and positions"],
};
