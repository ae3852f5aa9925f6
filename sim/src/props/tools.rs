//! C19: the command-line drivers that translate between YAML and event notation, on simulated
//! standard streams.
use super::common::decode;
use super::input::{delivered_input, note_delivery};
use super::{Prop, Res};
use crate::io::{SimReader, SimWriter};
use crate::model::*;
use crate::real;
use crate::rng::Rng;
use crate::stats::Stats;
use crate::{ensure, gen};

#[allow(dead_code)]
#[path = "/repo/src/bin/run-parser-test-suite.rs"]
mod parser_tool;
#[allow(dead_code)]
#[path = "/repo/src/bin/run-emitter-test-suite.rs"]
mod emitter_tool;

fn props(anchor: &Option<String>, tag: &Option<String>) -> String {
    let mut s = String::new();
    if let Some(a) = anchor {
        s += &format!(" &{a}");
    }
    if let Some(t) = tag {
        s += &format!(" <{t}>");
    }
    s
}

/// The notation of one event.
fn line(e: &Ev) -> String {
    match e {
        Ev::StreamStart(_) => "+STR".into(),
        Ev::StreamEnd => "-STR".into(),
        Ev::DocStart { implicit, .. } => if *implicit { "+DOC" } else { "+DOC ---" }.into(),
        Ev::DocEnd(implicit) => if *implicit { "-DOC" } else { "-DOC ..." }.into(),
        Ev::Alias(a) => format!("=ALI *{a}"),
        Ev::SeqStart { anchor, tag, .. } => format!("+SEQ{}", props(anchor, tag)),
        Ev::SeqEnd => "-SEQ".into(),
        Ev::MapStart { anchor, tag, .. } => format!("+MAP{}", props(anchor, tag)),
        Ev::MapEnd => "-MAP".into(),
        Ev::Scalar { anchor, tag, value, style, .. } => {
            let mut s = format!("=VAL{} {}", props(anchor, tag), [':', ':', '\'', '"', '|', '>'][*style as usize % 6]);
            for c in value.chars() {
                match c {
                    '\\' => s += "\\\\",
                    '\0' => s += "\\0",
                    '\u{8}' => s += "\\b",
                    '\n' => s += "\\n",
                    '\r' => s += "\\r",
                    '\t' => s += "\\t",
                    c => s.push(c),
                }
            }
            s
        }
        Ev::Set(..) => String::new(),
    }
}

/// What the notation leaves of an event, and None if the notation cannot express it.
fn denoted(e: &Ev) -> Option<Ev> {
    let name = |s: &Option<String>| s.as_ref().map_or(true, |s| !s.is_empty() && !s.contains([' ', '<', '>', '\n', '\r', '&', '*']));
    Some(match e {
        Ev::StreamStart(_) => Ev::StreamStart(1),
        Ev::DocStart { implicit, .. } => Ev::DocStart { version: None, tags: vec![], implicit: *implicit },
        Ev::SeqStart { anchor, tag, .. } if name(anchor) && name(tag) => Ev::SeqStart { anchor: anchor.clone(), tag: tag.clone(), implicit: false, style: 1 },
        Ev::MapStart { anchor, tag, .. } if name(anchor) && name(tag) => Ev::MapStart { anchor: anchor.clone(), tag: tag.clone(), implicit: false, style: 1 },
        Ev::Scalar { anchor, tag, value, style, .. } if name(anchor) && name(tag) => Ev::Scalar {
            anchor: anchor.clone(),
            tag: tag.clone(),
            value: value.clone(),
            plain: tag.is_none(),
            quoted: tag.is_none(),
            style: (*style).max(1),
        },
        Ev::Alias(a) if name(&Some(a.clone())) => e.clone(),
        Ev::StreamEnd | Ev::DocEnd(_) | Ev::SeqEnd | Ev::MapEnd => e.clone(),
        _ => return None,
    })
}

fn head(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(300).collect()
}

/// YAML in, notation out.
fn parsing(rd: &Rd, out: &WPlan, st: &mut Stats) -> Res {
    let d = decode(&rd.bytes, 0);
    note_delivery(rd, &d, st);
    let mut src = SimReader::new(&rd.bytes, &rd.plan, 3);
    let io = src.st.clone();
    let mut sink = SimWriter::new(&WPlan { fault: None, flush_err: None, ..out.clone() }, 4);
    let (data, so) = (sink.data.clone(), sink.st.clone());
    let r = parser_tool::test_main(&mut src, &mut sink).map_err(|e| e.to_string());
    let got = data.borrow().clone();
    st.src(&io, &rd.plan);
    st.sink(&so, out);
    st.mixin(io.fp.get());
    st.step(got.iter().filter(|b| **b == b'\n').count());
    // the decodable part, read calmly
    let n = d.bad.unwrap_or(rd.bytes.len());
    let (t, _) = real::parse(&Rd { bytes: rd.bytes[..n].to_vec(), enc: 0, plan: RPlan::default() }, 0);
    let mut want: Vec<u8> = vec![];
    for s in &t.steps {
        if d.bad.is_some() && s.ev == Ev::StreamEnd {
            break;
        }
        want.extend(line(&s.ev).bytes());
        want.push(b'\n');
    }
    if io.fault_fired.get() > 0 {
        st.probe("stdin_failed");
        ensure!(r == Err("Parse error: I/O error: simulated fault #3".into()), "fault", "standard input failed, and the outcome is {r:?}");
        ensure!(want.starts_with(&got) && (got.is_empty() || got.ends_with(b"\n")), "lines", "{:?} is no beginning of {:?}", head(&got), head(&want));
        return Res::Ok;
    }
    let model = match &t.end {
        End::Err(e) => Err(format!("Parse error: {}", e.display)),
        _ => Ok(()),
    };
    if d.bad.is_some() && r != model {
        ensure!(r.as_ref().is_err_and(|e| e.starts_with("Parse error: Reader error: ")), "outcome", "{r:?} for input that cannot be decoded");
        ensure!(want.starts_with(&got), "lines", "{:?} is no beginning of {:?}", head(&got), head(&want));
        return Res::Ok;
    }
    st.probe(if r.is_ok() { "parsed" } else { "parse_error" });
    ensure!(d.bad.is_none() || r.is_err(), "outcome", "success for input that cannot be decoded");
    ensure!(r == model, "outcome", "{r:?}, model {model:?}");
    ensure!(got == want, "lines", "{:?}, model {:?}", head(&got), head(&want));
    Res::Ok
}

/// Notation in, YAML out.
fn emitting(em: &Em, plan: &RPlan, strange: usize, unended: bool, garble: usize, st: &mut Stats) -> Res {
    let Some(evs) = em.evs.iter().filter(|e| !matches!(e, Ev::Set(..))).map(denoted).collect::<Option<Vec<Ev>>>() else {
        return Res::Skip("not expressible in the notation");
    };
    if !matches!(evs.first(), Some(Ev::StreamStart(_))) {
        return Res::Skip("no stream start");
    }
    let mut text = String::new();
    for (i, e) in evs.iter().enumerate() {
        if i + 1 == strange {
            text += "?what\n";
        }
        text += &line(e);
        text.push('\n');
    }
    if unended {
        text.pop();
        st.probe("last_line_not_ended");
    }
    let mut text = text.into_bytes();
    if garble > 0 {
        text.insert(garble.min(text.len()), 0xff);
    }
    let mut src = SimReader::new(&text, plan, 3);
    let io = src.st.clone();
    let mut sink = SimWriter::new(&em.plan, 4);
    let (data, so) = (sink.data.clone(), sink.st.clone());
    let r = emitter_tool::test_main(&mut src, &mut sink).map_err(|e| e.to_string());
    let got = data.borrow().clone();
    st.src(&io, plan);
    st.sink(&so, &em.plan);
    st.mixin(io.fp.get());
    st.mixin(so.fp.get());
    st.step(evs.len());
    // the library, given the same events calmly
    let cut = if strange > 0 && strange <= evs.len() { strange - 1 } else { evs.len() };
    let calm = real::emit(&Em { evs: evs[..cut].to_vec(), cfg: Cfg::default(), plan: WPlan::default() }, 0).0;
    if so.fault_fired.get() > 0 || io.fault_fired.get() > 0 {
        st.probe(if so.fault_fired.get() > 0 { "stdout_failed" } else { "stdin_failed" });
        ensure!(calm.out.starts_with(&got), "output", "{:?} is no beginning of {:?}", head(&got), head(&calm.out));
        let zero = em.plan.fault.as_ref().is_some_and(|f| f.kind == 255);
        let ok = match &r {
            Ok(()) => false,
            Err(e) if so.fault_fired.get() > 0 => zero && e.starts_with("I/O error: ") || e == "I/O error: simulated fault #4" || e == "simulated fault #4",
            Err(e) => e == "simulated fault #3" || calm.err.as_ref().is_some_and(|c| *e == c.1.display),
        };
        ensure!(ok, "fault", "a standard stream failed, and the outcome is {r:?}");
        return Res::Ok;
    }
    if garble > 0 {
        st.probe("not_utf8");
        ensure!(r.is_err(), "outcome", "notation that is not UTF-8 was accepted");
        ensure!(calm.out.starts_with(&got), "output", "{:?} is no beginning of {:?}", head(&got), head(&calm.out));
        return Res::Ok;
    }
    let model = match &calm.err {
        Some((_, e)) => Err(e.display.clone()),
        None if cut < evs.len() => Err("Unknown event: '?what'".into()),
        None => Ok(()),
    };
    st.probe(if r.is_ok() { "emitted" } else { "emit_error" });
    ensure!(r == model, "outcome", "{r:?}, model {model:?} for {:?}", head(&text));
    ensure!(got == calm.out, "output", "{:?}, model {:?} for {:?}", head(&got), head(&calm.out), head(&text));
    Res::Ok
}

/// What became of a tool's process.
struct Ended {
    out: Vec<u8>,
    err: String,
    code: Option<i32>,
    /// What the seam injected, one octet each.
    report: Vec<u8>,
}
/// Error numbers of injected failures.
const ERRNOS: [i32; 12] = [5, 104, 32, 110, 11, 71, 13, 22, 103, 95, 107, 28];

static ROOM: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
thread_local! {
    static HERE: std::path::PathBuf = {
        let n = ROOM.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let work = std::env::var_os("YAMLSIM_SCRATCH").map_or_else(|| crate::drive::root().join("work"), Into::into);
        work.join(format!("tools-{}-{n}", std::process::id()))
    };
}

/// Run a tool as a process on the given files (None: there is no such file), in a directory of its own.
fn process(tool: &str, files: &[Option<Vec<u8>>], rds: &[RPlan], out: &WPlan) -> std::io::Result<Ended> {
    use std::fs::{self, File};
    let nums = |v: &[u32]| v.iter().take(3000).map(|n| n.to_string()).collect::<Vec<_>>().join(",");
    let errno = |kind: u8| ERRNOS[kind as usize % ERRNOS.len()];
    let mut plan = format!("{};{};{};", nums(&out.chunks), out.rest, nums(&out.eintr));
    plan += &match &out.fault {
        Some(f) => format!("{};{};{}", f.at, if f.kind == 255 { 0 } else { errno(f.kind) }, f.mode),
        None => ";0;0".into(),
    };
    for r in rds {
        plan += &format!("|{};{};{};", nums(&r.chunks), r.rest, nums(&r.eintr));
        plan += &match &r.fault {
            Some(f) => format!("{};{};{}", f.at, errno(f.kind), f.mode),
            None => ";0;0".into(),
        };
    }
    let dir = HERE.with(|d| d.clone());
    let bins = std::env::current_exe()?.parent().map(|p| p.to_path_buf()).unwrap_or_default();
    let work = || {
        fs::create_dir_all(&dir)?;
        let mut cmd = std::process::Command::new(bins.join(tool));
        for (i, f) in files.iter().enumerate() {
            let name = format!("f{i}");
            match f {
                Some(b) => fs::write(dir.join(&name), b)?,
                None => drop(fs::remove_file(dir.join(&name))),
            }
            cmd.arg(name);
        }
        let mut child = cmd
            .current_dir(&dir)
            .env_clear()
            .env("LD_PRELOAD", bins.join("libyamlshim.so"))
            .env("YAMLSHIM", &plan)
            // a copy of standard input, which the tools do not use
            .env("YAMLSHIM_REPORT", "0")
            .stdin(File::create(dir.join("report"))?)
            .stdout(File::create(dir.join("out"))?)
            .stderr(File::create(dir.join("err"))?)
            .spawn()?;
        let code = child.wait()?.code();
        Ok(Ended {
            out: fs::read(dir.join("out"))?,
            err: String::from_utf8_lossy(&fs::read(dir.join("err"))?).into_owned(),
            code,
            report: fs::read(dir.join("report"))?,
        })
    };
    let r = work();
    let _ = fs::remove_dir_all(&dir);
    r
}

/// The tools as processes: several files, of which one may not exist, and failures of system calls.
fn processes(c: &Case, st: &mut Stats) -> Res {
    let emitting = c.p("emit") != 0;
    let missing = c.p("missing");
    let mut files: Vec<Option<Vec<u8>>> = vec![];
    // what the library makes of each file: output, and how it ends
    let mut want: Vec<(Vec<u8>, Option<String>)> = vec![];
    let plans: Vec<RPlan> = c.rd.iter().take(4).map(|r| r.plan.clone()).collect();
    if emitting {
        for em in c.em.iter().take(plans.len()) {
            let Some(evs) = em.evs.iter().map(denoted).collect::<Option<Vec<Ev>>>() else { return Res::Skip("not expressible in the notation") };
            if !matches!(evs.first(), Some(Ev::StreamStart(_))) {
                return Res::Skip("no stream start");
            }
            let mut text: Vec<u8> = evs.iter().flat_map(|e| (line(e) + "\n").into_bytes()).collect();
            if c.p("unended") != 0 {
                text.pop();
            }
            files.push(Some(text));
            let calm = real::emit(&Em { evs, cfg: Cfg::default(), plan: WPlan::default() }, 0).0;
            want.push((calm.out, calm.err.map(|e| e.1.display)));
        }
    } else {
        for rd in c.rd.iter().take(4) {
            if decode(&rd.bytes, 0).bad.is_some() {
                return Res::Skip("not decodable");
            }
            files.push(Some(rd.bytes.clone()));
            let (t, _) = real::parse(&Rd { bytes: rd.bytes.clone(), enc: 0, plan: RPlan::default() }, 0);
            let lines = t.steps.iter().flat_map(|s| (line(&s.ev) + "\n").into_bytes()).collect();
            want.push((
                lines,
                match &t.end {
                    End::Err(e) => Some(format!("Parse error: {}", e.display)),
                    _ => None,
                },
            ));
        }
    }
    let Some(last) = c.em.first() else { return Res::Skip("no stream") };
    let mut out = last.plan.clone();
    if !emitting {
        out.fault = None;
    }
    let mut plans = plans;
    if (1..=files.len() as i64).contains(&missing) {
        let k = missing as usize - 1;
        files[k] = None;
        want[k] = (vec![], Some(String::new()));
        plans[k].fault = None;
    }
    let tool = if emitting { "run-emitter-test-suite" } else { "run-parser-test-suite" };
    let e = match process(tool, &files, &plans, &out) {
        Ok(e) => e,
        Err(_) => return Res::Skip("the process could not be run"),
    };
    st.probe("process");
    let count = |k: u8| e.report.iter().filter(|b| **b == k).count() as u64;
    st.fault("syscall_read_interrupted", count(b'i'));
    st.fault("syscall_short_read", count(b's'));
    st.fault("syscall_read_failed", count(b'f'));
    st.fault("syscall_write_interrupted", count(b'I'));
    st.fault("syscall_short_write", count(b'S'));
    st.fault("syscall_write_failed", count(b'F'));
    st.fault("file_missing", u64::from(missing > 0));
    st.step(e.out.iter().filter(|b| **b == b'\n').count());
    let failed = |e: &Ended| e.code.is_some_and(|c| c != 0);
    ensure!(e.code.is_some(), "process", "{tool} was ended by a signal");
    let mut all: Vec<u8> = vec![];
    let mut problem = None;
    for (b, p) in &want {
        all.extend(b);
        problem = p.clone();
        if problem.is_some() {
            break;
        }
    }
    if count(b'f') + count(b'F') > 0 {
        // the injected failure, or an error that came before it
        ensure!(failed(&e), "process", "{tool}: a system call failed, and the process succeeded");
        ensure!(all.starts_with(&e.out), "process", "{tool}: {:?} is no beginning of {:?}", head(&e.out), head(&all));
        ensure!(!e.err.is_empty(), "process", "{tool}: a system call failed, and nothing is reported");
        let named = count(b'F') > 0 || e.err.contains("I/O error: ") || e.err.contains("(os error ") || problem.is_some_and(|p| e.err.contains(&p));
        ensure!(named, "process", "{tool}: reading failed, and what is reported is {:?}", head(e.err.as_bytes()));
        return Res::Ok;
    }
    ensure!(e.out == all, "process", "{tool}: {:?}, model {:?}", head(&e.out), head(&all));
    match problem {
        None => ensure!(e.code == Some(0), "process", "{tool}: no error, and the process ended with {:?}: {:?}", e.code, head(e.err.as_bytes())),
        Some(p) => {
            ensure!(failed(&e), "process", "{tool}: {p:?}, and the process succeeded");
            ensure!(!e.err.is_empty() && e.err.contains(&p), "process", "{tool}: {p:?}, and what is reported is {:?}", head(e.err.as_bytes()));
        }
    }
    Res::Ok
}

fn expressible(r: &mut Rng) -> Vec<Ev> {
    let mut evs = if r.chance(1, 3) { gen::faithful_events(r) } else { super::emit::out_events(r) };
    evs.retain(|e| !matches!(e, Ev::Set(..)));
    if r.chance(1, 6) {
        gen::scramble(r, &mut evs);
    }
    if r.chance(1, 8) {
        evs.truncate(1 + r.below(evs.len().max(1)));
    }
    for e in &mut evs {
        let mend = |s: &mut Option<String>| {
            if let Some(x) = s {
                x.retain(|c| !" <>\n\r&*".contains(c));
                if x.is_empty() {
                    *s = None;
                }
            }
        };
        match e {
            Ev::SeqStart { anchor, tag, .. } | Ev::MapStart { anchor, tag, .. } => {
                mend(anchor);
                mend(tag);
            }
            Ev::Scalar { anchor, tag, value, .. } => {
                mend(anchor);
                mend(tag);
                // values that look like parts of the notation
                if r.chance(1, 10) {
                    let s = *r.pick(&[" &a", " <t>", " :", " 'x", " |", " >", "&b", "*c", "<!u>", "\\n", "\\", " \" "]);
                    let at = r.below(value.chars().count() + 1);
                    let at = value.char_indices().nth(at).map_or(value.len(), |x| x.0);
                    value.insert_str(at, s);
                }
            }
            Ev::Alias(a) => {
                a.retain(|c| !" <>\n\r&*".contains(c));
                if a.is_empty() {
                    a.push('a');
                }
            }
            _ => {}
        }
    }
    evs
}

pub const C19: Prop = Prop {
    id: "C19",
    quick: 1_750_000,
    deep: 60,
    gen: |r, _, _| {
        let mut c = Case::new("C19");
        if r.chance(1, 100) {
            c.set("process", 1);
            let n = 1 + r.below(3);
            let emit = r.chance(1, 2);
            c.set("emit", i64::from(emit));
            for i in 0..n {
                let mut em = Em { evs: vec![], cfg: Cfg::default(), plan: WPlan::default() };
                let bytes = if emit {
                    em.evs = expressible(r);
                    em.evs.iter().flat_map(|e| (line(e) + "\n").into_bytes()).collect()
                } else if i == 0 && r.chance(1, 3) {
                    // as it is used: a text with an error somewhere
                    delivered_input(r).bytes
                } else {
                    let t = gen::good_text(r);
                    gen::encode_input(r, &t).bytes
                };
                let mut plan = gen::rplan(r, &bytes);
                plan.wrap = 0;
                if r.chance(1, 10) {
                    plan.fault = Some(gen::rfault(r, bytes.len()));
                }
                if i == 0 {
                    em.plan = gen::wplan(r);
                    if r.chance(1, 5) {
                        let len = super::emit::out_len(&em.evs, &Cfg::default());
                        em.plan.fault = Some(gen::wfault(r, len));
                    }
                    em.plan.flush_err = None;
                }
                c.rd.push(Rd { bytes: if emit { vec![] } else { bytes }, enc: 0, plan });
                c.em.push(em);
            }
            if r.chance(1, 6) {
                c.set("unended", 1);
            }
            if r.chance(1, 12) {
                c.set("missing", 1 + r.below(n) as i64);
            }
            return c;
        }
        if r.chance(1, 2) {
            let mut rd = if r.chance(1, 2) {
                let t = gen::good_text(r);
                let mut rd = gen::encode_input(r, &t);
                rd.plan = gen::rplan(r, &rd.bytes);
                rd
            } else {
                delivered_input(r)
            };
            rd.enc = 0;
            rd.plan.wrap = 0;
            if r.chance(1, 4) {
                rd.plan.fault = Some(gen::rfault(r, rd.bytes.len()));
            }
            c.rd.push(rd);
            c.em.push(Em { evs: vec![], cfg: Cfg::default(), plan: gen::wplan(r) });
        } else {
            c.set("emit", 1);
            let evs = expressible(r);
            let text: Vec<u8> = evs.iter().flat_map(|e| (line(e) + "\n").into_bytes()).collect();
            let mut plan = gen::rplan(r, &text);
            plan.wrap = 0;
            if r.chance(1, 8) {
                plan.fault = Some(gen::rfault(r, text.len()));
            }
            let mut out = gen::wplan(r);
            if r.chance(1, 4) {
                let len = super::emit::out_len(&evs, &Cfg::default());
                out.fault = Some(gen::wfault(r, len));
            }
            out.flush_err = r.chance(1, 12).then(|| r.below(crate::io::KINDS.len()) as u8);
            if r.chance(1, 6) {
                c.set("unended", 1);
            }
            if r.chance(1, 40) {
                c.set("garble", 1 + r.below(text.len().max(1)) as i64);
            }
            if r.chance(1, 20) {
                c.set("strange", 2 + r.below(evs.len().max(1)) as i64);
            }
            c.rd.push(Rd { bytes: vec![], enc: 0, plan });
            c.em.push(Em { evs, cfg: Cfg::default(), plan: out });
        }
        c
    },
    run: |c, st| {
        let (Some(rd), Some(em)) = (c.rd.first(), c.em.first()) else { return Res::Skip("no stream") };
        if c.p("process") != 0 {
            return processes(c, st);
        }
        if c.p("emit") == 0 {
            parsing(rd, &em.plan, st)
        } else {
            emitting(em, &rd.plan, c.p("strange").max(0) as usize, c.p("unended") != 0, c.p("garble").max(0) as usize, st)
        }
    },
    rule: "a run feeds a generated text to the parser tool, or the notation of generated events to the emitter tool, through simulated standard streams with short transfers, EINTR and injected failures, and compares the lines or bytes and the outcome with the library's events or output under calm conditions; one run in a hundred starts the tool as a process on up to three files, of which one may be missing, with its system calls interrupted, cut short or failing, and judges standard output, standard error and the exit status; non-trivial: a fault, EINTR or short transfer happened and at least 3 lines were processed",
    stubs: "standard input and output; in the runs with processes, the read, write and open system calls",
    assumptions: &["the parser tool ignores failures of its standard output by design, so none is injected there"],
};
