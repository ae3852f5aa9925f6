//! Drivers for the code under test: libyaml-safer's public API, nothing else.
use crate::io::{reader, AnyReader, IoState, SimFault, SimWriter};
use crate::model::*;
use libyaml_safer as y;
use std::cell::RefCell;
use std::rc::Rc;

pub fn mk(m: y::Mark) -> Mk {
    Mk { index: m.index, line: m.line, column: m.column }
}

fn enc_to(e: u8) -> y::Encoding {
    match e {
        1 => y::Encoding::Utf8,
        2 => y::Encoding::Utf16Le,
        3 => y::Encoding::Utf16Be,
        _ => y::Encoding::Any,
    }
}
fn enc_from(e: y::Encoding) -> u8 {
    match e {
        y::Encoding::Utf8 => 1,
        y::Encoding::Utf16Le => 2,
        y::Encoding::Utf16Be => 3,
        _ => 0,
    }
}
pub fn style_to(s: u8) -> y::ScalarStyle {
    match s {
        1 => y::ScalarStyle::Plain,
        2 => y::ScalarStyle::SingleQuoted,
        3 => y::ScalarStyle::DoubleQuoted,
        4 => y::ScalarStyle::Literal,
        5 => y::ScalarStyle::Folded,
        _ => y::ScalarStyle::Any,
    }
}
pub fn style_from(s: y::ScalarStyle) -> u8 {
    match s {
        y::ScalarStyle::Plain => 1,
        y::ScalarStyle::SingleQuoted => 2,
        y::ScalarStyle::DoubleQuoted => 3,
        y::ScalarStyle::Literal => 4,
        y::ScalarStyle::Folded => 5,
        _ => 0,
    }
}
pub fn sstyle_to(s: u8) -> y::SequenceStyle {
    match s {
        1 => y::SequenceStyle::Block,
        2 => y::SequenceStyle::Flow,
        _ => y::SequenceStyle::Any,
    }
}
pub fn mstyle_to(s: u8) -> y::MappingStyle {
    match s {
        1 => y::MappingStyle::Block,
        2 => y::MappingStyle::Flow,
        _ => y::MappingStyle::Any,
    }
}
pub fn sstyle_from(s: y::SequenceStyle) -> u8 {
    match s {
        y::SequenceStyle::Block => 1,
        y::SequenceStyle::Flow => 2,
        _ => 0,
    }
}
pub fn mstyle_from(s: y::MappingStyle) -> u8 {
    match s {
        y::MappingStyle::Block => 1,
        y::MappingStyle::Flow => 2,
        _ => 0,
    }
}

pub fn ev_from(e: y::Event) -> Ev {
    match e.data {
        y::EventData::StreamStart { encoding } => Ev::StreamStart(enc_from(encoding)),
        y::EventData::StreamEnd => Ev::StreamEnd,
        y::EventData::DocumentStart { version_directive, tag_directives, implicit } => Ev::DocStart {
            version: version_directive.map(|v| (v.major, v.minor)),
            tags: tag_directives.into_iter().map(|t| (t.handle, t.prefix)).collect(),
            implicit,
        },
        y::EventData::DocumentEnd { implicit } => Ev::DocEnd(implicit),
        y::EventData::Alias { anchor } => Ev::Alias(anchor),
        y::EventData::Scalar { anchor, tag, value, plain_implicit, quoted_implicit, style } => Ev::Scalar {
            anchor,
            tag,
            value,
            plain: plain_implicit,
            quoted: quoted_implicit,
            style: style_from(style),
        },
        y::EventData::SequenceStart { anchor, tag, implicit, style } => {
            Ev::SeqStart { anchor, tag, implicit, style: sstyle_from(style) }
        }
        y::EventData::SequenceEnd => Ev::SeqEnd,
        y::EventData::MappingStart { anchor, tag, implicit, style } => {
            Ev::MapStart { anchor, tag, implicit, style: mstyle_from(style) }
        }
        y::EventData::MappingEnd => Ev::MapEnd,
    }
}

thread_local! {
    static TEMPLATES: RefCell<Option<(y::VersionDirective, y::TagDirective)>> = const { RefCell::new(None) };
}
/// Directive values cannot be constructed outside the crate; parsed ones can be cloned and edited.
fn templates() -> (y::VersionDirective, y::TagDirective) {
    TEMPLATES.with(|t| {
        let mut t = t.borrow_mut();
        if t.is_none() {
            let mut src: &[u8] = b"%YAML 1.1\n%TAG !t! tag:t,1:\n--- a\n";
            let mut p = y::Parser::new();
            p.set_input(&mut src);
            for e in p {
                if let Ok(y::Event {
                    data: y::EventData::DocumentStart { version_directive: Some(v), tag_directives, .. },
                    ..
                }) = e
                {
                    if let Some(d) = tag_directives.into_iter().next() {
                        *t = Some((v, d));
                    }
                    break;
                }
            }
        }
        t.clone().expect("a document with directives parses")
    })
}
pub fn version(v: (i32, i32)) -> y::VersionDirective {
    let mut t = templates().0;
    t.major = v.0;
    t.minor = v.1;
    t
}
pub fn tagdir(h: &str, p: &str) -> y::TagDirective {
    let mut t = templates().1;
    t.handle = h.into();
    t.prefix = p.into();
    t
}

pub fn ev_to(e: &Ev) -> y::Event {
    match e {
        Ev::StreamStart(e) => y::Event::stream_start(enc_to(*e)),
        Ev::StreamEnd => y::Event::stream_end(),
        Ev::DocStart { version: v, tags, implicit } => {
            let t: Vec<_> = tags.iter().map(|(h, p)| tagdir(h, p)).collect();
            y::Event::document_start(v.map(version), &t, *implicit)
        }
        Ev::DocEnd(i) => y::Event::document_end(*i),
        Ev::Alias(a) => y::Event::alias(a),
        Ev::Scalar { anchor, tag, value, plain, quoted, style } => {
            y::Event::scalar(anchor.as_deref(), tag.as_deref(), value, *plain, *quoted, style_to(*style))
        }
        Ev::SeqStart { anchor, tag, implicit, style } => {
            y::Event::sequence_start(anchor.as_deref(), tag.as_deref(), *implicit, sstyle_to(*style))
        }
        Ev::SeqEnd => y::Event::sequence_end(),
        Ev::MapStart { anchor, tag, implicit, style } => {
            y::Event::mapping_start(anchor.as_deref(), tag.as_deref(), *implicit, mstyle_to(*style))
        }
        Ev::MapEnd => y::Event::mapping_end(),
        Ev::Set(..) => unreachable!("a setting is not an event"),
    }
}

fn brk_to(b: u8) -> y::Break {
    match b {
        1 => y::Break::Cr,
        2 => y::Break::Ln,
        3 => y::Break::CrLn,
        _ => y::Break::Any,
    }
}

/// Emit an event, or change a setting where the plan says so.
pub fn emit_ev(e: &mut y::Emitter, ev: &Ev) -> Result<(), y::Error> {
    match ev {
        Ev::Set(k, v) => {
            match k {
                0 => e.set_indent(*v),
                1 => e.set_width(*v),
                2 => e.set_unicode(*v != 0),
                3 => e.set_break(brk_to((*v).clamp(1, 3) as u8)),
                _ => e.set_canonical(*v != 0),
            }
            Ok(())
        }
        ev => e.emit(ev_to(ev)),
    }
}

pub fn err_from(e: y::Error) -> ErrInfo {
    let kind = match e.kind() {
        y::ErrorKind::Reader => EK::Reader,
        y::ErrorKind::Scanner => EK::Scanner,
        y::ErrorKind::Parser => EK::Parser,
        y::ErrorKind::Composer => EK::Composer,
        y::ErrorKind::Emitter => EK::Emitter,
        y::ErrorKind::Io => EK::Io,
    };
    let problem = e.problem().to_string();
    let context = e.context().map(str::to_string);
    let pmark = e.problem_mark().map(mk);
    let cmark = e.context_mark().map(mk);
    let display = e.to_string();
    let io = match std::io::Error::try_from(e) {
        Ok(io) => {
            let id = io.get_ref().and_then(|r| r.downcast_ref::<SimFault>()).map(|s| s.id);
            Some((format!("{:?}", io.kind()), id))
        }
        Err(_) => None,
    };
    ErrInfo { kind, problem, context, pmark, cmark, display, io }
}

fn opt(s: String) -> String {
    s
}
pub fn tok_from(t: y::TokenData) -> Tok {
    let k = |kind| Tok { kind, a: String::new(), b: String::new(), n: (0, 0) };
    use y::TokenData as T;
    match t {
        T::StreamStart { encoding } => Tok { n: (i32::from(enc_from(encoding)), 0), ..k("STREAM-START") },
        T::StreamEnd => k("STREAM-END"),
        T::VersionDirective { major, minor } => Tok { n: (major, minor), ..k("VERSION") },
        T::TagDirective { handle, prefix } => Tok { a: handle, b: prefix, ..k("TAG-DIRECTIVE") },
        T::DocumentStart => k("DOC-START"),
        T::DocumentEnd => k("DOC-END"),
        T::BlockSequenceStart => k("BLOCK-SEQ-START"),
        T::BlockMappingStart => k("BLOCK-MAP-START"),
        T::BlockEnd => k("BLOCK-END"),
        T::FlowSequenceStart => k("FLOW-SEQ-START"),
        T::FlowSequenceEnd => k("FLOW-SEQ-END"),
        T::FlowMappingStart => k("FLOW-MAP-START"),
        T::FlowMappingEnd => k("FLOW-MAP-END"),
        T::BlockEntry => k("BLOCK-ENTRY"),
        T::FlowEntry => k("FLOW-ENTRY"),
        T::Key => k("KEY"),
        T::Value => k("VALUE"),
        T::Alias { value } => Tok { a: opt(value), ..k("ALIAS") },
        T::Anchor { value } => Tok { a: opt(value), ..k("ANCHOR") },
        T::Tag { handle, suffix } => Tok { a: handle, b: suffix, ..k("TAG") },
        T::Scalar { value, style } => Tok { a: value, n: (i32::from(style_from(style)), 0), ..k("SCALAR") },
    }
}

// ---------------------------------------------------------------- parsing

pub fn step_cap(len: usize) -> usize {
    10 * len + 1000
}

pub struct RealParser {
    pub p: y::Parser<AnyReader>,
    pub st: Rc<IoState>,
}
impl RealParser {
    pub fn new(rd: &Rd, id: u64) -> RealParser {
        let (r, st) = reader(&rd.bytes, &rd.plan, id);
        // `default` and `new` are the same, and the order of the settings does not matter
        let mut p = if rd.bytes.len() % 3 == 0 { y::Parser::default() } else { y::Parser::new() };
        let first = rd.bytes.len() % 4 < 2;
        if rd.enc != 0 && first {
            p.set_encoding(enc_to(rd.enc));
        }
        p.set_input(r);
        if rd.enc != 0 && !first {
            p.set_encoding(enc_to(rd.enc));
        }
        RealParser { p, st }
    }
    pub fn repeat(r: crate::io::RepReader) -> RealParser {
        let st = r.st.clone();
        let mut p = y::Parser::new();
        p.set_input(AnyReader::Repeat(r));
        RealParser { p, st }
    }
    /// Reset and attach a new input.
    pub fn reuse(&mut self, rd: &Rd, id: u64) {
        let (r, st) = reader(&rd.bytes, &rd.plan, id);
        self.p.reset();
        self.p.set_input(r);
        if rd.enc != 0 {
            self.p.set_encoding(enc_to(rd.enc));
        }
        self.st = st;
    }
    pub fn step(&mut self) -> Result<Step<Ev>, ErrInfo> {
        match self.p.parse() {
            Ok(e) => {
                let (sm, em) = (mk(e.start_mark), mk(e.end_mark));
                Ok(Step { ev: ev_from(e), sm, em, pulled: self.st.pulled.get() })
            }
            Err(e) => Err(err_from(e)),
        }
    }
    /// Run to the end through `parse()`.
    pub fn run(&mut self, cap: usize) -> Trace<Ev> {
        let mut steps = vec![];
        loop {
            match self.step() {
                Ok(s) => {
                    let end = s.ev == Ev::StreamEnd;
                    steps.push(s);
                    if end {
                        return Trace { steps, end: End::Eos };
                    }
                }
                Err(e) => return Trace { steps, end: End::Err(e) },
            }
            if steps.len() > cap {
                return Trace { steps, end: End::Runaway };
            }
        }
    }
    /// One call of the iterator.
    pub fn iter_next(&mut self) -> Option<Result<Step<Ev>, ErrInfo>> {
        self.p.next().map(|r| match r {
            Ok(e) => {
                let (sm, em) = (mk(e.start_mark), mk(e.end_mark));
                Ok(Step { ev: ev_from(e), sm, em, pulled: self.st.pulled.get() })
            }
            Err(e) => Err(err_from(e)),
        })
    }
    pub fn load(&mut self) -> Result<LDoc, ErrInfo> {
        match y::Document::load(&mut self.p) {
            Ok(d) => Ok(ldoc(&d)),
            Err(e) => Err(err_from(e)),
        }
    }
    pub fn run_load(&mut self, cap: usize) -> (Vec<LDoc>, End) {
        let mut docs = vec![];
        loop {
            match self.load() {
                Ok(d) => {
                    if d.nodes.is_empty() {
                        return (docs, End::Eos);
                    }
                    docs.push(d);
                }
                Err(e) => return (docs, End::Err(e)),
            }
            if docs.len() > cap {
                return (docs, End::Runaway);
            }
        }
    }
}

pub fn parse(rd: &Rd, id: u64) -> (Trace<Ev>, Rc<IoState>) {
    let mut p = RealParser::new(rd, id);
    let t = p.run(step_cap(rd.bytes.len()));
    (t, p.st)
}

fn iter_run<T>(cap: usize, mut next: impl FnMut() -> Option<Result<Step<T>, ErrInfo>>) -> Trace<T> {
    let mut steps = vec![];
    let mut err = None;
    loop {
        match next() {
            None => break,
            Some(Ok(s)) => {
                if err.is_some() {
                    // an item after an error: make it visible to the oracle
                    steps.push(s);
                    break;
                }
                steps.push(s);
            }
            Some(Err(e)) => {
                if err.is_some() {
                    break;
                }
                err = Some(e);
            }
        }
        if steps.len() > cap {
            return Trace { steps, end: End::Runaway };
        }
    }
    Trace { steps, end: err.map_or(End::Eos, End::Err) }
}

/// Parse through the `Iterator` implementation.
pub fn parse_iter(rd: &Rd, id: u64) -> (Trace<Ev>, Rc<IoState>) {
    let mut p = RealParser::new(rd, id);
    let t = iter_run(step_cap(rd.bytes.len()), || p.iter_next());
    (t, p.st)
}
/// Scan through the `Iterator` implementation.
pub fn scan_iter(rd: &Rd, id: u64) -> (Trace<Tok>, Rc<IoState>) {
    let mut p = RealScanner::new(rd, id);
    let t = iter_run(step_cap(rd.bytes.len()), || p.iter_next());
    (t, p.st)
}

/// Parse from a plain byte slice, as `set_input_string` does it.
pub fn parse_slice(bytes: &[u8], enc: u8) -> Trace<Ev> {
    let mut src = bytes;
    let mut p = y::Parser::new();
    p.set_input_string(&mut src);
    if enc != 0 {
        p.set_encoding(enc_to(enc));
    }
    let mut steps = vec![];
    let cap = step_cap(bytes.len());
    loop {
        match p.parse() {
            Ok(e) => {
                let (sm, em) = (mk(e.start_mark), mk(e.end_mark));
                let ev = ev_from(e);
                let end = ev == Ev::StreamEnd;
                steps.push(Step { ev, sm, em, pulled: 0 });
                if end {
                    return Trace { steps, end: End::Eos };
                }
            }
            Err(e) => return Trace { steps, end: End::Err(err_from(e)) },
        }
        if steps.len() > cap {
            return Trace { steps, end: End::Runaway };
        }
    }
}

pub fn load(rd: &Rd, id: u64) -> (Vec<LDoc>, End, Rc<IoState>) {
    let mut p = RealParser::new(rd, id);
    let (d, e) = p.run_load(step_cap(rd.bytes.len()));
    (d, e, p.st)
}

pub struct RealScanner {
    pub s: y::Scanner<AnyReader>,
    pub st: Rc<IoState>,
}
impl RealScanner {
    pub fn repeat(r: crate::io::RepReader) -> RealScanner {
        let st = r.st.clone();
        let mut s = y::Scanner::new();
        s.set_input(AnyReader::Repeat(r));
        RealScanner { s, st }
    }
    pub fn new(rd: &Rd, id: u64) -> RealScanner {
        let (r, st) = reader(&rd.bytes, &rd.plan, id);
        let mut s = if rd.bytes.len() % 3 == 0 { y::Scanner::default() } else { y::Scanner::new() };
        let first = rd.bytes.len() % 4 < 2;
        if rd.enc != 0 && first {
            s.set_encoding(enc_to(rd.enc));
        }
        s.set_input(r);
        if rd.enc != 0 && !first {
            s.set_encoding(enc_to(rd.enc));
        }
        RealScanner { s, st }
    }
    pub fn reuse(&mut self, rd: &Rd, id: u64) {
        let (r, st) = reader(&rd.bytes, &rd.plan, id);
        self.s.reset();
        self.s.set_input(r);
        if rd.enc != 0 {
            self.s.set_encoding(enc_to(rd.enc));
        }
        self.st = st;
    }
    /// One call of the iterator.
    pub fn iter_next(&mut self) -> Option<Result<Step<Tok>, ErrInfo>> {
        self.s.next().map(|r| match r {
            Ok(t) => Ok(Step { sm: mk(t.start_mark), em: mk(t.end_mark), ev: tok_from(t.data), pulled: self.st.pulled.get() }),
            Err(e) => Err(err_from(e)),
        })
    }
    pub fn step(&mut self) -> Result<Step<Tok>, ErrInfo> {
        match y::Scanner::scan(&mut self.s) {
            Ok(t) => Ok(Step { sm: mk(t.start_mark), em: mk(t.end_mark), ev: tok_from(t.data), pulled: self.st.pulled.get() }),
            Err(e) => Err(err_from(e)),
        }
    }
    pub fn run(&mut self, cap: usize) -> Trace<Tok> {
        let mut steps = vec![];
        loop {
            match self.step() {
                Ok(s) => {
                    let end = s.ev.kind == "STREAM-END";
                    steps.push(s);
                    if end {
                        return Trace { steps, end: End::Eos };
                    }
                }
                Err(e) => return Trace { steps, end: End::Err(e) },
            }
            if steps.len() > cap {
                return Trace { steps, end: End::Runaway };
            }
        }
    }
}
pub fn scan(rd: &Rd, id: u64) -> (Trace<Tok>, Rc<IoState>) {
    let mut s = RealScanner::new(rd, id);
    let t = s.run(step_cap(rd.bytes.len()));
    (t, s.st)
}

// ---------------------------------------------------------------- documents

#[derive(Clone, Debug, PartialEq)]
pub enum LData {
    No,
    Scalar(String, u8),
    Seq(Vec<i32>, u8),
    Map(Vec<(i32, i32)>, u8),
}
#[derive(Clone, Debug, PartialEq)]
pub struct LNode {
    pub tag: Option<String>,
    pub data: LData,
    pub sm: Mk,
    pub em: Mk,
}
/// A loaded document.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct LDoc {
    pub nodes: Vec<LNode>,
    pub version: Option<(i32, i32)>,
    pub tags: Vec<(String, String)>,
    pub start_implicit: bool,
    pub end_implicit: bool,
    pub sm: Mk,
    pub em: Mk,
}
pub fn lnode(n: &y::Node) -> LNode {
    LNode {
        tag: n.tag.clone(),
        data: match &n.data {
            y::NodeData::NoNode => LData::No,
            y::NodeData::Scalar { value, style } => LData::Scalar(value.clone(), style_from(*style)),
            y::NodeData::Sequence { items, style } => LData::Seq(items.clone(), sstyle_from(*style)),
            y::NodeData::Mapping { pairs, style } => LData::Map(pairs.iter().map(|p| (p.key, p.value)).collect(), mstyle_from(*style)),
        },
        sm: mk(n.start_mark),
        em: mk(n.end_mark),
    }
}
pub fn ldoc(d: &y::Document) -> LDoc {
    LDoc {
        nodes: d
            .nodes
            .iter()
            .map(lnode)
            .collect(),
        version: d.version_directive.map(|v| (v.major, v.minor)),
        tags: d.tag_directives.iter().map(|t| (t.handle.clone(), t.prefix.clone())).collect(),
        start_implicit: d.start_implicit,
        end_implicit: d.end_implicit,
        sm: mk(d.start_mark),
        em: mk(d.end_mark),
    }
}

/// Build a Document through the public builder API.
pub fn build_doc(d: &Doc) -> y::Document {
    let tags: Vec<_> = d.tags.iter().map(|(h, p)| tagdir(h, p)).collect();
    let mut doc = y::Document::new(d.version.map(version), &tags, d.start_implicit, d.end_implicit);
    for n in &d.nodes {
        let _ = match &n.k {
            NodeK::Scalar(v, s) => doc.add_scalar(n.tag.as_deref(), v, style_to(*s)),
            NodeK::Seq(_, s) => doc.add_sequence(n.tag.as_deref(), sstyle_to(*s)),
            NodeK::Map(_, s) => doc.add_mapping(n.tag.as_deref(), mstyle_to(*s)),
        };
    }
    for (i, n) in d.nodes.iter().enumerate() {
        match &n.k {
            NodeK::Scalar(..) => {}
            NodeK::Seq(v, _) => {
                for x in v {
                    doc.append_sequence_item(i as i32 + 1, *x as i32 + 1);
                }
            }
            NodeK::Map(v, _) => {
                for (a, b) in v {
                    doc.yaml_document_append_mapping_pair(i as i32 + 1, *a as i32 + 1, *b as i32 + 1);
                }
            }
        }
    }
    doc
}

// ---------------------------------------------------------------- emitting

pub fn configure(e: &mut y::Emitter, c: &Cfg) {
    if c.enc != 0 {
        e.set_encoding(enc_to(c.enc));
    }
    // settings that equal the documented default are left alone
    if c.canonical {
        e.set_canonical(true);
    }
    if let Some(i) = c.indent {
        e.set_indent(i);
    }
    if let Some(w) = c.width {
        e.set_width(w);
    }
    if c.unicode {
        e.set_unicode(true);
    }
    if c.brk != 0 {
        e.set_break(brk_to(c.brk));
    }
}

/// `default` and `new` are the same.
fn new_emitter<'a>(c: &Cfg) -> y::Emitter<'a> {
    if c.unicode {
        y::Emitter::default()
    } else {
        y::Emitter::new()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct EmitRun {
    /// Result of each call, up to and including the first failure.
    pub err: Option<(usize, ErrInfo)>,
    /// Sink length after each successful call.
    pub lens: Vec<u64>,
    pub out: Vec<u8>,
}

/// Emit the events one by one until the first failure.
pub fn emit(em: &Em, id: u64) -> (EmitRun, Rc<IoState>) {
    let mut w = SimWriter::new(&em.plan, id);
    let (data, st) = (w.data.clone(), w.st.clone());
    let mut run = EmitRun { err: None, lens: vec![], out: vec![] };
    {
        let mut e = new_emitter(&em.cfg);
        if em.cfg.indent.is_some() {
            configure(&mut e, &em.cfg);
            e.set_output(&mut w);
        } else {
            e.set_output(&mut w);
            configure(&mut e, &em.cfg);
        }
        for (i, ev) in em.evs.iter().enumerate() {
            match emit_ev(&mut e, ev) {
                Ok(()) => run.lens.push(data.borrow().len() as u64),
                Err(x) => {
                    run.err = Some((i, err_from(x)));
                    break;
                }
            }
        }
    }
    run.out = data.borrow().clone();
    (run, st)
}

/// Set up an emitter over a simulated sink and hand it to `f`, which sees the sink's content and
/// state while the emitter is alive.
pub fn with_emitter<R>(
    plan: &WPlan,
    cfg: &Cfg,
    id: u64,
    f: impl FnOnce(&mut y::Emitter, &RefCell<Vec<u8>>, &IoState) -> R,
) -> (R, Vec<u8>, Rc<IoState>) {
    let mut w = SimWriter::new(plan, id);
    let (data, st) = (w.data.clone(), w.st.clone());
    let r = {
        let mut e = new_emitter(cfg);
        e.set_output(&mut w);
        configure(&mut e, cfg);
        f(&mut e, &data, &st)
    };
    let out = data.borrow().clone();
    (r, out, st)
}

/// Emit to a string.
pub fn emit_string(em: &Em) -> EmitRun {
    let mut run = EmitRun { err: None, lens: vec![], out: vec![] };
    // whatever the string held before is not part of the output
    let mut out = if em.evs.len() % 3 == 0 { b"- was here\n".to_vec() } else { vec![] };
    {
        let mut e = y::Emitter::new();
        if em.evs.len() % 2 == 0 {
            e.set_encoding(y::Encoding::Utf8);
        }
        e.set_output_string(&mut out);
        configure(&mut e, &Cfg { enc: 0, ..em.cfg.clone() });
        for (i, ev) in em.evs.iter().enumerate() {
            if let Err(x) = emit_ev(&mut e, ev) {
                run.err = Some((i, err_from(x)));
                break;
            }
        }
    }
    run.out = out;
    run
}

/// Emit on a faultless sink until the first error, then flush what is left.
pub fn emit_flushed(evs: &[Ev], cfg: &Cfg) -> EmitRun {
    let mut run = EmitRun { err: None, lens: vec![], out: vec![] };
    let (r, out, _) = with_emitter(&WPlan::default(), cfg, 0, |e, d, _| {
        let mut err = None;
        let mut lens = vec![];
        for (i, ev) in evs.iter().enumerate() {
            match emit_ev(e, ev) {
                Ok(()) => lens.push(d.borrow().len() as u64),
                Err(x) => {
                    err = Some((i, err_from(x)));
                    break;
                }
            }
        }
        if begun(&evs[..lens.len()]) {
            let _ = e.flush();
        }
        (err, lens)
    });
    run.err = r.0;
    run.lens = r.1;
    run.out = out;
    run
}

/// Whether these accepted events begin a stream: before that there is no encoding to flush in.
pub fn begun(evs: &[Ev]) -> bool {
    matches!(evs.iter().find(|e| !matches!(e, Ev::Set(..))), Some(Ev::StreamStart(_)))
}

/// Dump documents one after another and close the stream; sink length after each successful call.
pub fn dump_all(docs: &[Doc], plan: &WPlan, cfg: &Cfg, id: u64) -> (EmitRun, Rc<IoState>) {
    let (r, out, st) = with_emitter(plan, cfg, id, |e, d, _| {
        let mut lens = vec![];
        for (i, doc) in docs.iter().enumerate() {
            match build_doc(doc).dump(e) {
                Ok(()) => lens.push(d.borrow().len() as u64),
                Err(x) => return (Some((i, err_from(x))), lens),
            }
        }
        match if docs.is_empty() { e.open().and_then(|()| e.close()) } else { e.close() } {
            Ok(()) => {
                lens.push(d.borrow().len() as u64);
                (None, lens)
            }
            Err(x) => (Some((docs.len(), err_from(x))), lens),
        }
    });
    (EmitRun { err: r.0, lens: r.1, out }, st)
}

/// Everything these documents produce, up to the first refusal, without sink faults.
pub fn dump_flushed(docs: &[Doc], cfg: &Cfg) -> EmitRun {
    let (err, out, _) = with_emitter(&WPlan::default(), cfg, 0, |e, _, _| {
        let mut err = None;
        for i in 0..=docs.len() {
            if let Err(x) = if i < docs.len() { build_doc(&docs[i]).dump(e) } else { e.close() } {
                err = Some((i, err_from(x)));
                break;
            }
        }
        let _ = e.flush();
        err
    });
    EmitRun { err, lens: vec![], out }
}
