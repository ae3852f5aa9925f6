//! Data model shared by the code under test, the reference model and the oracles.
use crate::json::{hex, unhex, J};
use crate::rng::Fp;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Mk {
    pub index: u64,
    pub line: u64,
    pub column: u64,
}

/// A parsing / emitting event. Encodings: 0 any, 1 utf-8, 2 utf-16le, 3 utf-16be.
/// Scalar styles: 0 any 1 plain 2 single 3 double 4 literal 5 folded. Collection styles: 0 any 1 block 2 flow.
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    StreamStart(u8),
    StreamEnd,
    DocStart {
        version: Option<(i32, i32)>,
        tags: Vec<(String, String)>,
        implicit: bool,
    },
    DocEnd(bool),
    Alias(String),
    Scalar {
        anchor: Option<String>,
        tag: Option<String>,
        value: String,
        plain: bool,
        quoted: bool,
        style: u8,
    },
    SeqStart {
        anchor: Option<String>,
        tag: Option<String>,
        implicit: bool,
        style: u8,
    },
    SeqEnd,
    MapStart {
        anchor: Option<String>,
        tag: Option<String>,
        implicit: bool,
        style: u8,
    },
    MapEnd,
    /// Not an event: the caller changes a setting of the emitter at this point.
    /// 0 indent, 1 width, 2 unicode, 3 line break (1 CR, 2 LN, 3 CRLN), 4 canonical.
    Set(u8, i32),
}

fn jo(s: &Option<String>) -> J {
    match s {
        Some(s) => J::Str(s.clone()),
        None => J::Null,
    }
}

impl Ev {
    pub fn kind(&self) -> u8 {
        match self {
            Ev::StreamStart(_) => 0,
            Ev::StreamEnd => 1,
            Ev::DocStart { .. } => 2,
            Ev::DocEnd(_) => 3,
            Ev::Alias(_) => 4,
            Ev::Scalar { .. } => 5,
            Ev::SeqStart { .. } => 6,
            Ev::SeqEnd => 7,
            Ev::MapStart { .. } => 8,
            Ev::MapEnd => 9,
            Ev::Set(..) => 10,
        }
    }
    pub fn plain(v: &str) -> Ev {
        Ev::Scalar { anchor: None, tag: None, value: v.into(), plain: true, quoted: true, style: 0 }
    }
    pub fn to_j(&self) -> J {
        let s = |x: &str| J::s(x);
        match self {
            Ev::StreamStart(e) => J::Arr(vec![s("+STR"), J::Int(i64::from(*e))]),
            Ev::StreamEnd => J::Arr(vec![s("-STR")]),
            Ev::DocStart { version, tags, implicit } => J::Arr(vec![
                s("+DOC"),
                match version {
                    Some((a, b)) => J::Arr(vec![J::Int(i64::from(*a)), J::Int(i64::from(*b))]),
                    None => J::Null,
                },
                J::Arr(tags.iter().map(|(h, p)| J::Arr(vec![s(h), s(p)])).collect()),
                J::Bool(*implicit),
            ]),
            Ev::DocEnd(i) => J::Arr(vec![s("-DOC"), J::Bool(*i)]),
            Ev::Alias(a) => J::Arr(vec![s("=ALI"), s(a)]),
            Ev::Scalar { anchor, tag, value, plain, quoted, style } => J::Arr(vec![
                s("=VAL"),
                jo(anchor),
                jo(tag),
                s(value),
                J::Bool(*plain),
                J::Bool(*quoted),
                J::Int(i64::from(*style)),
            ]),
            Ev::SeqStart { anchor, tag, implicit, style } => {
                J::Arr(vec![s("+SEQ"), jo(anchor), jo(tag), J::Bool(*implicit), J::Int(i64::from(*style))])
            }
            Ev::SeqEnd => J::Arr(vec![s("-SEQ")]),
            Ev::MapStart { anchor, tag, implicit, style } => {
                J::Arr(vec![s("+MAP"), jo(anchor), jo(tag), J::Bool(*implicit), J::Int(i64::from(*style))])
            }
            Ev::MapEnd => J::Arr(vec![s("-MAP")]),
            Ev::Set(k, v) => J::Arr(vec![s("SET"), J::Int(i64::from(*k)), J::Int(i64::from(*v))]),
        }
    }
    pub fn from_j(j: &J) -> Ev {
        match j.at(0).str() {
            "+STR" => Ev::StreamStart(j.at(1).int() as u8),
            "-STR" => Ev::StreamEnd,
            "+DOC" => Ev::DocStart {
                version: if j.at(1).is_null() {
                    None
                } else {
                    Some((j.at(1).at(0).int() as i32, j.at(1).at(1).int() as i32))
                },
                tags: j.at(2).arr().iter().map(|t| (t.at(0).str().into(), t.at(1).str().into())).collect(),
                implicit: j.at(3).bool(),
            },
            "-DOC" => Ev::DocEnd(j.at(1).bool()),
            "=ALI" => Ev::Alias(j.at(1).str().into()),
            "=VAL" => Ev::Scalar {
                anchor: j.at(1).opt_str(),
                tag: j.at(2).opt_str(),
                value: j.at(3).str().into(),
                plain: j.at(4).bool(),
                quoted: j.at(5).bool(),
                style: j.at(6).int() as u8,
            },
            "+SEQ" => Ev::SeqStart {
                anchor: j.at(1).opt_str(),
                tag: j.at(2).opt_str(),
                implicit: j.at(3).bool(),
                style: j.at(4).int() as u8,
            },
            "-SEQ" => Ev::SeqEnd,
            "+MAP" => Ev::MapStart {
                anchor: j.at(1).opt_str(),
                tag: j.at(2).opt_str(),
                implicit: j.at(3).bool(),
                style: j.at(4).int() as u8,
            },
            "SET" => Ev::Set(j.at(1).int() as u8, j.at(2).int() as i32),
            _ => Ev::MapEnd,
        }
    }
}

/// A scanner token, as a kind and its attributes.
#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub kind: &'static str,
    pub a: String,
    pub b: String,
    pub n: (i32, i32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EK {
    Reader,
    Scanner,
    Parser,
    Composer,
    Emitter,
    Io,
    Memory,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ErrInfo {
    pub kind: EK,
    pub problem: String,
    pub context: Option<String>,
    pub pmark: Option<Mk>,
    pub cmark: Option<Mk>,
    pub display: String,
    /// For I/O errors: the io::ErrorKind and the id of the injected fault it carries.
    pub io: Option<(String, Option<u64>)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// Stream end delivered (the StreamEnd step is in the trace).
    Eos,
    Err(ErrInfo),
    /// The producer did not stop within the step budget.
    Runaway,
}

#[derive(Clone, Debug)]
pub struct Step<T> {
    pub ev: T,
    pub sm: Mk,
    pub em: Mk,
    /// Bytes pulled from the source when the step was delivered.
    pub pulled: u64,
}

impl<T: PartialEq> Step<T> {
    pub fn same(&self, o: &Step<T>) -> bool {
        self.ev == o.ev && self.sm == o.sm && self.em == o.em
    }
}

#[derive(Clone, Debug)]
pub struct Trace<T> {
    pub steps: Vec<Step<T>>,
    pub end: End,
}

impl<T: PartialEq + std::fmt::Debug> Trace<T> {
    /// None if the two traces deliver the same steps; otherwise the first difference.
    pub fn steps_diff(&self, o: &Trace<T>) -> Option<String> {
        for (i, (a, b)) in self.steps.iter().zip(&o.steps).enumerate() {
            if !a.same(b) {
                return Some(format!("step {i}: {a:?} vs {b:?}"));
            }
        }
        if self.steps.len() != o.steps.len() {
            return Some(format!("{} steps vs {} steps", self.steps.len(), o.steps.len()));
        }
        None
    }
    /// None if self's steps are a prefix of o's.
    pub fn prefix_diff(&self, o: &Trace<T>) -> Option<String> {
        if self.steps.len() > o.steps.len() {
            return Some(format!(
                "{} steps where at most {} are possible; first extra {:?}",
                self.steps.len(),
                o.steps.len(),
                self.steps[o.steps.len()]
            ));
        }
        for (i, (a, b)) in self.steps.iter().zip(&o.steps).enumerate() {
            if !a.same(b) {
                return Some(format!("step {i}: {a:?} vs {b:?}"));
            }
        }
        None
    }
}

// ---------------------------------------------------------------- plans

#[derive(Clone, Debug, PartialEq, Default)]
pub struct RPlan {
    /// 0: the simulated source is the BufRead itself; n>0: std::io::BufReader of capacity n over it.
    pub wrap: u32,
    /// Sizes of successive deliveries; afterwards `rest` (0 = everything that is left).
    pub chunks: Vec<u32>,
    pub rest: u32,
    /// Refill attempts (by index) answered with ErrorKind::Interrupted.
    pub eintr: Vec<u32>,
    pub fault: Option<RFault>,
    /// Bytes that turn up after the source has reported its end (a terminal, a growing file).
    pub tail: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RFault {
    /// Byte offset at which the source fails.
    pub at: u64,
    /// Index into io::KINDS.
    pub kind: u8,
    /// 0: fails once, then continues; 1: fails forever; 2: fails once, then end of file.
    pub mode: u8,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct WPlan {
    pub chunks: Vec<u32>,
    pub rest: u32,
    pub eintr: Vec<u32>,
    pub fault: Option<WFault>,
    /// ErrorKind index returned by Write::flush (only if used); 255 = none
    pub flush_err: Option<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct WFault {
    /// Number of accepted bytes after which the sink fails.
    pub at: u64,
    /// Index into io::KINDS; 255 = accepts zero bytes (Ok(0)).
    pub kind: u8,
    /// 0: fails once, then recovers; 1: fails forever; 2: fails once every `at` bytes.
    pub mode: u8,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub enc: u8,
    pub canonical: bool,
    pub indent: Option<i32>,
    pub width: Option<i32>,
    pub unicode: bool,
    pub brk: u8,
}
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg { enc: 0, canonical: false, indent: None, width: None, unicode: false, brk: 0 }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Rd {
    pub bytes: Vec<u8>,
    /// Encoding set explicitly (0 = detect).
    pub enc: u8,
    pub plan: RPlan,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Em {
    pub evs: Vec<Ev>,
    pub cfg: Cfg,
    pub plan: WPlan,
}

/// A document graph node. Children are indexes into the document's node list (0-based).
#[derive(Clone, Debug, PartialEq)]
pub enum NodeK {
    Scalar(String, u8),
    Seq(Vec<u32>, u8),
    Map(Vec<(u32, u32)>, u8),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Nd {
    pub tag: Option<String>,
    pub k: NodeK,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Doc {
    pub nodes: Vec<Nd>,
    pub version: Option<(i32, i32)>,
    pub tags: Vec<(String, String)>,
    pub start_implicit: bool,
    pub end_implicit: bool,
}

/// One explicit, self-contained simulated execution: everything a run depends on.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Case {
    pub prop: String,
    pub rd: Vec<Rd>,
    pub em: Vec<Em>,
    pub docs: Vec<Doc>,
    pub sched: Vec<u32>,
    pub params: Vec<(String, i64)>,
}

impl Case {
    pub fn new(prop: &str) -> Case {
        Case { prop: prop.into(), ..Case::default() }
    }
    pub fn p(&self, k: &str) -> i64 {
        self.params.iter().find(|(n, _)| n == k).map_or(0, |e| e.1)
    }
    pub fn set(&mut self, k: &str, v: i64) {
        if let Some(e) = self.params.iter_mut().find(|(n, _)| n == k) {
            e.1 = v;
        } else {
            self.params.push((k.into(), v));
        }
    }
    pub fn fp(&self) -> u64 {
        let mut f = Fp::new();
        f.s(&format!("{self:?}"));
        f.0
    }
}

/// The events that dumping these documents and closing the stream stands for, and for each the index
/// of the call. (libyaml's own dumper is not used as the reference: it crashes on some documents.)
pub fn dump_events(docs: &[Doc]) -> (Vec<Ev>, Vec<usize>) {
    const STR: &str = "tag:yaml.org,2002:str";
    const SEQ: &str = "tag:yaml.org,2002:seq";
    const MAP: &str = "tag:yaml.org,2002:map";
    enum Step {
        Node(usize),
        Ev(Ev),
    }
    let kids = |n: &Nd| match &n.k {
        NodeK::Scalar(..) => vec![],
        NodeK::Seq(v, _) => v.iter().map(|x| *x as usize).collect::<Vec<_>>(),
        NodeK::Map(v, _) => v.iter().flat_map(|(a, b)| [*a as usize, *b as usize]).collect(),
    };
    let (mut evs, mut call) = (vec![Ev::StreamStart(0)], vec![0]);
    let mut closed = false;
    for (k, d) in docs.iter().enumerate() {
        let from = evs.len();
        if d.nodes.is_empty() {
            if !closed {
                evs.push(Ev::StreamEnd);
            }
            closed = true;
        } else {
            // anchors go to nodes with several references, numbered as the second one is met
            let mut refs = vec![0usize; d.nodes.len()];
            let mut ids = vec![0usize; d.nodes.len()];
            let mut last = 0;
            let mut todo = vec![0usize];
            while let Some(n) = todo.pop() {
                refs[n] += 1;
                if refs[n] == 1 {
                    todo.extend(kids(&d.nodes[n]).into_iter().rev());
                } else if refs[n] == 2 {
                    last += 1;
                    ids[n] = last;
                }
            }
            evs.push(Ev::DocStart { version: d.version, tags: d.tags.clone(), implicit: d.start_implicit });
            let mut done = vec![false; d.nodes.len()];
            let mut todo = vec![Step::Node(0)];
            while let Some(x) = todo.pop() {
                let n = match x {
                    Step::Ev(e) => {
                        evs.push(e);
                        continue;
                    }
                    Step::Node(n) => n,
                };
                let anchor = (ids[n] > 0).then(|| format!("id{:03}", ids[n]));
                if std::mem::replace(&mut done[n], true) {
                    evs.push(Ev::Alias(anchor.unwrap()));
                    continue;
                }
                let nd = &d.nodes[n];
                let tag = |t: &str| nd.tag.clone().unwrap_or(t.into());
                match &nd.k {
                    NodeK::Scalar(value, style) => {
                        let tag = tag(STR);
                        let implicit = tag == STR;
                        evs.push(Ev::Scalar { anchor, tag: Some(tag), value: value.clone(), plain: implicit, quoted: implicit, style: *style });
                    }
                    NodeK::Seq(_, style) => {
                        let tag = tag(SEQ);
                        evs.push(Ev::SeqStart { anchor, implicit: tag == SEQ, tag: Some(tag), style: *style });
                        todo.push(Step::Ev(Ev::SeqEnd));
                    }
                    NodeK::Map(_, style) => {
                        let tag = tag(MAP);
                        evs.push(Ev::MapStart { anchor, implicit: tag == MAP, tag: Some(tag), style: *style });
                        todo.push(Step::Ev(Ev::MapEnd));
                    }
                }
                todo.extend(kids(nd).into_iter().rev().map(Step::Node));
            }
            evs.push(Ev::DocEnd(d.end_implicit));
        }
        call.resize(call.len() + evs.len() - from, k);
    }
    if !closed {
        evs.push(Ev::StreamEnd);
        call.push(docs.len());
    }
    (evs, call)
}

// ---------------------------------------------------------------- JSON codec

fn nums(v: &[u32]) -> J {
    J::Arr(v.iter().map(|x| J::Int(i64::from(*x))).collect())
}
fn unnums(j: &J) -> Vec<u32> {
    j.arr().iter().map(|x| x.int() as u32).collect()
}

impl RPlan {
    pub fn to_j(&self) -> J {
        let mut o = J::obj()
            .with("wrap", J::Int(i64::from(self.wrap)))
            .with("chunks", nums(&self.chunks))
            .with("rest", J::Int(i64::from(self.rest)))
            .with("eintr", nums(&self.eintr));
        if !self.tail.is_empty() {
            o.set("tail", J::s(hex(&self.tail)));
        }
        if let Some(f) = &self.fault {
            o.set(
                "fault",
                J::obj()
                    .with("at", J::Int(f.at as i64))
                    .with("kind", J::Int(i64::from(f.kind)))
                    .with("kind_name", J::s(format!("{:?}", crate::io::kind(f.kind))))
                    .with("mode", J::Int(i64::from(f.mode))),
            );
        }
        o
    }
    pub fn from_j(j: &J) -> RPlan {
        RPlan {
            wrap: j.get("wrap").int() as u32,
            chunks: unnums(j.get("chunks")),
            rest: j.get("rest").int() as u32,
            eintr: unnums(j.get("eintr")),
            fault: if j.get("fault").is_null() {
                None
            } else {
                let f = j.get("fault");
                Some(RFault { at: f.get("at").int() as u64, kind: f.get("kind").int() as u8, mode: f.get("mode").int() as u8 })
            },
            tail: if j.get("tail").is_null() { vec![] } else { unhex(j.get("tail").str()) },
        }
    }
}
impl WPlan {
    pub fn to_j(&self) -> J {
        let mut o = J::obj()
            .with("chunks", nums(&self.chunks))
            .with("rest", J::Int(i64::from(self.rest)))
            .with("eintr", nums(&self.eintr));
        if let Some(f) = &self.fault {
            o.set(
                "fault",
                J::obj()
                    .with("at", J::Int(f.at as i64))
                    .with("kind", J::Int(i64::from(f.kind)))
                    .with("kind_name", if f.kind == 255 { J::s("WriteZero(Ok(0))") } else { J::s(format!("{:?}", crate::io::kind(f.kind))) })
                    .with("mode", J::Int(i64::from(f.mode))),
            );
        }
        if let Some(k) = self.flush_err {
            o.set("flush_err", J::Int(i64::from(k)));
        }
        o
    }
    pub fn from_j(j: &J) -> WPlan {
        WPlan {
            chunks: unnums(j.get("chunks")),
            rest: j.get("rest").int() as u32,
            eintr: unnums(j.get("eintr")),
            fault: if j.get("fault").is_null() {
                None
            } else {
                let f = j.get("fault");
                Some(WFault { at: f.get("at").int() as u64, kind: f.get("kind").int() as u8, mode: f.get("mode").int() as u8 })
            },
            flush_err: if j.get("flush_err").is_null() { None } else { Some(j.get("flush_err").int() as u8) },
        }
    }
}
impl Cfg {
    pub fn to_j(&self) -> J {
        J::obj()
            .with("enc", J::Int(i64::from(self.enc)))
            .with("canonical", J::Bool(self.canonical))
            .with("indent", self.indent.map_or(J::Null, |v| J::Int(i64::from(v))))
            .with("width", self.width.map_or(J::Null, |v| J::Int(i64::from(v))))
            .with("unicode", J::Bool(self.unicode))
            .with("brk", J::Int(i64::from(self.brk)))
    }
    pub fn from_j(j: &J) -> Cfg {
        let o = |k: &str| if j.get(k).is_null() { None } else { Some(j.get(k).int() as i32) };
        Cfg {
            enc: j.get("enc").int() as u8,
            canonical: j.get("canonical").bool(),
            indent: o("indent"),
            width: o("width"),
            unicode: j.get("unicode").bool(),
            brk: j.get("brk").int() as u8,
        }
    }
}
impl Doc {
    pub fn to_j(&self) -> J {
        let nodes = self
            .nodes
            .iter()
            .map(|n| match &n.k {
                NodeK::Scalar(v, s) => J::Arr(vec![J::s("scalar"), jo(&n.tag), J::s(v.clone()), J::Int(i64::from(*s))]),
                NodeK::Seq(v, s) => J::Arr(vec![J::s("seq"), jo(&n.tag), nums(v), J::Int(i64::from(*s))]),
                NodeK::Map(v, s) => J::Arr(vec![
                    J::s("map"),
                    jo(&n.tag),
                    J::Arr(v.iter().map(|(a, b)| nums(&[*a, *b])).collect()),
                    J::Int(i64::from(*s)),
                ]),
            })
            .collect();
        J::obj()
            .with("nodes", J::Arr(nodes))
            .with("version", self.version.map_or(J::Null, |(a, b)| J::Arr(vec![J::Int(a.into()), J::Int(b.into())])))
            .with("tags", J::Arr(self.tags.iter().map(|(h, p)| J::Arr(vec![J::s(h.clone()), J::s(p.clone())])).collect()))
            .with("start_implicit", J::Bool(self.start_implicit))
            .with("end_implicit", J::Bool(self.end_implicit))
    }
    pub fn from_j(j: &J) -> Doc {
        Doc {
            nodes: j
                .get("nodes")
                .arr()
                .iter()
                .map(|n| Nd {
                    tag: n.at(1).opt_str(),
                    k: match n.at(0).str() {
                        "scalar" => NodeK::Scalar(n.at(2).str().into(), n.at(3).int() as u8),
                        "seq" => NodeK::Seq(unnums(n.at(2)), n.at(3).int() as u8),
                        _ => NodeK::Map(
                            n.at(2).arr().iter().map(|p| (p.at(0).int() as u32, p.at(1).int() as u32)).collect(),
                            n.at(3).int() as u8,
                        ),
                    },
                })
                .collect(),
            version: if j.get("version").is_null() {
                None
            } else {
                Some((j.get("version").at(0).int() as i32, j.get("version").at(1).int() as i32))
            },
            tags: j.get("tags").arr().iter().map(|t| (t.at(0).str().into(), t.at(1).str().into())).collect(),
            start_implicit: j.get("start_implicit").bool(),
            end_implicit: j.get("end_implicit").bool(),
        }
    }
}

impl Case {
    pub fn to_j(&self) -> J {
        let mut o = J::obj().with("property", J::s(self.prop.clone()));
        let mut p = J::obj();
        for (k, v) in &self.params {
            p.set(k, J::Int(*v));
        }
        o.set("params", p);
        if !self.rd.is_empty() {
            o.set(
                "inputs",
                J::Arr(
                    self.rd
                        .iter()
                        .map(|r| {
                            let mut o = J::obj().with("hex", J::s(hex(&r.bytes)));
                            if r.bytes.len() <= 4096 {
                                o.set("text", J::s(String::from_utf8_lossy(&r.bytes).to_string()));
                            }
                            o.with("enc", J::Int(i64::from(r.enc))).with("plan", r.plan.to_j())
                        })
                        .collect(),
                ),
            );
        }
        if !self.em.is_empty() {
            o.set(
                "outputs",
                J::Arr(
                    self.em
                        .iter()
                        .map(|e| {
                            J::obj()
                                .with("events", J::Arr(e.evs.iter().map(Ev::to_j).collect()))
                                .with("cfg", e.cfg.to_j())
                                .with("plan", e.plan.to_j())
                        })
                        .collect(),
                ),
            );
        }
        if !self.docs.is_empty() {
            o.set("docs", J::Arr(self.docs.iter().map(Doc::to_j).collect()));
        }
        if !self.sched.is_empty() {
            o.set("sched", nums(&self.sched));
        }
        o
    }
    pub fn from_j(j: &J) -> Case {
        Case {
            prop: j.get("property").str().into(),
            rd: j
                .get("inputs")
                .arr()
                .iter()
                .map(|r| Rd { bytes: unhex(r.get("hex").str()), enc: r.get("enc").int() as u8, plan: RPlan::from_j(r.get("plan")) })
                .collect(),
            em: j
                .get("outputs")
                .arr()
                .iter()
                .map(|e| Em {
                    evs: e.get("events").arr().iter().map(Ev::from_j).collect(),
                    cfg: Cfg::from_j(e.get("cfg")),
                    plan: WPlan::from_j(e.get("plan")),
                })
                .collect(),
            docs: j.get("docs").arr().iter().map(Doc::from_j).collect(),
            sched: unnums(j.get("sched")),
            params: match j.get("params") {
                J::Obj(o) => o.iter().map(|(k, v)| (k.clone(), v.int())).collect(),
                _ => vec![],
            },
        }
    }
}
