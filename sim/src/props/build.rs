//! C17: documents as histories of building, editing, loading and dumping operations.
use super::system::{compose, doc_diff, isomorphic};
use super::{Prop, Res};
use crate::guard::guard;
use crate::model::*;
use crate::real::{self, LData, LDoc, LNode};
use crate::rng::Rng;
use crate::stats::Stats;
use crate::{ensure, gen};
use libyaml_safer as y;

const TAGS: [Option<&str>; 8] = [
    None,
    None,
    None,
    Some("!t"),
    Some("tag:yaml.org,2002:int"),
    Some("tag:e.com,1:x"),
    Some("tag:yaml.org,2002:str"),
    Some("tag:yaml.org,2002:map"),
];

/// An operation is one number, so that a schedule is a plain list: document, kind and two arguments.
fn op(who: usize, kind: usize, a: usize, b: usize) -> u32 {
    ((who & 3) | (kind & 15) << 2 | (a & 0xfff) << 6 | (b & 0x3fff) << 18) as u32
}

struct Slot {
    d: y::Document,
    m: LDoc,
}

fn odd_index(n: i32, b: usize) -> i32 {
    [0, -1, n + 1, i32::MIN, i32::MAX, n + 2, -n, i32::MIN + 1][b % 8]
}
fn value_of(b: usize) -> String {
    gen::value(&mut Rng::new(b as u64 % 512))
}

fn node_diff(got: Option<&y::Node>, want: Option<&LNode>) -> Option<String> {
    let g = got.map(real::lnode);
    (g.as_ref() != want).then(|| format!("{g:?}, model {want:?}"))
}

/// The graph of the model in the form that can be compared after a round trip.
fn as_doc(m: &LDoc) -> Option<Doc> {
    let mut d = Doc { nodes: vec![], version: m.version, tags: m.tags.clone(), start_implicit: m.start_implicit, end_implicit: m.end_implicit };
    for n in &m.nodes {
        let k = match &n.data {
            LData::No => return None,
            LData::Scalar(v, s) => NodeK::Scalar(v.clone(), *s),
            LData::Seq(v, s) => NodeK::Seq(v.iter().map(|i| *i as u32 - 1).collect(), *s),
            LData::Map(v, s) => NodeK::Map(v.iter().map(|p| (p.0 as u32 - 1, p.1 as u32 - 1)).collect(), *s),
        };
        d.nodes.push(Nd { tag: n.tag.clone(), k });
    }
    Some(d)
}

fn apply(s: &mut Slot, kind: usize, a: usize, b: usize, st: &mut Stats) -> Res {
    let n = s.m.nodes.len() as i32;
    let zero = Mk::default();
    let pick = |m: &LDoc, f: fn(&LData) -> bool| -> Option<i32> {
        let v: Vec<i32> = m.nodes.iter().enumerate().filter(|x| f(&x.1.data)).map(|x| x.0 as i32 + 1).collect();
        if v.is_empty() {
            None
        } else {
            Some(v[a % v.len()])
        }
    };
    match kind {
        0..=3 => {
            let tag = TAGS[a % 8];
            let (id, data, dflt) = match kind {
                0 | 1 => {
                    let v = value_of(b);
                    let style = (a / 8 % 6) as u8;
                    (s.d.add_scalar(tag, &v, real::style_to(style)), LData::Scalar(v, style), "tag:yaml.org,2002:str")
                }
                2 => {
                    let style = (a / 8 % 3) as u8;
                    (s.d.add_sequence(tag, real::sstyle_to(style)), LData::Seq(vec![], style), "tag:yaml.org,2002:seq")
                }
                _ => {
                    let style = (a / 8 % 3) as u8;
                    (s.d.add_mapping(tag, real::mstyle_to(style)), LData::Map(vec![], style), "tag:yaml.org,2002:map")
                }
            };
            s.m.nodes.push(LNode { tag: Some(tag.unwrap_or(dflt).into()), data, sm: zero, em: zero });
            ensure!(id == n + 1, "index", "the new node got the index {id} in a document of {n} nodes");
        }
        4 | 5 if n > 0 => {
            if let Some(q) = pick(&s.m, |d| matches!(d, LData::Seq(..))) {
                let item = (b % n as usize) as i32 + 1;
                s.d.append_sequence_item(q, item);
                if let LData::Seq(v, _) = &mut s.m.nodes[q as usize - 1].data {
                    v.push(item);
                }
            }
        }
        6 | 7 if n > 0 => {
            if let Some(q) = pick(&s.m, |d| matches!(d, LData::Map(..))) {
                let k = (b % n as usize) as i32 + 1;
                let v = ((b / 7 + a) % n as usize) as i32 + 1;
                s.d.yaml_document_append_mapping_pair(q, k, v);
                if let LData::Map(x, _) = &mut s.m.nodes[q as usize - 1].data {
                    x.push((k, v));
                }
            }
        }
        8 | 9 => {
            let i = if a % 4 == 0 || n == 0 { odd_index(n, b) } else { (b % n as usize) as i32 + 1 };
            let want = if i >= 1 && i <= n { s.m.nodes.get(i as usize - 1) } else { None };
            if let Some(m) = node_diff(s.d.get_node(i), want) {
                return Res::Fail("lookup", format!("get_node({i}) in {n} nodes gives {m}"));
            }
            if let Some(m) = node_diff(s.d.get_node_mut(i).map(|x| &*x), want) {
                return Res::Fail("lookup", format!("get_node_mut({i}) in {n} nodes gives {m}"));
            }
            if want.is_none() {
                st.fault("index_out_of_range", 1);
            }
        }
        10 => {
            // edit a node in place
            let i = if n == 0 { 1 } else { (b % n as usize) as i32 + 1 };
            let root = a % 5 == 0;
            let (node, i) = if root { (s.d.get_root_node(), 1) } else { (s.d.get_node_mut(i), i) };
            match (node, s.m.nodes.get_mut(i as usize - 1)) {
                (Some(x), Some(m)) => {
                    if let Some(d) = node_diff(Some(x), Some(m)) {
                        return Res::Fail("lookup", format!("node {i} (root: {root}) is {d}"));
                    }
                    let t = TAGS[3 + a % 5].map(str::to_string);
                    x.tag.clone_from(&t);
                    m.tag = t;
                    if let (y::NodeData::Scalar { value, .. }, LData::Scalar(v, _)) = (&mut x.data, &mut m.data) {
                        *value = value_of(b / 3);
                        v.clone_from(value);
                    }
                }
                (None, None) => {}
                (x, m) => return Res::Fail("lookup", format!("node {i} (root: {root}) is {x:?}, model {m:?}")),
            }
        }
        11 => {
            // an append that refers to something that is not there must be refused, and change nothing
            let bad = odd_index(n, b);
            let seq = pick(&s.m, |d| matches!(d, LData::Seq(..)));
            let map = pick(&s.m, |d| matches!(d, LData::Map(..)));
            let leaf = pick(&s.m, |d| matches!(d, LData::Scalar(..)));
            let ok = 1 + (b % n.max(1) as usize) as i32;
            let d = &mut s.d;
            let (what, refused) = match a % 7 {
                0 => ("item of a missing sequence", guard(|| d.append_sequence_item(bad, ok)).is_err()),
                1 => ("pair of a missing mapping", guard(|| d.yaml_document_append_mapping_pair(bad, ok, ok)).is_err()),
                2 if seq.is_some() => ("missing item", guard(|| d.append_sequence_item(seq.unwrap(), bad)).is_err()),
                3 if map.is_some() => ("missing key", guard(|| d.yaml_document_append_mapping_pair(map.unwrap(), bad, ok)).is_err()),
                4 if map.is_some() => ("missing value", guard(|| d.yaml_document_append_mapping_pair(map.unwrap(), ok, bad)).is_err()),
                5 if leaf.is_some() || map.is_some() => ("item of no sequence", guard(|| d.append_sequence_item(leaf.or(map).unwrap(), ok)).is_err()),
                6 if leaf.is_some() || seq.is_some() => {
                    ("pair of no mapping", guard(|| d.yaml_document_append_mapping_pair(leaf.or(seq).unwrap(), ok, ok)).is_err())
                }
                _ => return Res::Ok,
            };
            ensure!(refused, "accepted", "{what} was accepted (index {bad} of {n} nodes)");
            st.fault("invalid_append", 1);
        }
        _ => {}
    }
    Res::Ok
}

pub const C17: Prop = Prop {
    id: "C17",
    quick: 400_000,
    deep: 60,
    gen: |r, _, _| {
        let mut c = Case::new("C17");
        let docs = 1 + r.small(2);
        for _ in 0..docs {
            let loaded = r.chance(1, 3);
            let mut rd = if loaded { Rd { bytes: gen::good_text(r).into_bytes(), enc: 0, plan: RPlan::default() } } else { Rd::default() };
            rd.plan = gen::rplan(r, &rd.bytes);
            if loaded && r.chance(1, 6) {
                rd.plan.fault = Some(gen::rfault(r, rd.bytes.len()));
            }
            c.rd.push(rd);
            let mut d = if r.chance(1, 4) { gen::doc(r) } else { Doc { start_implicit: r.chance(1, 2), end_implicit: r.chance(1, 2), ..Doc::default() } };
            if r.chance(1, 8) {
                d.version = Some((1, 1 + r.below(2) as i32));
            }
            c.docs.push(d);
            c.em.push(Em { evs: vec![], cfg: gen::cfg(r), plan: gen::wplan(r) });
        }
        let n = *r.pick(&[3usize, 8, 20, 40, 80, 200]);
        for _ in 0..n {
            let kind = r.weighted(&[4, 4, 3, 3, 5, 5, 4, 4, 3, 3, 3, 3, 2, 2]);
            c.sched.push(op(r.below(docs), kind, r.below(1 << 12), r.below(1 << 14)));
        }
        c
    },
    run: |c, st| {
        let n = c.docs.len().min(c.rd.len()).min(c.em.len()).min(4);
        if n == 0 {
            return Res::Skip("no document");
        }
        let mut slots: Vec<Slot> = vec![];
        for k in 0..n {
            let rd = &c.rd[k];
            let mut made = None;
            if !rd.bytes.is_empty() {
                // a document from a stream is a document like any other
                let mut p = real::RealParser::new(rd, k as u64 + 1);
                let got = y::Document::load(&mut p.p);
                st.src(&p.st, &rd.plan);
                let (t, _) = real::parse(rd, k as u64 + 1);
                let (want, _) = compose(&t);
                match (got, want.into_iter().next()) {
                    (Ok(d), Some(m)) => {
                        st.probe("loaded_document");
                        made = Some(Slot { d, m });
                    }
                    (Ok(d), None) => ensure!(d.nodes.is_empty(), "load", "a document of {} nodes where there is none", d.nodes.len()),
                    (Err(_), _) => st.probe("load_failed"),
                }
            }
            slots.push(made.unwrap_or_else(|| Slot { d: real::build_doc(&c.docs[k]), m: model_of(&c.docs[k]) }));
        }
        let mut dumps = 0;
        for (i, o) in c.sched.iter().enumerate() {
            let (who, kind, a, b) = ((*o & 3) as usize % n, (*o >> 2 & 15) as usize, (*o >> 6 & 0xfff) as usize, (*o >> 18 & 0x3fff) as usize);
            st.mixin(u64::from(*o));
            if kind == 12 {
                // a copy is independent of its original: the copy lives on in the other place
                let to = a % n;
                let copy = Slot { d: slots[who].d.clone(), m: slots[who].m.clone() };
                slots[to] = copy;
                st.probe("document_cloned");
            } else if kind == 13 {
                if dumps < 3 && !slots[who].m.nodes.is_empty() {
                    dumps += 1;
                    if let Some(r) = round_trip(&slots[who], &c.em[who], &c.rd[who].plan, st) {
                        return r;
                    }
                }
            } else {
                match apply(&mut slots[who], kind, a, b, st) {
                    Res::Ok => {}
                    Res::Fail(class, m) => return Res::Fail(class, format!("operation {i} on document {who}: {m}")),
                    x => return x,
                }
            }
            st.step(1);
            if i % 8 == 7 || i + 1 == c.sched.len() {
                // every document is what its own history made it, whatever happened to the others
                for (k, s) in slots.iter().enumerate() {
                    if let Some(m) = doc_diff(&real::ldoc(&s.d), &s.m) {
                        return Res::Fail("content", format!("after operation {i}, document {k}: {m}"));
                    }
                }
            }
        }
        for (k, s) in slots.iter().enumerate() {
            if s.m.nodes.is_empty() {
                continue;
            }
            if let Some(r) = round_trip(s, &c.em[k], &c.rd[k].plan, st) {
                return r;
            }
        }
        Res::Ok
    },
    rule: "a run interleaves up to 200 operations (adding nodes of all kinds, appending items and pairs, lookups with indexes in and out of range, edits in place, invalid appends, cloning, dumping a copy) on one to three documents, some of them loaded from a simulated source that may fail, compares every result and the whole content with a model, and finally dumps each to a simulated sink and loads it back; non-trivial: a fault, short transfer, out-of-range index or refused append happened and at least 3 operations were made",
    stubs: "the byte sources and sinks",
    assumptions: &["invalid appends panic (assertions, as in libyaml) and leave the document unchanged"],
};

fn model_of(d: &Doc) -> LDoc {
    let z = Mk::default();
    LDoc {
        nodes: d
            .nodes
            .iter()
            .map(|n| {
                let (data, t) = match &n.k {
                    NodeK::Scalar(v, s) => (LData::Scalar(v.clone(), *s), "str"),
                    NodeK::Seq(v, s) => (LData::Seq(v.iter().map(|x| *x as i32 + 1).collect(), *s), "seq"),
                    NodeK::Map(v, s) => (LData::Map(v.iter().map(|p| (p.0 as i32 + 1, p.1 as i32 + 1)).collect(), *s), "map"),
                };
                LNode { tag: Some(n.tag.clone().unwrap_or_else(|| format!("tag:yaml.org,2002:{t}"))), data, sm: z, em: z }
            })
            .collect(),
        version: d.version,
        tags: d.tags.clone(),
        start_implicit: d.start_implicit,
        end_implicit: d.end_implicit,
        sm: z,
        em: z,
    }
}

/// Dump a copy, load it back and compare with the model.
fn round_trip(s: &Slot, em: &Em, plan: &RPlan, st: &mut Stats) -> Option<Res> {
    let want = as_doc(&s.m)?;
    let (r, out, io) = real::with_emitter(&em.plan, &em.cfg, 5, |e, _, _| s.d.clone().dump(e).and_then(|()| e.close()).map_err(real::err_from));
    st.sink(&io, &em.plan);
    if let Err(e) = r {
        return Some(Res::Fail("rejected", format!("dumping {:?}: {}", want, e.display)));
    }
    let src = Rd { bytes: out.clone(), enc: 0, plan: RPlan { fault: None, ..plan.clone() } };
    let (docs, end, io) = real::load(&src, 6);
    st.src(&io, &src.plan);
    st.probe("dumped_and_loaded_document");
    let text = || String::from_utf8_lossy(&out).chars().take(400).collect::<String>();
    if end != End::Eos || docs.len() != 1 {
        return Some(Res::Fail("unreadable", format!("{} documents, {end:?} from {:?}", docs.len(), text())));
    }
    if let Some(m) = isomorphic(&want, &docs[0]) {
        return Some(Res::Fail("graph", format!("{m} from {:?}", text())));
    }
    if docs[0].version != want.version || docs[0].tags != want.tags {
        return Some(Res::Fail("directives", format!("{:?} {:?} came back as {:?} {:?}", want.version, want.tags, docs[0].version, docs[0].tags)));
    }
    None
}
