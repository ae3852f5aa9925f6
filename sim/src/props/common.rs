//! Oracles shared by several properties.
use super::Res;
use crate::ensure;
use crate::model::*;
use crate::real;
use crate::stats::Stats;

/// What a byte sequence decodes to, by the rules of the YAML 1.1 character stream.
pub struct Decoded {
    pub chars: Vec<char>,
    /// Byte offset just after each character.
    pub after: Vec<u64>,
    /// Byte offset of the first character that cannot be decoded, if any.
    pub bad: Option<usize>,
    pub enc: u8,
    pub bom: usize,
}

pub fn allowed(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='~' | '\u{85}' | '\u{a0}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}

pub fn decode(bytes: &[u8], set: u8) -> Decoded {
    let (enc, bom) = if set != 0 {
        (set, 0)
    } else if bytes.starts_with(&[0xff, 0xfe]) {
        (2, 2)
    } else if bytes.starts_with(&[0xfe, 0xff]) {
        (3, 2)
    } else if bytes.starts_with(&[0xef, 0xbb, 0xbf]) {
        (1, 3)
    } else {
        (1, 0)
    };
    let mut d = Decoded { chars: vec![], after: vec![], bad: None, enc, bom };
    if enc == 1 {
        let mut i = bom;
        while i < bytes.len() {
            let w = match bytes[i] {
                0..=0x7f => 1,
                0xc2..=0xdf => 2,
                0xe0..=0xef => 3,
                0xf0..=0xf4 => 4,
                _ => 0,
            };
            let ch = if w > 0 && i + w <= bytes.len() { std::str::from_utf8(&bytes[i..i + w]).ok().and_then(|s| s.chars().next()) } else { None };
            match ch {
                Some(c) if allowed(c) => {
                    i += w;
                    d.chars.push(c);
                    d.after.push(i as u64);
                }
                _ => {
                    d.bad = Some(i);
                    break;
                }
            }
        }
    } else {
        let unit = |i: usize| -> Option<u16> {
            if i + 2 > bytes.len() {
                return None;
            }
            Some(if enc == 2 { u16::from_le_bytes([bytes[i], bytes[i + 1]]) } else { u16::from_be_bytes([bytes[i], bytes[i + 1]]) })
        };
        let mut i = bom;
        while i < bytes.len() {
            let (ch, w) = match unit(i) {
                None => (None, 0),
                Some(u) if (0xd800..0xdc00).contains(&u) => match unit(i + 2) {
                    Some(v) if (0xdc00..0xe000).contains(&v) => {
                        (char::from_u32(0x10000 + ((u32::from(u) - 0xd800) << 10) + (u32::from(v) - 0xdc00)), 4)
                    }
                    _ => (None, 0),
                },
                Some(u) => (char::from_u32(u32::from(u)), 2),
            };
            match ch {
                Some(c) if allowed(c) => {
                    i += w;
                    d.chars.push(c);
                    d.after.push(i as u64);
                }
                _ => {
                    d.bad = Some(i);
                    break;
                }
            }
        }
        // an incomplete BOM cannot happen here: both octets were seen
    }
    d
}

/// Steps that may be delivered without the stream having ended.
fn open_steps<T: Clone>(t: &Trace<T>) -> Vec<Step<T>> {
    let n = if t.end == End::Eos { t.steps.len() - 1 } else { t.steps.len() };
    t.steps[..n].to_vec()
}

/// Judge a fault-free execution `got` of an input whose decodable part alone gives `model`.
pub fn judge<T: PartialEq + Clone + std::fmt::Debug>(got: &Trace<T>, model: &Trace<T>, bad: Option<usize>) -> Res {
    ensure!(got.end != End::Runaway, "runaway", "no end after {} steps", got.steps.len());
    match bad {
        None => {
            if let Some(d) = got.steps_diff(model) {
                return Res::Fail("steps", d);
            }
            ensure!(got.end == model.end, "end", "ends with {:?} vs {:?}", got.end, model.end);
        }
        Some(_) => match &got.end {
            End::Err(e) if e.kind == EK::Reader => {
                let open = Trace { steps: open_steps(model), end: End::Eos };
                if let Some(d) = got.prefix_diff(&open) {
                    return Res::Fail("steps", d);
                }
            }
            End::Err(_) => {
                if let Some(d) = got.steps_diff(model) {
                    return Res::Fail("steps", d);
                }
                ensure!(got.end == model.end, "end", "ends with {:?}; the decodable part gives {:?}", got.end, model.end);
            }
            _ => return Res::Fail("accepted", "the stream ended normally although its bytes cannot be decoded".into()),
        },
    }
    Res::Ok
}

/// Judge an execution during which an injected read error may have surfaced.
pub fn judge_fault<T: PartialEq + Clone + std::fmt::Debug>(
    got: &Trace<T>,
    model: &Trace<T>,
    bad: Option<usize>,
    fired: bool,
    kind_name: &str,
    id: u64,
) -> Res {
    if !fired {
        return judge(got, model, bad);
    }
    match &got.end {
        End::Err(e) if e.kind == EK::Io => {
            ensure!(
                e.io == Some((kind_name.to_string(), Some(id))),
                "io-identity",
                "the source failed with {kind_name} (fault #{id}), reported {:?}",
                e.io
            );
            let open = Trace { steps: open_steps(model), end: End::Eos };
            if let Some(d) = got.prefix_diff(&open) {
                return Res::Fail("steps", d);
            }
            Res::Ok
        }
        End::Runaway => Res::Fail("runaway", format!("no end after {} steps", got.steps.len())),
        e => Res::Fail("swallowed", format!("the source failed with {kind_name} (fault #{id}), but the outcome is {e:?}")),
    }
}

pub fn hash<T: std::fmt::Debug>(st: &mut Stats, t: &Trace<T>) {
    st.step(t.steps.len());
    // cheap structural fingerprint: kinds are in the step count and the marks
    let mut x = 0u64;
    for s in &t.steps {
        x = x.wrapping_mul(31).wrapping_add(s.sm.index * 7 + s.em.index + s.pulled);
    }
    st.mixin(x);
    st.mixin(match &t.end {
        End::Eos => 1,
        End::Err(e) => 2 + e.kind as u64,
        End::Runaway => 99,
    });
    st.probe(match &t.end {
        End::Eos => "end_of_stream",
        End::Err(e) => match e.kind {
            EK::Reader => "reader_error",
            EK::Scanner => "scanner_error",
            EK::Parser => "parser_error",
            EK::Composer => "composer_error",
            EK::Emitter => "emitter_error",
            EK::Io => "io_error",
            EK::Memory => "memory_error",
        },
        End::Runaway => "runaway",
    });
}

pub fn contract(st: &crate::io::IoState) -> Res {
    if let Some(c) = st.contract.borrow().as_ref() {
        return Res::Fail("bufread-contract", c.clone());
    }
    Res::Ok
}

/// The model execution: the decodable part of the bytes, delivered at once.
pub fn model_parse(rd: &Rd, d: &Decoded) -> Trace<Ev> {
    let b = &rd.bytes[..d.bad.unwrap_or(rd.bytes.len())];
    real::parse(&Rd { bytes: b.to_vec(), enc: pin(rd, d), plan: RPlan::default() }, 0).0
}
pub fn model_scan(rd: &Rd, d: &Decoded) -> Trace<Tok> {
    let b = &rd.bytes[..d.bad.unwrap_or(rd.bytes.len())];
    real::scan(&Rd { bytes: b.to_vec(), enc: pin(rd, d), plan: RPlan::default() }, 0).0
}
pub fn model_load(rd: &Rd, d: &Decoded) -> (Vec<real::LDoc>, End) {
    let b = &rd.bytes[..d.bad.unwrap_or(rd.bytes.len())];
    let (v, e, _) = real::load(&Rd { bytes: b.to_vec(), enc: pin(rd, d), plan: RPlan::default() }, 0);
    (v, e)
}
/// Cutting inside a byte order mark must not change what is being decoded.
fn pin(rd: &Rd, _d: &Decoded) -> u8 {
    rd.enc
}

/// Turn loaded documents into a trace so that they can be judged alike.
pub fn doc_trace(docs: Vec<real::LDoc>, end: End) -> Trace<Option<real::LDoc>> {
    let mut steps: Vec<Step<Option<real::LDoc>>> =
        docs.into_iter().map(|d| Step { sm: d.sm, em: d.em, ev: Some(d), pulled: 0 }).collect();
    if end == End::Eos {
        steps.push(Step { ev: None, sm: Mk::default(), em: Mk::default(), pulled: 0 });
    }
    Trace { steps, end }
}
