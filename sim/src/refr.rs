//! The reference model: unsafe-libyaml (the C library libyaml 0.2.5, mechanically translated),
//! driven through the same seams.
use crate::model::*;
use std::ffi::{c_void, CStr, CString};
use std::mem::MaybeUninit;
use unsafe_libyaml as u;

struct Src<'a> {
    data: &'a [u8],
    pos: usize,
    chunk: usize,
}
unsafe fn read_cb(d: *mut c_void, buf: *mut u8, size: u64, got: *mut u64) -> i32 {
    let s = &mut *(d as *mut Src);
    let n = (s.data.len() - s.pos).min(size as usize).min(s.chunk);
    std::ptr::copy_nonoverlapping(s.data.as_ptr().add(s.pos), buf, n);
    s.pos += n;
    *got = n as u64;
    1
}
fn mk(m: u::yaml_mark_t) -> Mk {
    Mk { index: m.index, line: m.line, column: m.column }
}
unsafe fn s(p: *const u8) -> String {
    String::from_utf8_lossy(CStr::from_ptr(p.cast()).to_bytes()).into_owned()
}
unsafe fn sl(p: *const u8, n: u64) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n as usize)).into_owned()
}
unsafe fn so(p: *const u8) -> Option<String> {
    if p.is_null() {
        None
    } else {
        Some(s(p))
    }
}
fn enc_u(e: u8) -> u::yaml_encoding_t {
    match e {
        1 => u::YAML_UTF8_ENCODING,
        2 => u::YAML_UTF16LE_ENCODING,
        3 => u::YAML_UTF16BE_ENCODING,
        _ => u::YAML_ANY_ENCODING,
    }
}

unsafe fn ev(e: &u::yaml_event_t) -> Ev {
    match e.type_ {
        u::YAML_STREAM_START_EVENT => Ev::StreamStart(e.data.stream_start.encoding as u8),
        u::YAML_STREAM_END_EVENT => Ev::StreamEnd,
        u::YAML_DOCUMENT_START_EVENT => {
            let d = e.data.document_start;
            let mut tags = vec![];
            let mut p = d.tag_directives.start;
            while p != d.tag_directives.end {
                tags.push((s((*p).handle), s((*p).prefix)));
                p = p.add(1);
            }
            Ev::DocStart {
                version: if d.version_directive.is_null() {
                    None
                } else {
                    Some(((*d.version_directive).major, (*d.version_directive).minor))
                },
                tags,
                implicit: d.implicit,
            }
        }
        u::YAML_DOCUMENT_END_EVENT => Ev::DocEnd(e.data.document_end.implicit),
        u::YAML_ALIAS_EVENT => Ev::Alias(s(e.data.alias.anchor)),
        u::YAML_SCALAR_EVENT => {
            let d = e.data.scalar;
            Ev::Scalar {
                anchor: so(d.anchor),
                tag: so(d.tag),
                value: sl(d.value, d.length),
                plain: d.plain_implicit,
                quoted: d.quoted_implicit,
                style: d.style as u8,
            }
        }
        u::YAML_SEQUENCE_START_EVENT => {
            let d = e.data.sequence_start;
            Ev::SeqStart { anchor: so(d.anchor), tag: so(d.tag), implicit: d.implicit, style: d.style as u8 }
        }
        u::YAML_SEQUENCE_END_EVENT => Ev::SeqEnd,
        u::YAML_MAPPING_START_EVENT => {
            let d = e.data.mapping_start;
            Ev::MapStart { anchor: so(d.anchor), tag: so(d.tag), implicit: d.implicit, style: d.style as u8 }
        }
        u::YAML_MAPPING_END_EVENT => Ev::MapEnd,
        _ => panic!("reference produced no event"),
    }
}

unsafe fn err(p: *const u::yaml_parser_t) -> ErrInfo {
    let p = &*p;
    let kind = match p.error {
        u::YAML_READER_ERROR => EK::Reader,
        u::YAML_SCANNER_ERROR => EK::Scanner,
        u::YAML_PARSER_ERROR => EK::Parser,
        u::YAML_COMPOSER_ERROR => EK::Composer,
        u::YAML_MEMORY_ERROR => EK::Memory,
        _ => panic!("reference error of unexpected type"),
    };
    let has_ctx = !p.context.is_null();
    let marked = matches!(kind, EK::Scanner | EK::Parser | EK::Composer);
    ErrInfo {
        kind,
        problem: if p.problem.is_null() { String::new() } else { s(p.problem.cast()) },
        context: if has_ctx && marked { Some(s(p.context.cast())) } else { None },
        pmark: if marked { Some(mk(p.problem_mark)) } else { None },
        cmark: if marked && has_ctx { Some(mk(p.context_mark)) } else { None },
        display: format!("offset {} value {}", p.problem_offset, p.problem_value),
        io: None,
    }
}

/// Parse with the reference, the source delivering at most `chunk` bytes per read.
pub fn parse(bytes: &[u8], enc: u8, chunk: usize, cap: usize) -> Trace<Ev> {
    unsafe {
        let mut src = Src { data: bytes, pos: 0, chunk };
        let mut p = MaybeUninit::<u::yaml_parser_t>::uninit();
        let p = p.as_mut_ptr();
        assert!(u::yaml_parser_initialize(p).ok);
        u::yaml_parser_set_input(p, read_cb, std::ptr::addr_of_mut!(src).cast());
        if enc != 0 {
            u::yaml_parser_set_encoding(p, enc_u(enc));
        }
        let mut steps = vec![];
        let end = loop {
            let mut e = MaybeUninit::<u::yaml_event_t>::uninit();
            if u::yaml_parser_parse(p, e.as_mut_ptr()).fail {
                break End::Err(err(p));
            }
            let e = e.as_mut_ptr();
            let st = Step { ev: ev(&*e), sm: mk((*e).start_mark), em: mk((*e).end_mark), pulled: src.pos as u64 };
            u::yaml_event_delete(e);
            let fin = st.ev == Ev::StreamEnd;
            steps.push(st);
            if fin {
                break End::Eos;
            }
            if steps.len() > cap {
                break End::Runaway;
            }
        };
        u::yaml_parser_delete(p);
        Trace { steps, end }
    }
}

pub fn scan(bytes: &[u8], enc: u8, chunk: usize, cap: usize) -> Trace<Tok> {
    unsafe {
        let mut src = Src { data: bytes, pos: 0, chunk };
        let mut p = MaybeUninit::<u::yaml_parser_t>::uninit();
        let p = p.as_mut_ptr();
        assert!(u::yaml_parser_initialize(p).ok);
        u::yaml_parser_set_input(p, read_cb, std::ptr::addr_of_mut!(src).cast());
        if enc != 0 {
            u::yaml_parser_set_encoding(p, enc_u(enc));
        }
        let mut steps = vec![];
        let end = loop {
            let mut e = MaybeUninit::<u::yaml_token_t>::uninit();
            if u::yaml_parser_scan(p, e.as_mut_ptr()).fail {
                break End::Err(err(p));
            }
            let e = e.as_mut_ptr();
            let t = &*e;
            let k = |kind| Tok { kind, a: String::new(), b: String::new(), n: (0, 0) };
            let tok = match t.type_ {
                u::YAML_STREAM_START_TOKEN => Tok { n: (t.data.stream_start.encoding as i32, 0), ..k("STREAM-START") },
                u::YAML_STREAM_END_TOKEN => k("STREAM-END"),
                u::YAML_VERSION_DIRECTIVE_TOKEN => {
                    Tok { n: (t.data.version_directive.major, t.data.version_directive.minor), ..k("VERSION") }
                }
                u::YAML_TAG_DIRECTIVE_TOKEN => {
                    Tok { a: s(t.data.tag_directive.handle), b: s(t.data.tag_directive.prefix), ..k("TAG-DIRECTIVE") }
                }
                u::YAML_DOCUMENT_START_TOKEN => k("DOC-START"),
                u::YAML_DOCUMENT_END_TOKEN => k("DOC-END"),
                u::YAML_BLOCK_SEQUENCE_START_TOKEN => k("BLOCK-SEQ-START"),
                u::YAML_BLOCK_MAPPING_START_TOKEN => k("BLOCK-MAP-START"),
                u::YAML_BLOCK_END_TOKEN => k("BLOCK-END"),
                u::YAML_FLOW_SEQUENCE_START_TOKEN => k("FLOW-SEQ-START"),
                u::YAML_FLOW_SEQUENCE_END_TOKEN => k("FLOW-SEQ-END"),
                u::YAML_FLOW_MAPPING_START_TOKEN => k("FLOW-MAP-START"),
                u::YAML_FLOW_MAPPING_END_TOKEN => k("FLOW-MAP-END"),
                u::YAML_BLOCK_ENTRY_TOKEN => k("BLOCK-ENTRY"),
                u::YAML_FLOW_ENTRY_TOKEN => k("FLOW-ENTRY"),
                u::YAML_KEY_TOKEN => k("KEY"),
                u::YAML_VALUE_TOKEN => k("VALUE"),
                u::YAML_ALIAS_TOKEN => Tok { a: s(t.data.alias.value), ..k("ALIAS") },
                u::YAML_ANCHOR_TOKEN => Tok { a: s(t.data.anchor.value), ..k("ANCHOR") },
                u::YAML_TAG_TOKEN => Tok { a: s(t.data.tag.handle), b: s(t.data.tag.suffix), ..k("TAG") },
                u::YAML_SCALAR_TOKEN => Tok {
                    a: sl(t.data.scalar.value, t.data.scalar.length),
                    n: (t.data.scalar.style as i32, 0),
                    ..k("SCALAR")
                },
                _ => panic!("reference produced no token"),
            };
            let fin = tok.kind == "STREAM-END";
            steps.push(Step { ev: tok, sm: mk(t.start_mark), em: mk(t.end_mark), pulled: src.pos as u64 });
            u::yaml_token_delete(e);
            if fin {
                break End::Eos;
            }
            if steps.len() > cap {
                break End::Runaway;
            }
        };
        u::yaml_parser_delete(p);
        Trace { steps, end }
    }
}

unsafe fn write_cb(d: *mut c_void, buf: *mut u8, size: u64) -> i32 {
    let out = &mut *(d as *mut Vec<u8>);
    out.extend_from_slice(std::slice::from_raw_parts(buf, size as usize));
    1
}

fn c(s: &Option<String>) -> Option<CString> {
    s.as_ref().map(|s| CString::new(s.as_str()).expect("no NUL in anchors and tags"))
}
fn cp(s: &Option<CString>) -> *const u8 {
    s.as_ref().map_or(std::ptr::null(), |s| s.as_ptr().cast())
}

#[derive(Clone, Debug, PartialEq)]
pub struct RefEmit {
    /// Index of the first event whose emission fails, with the problem text.
    pub err: Option<(usize, String)>,
    /// The bytes produced up to there (including what a final flush would write), in UTF-8.
    pub out: Vec<u8>,
}

unsafe fn configure(e: *mut u::yaml_emitter_t, cfg: &Cfg) {
    unsafe {
        u::yaml_emitter_set_encoding(e, u::YAML_UTF8_ENCODING);
        u::yaml_emitter_set_canonical(e, cfg.canonical);
        if let Some(i) = cfg.indent {
            u::yaml_emitter_set_indent(e, i);
        }
        if let Some(w) = cfg.width {
            u::yaml_emitter_set_width(e, w);
        }
        u::yaml_emitter_set_unicode(e, cfg.unicode);
        u::yaml_emitter_set_break(
            e,
            match cfg.brk {
                1 => u::YAML_CR_BREAK,
                2 => u::YAML_LN_BREAK,
                3 => u::YAML_CRLN_BREAK,
                _ => u::YAML_ANY_BREAK,
            },
        );
    }
}

/// What the reference emitter writes for these events, as UTF-8 text without a byte order mark.
/// (The reference's own UTF-16 output is not used: its encoder mangles supplementary characters.)
pub fn emit(em: &Em) -> RefEmit {
    unsafe {
        let mut out: Vec<u8> = vec![];
        let mut e = MaybeUninit::<u::yaml_emitter_t>::uninit();
        let e = e.as_mut_ptr();
        assert!(u::yaml_emitter_initialize(e).ok);
        u::yaml_emitter_set_output(e, write_cb, std::ptr::addr_of_mut!(out).cast());
        configure(e, &em.cfg);
        let mut res = None;
        for (i, x) in em.evs.iter().enumerate() {
            if let Ev::Set(k, v) = x {
                match k {
                    0 => u::yaml_emitter_set_indent(e, *v),
                    1 => u::yaml_emitter_set_width(e, *v),
                    2 => u::yaml_emitter_set_unicode(e, *v != 0),
                    3 => u::yaml_emitter_set_break(
                        e,
                        match v {
                            3.. => u::YAML_CRLN_BREAK,
                            2 => u::YAML_LN_BREAK,
                            _ => u::YAML_CR_BREAK,
                        },
                    ),
                    _ => u::yaml_emitter_set_canonical(e, *v != 0),
                }
                continue;
            }
            let mut ev = MaybeUninit::<u::yaml_event_t>::uninit();
            let evp = ev.as_mut_ptr();
            let ok = match x {
                Ev::StreamStart(enc) => u::yaml_stream_start_event_initialize(evp, enc_u(if *enc > 1 { 1 } else { *enc })).ok,
                Ev::StreamEnd => u::yaml_stream_end_event_initialize(evp).ok,
                Ev::DocStart { version, tags, implicit } => {
                    // zeroed scratch values are filled field by field (the types are non-exhaustive)
                    let mut v = MaybeUninit::<u::yaml_version_directive_t>::zeroed();
                    let mut vp = std::ptr::null_mut();
                    if let Some((a, b)) = version {
                        vp = v.as_mut_ptr();
                        (*vp).major = *a;
                        (*vp).minor = *b;
                    }
                    let cs: Vec<(CString, CString)> = tags
                        .iter()
                        .map(|(h, p)| (CString::new(h.as_str()).unwrap(), CString::new(p.as_str()).unwrap()))
                        .collect();
                    let mut td: Vec<u::yaml_tag_directive_t> = vec![];
                    for (h, p) in &cs {
                        let mut t = MaybeUninit::<u::yaml_tag_directive_t>::zeroed();
                        (*t.as_mut_ptr()).handle = h.as_ptr() as *mut u8;
                        (*t.as_mut_ptr()).prefix = p.as_ptr() as *mut u8;
                        td.push(t.assume_init());
                    }
                    let st = if td.is_empty() { std::ptr::null_mut() } else { td.as_mut_ptr() };
                    let en = if td.is_empty() { std::ptr::null_mut() } else { st.add(td.len()) };
                    u::yaml_document_start_event_initialize(evp, vp, st, en, *implicit).ok
                }
                Ev::DocEnd(i) => u::yaml_document_end_event_initialize(evp, *i).ok,
                Ev::Alias(a) => {
                    let a = CString::new(a.as_str()).unwrap();
                    u::yaml_alias_event_initialize(evp, a.as_ptr().cast()).ok
                }
                Ev::Scalar { anchor, tag, value, plain, quoted, style } => {
                    let (a, t) = (c(anchor), c(tag));
                    u::yaml_scalar_event_initialize(
                        evp,
                        cp(&a),
                        cp(&t),
                        value.as_ptr(),
                        value.len() as i32,
                        *plain,
                        *quoted,
                        match style {
                            1 => u::YAML_PLAIN_SCALAR_STYLE,
                            2 => u::YAML_SINGLE_QUOTED_SCALAR_STYLE,
                            3 => u::YAML_DOUBLE_QUOTED_SCALAR_STYLE,
                            4 => u::YAML_LITERAL_SCALAR_STYLE,
                            5 => u::YAML_FOLDED_SCALAR_STYLE,
                            _ => u::YAML_ANY_SCALAR_STYLE,
                        },
                    )
                    .ok
                }
                Ev::SeqStart { anchor, tag, implicit, style } => {
                    let (a, t) = (c(anchor), c(tag));
                    u::yaml_sequence_start_event_initialize(
                        evp,
                        cp(&a),
                        cp(&t),
                        *implicit,
                        match style {
                            1 => u::YAML_BLOCK_SEQUENCE_STYLE,
                            2 => u::YAML_FLOW_SEQUENCE_STYLE,
                            _ => u::YAML_ANY_SEQUENCE_STYLE,
                        },
                    )
                    .ok
                }
                Ev::SeqEnd => u::yaml_sequence_end_event_initialize(evp).ok,
                Ev::MapStart { anchor, tag, implicit, style } => {
                    let (a, t) = (c(anchor), c(tag));
                    u::yaml_mapping_start_event_initialize(
                        evp,
                        cp(&a),
                        cp(&t),
                        *implicit,
                        match style {
                            1 => u::YAML_BLOCK_MAPPING_STYLE,
                            2 => u::YAML_FLOW_MAPPING_STYLE,
                            _ => u::YAML_ANY_MAPPING_STYLE,
                        },
                    )
                    .ok
                }
                Ev::MapEnd => u::yaml_mapping_end_event_initialize(evp).ok,
                Ev::Set(..) => true,
            };
            assert!(ok, "reference event construction");
            if u::yaml_emitter_emit(e, evp).fail {
                let p = (&*e).problem;
                res = Some((i, if p.is_null() { String::new() } else { s(p.cast()) }));
                break;
            }
        }
        // What is still buffered counts as produced.
        if !em.evs.is_empty() && !matches!(res, Some((0, _))) {
            let _ = u::yaml_emitter_flush(e);
        }
        u::yaml_emitter_delete(e);
        RefEmit { err: res, out }
    }
}
