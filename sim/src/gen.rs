//! Seeded generators: YAML text, event streams, documents, emitter settings, I/O plans.
use crate::model::*;
use crate::rng::Rng;

pub const BREAKS: [&str; 6] = ["\n", "\r", "\r\n", "\u{85}", "\u{2028}", "\u{2029}"];

const WORDS: [&str; 46] = [
    "a", "b", "foo", "bar baz", "key", "x", "1", "12.5", "-1", "true", "null", "~", "a:b", "a#b", "http://x.y/z", "a b  c",
    "é", "日本語", "\u{1F600}", "x\u{1F4A9}y", "-x", "?x", ":x", "a-b", "it's", "say \"hi\"", "a,b", "a]b", "{a", "a}", "50%",
    "=", "<<", "ñandú", "a\\b", "x:", "\u{feff}q", "\u{7eff}", "\u{ff01}", "\u{f000}w", "w\u{a0}z", "..", "--", "-", "z!", "a&b",
];

pub struct Tg<'a> {
    pub r: &'a mut Rng,
    pub out: String,
    brk: &'static str,
    mixed: bool,
    odd: usize,
    budget: i32,
    anchors: Vec<String>,
    handles: Vec<&'static str>,
}

impl<'a> Tg<'a> {
    pub fn new(r: &'a mut Rng) -> Tg<'a> {
        let brk = match r.below(20) {
            0 => "\r",
            1 | 2 => "\r\n",
            3 => BREAKS[3 + r.below(3)],
            _ => "\n",
        };
        let mixed = r.chance(1, 12);
        let odd = *r.pick(&[0, 0, 0, 2, 5, 15]);
        let budget = *r.pick(&[3, 6, 6, 12, 12, 25, 60]);
        Tg { r, out: String::new(), brk, mixed, odd, budget, anchors: vec![], handles: vec![] }
    }
    fn odd(&mut self) -> bool {
        self.odd > 0 && self.r.below(100) < self.odd
    }
    fn p(&mut self, s: &str) {
        self.out.push_str(s);
    }
    fn nl(&mut self) {
        let b = if self.mixed { BREAKS[self.r.below(6)] } else { self.brk };
        self.out.push_str(b);
    }
    fn sp(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push(' ');
        }
    }
    fn ind(&mut self, n: i32) {
        if self.odd() {
            match self.r.below(3) {
                0 => self.p("\t"),
                1 => self.sp(self_ind(n + 1)),
                _ => self.sp(self_ind(n - 1)),
            }
        } else {
            self.sp(self_ind(n));
        }
    }
    fn comment(&mut self) {
        let c = *self.r.pick(&["# c", "#", "# é: [", "#\t\"x", "# \u{1F600}"]);
        self.p(c);
    }
    fn eol(&mut self) {
        match self.r.below(14) {
            0 => {
                self.p(" ");
                self.comment();
            }
            1 => self.p(" "),
            2 if self.odd > 0 => self.p("\t"),
            _ => {}
        }
        self.nl();
        while self.r.chance(1, 14) {
            match self.r.below(3) {
                0 => {}
                1 => {
                    let n = self.r.below(5);
                    self.sp(n);
                }
                _ => {
                    let n = self.r.below(4);
                    self.sp(n);
                    self.comment();
                }
            }
            self.nl();
        }
    }
    pub fn stream(mut self) -> String {
        if self.r.chance(1, 30) {
            self.p("\u{feff}");
        }
        let n = self.r.weighted(&[1, 10, 5, 3, 2, 1]);
        let mut explicit_next = self.r.chance(1, 3);
        for _ in 0..n {
            while self.r.chance(1, 12) {
                self.comment();
                self.nl();
            }
            self.handles.clear();
            let mut dirs = false;
            if self.r.chance(1, 7) {
                dirs = true;
                if self.r.chance(2, 3) {
                    let d = if self.odd() && self.r.chance(1, 3) {
                        &version_text(self.r)
                    } else if self.odd() {
                        *self.r.pick(&["%YAML 1.3", "%YAML 2.0", "%YAML", "%YAML 1.", "%YAML 1.123456789012", "%FOO bar", "%", "%TAG", "%TAG !", "%YAML 1.1 x", "%TAG !! é", "%TAG !é! x", "%TAG !a!", "%TAG ! !b %20"])
                    } else {
                        *self.r.pick(&["%YAML 1.1", "%YAML 1.2", "%YAML 1.1 # c", "%YAML  1.2  "])
                    };
                    self.p(d);
                    self.nl();
                }
                let mut cand = vec!["!", "!!", "!e!", "!E!", "!ee!", "!long-handle!"];
                while self.r.chance(1, 2) && !cand.is_empty() {
                    let i = self.r.below(cand.len());
                    let h = if self.odd() { cand[i] } else { cand.remove(i) };
                    self.p("%TAG ");
                    self.p(h);
                    self.p(" ");
                    let pre = *self.r.pick(&["tag:example.com,2000:", "!", "!my-", "tag:yaml.org,2002:", "!x%21y", "tag:e.c,1:%C3%A9/", "x,y;z?:@&=+$.~*'()[]"]);
                    self.p(pre);
                    self.eol();
                    self.handles.push(h);
                }
            }
            self.anchors.clear();
            if explicit_next || dirs || self.r.chance(1, 4) {
                if !(self.odd() && self.r.chance(1, 2)) {
                    self.p("---");
                }
                if self.r.chance(1, 3) {
                    self.p(" ");
                    self.node(-1, true);
                } else {
                    self.eol();
                    self.node(-1, false);
                }
            } else {
                self.node(-1, false);
            }
            if !self.out.ends_with(['\n', '\r', '\u{85}', '\u{2028}', '\u{2029}']) && !self.r.chance(1, 40) {
                self.nl();
            }
            match self.r.below(10) {
                0..=2 => {
                    self.p("...");
                    if !self.r.chance(1, 6) {
                        self.eol();
                    } else if self.r.chance(1, 2) {
                        self.p(" ");
                        self.comment();
                        self.nl();
                    }
                    explicit_next = self.r.chance(1, 2);
                }
                _ => explicit_next = true,
            }
        }
        if self.r.chance(1, 3) {
            // end of input without a final line break
            while self.out.ends_with(['\n', '\r', ' ', '\u{85}', '\u{2028}']) {
                self.out.pop();
            }
        }
        self.out
    }
    fn props(&mut self) -> bool {
        let mut any = false;
        let a = self.r.chance(1, 6);
        let t = self.r.chance(1, 6);
        let order = self.r.chance(1, 2);
        for i in 0..2 {
            if (i == 0) == order {
                if a {
                    let n = self.r.below(4);
                    let name = if self.odd() {
                        (*self.r.pick(&["", "é", "a*", "a,b", "a:"])).to_string()
                    } else if !self.anchors.is_empty() && self.r.chance(1, 6) {
                        let near = self.anchors[self.r.below(self.anchors.len())].clone();
                        sibling(self.r, &near)
                    } else if self.r.chance(1, 60) {
                        format!("{}{n}", "long-".repeat(5 + self.r.below(60)))
                    } else {
                        format!("{}{}", ["a", "anchor", "x_y-z", "1"][self.r.below(4)], n)
                    };
                    self.p("&");
                    self.p(&name);
                    self.anchors.push(name);
                    self.p(" ");
                    any = true;
                }
            } else if t {
                self.tag();
                self.p(" ");
                any = true;
            }
        }
        if any && self.r.chance(1, 10) {
            self.out.pop();
        }
        any
    }
    fn tag(&mut self) {
        let t = if self.odd() {
            *self.r.pick(&["!<", "!<>", "!<tag:x", "!a!b!c", "!%", "!%C3", "!%FF", "!undef!x", "!!", "!<!>x", "!é", "!a%zz", "!%ED%A0%80", "!%F0%9F%98%80", "!x,", "!<tag:é>", "!<%00>"])
        } else {
            *self.r.pick(&["!", "!local", "!!str", "!!int", "!!map", "!!seq", "!<tag:yaml.org,2002:str>", "!<!foo>", "!x%20y", "!%C3%A9", "!%E6%97%A5", "!a/b#c", "!!x.y(z)'~*", "!<tag:e.com,2000:a,b[c]>"])
        };
        if !self.handles.is_empty() && self.r.chance(1, 2) {
            let h = self.handles[self.r.below(self.handles.len())];
            self.p(h);
            self.p("foo");
        } else if self.r.chance(1, 4) {
            let odd = self.odd();
            let e = escapes(self.r, odd);
            let pre = *self.r.pick(&["!", "!!", "!a", "!x/", "!a!"]);
            if self.r.chance(1, 3) {
                self.p("!<tag:x");
                self.p(&e);
                self.p(">");
            } else {
                self.p(pre);
                self.p(&e);
                if self.r.chance(1, 3) {
                    self.p("b");
                }
            }
        } else {
            self.p(t);
        }
    }
    /// A block node whose parent has indentation n; `inline`: something already stands on this line.
    fn node(&mut self, n: i32, inline: bool) {
        self.budget -= 1;
        let leaf = self.budget <= 0 || n > 12;
        let w: &[u32] = if leaf { &[10, 0, 0, 3, 0, 1, 1, 0] } else { &[8, 6, 7, 4, 3, 1, 2, 1] };
        let kind = self.r.weighted(w);
        match kind {
            0 => {
                // scalar
                if !inline {
                    self.ind(n + 1);
                }
                self.props();
                self.scalar(n, false);
                self.eol();
            }
            1 => {
                // block sequence
                if inline {
                    if self.props() || n < 0 || self.r.chance(1, 2) {
                        self.eol();
                    } else if !self.r.chance(1, 2) {
                        self.eol();
                    } else {
                        // compact: "- - a" (only valid after '-', '?' or ':' in some contexts)
                        self.seq_items(n + 2, true);
                        return;
                    }
                }
                let extra = if n < 0 { self.r.small(2) as i32 } else { *self.r.pick(&[1, 2, 2, 2, 4]) };
                let m = if n < 0 { extra } else { n + extra };
                self.seq_items(m, false);
            }
            2 => {
                if inline && (self.r.chance(3, 4) || n < 0) {
                    self.props();
                    self.eol();
                    let m = if n < 0 { self.r.small(2) as i32 } else { n + *self.r.pick(&[1, 2, 2, 3]) };
                    self.map_items(m, false);
                } else if inline {
                    self.map_items(n + 2, true);
                } else {
                    let m = if n < 0 { self.r.small(2) as i32 } else { n + *self.r.pick(&[1, 2, 2, 3]) };
                    self.map_items(m, false);
                }
            }
            3 => {
                if !inline {
                    self.ind(n + 1);
                }
                self.props();
                self.flow(n + 1, 0);
                self.eol();
            }
            4 => {
                if !inline {
                    self.ind(n + 1);
                }
                self.props();
                self.block_scalar(n);
            }
            5 => {
                // empty node
                if self.r.chance(1, 3) {
                    if !inline {
                        self.ind(n + 1);
                    }
                    self.props();
                }
                self.eol();
            }
            6 => {
                if !inline {
                    self.ind(n + 1);
                }
                self.alias();
                self.eol();
            }
            _ => {
                // indentless sequence position handled by map_items; here a nested block with props
                if inline {
                    self.eol();
                }
                self.ind(n + 1);
                self.props();
                self.eol();
                let m = n + 2;
                if self.r.chance(1, 2) {
                    self.seq_items(m, false);
                } else {
                    self.map_items(m, false);
                }
            }
        }
    }
    fn alias(&mut self) {
        self.p("*");
        if !self.anchors.is_empty() && !self.odd() {
            let mut a = self.anchors[self.r.below(self.anchors.len())].clone();
            if self.r.chance(1, 30) {
                a = sibling(self.r, &a);
            }
            self.p(&a);
        } else {
            let a = *self.r.pick(&["undef", "a1", "", "x y"]);
            self.p(a);
        }
    }
    fn seq_items(&mut self, m: i32, mut first_inline: bool) {
        let k = 1 + self.r.small(4);
        for _ in 0..k {
            if !first_inline {
                self.ind(m);
            }
            first_inline = false;
            self.p("-");
            if self.r.chance(1, 14) {
                self.eol();
                if self.r.chance(1, 2) {
                    continue;
                }
                self.node(m, false);
                continue;
            }
            let s = *self.r.pick(&[1, 1, 1, 1, 3]);
            self.sp(s);
            self.node(m, true);
        }
    }
    fn map_items(&mut self, m: i32, mut first_inline: bool) {
        let k = 1 + self.r.small(4);
        for _ in 0..k {
            if !first_inline {
                self.ind(m);
            }
            first_inline = false;
            if self.r.chance(1, 10) {
                // complex key
                self.p("?");
                if self.r.chance(1, 8) {
                    self.eol();
                } else {
                    self.p(" ");
                    self.node(m, true);
                }
                if self.r.chance(3, 4) {
                    self.ind(m);
                    self.p(":");
                    if self.r.chance(1, 8) {
                        self.eol();
                    } else {
                        self.p(" ");
                        self.node(m, true);
                    }
                }
                continue;
            }
            self.key(m);
            self.p(":");
            match self.r.below(12) {
                0 => self.eol(),
                1 => {
                    // indentless sequence
                    self.eol();
                    self.seq_items(m, false);
                }
                2 => {
                    self.eol();
                    self.node(m, false);
                }
                _ => {
                    let c = if self.r.chance(1, 20) { "  " } else { " " };
                    self.p(c);
                    self.node(m, true);
                }
            }
        }
    }
    fn key(&mut self, m: i32) {
        if self.r.chance(1, 8) {
            self.props();
        }
        match self.r.below(12) {
            0 => {
                self.p("\"");
                self.dq_body(m, true);
                self.p("\"");
            }
            1 => {
                self.p("'");
                self.sq_body(m, true);
                self.p("'");
            }
            2 => self.flow_one_line(),
            3 => {
                self.alias();
                self.p(" ");
            }
            4 => {} // empty key
            5 if self.odd > 0 => {
                // near the 1024 character limit for simple keys
                let n = 1015 + self.r.below(16);
                for _ in 0..n {
                    self.out.push('k');
                }
            }
            _ => {
                let w = *self.r.pick(&WORDS);
                self.p(w);
            }
        }
    }
    fn flow_one_line(&mut self) {
        let b = self.odd;
        self.odd = 0;
        let w = *self.r.pick(&["[]", "{}", "[a, b]", "{a: b}", "[a: b, c]", "[[x], y]", "{? a : b}"]);
        self.p(w);
        self.odd = b;
    }
    fn scalar(&mut self, n: i32, flow: bool) {
        match self.r.below(7) {
            0 | 1 => {
                self.p("\"");
                self.dq_body(n, false);
                if !(self.odd() && self.r.chance(1, 3)) {
                    self.p("\"");
                }
            }
            2 => {
                self.p("'");
                self.sq_body(n, false);
                if !(self.odd() && self.r.chance(1, 3)) {
                    self.p("'");
                }
            }
            _ => self.plain(n, flow),
        }
    }
    fn plain(&mut self, n: i32, flow: bool) {
        let k = 1 + self.r.small(3);
        for i in 0..k {
            if i > 0 {
                if self.r.chance(1, 4) {
                    // fold onto the next line
                    if self.r.chance(1, 8) {
                        self.p(" ");
                    }
                    self.nl();
                    while self.r.chance(1, 4) {
                        if self.r.chance(1, 4) {
                            self.p("  ");
                        }
                        self.nl();
                    }
                    let x = if self.r.chance(1, 4) { 2 } else { 0 };
                    if n < 0 && self.r.chance(1, 4) {
                        self.near_indicator();
                    }
                    self.ind(n + 1 + x);
                } else {
                    let s = 1 + self.r.small(2);
                    self.sp(s);
                }
            }
            let mut w = *self.r.pick(&WORDS);
            if flow && self.odd == 0 {
                while w.contains([',', '[', ']', '{', '}']) {
                    w = *self.r.pick(&WORDS);
                }
            }
            self.p(w);
        }
    }
    /// At the start of a line: what is, or is almost, a document marker.
    fn near_indicator(&mut self) {
        let mut s: Vec<char> = (*self.r.pick(&["---", "..."])).chars().collect();
        let real = self.odd() && self.r.chance(1, 3);
        match self.r.below(4) {
            _ if real => {}
            0 => {
                s.pop();
            }
            1 => s.push(*self.r.pick(&['-', '.', 'x', 'é'])),
            _ => {
                let i = self.r.below(3);
                s[i] = *self.r.pick(&['-', '.', 'x', '_']);
                if s[0] == s[1] && s[1] == s[2] {
                    s[i] = 'x';
                }
            }
        }
        let s: String = s.into_iter().collect();
        self.p(&s);
        let b = *self.r.pick(&[" ", " ", "\t", "x"]);
        if !(s == "--" || s == "..") || b != "x" {
            self.p(b);
        }
    }
    fn dq_body(&mut self, n: i32, one_line: bool) {
        let k = self.r.small(6);
        for _ in 0..k {
            match self.r.below(9) {
                0..=2 => {
                    let w = *self.r.pick(&WORDS);
                    let w = w.replace(['"', '\\'], "");
                    self.p(&w);
                }
                3 => {
                    let e = *self.r.pick(&[
                        "\\n", "\\t", "\\\"", "\\\\", "\\0", "\\a", "\\b", "\\e", "\\v", "\\f", "\\r", "\\ ", "\\/", "\\N", "\\_", "\\L", "\\P", "\\x41", "\\xe9",
                        "\\u263A", "\\u0000", "\\U0001F600", "\\uFEFF", "\\'", "\\\t",
                    ]);
                    self.p(e);
                }
                4 => {
                    if self.odd() {
                        let e = *self.r.pick(&["\\", "\\x", "\\x4", "\\xg1", "\\u12", "\\uD800", "\\U00110000", "\\UFFFFFFFF", "\\q", "\\é", "\t", "\\u123é"]);
                        self.p(e);
                    } else {
                        self.p(" ");
                    }
                }
                5 => self.p(" "),
                6 => self.p("  "),
                7 if !one_line => {
                    if self.r.chance(1, 3) {
                        self.p(" ");
                    }
                    if self.r.chance(1, 3) {
                        self.p("\\");
                    }
                    self.nl();
                    while self.r.chance(1, 4) {
                        self.nl();
                    }
                    if self.r.chance(1, 8) {
                        self.near_indicator();
                    } else {
                        self.ind(n + 1);
                    }
                }
                _ => {
                    let w = *self.r.pick(&["x", "'", "#", ": ", "- ", "%", "é"]);
                    self.p(w);
                }
            }
        }
    }
    fn sq_body(&mut self, n: i32, one_line: bool) {
        let k = self.r.small(5);
        for _ in 0..k {
            match self.r.below(7) {
                0..=2 => {
                    let w = *self.r.pick(&WORDS);
                    let w = w.replace('\'', "''");
                    self.p(&w);
                }
                3 => self.p("''"),
                4 => {
                    let s = 1 + self.r.small(2);
                    self.sp(s);
                }
                5 if !one_line => {
                    if self.r.chance(1, 3) {
                        self.p(" ");
                    }
                    self.nl();
                    while self.r.chance(1, 4) {
                        self.nl();
                    }
                    if self.r.chance(1, 8) {
                        self.near_indicator();
                    } else {
                        self.ind(n + 1);
                    }
                }
                _ => {
                    let w = *self.r.pick(&["\\", "\"", "#", ": ", "- ", "\t"]);
                    self.p(w);
                }
            }
        }
    }
    fn block_scalar(&mut self, n: i32) {
        let c = if self.r.chance(1, 2) { "|" } else { ">" };
        self.p(c);
        let mut indent = *self.r.pick(&[1, 2, 2, 2, 4]);
        let header = self.r.below(8);
        let explicit = self.r.chance(1, 5);
        if header == 0 && explicit {
            self.p(&indent.to_string());
            let c = *self.r.pick(&["-", "+"]);
            self.p(c);
        } else {
            if header < 3 {
                let c = *self.r.pick(&["-", "+"]);
                self.p(c);
            }
            if explicit {
                if self.odd() {
                    let c = *self.r.pick(&["0", "9", "10", "a", "++", "-+"]);
                    self.p(c);
                } else {
                    self.p(&indent.to_string());
                }
            }
        }
        match self.r.below(10) {
            0 => self.p(" # c"),
            1 => self.p("  "),
            2 if self.odd > 0 => self.p(" x"),
            3 if self.odd > 0 => self.p("#x"),
            _ => {}
        }
        self.nl();
        if n < 0 {
            indent -= if explicit { 0 } else { self.r.below(2) as i32 * indent };
        }
        let m = n.max(0) + indent;
        let lines = self.r.small(5);
        for i in 0..lines {
            match self.r.below(10) {
                0 => {
                    if self.r.chance(1, 3) {
                        let s = self.r.below(m as usize + 2);
                        self.sp(s);
                    }
                }
                1 if explicit || i > 0 => {
                    let x = self.r_small(2);
                    self.ind(m + 1 + x);
                    let w = *self.r.pick(&WORDS);
                    self.p(w);
                }
                2 if i > 0 => {
                    self.ind(m);
                    self.p("\t");
                    let w = *self.r.pick(&WORDS);
                    self.p(w);
                }
                3 if i > 0 => {
                    self.ind(m);
                    self.p("# not a comment");
                }
                2 if m == 0 => self.near_indicator(),
                _ => {
                    self.ind(m);
                    let w = *self.r.pick(&WORDS);
                    self.p(w);
                    if self.r.chance(1, 8) {
                        self.p(" ");
                    }
                }
            }
            self.nl();
        }
        while self.r.chance(1, 5) {
            self.nl();
        }
        if self.r.chance(1, 12) {
            self.p("# trailing comment");
            self.nl();
        }
    }
    fn r_small(&mut self, n: usize) -> i32 {
        self.r.small(n) as i32
    }
    fn flow(&mut self, n: i32, depth: usize) {
        self.budget -= 1;
        let map = self.r.chance(1, 2);
        self.p(if map { "{" } else { "[" });
        let k = if self.budget <= 0 || depth > 5 { self.r.small(2) } else { self.r.small(4) };
        for i in 0..k {
            self.fsep(n);
            if self.r.chance(1, 12) {
                self.p("? ");
            }
            let pair = map || self.r.chance(1, 6);
            if !(map && self.r.chance(1, 16)) {
                self.fnode(n, depth);
            }
            if pair && self.r.chance(7, 8) {
                if self.r.chance(1, 6) {
                    self.p(" ");
                }
                self.p(":");
                if !(self.out.ends_with("\":") && self.r.chance(1, 3)) {
                    self.p(" ");
                }
                if self.r.chance(7, 8) {
                    self.fnode(n, depth);
                }
            }
            self.fsep(n);
            if i + 1 < k || self.r.chance(1, 6) {
                self.p(",");
                if self.r.chance(5, 6) {
                    self.p(" ");
                }
            }
        }
        if self.odd() {
            let x = *self.r.pick(&["", ",", "]", "}", ",,", ":", "?"]);
            self.p(x);
        } else {
            self.p(if map { "}" } else { "]" });
        }
    }
    fn fsep(&mut self, n: i32) {
        if self.r.chance(1, 8) {
            match self.r.below(4) {
                0 => {
                    self.p(" ");
                    self.comment();
                    self.nl();
                    self.ind(n);
                }
                1 => self.p(" "),
                2 => self.p("\t"),
                _ => {
                    self.nl();
                    self.ind(n);
                }
            }
        }
    }
    fn fnode(&mut self, n: i32, depth: usize) {
        match self.r.below(12) {
            0 | 1 if self.budget > 0 && depth < 6 => self.flow(n, depth + 1),
            2 => self.alias(),
            3 => {
                self.props();
            }
            4 => {
                self.props();
                self.scalar(n, true);
            }
            _ => self.scalar(n, true),
        }
    }
}
fn self_ind(n: i32) -> usize {
    n.max(0) as usize
}

/// Fragments for token soup.
pub const FRAGS: &[&str] = &[
    "-", "- ", "? ", ":", ": ", ",", ", ", "[", "]", "{", "}", "\n", "\n", "\n", "\r\n", "\r", " ", "  ", "   ", "\t", "#", " #c\n", "&a", "&a ", "*a", "*a ", "!", "!t ", "!!x ", "!<u> ", "!e!f ", "|", ">", "|-", ">+", "|2", "|\n",
    ">\n", "|\n ", "'", "''", "\"", "\"\"", "\\", "\\n", "\\x41", "\\u00e9", "%YAML 1.1\n", "%YAML 1.2\n", "%TAG ! x:\n", "%TAG !e! x:\n", "%", "---", "--- ", "---\n", "...", "...\n", "a", "b", "a b", "key: ", "k:\n", "- a\n", "x\n  y", "\u{feff}", "\u{85}",
    "\u{2028}", "é", "日本", "\u{1F600}", "@", "`", "a: b\n", "a: b", "? a\n: b\n", "[a, b]", "{a: b}", "\"a\nb\"", "'a\n\n b'", "  - x\n", "- - ", "-\n", "~", "=", "<<: ", "a:", ":a", "-a", "0", "1.5", "%41", "!%41 ", "!a,", "...a", "---a", "a#", "a #",
    "\n\n", "\n  ", "\n - ", "\n  a: ", "\"\\\n", "\\\n", "\u{7f}", "\u{0}", "\u{ff01}",
];

pub fn soup(r: &mut Rng) -> String {
    let n = 1 + r.small(40);
    let mut s = String::new();
    // a per-run subset of the fragments (swarm)
    let k = 3 + r.below(20);
    let sub: Vec<&str> = (0..k).map(|_| *r.pick(FRAGS)).collect();
    for _ in 0..n {
        let f = *r.pick(&sub);
        s.push_str(f);
    }
    s
}

pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let n = 1 + r.small(4);
    for _ in 0..n {
        let len = c.len();
        match r.below(9) {
            0 if len > 0 => {
                let i = r.below(len);
                c.remove(i);
            }
            1 => {
                let i = r.below(len + 1);
                let f: Vec<char> = r.pick(FRAGS).chars().collect();
                for (k, ch) in f.into_iter().enumerate() {
                    c.insert(i + k, ch);
                }
            }
            2 if len > 0 => {
                let i = r.below(len);
                let f: Vec<char> = r.pick(FRAGS).chars().collect();
                c[i] = f[0];
            }
            3 if len > 1 => {
                let i = r.below(len);
                c.truncate(i);
            }
            4 if len > 2 => {
                let i = r.below(len);
                let j = i + r.below((len - i).min(20));
                c.drain(i..j);
            }
            5 if len > 2 => {
                let i = r.below(len);
                let j = i + r.below((len - i).min(20));
                let d: Vec<char> = c[i..j].to_vec();
                let at = r.below(len);
                for (k, ch) in d.into_iter().enumerate() {
                    c.insert(at + k, ch);
                }
            }
            6 if len > 1 => {
                let (i, j) = (r.below(len), r.below(len));
                c.swap(i, j);
            }
            7 => {
                let i = r.below(len + 1);
                let x = *r.pick(&[
                    '\u{0}', '\u{7}', '\u{1b}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{9f}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{10000}',
                    '\u{10ffff}', '\u{2028}', '\t',
                ]);
                c.insert(i, x);
            }
            _ => {
                let i = r.below(len + 1);
                c.insert(i, *r.pick(&[' ', '\n', '\'', '"', ':', '-', '?', '#', ',', '[', ']', '{', '}', '&', '*', '!', '|', '>', '%', '\\']));
            }
        }
    }
    c.into_iter().collect()
}

/// Long inputs that cross the internal buffer sizes and limits.
pub fn big(r: &mut Rng) -> String {
    if r.chance(1, 3) {
        return huge(r);
    }
    let mut s = String::new();
    let n = *r.pick(&[1000, 1020, 1024, 1030, 4090, 8190, 16370, 16384, 16390, 20000, 33000]) + r.below(12);
    let unit = *r.pick(&["x", "ab ", "é", "日", "\u{1F600}", "word word ", "a\\n"]);
    let rep = |n: usize| unit.repeat(n / unit.len() + 1);
    match r.below(14) {
        0 => {
            s.push_str("- ");
            s.push_str(&rep(n));
            s.push('\n');
        }
        1 => {
            s.push_str("k: \"");
            s.push_str(&rep(n));
            s.push_str("\"\n");
        }
        2 => {
            s.push_str("k: |\n");
            while s.len() < n {
                s.push_str("  ");
                s.push_str(&unit.repeat(1 + r.below(20)));
                s.push('\n');
            }
        }
        3 => {
            // simple key near the limit
            let k = 1000 + r.below(50);
            s.push_str(&"k".repeat(k));
            s.push_str(": v\nb: c\n");
        }
        4 => {
            let d = 50 + r.below(400);
            s.push_str(&"[".repeat(d));
            s.push('a');
            s.push_str(&"]".repeat(d - r.small(2)));
        }
        5 => {
            let d = 20 + r.below(150);
            for i in 0..d {
                s.push_str(&" ".repeat(i));
                s.push_str("a:\n");
            }
        }
        6 => {
            for i in 0..(n / 20).min(900) {
                s.push_str(&format!("--- {{a: {i}}}\n"));
                if i % 7 == 0 {
                    s.push_str("...\n");
                }
            }
        }
        7 => {
            for i in 0..(n / 10).min(1500) {
                s.push_str(&format!("- k{i}: v\n"));
            }
        }
        8 => {
            s.push_str("- #");
            s.push_str(&rep(n));
            s.push_str("\n  v\n");
        }
        9 => {
            s.push_str("? ");
            s.push_str(&rep(n.min(3000)));
            s.push_str("\n: v\n");
        }
        10 => {
            s.push('{');
            for i in 0..(n / 12).min(1200) {
                s.push_str(&format!("k{i}: [v], "));
            }
            s.push('}');
        }
        11 => {
            s.push_str("'");
            s.push_str(&rep(n));
            s.push_str("\n\n ''end'\n");
        }
        12 => {
            let d = 10 + r.below(80);
            s.push_str(&"- ".repeat(d));
            s.push_str("x\n");
            s.push_str(&"? ".repeat(d));
            s.push_str("y\n");
        }
        _ => {
            // flow keys that span lines / exceed the simple key limit
            s.push_str("[ \"");
            s.push_str(&"q".repeat(1000 + r.below(40)));
            s.push_str("\" : b, [");
            s.push_str(&"w, ".repeat(330 + r.below(20)));
            s.push_str("] : c ]\n");
        }
    }
    if r.chance(1, 5) {
        s = mutate(r, &s);
    }
    s
}

/// A name that is easily taken for `name`.
fn sibling(r: &mut Rng, name: &str) -> String {
    let mut c: Vec<char> = name.chars().collect();
    match r.below(5) {
        0 => {
            for x in &mut c {
                *x = if x.is_ascii_uppercase() { x.to_ascii_lowercase() } else { x.to_ascii_uppercase() };
            }
        }
        1 => c.push('-'),
        2 => c.insert(0, 'x'),
        3 if c.len() > 1 => {
            c.pop();
        }
        _ => {
            // one letter in another case
            let k = r.below(c.len().max(1));
            if let Some(x) = c.get_mut(k) {
                *x = if x.is_ascii_uppercase() { x.to_ascii_lowercase() } else if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { '_' };
            }
        }
    }
    c.into_iter().collect()
}
/// A %YAML directive whose numbers are near, or congruent to, acceptable ones.
fn version_text(r: &mut Rng) -> String {
    let mut n = |ok: &[u64]| {
        let x = if r.chance(1, 2) { *r.pick(ok) } else { *r.pick(&[0u64, 1, 2, 3, 9, 10, 11, 12, 17, 18, 21, 99, 101, 999_999_999]) };
        let x = x + if r.chance(1, 3) { 1u64 << *r.pick(&[3, 4, 5, 7, 8, 10, 16, 20, 24, 29, 31, 32]) } else { 0 };
        let zeros = if r.chance(1, 4) { r.below(12) } else { 0 };
        format!("{}{x}", "0".repeat(zeros))
    };
    let (a, b) = (n(&[1]), n(&[1, 2]));
    format!("%YAML {a}.{b}")
}
/// Counts and sizes beyond what fits in 8, 12 or 16 bits: lines, columns, tokens, directives, anchors,
/// indentation.
pub fn huge(r: &mut Rng) -> String {
    let mut s = String::new();
    let many = |r: &mut Rng| *r.pick(&[250, 300, 1000, 4090, 4100, 5000, 20_000, 32_760, 65_530, 65_530, 66_000]) + r.below(20);
    match r.below(9) {
        0 => {
            // lines
            let n = many(r);
            let brk = *r.pick(&["\n", "\r\n", "\r", "#\n", "\n#\n", "\u{85}", "\u{2028}", "#\r\n", " \r\n", "#\r", "- \r\n", "- '\r\n'\n"]);
            // after a plain scalar the breaks belong to it, elsewhere they do not
            let before = *r.pick(&["a: b\n", "a: b\n", "a: 'b'\n", "a: \"b\"\r\n", "# c\n", "a:\r\n", "%TAG !e! e:\n"]);
            s.push_str(before);
            match r.below(4) {
                0 => s.push_str("k: \"x"),
                1 => s.push_str("k: 'x"),
                2 => s.push_str("k: |+\n  x"),
                _ => (),
            }
            let open = s.len() > before.len();
            s.push_str(&if open { brk.trim_start_matches(['#', '-', ' ', '\'']).to_string() } else { brk.to_string() }.repeat(n));
            if open {
                s.push_str(" y\"'\n");
            }
            s.push_str(*r.pick(&["c: d\n- e\n", "--- c: d\n", "&a c: d\n", "- e\n"]));
        }
        1 => {
            // columns
            let n = many(r);
            s.push_str(*r.pick(&["", "- ", "{", "? ", "- - &a "]));
            s.push_str(&match r.below(4) {
                0 => format!("\"{}\"", "x ".repeat(n / 2)),
                1 => " ".repeat(n),
                2 => "x".repeat(n),
                _ => "x, ".repeat(n / 3),
            });
            s.push_str(*r.pick(&[" , b: c}\n", ": v\n", " - x\n", "]\n", "\n"]));
            s.push_str("b: c\n");
        }
        2 => {
            // tokens, and simple keys and block structure after them
            let n = many(r) / if r.chance(1, 3) { 1 } else { 3 };
            let items = ["- a\n", "- a: b\n", "- [a, b]\n", "- {a: b}\n", "- &x y\n", "- !t x\n", "-\n", "- ? a\n", "- k: [a: b, c]\n", "- {? a, b: c}\n"];
            // so that a count is not always reached at the same place of an item
            for _ in 0..r.below(8) {
                s.push_str(*r.pick(&items));
            }
            let item = *r.pick(&items);
            s.push_str(&item.repeat(n));
            s.push_str(*r.pick(&["- k: v\n  l: w\n", "- [a: b, c]\n", "- ? a\n  : b\n", "--- a\n"]));
        }
        3 => {
            // indentation of a block scalar, set by its first line or by blank lines before it
            let n = 20 + r.below(300);
            let nest = r.below(3);
            for i in 0..nest {
                s.push_str(&" ".repeat(i));
                s.push_str("k:\n");
            }
            s.push_str(&" ".repeat(nest));
            s.push_str(*r.pick(&["- |\n", "- >-\n", "- |+\n", "- >\n"]));
            for _ in 0..r.below(3) {
                let w = r.below(n + 3);
                s.push_str(&" ".repeat(w));
                s.push('\n');
            }
            for _ in 0..1 + r.below(4) {
                let w = n - r.below(2) * r.below(3) + r.below(2);
                s.push_str(&" ".repeat(w));
                s.push_str("text\n");
            }
        }
        4 => {
            // directives
            let n = 5 + r.below(*r.clone().pick(&[10, 40, 300]));
            for i in 0..n {
                let i = if r.chance(1, 3 * n) { r.below(n) } else { i };
                s.push_str(&format!("%TAG !h{i}! tag:e.com,{i}:\n"));
            }
            s.push_str("---\n");
            for _ in 0..4 {
                let i = *r.clone().pick(&[0, 1, n / 2, n - 1, r.below(n), r.below(n)]);
                s.push_str(&format!("- !h{i}!x y\n"));
            }
            s.push_str(*r.pick(&["...\n--- !h0!a b\n", "- !!str z\n", "--- c\n"]));
        }
        5 => {
            // anchors
            let n = 20 + r.below(*r.clone().pick(&[20, 100, 400]));
            for i in 0..n {
                let i = if r.chance(1, 2 * n) { r.below(n) } else { i };
                s.push_str(&format!("- &a{i} v{i}\n"));
            }
            for _ in 0..r.below(6) {
                s.push_str(&format!("- *a{}\n", r.below(n + 1)));
            }
        }
        6 => {
            // a long scalar with structure late in it
            let n = many(r);
            let (open, pre, close) = *r.pick(&[("k: |\n", "  ", ""), ("k: >\n", "  ", ""), ("k: \"", " ", "\"\n"), ("k: '", " ", "'\n"), ("k: ", " ", "\n")]);
            s.push_str(open);
            while s.len() < n {
                s.push_str(pre);
                s.push_str(&"word ".repeat(1 + r.below(30)));
                s.push_str(*r.pick(&["\n", "x\n", "\n\n", "\n\n\n", "\r\n", "\n    \n"]));
            }
            for _ in 0..r.below(5) {
                s.push_str(pre);
                s.push_str(*r.pick(&["a\n", "\n", "  b\n", "c\n\n", "d \n"]));
            }
            s.push_str(close);
            s.push_str("l: m\n");
        }
        7 => {
            // nesting of flow collections around small powers of two, closed or not
            let d = if r.chance(1, 6) { *r.pick(&[2047, 4095, 4999, 9999, 12_000]) } else { *r.pick(&[127, 128, 255, 256, 257, 511, 512, 1023]) } + r.below(3);
            let (o, c) = *r.pick(&[("[", "]"), ("{a: ", "}"), ("[{a: ", "}]"), ("- ", ""), ("? ", ""), ("? - ", "")]);
            s.push_str(&o.repeat(d));
            s.push_str(*r.pick(&["x", "x, y", "x: y", ""]));
            s.push_str(&c.repeat(d - r.small(1)));
            s.push_str(*r.pick(&["\n- a\n", ": z\n", "\n"]));
        }
        _ => {
            // names and numbers
            let n = many(r).min(20_000);
            let x = "n".repeat(n);
            match r.below(6) {
                0 => s.push_str(&format!("- &{x} v\n- *{x}\n- *{x}n\n")),
                1 => s.push_str(&format!("!{x} v\n")),
                2 => s.push_str(&format!("%TAG !{x}! tag:{x}\n--- !{x}!{x} v\n")),
                3 => s.push_str(&format!("%{x} {x}\n--- v\n")),
                4 => s.push_str(&format!("{}\n--- v\n", version_text(r))),
                _ => s.push_str(&format!("!<{x}> v\n")),
            }
        }
    }
    if r.chance(1, 8) {
        s = mutate(r, &s);
    }
    s
}

pub fn encode(s: &str, enc: u8) -> Vec<u8> {
    match enc {
        2 => s.encode_utf16().flat_map(u16::to_le_bytes).collect(),
        3 => s.encode_utf16().flat_map(u16::to_be_bytes).collect(),
        _ => s.as_bytes().to_vec(),
    }
}

/// YAML text of one of the families.
pub fn text(r: &mut Rng) -> String {
    match r.below(40) {
        0..=19 => Tg::new(r).stream(),
        20..=27 => {
            let t = Tg::new(r).stream();
            mutate(r, &t)
        }
        28..=31 => soup(r),
        32 | 33 => {
            let c = *r.pick(CORPUS);
            c.to_string()
        }
        34 | 35 => {
            let c = *r.pick(CORPUS);
            mutate(r, c)
        }
        36 => {
            let (a, b) = (*r.pick(CORPUS), *r.pick(CORPUS));
            let mut s = a.to_string();
            if r.chance(1, 2) {
                s.push_str("\n---\n");
            }
            s.push_str(b);
            s
        }
        37 => {
            let a = Tg::new(r).stream();
            let b = Tg::new(r).stream();
            format!("{a}{b}")
        }
        38 if r.chance(1, 2) => big(r),
        _ => Tg::new(r).stream(),
    }
}

/// Text that is mostly well-formed (used where error paths would only dilute the run).
pub fn good_text(r: &mut Rng) -> String {
    loop {
        let t = if r.chance(1, 5) {
            (*r.pick(CORPUS)).to_string()
        } else if r.chance(1, 60) {
            big(r)
        } else {
            let mut g = Tg::new(r);
            g.odd = 0;
            g.stream()
        };
        if t.len() > 2 && !very_deep(t.as_bytes()) {
            return t;
        }
    }
}

/// Perhaps nested thousands of levels deep: such a thing takes hundreds of megabytes when it is written with
/// indentation.
pub fn very_deep(b: &[u8]) -> bool {
    let many = |b: &[u8], cs: &[u8], n: usize| b.iter().filter(|c| cs.contains(c)).count() > n;
    b.len() > 2200 && (many(b, b"[", 2200) || many(b, b"{", 2200) || b.split(|c| *c == b'\n').any(|l| many(l, b"-?", 1100)))
}

/// An input source: bytes in some encoding (plan left empty).
pub fn input(r: &mut Rng) -> Rd {
    let t = text(r);
    encode_input(r, &t)
}
pub fn encode_input(r: &mut Rng, t: &str) -> Rd {
    let mut enc = 0;
    let bytes = match r.below(24) {
        0..=12 => t.as_bytes().to_vec(),
        13 | 14 => {
            let mut b = b"\xef\xbb\xbf".to_vec();
            b.extend_from_slice(t.as_bytes());
            b
        }
        15 => {
            enc = 1;
            t.as_bytes().to_vec()
        }
        16 | 17 | 18 => {
            let mut b = b"\xff\xfe".to_vec();
            b.extend(encode(t, 2));
            b
        }
        19 | 20 | 21 => {
            let mut b = b"\xfe\xff".to_vec();
            b.extend(encode(t, 3));
            b
        }
        22 => {
            enc = 2;
            encode(t, 2)
        }
        _ => {
            enc = 3;
            encode(t, 3)
        }
    };
    Rd { bytes, enc, plan: RPlan::default() }
}

/// Corrupt stored bytes: flips, truncation, torn tails, duplicated or zeroed blocks.
pub fn corrupt(r: &mut Rng, b: &mut Vec<u8>) {
    let n = 1 + r.small(3);
    for _ in 0..n {
        if b.is_empty() {
            b.extend_from_slice(&[r.below(256) as u8]);
            continue;
        }
        let i = r.below(b.len());
        match r.below(8) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = r.below(256) as u8,
            2 => b.truncate(i),
            3 => {
                let j = (i + 1 + r.below(8)).min(b.len());
                b.drain(i..j);
            }
            4 => {
                let j = (i + 1 + r.below(16)).min(b.len());
                for x in &mut b[i..j] {
                    *x = 0;
                }
            }
            5 => {
                let j = (i + 1 + r.below(32)).min(b.len());
                let d = b[i..j].to_vec();
                let at = r.below(b.len());
                b.splice(at..at, d);
            }
            6 => b.insert(i, *r.pick(&[0x80, 0xbf, 0xc0, 0xc3, 0xe2, 0xed, 0xf0, 0xf4, 0xf8, 0xfe, 0xff, 0xef, 0x00, 0xd8, 0xdc])),
            _ => {
                let seq: &[u8] = r.pick(&[
                    &b"\xe2\x82"[..],
                    b"\xf0\x9f\x98",
                    b"\xc3",
                    b"\xed\xa0\x80",
                    b"\xc0\x80",
                    b"\xf4\x90\x80\x80",
                    b"\xef\xbb\xbf",
                    b"\xff\xfe",
                    b"\xe2\x28\xa1",
                    b"\xf0\x28",
                    b"\xd8\x00",
                    b"\x00\xd8",
                    b"\x00\xdc",
                ]);
                b.splice(i..i, seq.iter().copied());
            }
        }
    }
}

/// A delivery plan for a source of `len` bytes.
pub fn rplan(r: &mut Rng, bytes: &[u8]) -> RPlan {
    let len = bytes.len();
    let mut p = RPlan::default();
    match r.below(12) {
        0 => {}
        1 | 2 => p.rest = 1,
        3 | 4 => p.rest = 2 + r.below(6) as u32,
        5 | 6 => {
            let n = 1 + r.small(12);
            p.chunks = (0..n).map(|_| 1 + r.small(9) as u32).collect();
            p.rest = *r.pick(&[0, 1, 3, 16, 100]);
        }
        7 | 8 => {
            // cut exactly inside multi-byte characters
            let cuts: Vec<usize> = (1..len).filter(|&i| bytes[i] & 0xc0 == 0x80).collect();
            let mut at = 0;
            let mut k = 0;
            for c in cuts {
                if c > at && r.chance(2, 3) {
                    p.chunks.push((c - at) as u32);
                    at = c;
                    k += 1;
                    if k > 40 {
                        break;
                    }
                }
            }
            p.rest = *r.pick(&[0, 1, 2, 5]);
        }
        9 => {
            // two parts
            if len > 1 {
                p.chunks = vec![1 + r.below(len - 1) as u32];
            }
        }
        10 => {
            p.rest = *r.pick(&[15, 16, 17, 255, 256, 1023, 4095, 4096, 8191, 8192, 16383, 16384, 16385]);
        }
        _ => {
            p.chunks = (0..6).map(|_| 1 + r.below(64) as u32).collect();
            p.rest = 1 + r.below(200) as u32;
        }
    }
    if r.chance(1, 4) {
        p.wrap = *r.pick(&[1, 2, 3, 4, 5, 7, 8, 16, 64, 4096, 8192]);
    }
    if r.chance(2, 5) {
        let n = refills_estimate(&p, len);
        eintrs(r, &mut p.eintr, n);
    }
    if r.chance(1, 8) {
        // the source reports its end, and would have more when asked again
        p.tail = match r.below(8) {
            0 => b"\n- more\n".to_vec(),
            1 => b"\n...\n---\nmore\n".to_vec(),
            2 => b"x".to_vec(),
            3 => b"\n\x00a\x00".to_vec(),
            4 => b" {".to_vec(),
            5 => vec![0x80, 0xbf],
            6 => vec![0, 0xd8, 0xff],
            _ => b"\nmore: 1\n".to_vec(),
        };
    }
    if len > 8000 && p.rest == 1 {
        // keep byte-at-a-time runs affordable
        p.rest = 1 + r.below(3) as u32;
    }
    p
}
pub fn refills_estimate(p: &RPlan, len: usize) -> usize {
    let c: usize = p.chunks.iter().map(|x| *x as usize).sum();
    let left = len.saturating_sub(c);
    let rest = if p.rest == 0 { usize::from(left > 0) } else { left / p.rest as usize };
    p.chunks.len().min(len) + rest + 2
}
fn eintrs(r: &mut Rng, v: &mut Vec<u32>, n: usize) {
    let k = 1 + r.small(5);
    for _ in 0..k {
        let x = match r.below(4) {
            0 => r.below(3),
            1 => n.saturating_sub(r.below(3)),
            _ => r.below(n + 1),
        } as u32;
        // bursts
        for j in 0..=(r.small(2) as u32) {
            if !v.contains(&(x + j)) {
                v.push(x + j);
            }
        }
    }
    v.sort_unstable();
}

pub fn rfault(r: &mut Rng, len: usize) -> RFault {
    RFault {
        at: match r.below(8) {
            0 => 0,
            1 => len as u64,
            2 => len.saturating_sub(1 + r.below(4)) as u64,
            3 => r.below(len.min(6) + 1) as u64,
            _ => r.below(len + 1) as u64,
        },
        kind: r.below(crate::io::KINDS.len()) as u8,
        mode: r.below(3) as u8,
    }
}

/// A sink failure somewhere in an output of about `len` bytes.
pub fn wfault(r: &mut Rng, len: usize) -> WFault {
    WFault {
        at: match r.below(6) {
            0 => 0,
            1 => len.saturating_sub(r.below(4)) as u64,
            2 => r.below(len.min(8) + 1) as u64,
            _ => r.below(len + 1) as u64,
        },
        kind: if r.chance(1, 5) { 255 } else { r.below(crate::io::KINDS.len()) as u8 },
        mode: r.below(3) as u8,
    }
}

pub fn wplan(r: &mut Rng) -> WPlan {
    let mut p = WPlan::default();
    match r.below(7) {
        0 => {}
        1 | 2 => p.rest = 1 + r.small(4) as u32,
        3 => p.rest = 1,
        4 => {
            p.chunks = (0..1 + r.below(10)).map(|_| 1 + r.below(40) as u32).collect();
            p.rest = *r.pick(&[0, 1, 7, 100]);
        }
        5 => p.rest = *r.pick(&[512, 1000, 4096, 16383, 16384]),
        _ => p.chunks = vec![1 + r.below(300) as u32],
    }
    if r.chance(1, 2) {
        eintrs(r, &mut p.eintr, 20);
    }
    p
}

// ---------------------------------------------------------------- events

pub fn cfg(r: &mut Rng) -> Cfg {
    let mut c = cfg_base(r);
    if r.chance(1, 12) {
        // a width at the limit that the indent sets
        let i = c.indent.map_or(2, |i| if (2..=9).contains(&i) { i } else { 2 });
        c.width = Some(2 * i - 1 + r.below(3) as i32);
    }
    c
}

fn cfg_base(r: &mut Rng) -> Cfg {
    Cfg {
        enc: *r.pick(&[0, 0, 1, 1, 2, 3]),
        canonical: r.chance(1, 8),
        indent: if r.chance(1, 2) { None } else { Some(*r.pick(&[-1, 0, 1, 2, 3, 4, 7, 9, 10, 100])) },
        width: if r.chance(1, 2) { None } else { Some(*r.pick(&[-1, -5, 0, 1, 3, 5, 10, 20, 40, 80, 1000])) },
        unicode: r.chance(1, 2),
        brk: *r.pick(&[0, 0, 0, 1, 2, 2, 3, 3]),
    }
}

/// Percent-escaped characters of every width, for use in a tag; `odd` ones
/// need not be valid UTF-8.
pub fn escapes(r: &mut Rng, odd: bool) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(3) {
        let c = match r.below(6) {
            0 => 0x20 + r.below(0x5f) as u32,
            1 => 0x80 + r.below(0x780) as u32,
            2 => 0x800 + r.below(0xd000) as u32,
            3 => 0xe000 + r.below(0x2000) as u32,
            _ => 0x10000 + r.below(0x100000) as u32,
        };
        let mut b = [0; 4];
        let mut v = char::from_u32(c).unwrap_or('x').encode_utf8(&mut b).as_bytes().to_vec();
        if odd {
            match r.below(4) {
                0 => {
                    v.pop();
                }
                1 => {
                    let i = r.below(v.len());
                    v[i] ^= 1 << r.below(8);
                }
                2 => v[0] = r.below(256) as u8,
                _ => v.push(0x80 + r.below(0x40) as u8),
            }
        }
        for x in v {
            s.push_str(&if r.chance(1, 2) { format!("%{x:02X}") } else { format!("%{x:02x}") });
        }
    }
    s
}

/// A scalar value built from adversarial segments.
pub fn value(r: &mut Rng) -> String {
    match r.below(26) {
        0 => return String::new(),
        1..=5 => return (*r.pick(&WORDS)).to_string(),
        6 => {
            return (*r.pick(&[
                " ", "  ", "\n", "\n\n", " \n", "\n ", "---", "...", "--- a", "... b", "-", "?", ":", "#", "%", "@", "`", "!", "&", "*", "|", ">", "'", "\"", "- a", "? a", "a: b", "a #b", "a:", "[", "]", "{", "}", ",", "=", "<<", "a\n", "a\n\n", " a",
                "a ", "\ta", "a\t", "a\tb", "\u{feff}", "\u{7eff}", "\u{85}", "\u{2028}", "a\nb\nc", "a\n\nb", "a\n b\n", " a\nb", "\na", "\n\na", "a\r\nb", "a\rb", "x\n---\ny", "x\n...\ny", "~", "null", "a \n b", "a\n ", "a\n  \nb", "\n a\n",
            ]))
            .to_string()
        }
        _ => {}
    }
    let mut s = String::new();
    let long = r.chance(1, 14);
    let n = if long { 10 + r.below(40) } else { 1 + r.small(8) };
    let brk = r.chance(1, 2);
    let mono = r.chance(2, 3);
    let my = *r.pick(&["\n", "\n", "\n", "\r", "\r\n", "\u{85}", "\u{2028}", "\u{2029}"]);
    for _ in 0..n {
        match r.below(12) {
            0..=3 => s.push_str(r.pick(&WORDS)),
            4..=6 => s.push(' '),
            7 => s.push_str("  "),
            8 | 9 if brk => {
                let b = if mono { my } else { *r.pick(&BREAKS) };
                s.push_str(b);
                if r.chance(1, 4) {
                    s.push_str(b);
                }
                if r.chance(1, 5) {
                    s.push(' ');
                }
            }
            10 => s.push_str(r.pick(&[
                "\t", "\u{0}", "\u{7}", "\u{1b}", "\u{7f}", "\u{80}", "\u{9f}", "\u{a0}", "\u{d7ff}", "\u{e000}", "\u{feff}", "\u{fffd}", "\u{fffe}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\u{7eff}", "\u{ff}", "\u{100}", "\\", "\"", "'", "''",
            ])),
            11 => s.push_str(r.pick(&["# ", ": ", "- ", "? ", ", ", "[", "]", "{", "}", "%", "---", "...", "!", "&", "*", "|", ">", "@"])),
            _ => s.push_str("lorem ipsum"),
        }
    }
    s
}

pub fn big_value(r: &mut Rng) -> String {
    let n = *r.pick(&[16360, 16370, 16379, 16380, 16384, 5000, 9000, 20000, 40000, 65_528]) + r.below(14);
    let unit = *r.pick(&["x", "ab ", "é", "日", "\u{1F600}", "word word ", "a\n", "q\u{85}", "'", "\u{7}", "x \n y\n"]);
    unit.repeat(n / unit.len() + 1)
}

pub struct Eg<'a> {
    pub r: &'a mut Rng,
    pub evs: Vec<Ev>,
    /// percent of deliberately invalid choices
    pub bad: usize,
    budget: i32,
    anchors: Vec<String>,
    handles: Vec<(String, String)>,
    big: bool,
    /// only material that must survive emit + parse unchanged
    pub faithful: bool,
    next_anchor: usize,
}
impl<'a> Eg<'a> {
    pub fn new(r: &'a mut Rng, bad: usize, faithful: bool) -> Eg<'a> {
        let budget = *r.pick(&[1, 3, 6, 12, 12, 25, 60]);
        let big = r.chance(1, 40);
        Eg { r, evs: vec![], bad, budget, anchors: vec![], handles: vec![], big, faithful, next_anchor: 0 }
    }
    fn bad(&mut self) -> bool {
        self.bad > 0 && self.r.below(100) < self.bad
    }
    pub fn stream(mut self, enc: u8) -> Vec<Ev> {
        self.evs.push(Ev::StreamStart(enc));
        let n = self.r.weighted(&[1, 10, 5, 3, 2, 1]);
        for _ in 0..n {
            self.doc();
        }
        self.evs.push(Ev::StreamEnd);
        self.evs
    }
    pub fn doc(&mut self) {
        self.anchors.clear();
        self.handles.clear();
        let version = match self.r.below(10) {
            0 => Some((1, 1)),
            1 => Some((1, 2)),
            2 if self.bad() => Some(*self.r.pick(&[(1, 3), (2, 0), (0, 1), (1, 0)])),
            _ => None,
        };
        let mut tags: Vec<(String, String)> = vec![];
        if self.r.chance(1, 6) {
            let mut cand = vec!["!", "!!", "!e!", "!E!", "!ee!", "!a-b!"];
            let k = 1 + self.r.small(2);
            for _ in 0..k {
                let i = self.r.below(cand.len());
                let h = cand.remove(i);
                let mut p = (*self.r.pick(&["tag:example.com,2000:", "!my-", "tag:yaml.org,2002:", "tag:e.c,1:x/", "x:", "X:", "tag:e.c,1:", "tag:é,1:"])).to_string();
                let mut h = h.to_string();
                if self.bad() {
                    h = (*self.r.pick(&["", "e!", "!e", "!é!", "!", "!a!b!", "!.!", "!*!", "! !"])).to_string();
                }
                if self.bad() {
                    p = String::new();
                }
                tags.push((h, p));
            }
        }
        self.handles = tags.clone();
        let implicit = self.r.chance(1, 2);
        self.evs.push(Ev::DocStart { version, tags, implicit });
        self.node(0);
        let e = self.r.chance(1, 2);
        self.evs.push(Ev::DocEnd(e));
    }
    fn anchor(&mut self) -> Option<String> {
        if !self.r.chance(1, 6) {
            return None;
        }
        let a = if self.bad() {
            (*self.r.pick(&["", "é", "a b", "a*", "a:", "日"])).to_string()
        } else {
            self.next_anchor += 1;
            let n = if self.faithful { self.next_anchor } else { self.r.below(6) };
            let near = if self.anchors.is_empty() || !self.r.chance(1, 8) {
                None
            } else {
                let near = self.anchors[self.r.below(self.anchors.len())].clone();
                Some(sibling(self.r, &near)).filter(|s| !self.faithful || !self.anchors.contains(s))
            };
            if let Some(s) = near {
                s
            } else if self.r.chance(1, 40) {
                format!("{}{n}", "long-".repeat(5 + self.r.below(60)))
            } else {
                format!("{}{}", self.r.pick(&["a", "x_y-", "Z", "0", "id00"]), n)
            }
        };
        self.anchors.push(a.clone());
        Some(a)
    }
    fn tag(&mut self) -> Option<String> {
        if !self.r.chance(1, 5) {
            return None;
        }
        if self.bad() {
            return Some((*self.r.pick(&["", "é", "!é!x", "tag:é", "!日本"])).to_string());
        }
        if !self.handles.is_empty() && self.r.chance(1, 2) {
            let h = self.handles[self.r.below(self.handles.len())].1.clone();
            let suf = *self.r.pick(&["foo", "a/b", "x y", "é", "z%", "a,b"]);
            return Some(format!("{h}{suf}"));
        }
        let pool = [
            "!", "!local", "tag:yaml.org,2002:str", "tag:yaml.org,2002:int", "tag:yaml.org,2002:", "tag:yaml.org,2002:x y", "!a/b#c", "tag:e.com,2000:a,b", "!x%y", "!é", "!!", "!a!b", "x", "tag:yaml.org,2002", "!a[b]{c}", "tag:yaml.org,2002:é",
            "!日本", "!\u{1F600}", "tag:yaml.org,2002:seq", "tag:yaml.org,2002:map", "!a%41", "!x>y", "a:b>c", "!-", "!a,b", "tag:yaml.org,2002:[x]", "tag:e.com,2000:[a],{b}", "urn:x[1]",
        ];
        let pool = &pool[..];
        Some((*self.r.pick(pool)).to_string())
    }
    fn node(&mut self, depth: usize) {
        self.budget -= 1;
        if self.budget < -200 {
            self.evs.push(Ev::plain("x"));
            return;
        }
        let leaf = self.budget <= 0 || depth > 8;
        match self.r.weighted(if leaf { &[10, 1, 1, 1] } else { &[6, 5, 5, 1] }) {
            1 => {
                let (anchor, tag) = (self.anchor(), self.tag());
                let implicit = tag.is_none() && !self.bad() || tag.is_some() && self.r.chance(1, 3);
                let implicit = implicit || self.faithful && tag.is_none();
                let style = self.r.below(3) as u8;
                self.evs.push(Ev::SeqStart { anchor, tag, implicit, style });
                let n = if leaf { 0 } else { self.r.small(4) };
                for _ in 0..n {
                    self.node(depth + 1);
                }
                self.evs.push(Ev::SeqEnd);
            }
            2 => {
                let (anchor, tag) = (self.anchor(), self.tag());
                let implicit = tag.is_none() && !self.bad() || tag.is_some() && self.r.chance(1, 3);
                let implicit = implicit || self.faithful && tag.is_none();
                let style = self.r.below(3) as u8;
                self.evs.push(Ev::MapStart { anchor, tag, implicit, style });
                let n = if leaf { 0 } else { self.r.small(4) };
                for _ in 0..n {
                    self.node(depth + 1);
                    self.node(depth + 1);
                }
                self.evs.push(Ev::MapEnd);
            }
            3 if (!self.anchors.is_empty() || !self.faithful) && depth > 0 || (!self.faithful && self.r.chance(1, 8)) => {
                let a = if self.anchors.is_empty() { "undef".to_string() } else { self.anchors[self.r.below(self.anchors.len())].clone() };
                self.evs.push(Ev::Alias(a));
            }
            _ => {
                let (anchor, tag) = (self.anchor(), self.tag());
                let value = if self.big && self.r.chance(1, 3) { big_value(self.r) } else { value(self.r) };
                let (mut plain, quoted) = match self.r.below(6) {
                    0 => (true, false),
                    1 => (false, true),
                    2 => (false, false),
                    _ => (true, true),
                };
                if tag.is_none() && !plain && !quoted && !self.bad() {
                    plain = true;
                }
                if self.faithful && tag.is_some() && plain != quoted {
                    // as libyaml does, the emitter replaces such a tag by "!" if it has to change the style
                    plain = quoted;
                }
                let style = self.r.below(6) as u8;
                self.evs.push(Ev::Scalar { anchor, tag, value, plain, quoted, style });
            }
        }
    }
}

pub fn events(r: &mut Rng, bad: usize) -> Vec<Ev> {
    let enc = *r.pick(&[0, 1, 1, 1]);
    Eg::new(r, bad, false).stream(enc)
}
pub fn faithful_events(r: &mut Rng) -> Vec<Ev> {
    Eg::new(r, 0, true).stream(0)
}

/// Settings changed in the middle of the stream.
pub fn settings(r: &mut Rng, evs: &mut Vec<Ev>) {
    for _ in 0..1 + r.small(3) {
        let at = 1 + r.below(evs.len().max(1));
        let s = match r.below(5) {
            0 => Ev::Set(0, *r.pick(&[-1, 0, 1, 2, 3, 5, 9, 10, 11, 40])),
            1 => Ev::Set(1, *r.pick(&[-1, 0, 1, 7, 20, 80, 1000])),
            2 => Ev::Set(2, r.below(2) as i32),
            3 => Ev::Set(3, 1 + r.below(3) as i32),
            _ => Ev::Set(4, r.below(2) as i32),
        };
        evs.insert(at.min(evs.len()), s);
    }
}

/// Enough output to fill the emitter's buffer several times without reaching the end of a document,
/// with long names as well as long values.
pub fn big_events(r: &mut Rng) -> Vec<Ev> {
    if r.chance(1, 5) {
        // very many directives
        let n = 5 + r.below(40);
        let tags: Vec<_> = (0..n).map(|i| (format!("!h{i}!"), format!("tag:e.com,{i}:"))).collect();
        let mut evs = vec![Ev::StreamStart(0), Ev::DocStart { version: None, tags, implicit: false }, Ev::SeqStart { anchor: None, tag: None, implicit: true, style: r.below(3) as u8 }];
        for _ in 0..8 {
            let i = *r.clone().pick(&[0, 1, n / 2, n - 1, n, r.below(n)]);
            evs.push(Ev::Scalar { anchor: None, tag: Some(format!("tag:e.com,{i}:x")), value: "v".into(), plain: false, quoted: false, style: r.below(6) as u8 });
        }
        evs.extend([Ev::SeqEnd, Ev::DocEnd(r.chance(1, 2)), Ev::StreamEnd]);
        return evs;
    }
    let mut evs = vec![Ev::StreamStart(0), Ev::DocStart { version: None, tags: vec![], implicit: r.chance(1, 2) }];
    let map = r.chance(1, 2);
    let style = r.below(3) as u8;
    evs.push(if map {
        Ev::MapStart { anchor: None, tag: None, implicit: true, style }
    } else {
        Ev::SeqStart { anchor: None, tag: None, implicit: true, style }
    });
    let long = 20 + r.below(400);
    let very = *r.pick(&[20, 400, 400, 100_000]);
    let total = 18_000 + r.below(40_000);
    let (mut made, mut i) = (0, 0);
    while made < total {
        let len = if r.chance(1, very) { *r.pick(&[16_370, 16_384, 32_760, 65_530]) + r.below(20) } else { r.below(long) };
        let name = format!("n{i}{}", "x".repeat(len));
        match r.below(6) {
            0 => {
                made += name.len();
                evs.push(Ev::Scalar { anchor: Some(name), tag: None, value: "v".into(), plain: true, quoted: true, style: r.below(6) as u8 });
            }
            1 => {
                made += name.len();
                evs.push(Ev::Scalar { anchor: None, tag: Some(format!("!{name}")), value: "v".into(), plain: false, quoted: false, style: r.below(6) as u8 });
            }
            2 => {
                made += name.len();
                evs.push(Ev::Alias(name));
            }
            3 => {
                made += name.len();
                evs.push(Ev::SeqStart { anchor: Some(name), tag: None, implicit: true, style: r.below(3) as u8 });
                evs.push(Ev::plain("i"));
                evs.push(Ev::SeqEnd);
            }
            _ => {
                let value = if r.chance(1, 40) { big_value(r) } else { format!("{} {}", value(r), name) };
                made += value.len();
                evs.push(Ev::Scalar { anchor: None, tag: None, value, plain: true, quoted: true, style: r.below(6) as u8 });
            }
        }
        i += 1;
    }
    if map && i % 2 == 1 {
        evs.push(Ev::plain("last"));
    }
    evs.push(if map { Ev::MapEnd } else { Ev::SeqEnd });
    evs.push(Ev::DocEnd(r.chance(1, 2)));
    evs.push(Ev::StreamEnd);
    evs
}

/// An ill-formed call sequence: a valid stream with events dropped, duplicated, swapped or inserted.
pub fn scramble(r: &mut Rng, evs: &mut Vec<Ev>) {
    for _ in 0..1 + r.small(3) {
        let n = evs.len();
        match r.below(4) {
            0 if n > 0 => {
                let i = r.below(n);
                evs.remove(i);
            }
            1 if n > 0 => {
                let i = r.below(n);
                let e = evs[i].clone();
                let j = r.below(n + 1);
                evs.insert(j, e);
            }
            2 if n > 1 => {
                let (i, j) = (r.below(n), r.below(n));
                evs.swap(i, j);
            }
            _ => {
                let e = match r.below(9) {
                    0 => Ev::StreamStart(*r.pick(&[0, 1])),
                    1 => Ev::StreamEnd,
                    2 => Ev::DocStart { version: None, tags: vec![], implicit: true },
                    3 => Ev::DocEnd(true),
                    4 => Ev::Alias("a".into()),
                    5 => Ev::SeqEnd,
                    6 => Ev::MapEnd,
                    7 => Ev::SeqStart { anchor: None, tag: None, implicit: true, style: 0 },
                    _ => Ev::plain("v"),
                };
                let j = r.below(n + 1);
                evs.insert(j, e);
            }
        }
    }
}

// ---------------------------------------------------------------- documents

/// A document graph: node 0 is the root; children always have larger indexes or are shared earlier
/// nodes that are not ancestors (a DAG), so that dumping terminates.
pub fn doc(r: &mut Rng) -> Doc {
    if r.chance(1, 500) {
        return wide_doc(r);
    }
    let mut d = raw_doc(r);
    complete(&mut d);
    d
}

/// Very many shared nodes, so that the names made up for them get long.
fn wide_doc(r: &mut Rng) -> Doc {
    if r.chance(1, 3) {
        // few nodes, referred to very often
        let n = 1 + r.below(3);
        let mut nodes = vec![Nd { tag: None, k: NodeK::Seq(vec![], r.below(3) as u8) }];
        for i in 0..n {
            nodes.push(Nd { tag: None, k: if r.chance(1, 3) { NodeK::Map(vec![], r.below(3) as u8) } else { NodeK::Scalar(format!("{i}"), r.below(6) as u8) } });
        }
        let k = *r.pick(&[100, 254, 255, 256, 257, 300, 1000, 5000]) + r.below(4);
        let items = (0..k * n).map(|i| 1 + (i % n) as u32).collect();
        nodes[0].k = NodeK::Seq(items, r.below(3) as u8);
        return Doc { nodes, version: None, tags: vec![], start_implicit: r.chance(1, 2), end_implicit: r.chance(1, 2) };
    }
    if r.chance(1, 24) {
        // very many nodes, of which the last are shared
        let n = *r.pick(&[4_090usize, 32_760, 65_530, 101_000]) + r.below(16);
        let flat = r.below(6) as u8;
        let mut nodes = vec![Nd { tag: None, k: NodeK::Seq(vec![], r.below(3) as u8) }];
        for i in 0..n {
            nodes.push(Nd { tag: None, k: NodeK::Scalar(format!("{}", i % 1000), flat) });
        }
        for i in 0..12 {
            let k = match r.below(4) {
                0 => NodeK::Seq(vec![], r.below(3) as u8),
                1 => NodeK::Map(vec![], r.below(3) as u8),
                _ => NodeK::Scalar(format!("last {i}"), r.below(6) as u8),
            };
            nodes.push(Nd { tag: None, k });
        }
        let mut items: Vec<u32> = (1..nodes.len() as u32).collect();
        for _ in 0..8 {
            items.push((n + 1 + r.below(12)) as u32);
        }
        nodes[0].k = NodeK::Seq(items, r.below(3) as u8);
        return Doc { nodes, version: None, tags: vec![], start_implicit: r.chance(1, 2), end_implicit: r.chance(1, 2) };
    }
    let n = *r.pick(&[12usize, 99, 100, 101, 998, 999, 1000, 1001, 1200, 2000]);
    let mut nodes = vec![Nd { tag: None, k: NodeK::Seq(vec![], r.below(3) as u8) }];
    let mut items = vec![];
    for i in 0..n {
        let k = if r.chance(1, 10) { NodeK::Seq(vec![], r.below(3) as u8) } else { NodeK::Scalar(format!("{i}"), r.below(6) as u8) };
        nodes.push(Nd { tag: None, k });
        items.push(i as u32 + 1);
    }
    let mut again: Vec<u32> = items.clone();
    if r.chance(1, 2) {
        again.reverse();
    }
    items.extend(again);
    nodes[0].k = NodeK::Seq(items, r.below(3) as u8);
    Doc { nodes, version: None, tags: vec![], start_implicit: r.chance(1, 2), end_implicit: r.chance(1, 2) }
}

fn raw_doc(r: &mut Rng) -> Doc {
    let n = 1 + r.small(*r.clone().pick(&[3usize, 8, 8, 20, 50]));
    let mut nodes: Vec<Nd> = vec![];
    let big = r.chance(1, 50);
    for i in 0..n {
        let kind = if i == 0 && n > 1 { 1 + r.below(2) } else { r.weighted(&[6, 2, 2]) };
        let tag = if r.chance(1, 6) {
            Some((*r.pick(&["!t", "tag:yaml.org,2002:int", "tag:e.com,1:x", "tag:yaml.org,2002:str", "tag:yaml.org,2002:seq", "tag:yaml.org,2002:map"])).to_string())
        } else {
            None
        };
        let k = match kind {
            0 => NodeK::Scalar(if big && r.chance(1, 4) { big_value(r) } else { value(r) }, r.below(6) as u8),
            1 => NodeK::Seq(vec![], r.below(3) as u8),
            _ => NodeK::Map(vec![], r.below(3) as u8),
        };
        nodes.push(Nd { tag, k });
    }
    // each node except the root gets a parent with a smaller index where possible
    let share = *r.pick(&[0, 0, 10, 30]);
    let colls: Vec<usize> = (0..n).filter(|&i| !matches!(nodes[i].k, NodeK::Scalar(..))).collect();
    for i in 1..n {
        let par: Vec<usize> = colls.iter().copied().filter(|&c| c < i).collect();
        if par.is_empty() {
            continue;
        }
        let p = par[par.len() - 1 - r.small(par.len() - 1)];
        attach(r, &mut nodes, p, i);
        if r.below(100) < share {
            let extra = 1 + r.small(2);
            for _ in 0..extra {
                let p = par[r.below(par.len())];
                attach(r, &mut nodes, p, i);
            }
        }
    }
    // pairs must be complete: a dangling key gets itself... a fresh scalar value
    let mut d = Doc { nodes, version: None, tags: vec![], start_implicit: r.chance(1, 2), end_implicit: r.chance(1, 2) };
    if r.chance(1, 10) {
        d.version = Some(*r.pick(&[(1, 1), (1, 2)]));
    }
    if r.chance(1, 10) {
        d.tags.push(("!e!".into(), "tag:e.com,1:".into()));
    }
    d
}
fn attach(r: &mut Rng, nodes: &mut [Nd], p: usize, c: usize) {
    match &mut nodes[p].k {
        NodeK::Seq(v, _) => {
            let at = if r.chance(1, 6) { r.below(v.len() + 1) } else { v.len() };
            v.insert(at, c as u32);
        }
        NodeK::Map(v, _) => {
            // alternate: complete a self pair or start one
            match v.last_mut() {
                Some(l) if l.1 == u32::MAX => l.1 = c as u32,
                _ => v.push((c as u32, u32::MAX)),
            }
        }
        NodeK::Scalar(..) => {}
    }
}
/// Complete dangling pairs (key without value) by reusing the key as value.
fn complete(d: &mut Doc) {
    for n in &mut d.nodes {
        if let NodeK::Map(v, _) = &mut n.k {
            for p in v.iter_mut() {
                if p.1 == u32::MAX {
                    p.1 = p.0;
                }
            }
        }
    }
}

pub const CORPUS: &[&str] = &[
    "american:\n- Boston Red Sox\n- Detroit Tigers\nnational:\n- New York Mets\n",
    "-\n  name: Mark McGwire\n  hr:   65\n  avg:  0.278\n-\n  name: Sammy Sosa\n",
    "Mark McGwire: {hr: 65, avg: 0.278}\nSammy Sosa: {\n    hr: 63,\n    avg: 0.288,\n }\n",
    "# Ranking of 1998 home runs\n---\n- Mark McGwire\n- Sammy Sosa\n\n# Team ranking\n---\n- Chicago Cubs\n- St Louis Cardinals\n",
    "---\ntime: 20:03:20\nplayer: Sammy Sosa\naction: strike (miss)\n...\n---\ntime: 20:03:47\n...\n",
    "---\nhr:\n- Mark McGwire\n# Following node labeled SS\n- &SS Sammy Sosa\nrbi:\n- *SS # Subsequent occurrence\n- Ken Griffey\n",
    "? - Detroit Tigers\n  - Chicago cubs\n: - 2001-07-23\n\n? [ New York Yankees,\n    Atlanta Braves ]\n: [ 2001-07-02, 2001-08-12,\n    2001-08-14 ]\n",
    "---\n# Products purchased\n- item    : Super Hoop\n  quantity: 1\n- item    : Basketball\n  quantity: 4\n",
    "# ASCII Art\n--- |\n  \\//||\\/||\n  // ||  ||__\n",
    "--- >\n  Mark McGwire's\n  year was crippled\n  by a knee injury.\n",
    "--- >\n Sammy Sosa completed another\n fine season with great stats.\n\n   63 Home Runs\n   0.288 Batting Average\n\n What a year!\n",
    "name: Mark McGwire\naccomplishment: >\n  Mark set a major league\n  home run record in 1998.\nstats: |\n  65 Home Runs\n  0.278 Batting Average\n",
    "unicode: \"Sosa did fine.\\u263A\"\ncontrol: \"\\b1998\\t1999\\t2000\\n\"\nhex esc: \"\\x0d\\x0a is \\r\\n\"\n\nsingle: '\"Howdy!\" he cried.'\nquoted: ' # Not a ''comment''.'\n",
    "plain:\n  This unquoted scalar\n  spans many lines.\n\nquoted: \"So does this\n  quoted scalar.\\n\"\n",
    "---\nnot-date: !!str 2002-04-28\n\npicture: !!binary |\n R0lGODlhDAAMAIQAAP//9/X17unp5WZmZgAAAOfn515eXv\n Pz7Y6OjuDg4J+fn5OTk6enp56enmlpaWNjY6Ojo4SEhP/++f\n",
    "%TAG ! tag:clarkevans.com,2002:\n--- !shape\n  # Use the ! handle for presenting\n- !circle\n  center: &ORIGIN {x: 73, y: 129}\n  radius: 7\n- !line\n  start: *ORIGIN\n",
    "--- !!set\n? Mark McGwire\n? Sammy Sosa\n? Ken Griff\n",
    "--- !!omap\n- Mark McGwire: 65\n- Sammy Sosa: 63\n",
    "--- !<tag:clarkevans.com,2002:invoice>\ninvoice: 34843\nbill-to: &id001\n    given  : Chris\n    address:\n        lines: |\n            458 Walkman Dr.\n            Suite #292\nship-to: *id001\n",
    "anchored: !local &anchor value\nalias: *anchor\n",
    "literal: |\n  some\n  text\nfolded: >\n  some\n  text\n",
    "%YAML 1.1\n--- text\n",
    "commercial-at: @text\n",
    "quoted: \"Quoted \t\"\nblock:\t|\n  void main() {\n  \tprintf(\"Hello, world!\\n\");\n  }\n",
    "  # Leading comment line spaces are\n  # neither content nor indentation.\n    \nNot indented:\n By one space: |\n    By four\n      spaces\n Flow style: [    # Leading spaces\n   By two,        # in flow style\n  Also by two,    # are neither\n  \tStill by two   # content nor\n    ]             # indentation.\n",
    "? a\n: -\tb\n  -  -\tc\n     - d\n",
    "plain: text\n  lines\nquoted: \"text\n  \tlines\"\nblock: |\n  text\n   \tlines\n",
    "Folding:\n  \"Empty line\n   \t\n  as a line feed\"\nClipped empty lines: |\n  a line feed\n \n",
    ">-\n  trimmed\n  \n \n\n  as\n  space\n",
    ">\n  foo \n \n  \t bar\n\n  baz\n",
    "{ first: Sammy, last: Sosa }:\n# Statistics:\n  hr:  # Home runs\n     65\n  avg: # Average\n   0.278\n",
    "%FOO  bar baz # Should be ignored\n               # with a warning.\n--- \"foo\"\n",
    "%TAG !yaml! tag:yaml.org,2002:\n---\n!yaml!str \"foo\"\n",
    "!<tag:yaml.org,2002:str> foo :\n  !<!bar> baz\n",
    "- !local foo\n- !!str bar\n- !e!tag%21 baz\n",
    "# Assuming conventional resolution:\n- \"12\"\n- 12\n- ! 12\n",
    "First occurrence: &anchor Foo\nSecond occurrence: *anchor\nOverride anchor: &anchor Bar\nReuse anchor: *anchor\n",
    "{\n  foo : !!str,\n  !!str : bar,\n}\n",
    "{\n  ? foo :,\n  : bar,\n}\n",
    "'implicit block key' : [\n  'implicit flow key' : value,\n ]\n",
    "\"folded \nto a space,\t\n \nto a line feed, or \t\\\n \\ \tnon-content\"\n",
    "\" 1st non-empty\n\n 2nd non-empty \n\t3rd non-empty \"\n",
    "' 1st non-empty\n\n 2nd non-empty \n\t3rd non-empty '\n",
    "# Outside flow collection:\n- ::vector\n- \": - ()\"\n- Up, up, and away!\n- -123\n- http://example.com/foo#bar\n# Inside flow collection:\n- [ ::vector,\n  \": - ()\",\n  \"Up, up and away!\",\n  -123,\n  http://example.com/foo#bar ]\n",
    "1st non-empty\n\n 2nd non-empty \n\t3rd non-empty\n",
    "- [ one, two, ]\n- [three ,four]\n",
    "[\n\"double\n quoted\", 'single\n           quoted',\nplain\n text, [ nested ],\nsingle: pair,\n]\n",
    "- { one : two , three: four , }\n- {five: six,seven : eight}\n",
    "{\n? explicit: entry,\nimplicit: entry,\n?\n}\n",
    "{\nunquoted : \"separate\",\nhttp://foo.com,\nomitted value:,\n: omitted key,\n}\n",
    "[\n? foo\n bar : baz\n]\n",
    "- [ YAML : separate ]\n- [ : empty key entry ]\n- [ {JSON: like}:adjacent ]\n",
    "- | # Empty header\n literal\n- >1 # Indentation indicator\n  folded\n- |+ # Chomping indicator\n keep\n\n- >1- # Both indicators\n  strip\n",
    "- |\n detected\n- >\n \n  \n  # detected\n- |1\n  explicit\n- >\n \t\n detected\n",
    "strip: |-\n  text\nclip: |\n  text\nkeep: |+\n  text\n",
    " # Strip\n  # Comments:\nstrip: |-\n  # text\n  \n # Clip\n  # comments:\n\nclip: |\n  # text\n \n # Keep\n  # comments:\n\nkeep: |+\n  # text\n\n # Trail\n  # comments.\n",
    "strip: >-\n\nclip: >\n\nkeep: |+\n\n",
    ">\n\n folded\n line\n\n next\n line\n   * bullet\n\n   * list\n   * lines\n\n last\n line\n\n# Comment\n",
    "block sequence:\n  - one\n  - two : three\n",
    "- # Empty\n- |\n block node\n- - one # Compact\n  - two # sequence\n- one: two # Compact mapping\n",
    "? explicit key # Empty value\n? |\n  block key\n: - one # Explicit compact\n  - two # block value\n",
    "plain key: in-line value\n: # Both empty\n\"quoted key\":\n- entry\n",
    "- sun: yellow\n- ? earth: blue\n  : moon: white\n",
    "-\n  \"flow in block\"\n- >\n Block scalar\n- !!map # Block collection\n  foo : bar\n",
    "literal: |2\n  value\nfolded:\n   !foo\n  >1\n value\n",
    "sequence: !!seq\n- entry\n- !!seq\n - nested\nmapping: !!map\n foo: bar\n",
    "\u{feff}# Comment\n# lines\nDocument\n",
    "%YAML 1.2\n---\nDocument\n... # Suffix\n",
    "Bare\ndocument\n...\n# No document\n...\n|\n%!PS-Adobe-2.0 # Not the first line\n",
    "---\n{ matches\n% : 20 }\n...\n---\n# Empty\n...\n",
    "Document\n---\n# Empty\n...\n%YAML 1.2\n---\nmatches %: 20\n",
    "a: \"double\n  quotes\" # lala\nb: plain\n value\nc  : #lala\n  d\n",
    "&a a: &b b\n*a : *b\n",
    "- &a a\n- &b b\n- *a\n- *b\n",
    "top1: &node1\n  &k1 key1: one\ntop2: &node2 # comment\n  key2: two\ntop3:\n  &k3 key3: three\ntop7:\n  &node7\n  key7: seven\n",
    "a!\"#$%&'()*+,-./09:;<=>?@AZ[\\]^_`az{|}~: safe\n?foo: safe question mark\n:foo: safe colon\n-foo: safe dash\nthis is#not: a comment\n",
    "--- # comment\n- a\n--- \n\n--- >\nx\n---\n",
    "[a, [b, [c, {d: e, f: [g]}]], {h: {i: j}}]\n",
    "\"\\\n\"\n",
    "'a\n\n\n b'\n",
    "- |\n\n  x\n\n\n- >+\n\n  y\n\n\n...\n",
    "!!map {\n  ? !!str \"a\" : !!seq [ !!str \"b\" ]\n}\n",
    "k: [&x !!str a, *x , {*x : *x}]\n",
    "---\n---\n---\n",
    "...\n...\n",
    "",
    "\n",
    "#\n",
    "a",
    "- ",
    "? ",
    ": ",
    "[",
    "{",
    "\"",
    "'",
    "|",
    ">",
    "&a",
    "*a",
    "!t",
    "%",
    "---",
    "...",
    "a:",
    "- - - a\n    - b\n  - c\n- d\n",
    "a:\n  b:\n    c:\n      d: e\n    f: g\nh: i\n",
];
