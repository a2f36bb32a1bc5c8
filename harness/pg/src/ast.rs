//! Templates: how they are written and what they mean.
use crate::lits::Lit;
use crate::vals::{Vals, NB, NC, NF, NI, NL, NN, NO, NS};
use vcore::text::esc;

pub const NORMAL: [&str; 101] = [
    "a", "abbr", "address", "article", "aside", "audio", "b", "bdi", "bdo", "blockquote", "body", "button", "canvas", "caption",
    "cite", "code", "colgroup", "data", "datalist", "dd", "del", "details", "dfn", "dialog", "div", "dl", "dt", "em", "fieldset",
    "figcaption", "figure", "footer", "form", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "html", "i", "iframe",
    "ins", "kbd", "label", "legend", "li", "main", "map", "mark", "menu", "menuitem", "meter", "nav", "noscript", "object", "ol",
    "optgroup", "option", "output", "p", "picture", "pre", "progress", "q", "rb", "rp", "rt", "rtc", "ruby", "s", "samp", "script",
    "section", "select", "slot", "small", "span", "strong", "style", "sub", "summary", "sup", "table", "tbody", "td", "template",
    "textarea", "tfoot", "th", "thead", "time", "title", "tr", "u", "ul", "var", "video",
];
pub const VOID: [&str; 14] =
    ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"];
pub const FRAG: u16 = 115;
pub const CLASSES: u16 = 116;

pub fn tag_name(t: u16) -> &'static str {
    match t {
        0..=100 => NORMAL[t as usize],
        101..=114 => VOID[t as usize - 101],
        FRAG => "frag",
        _ => "classes",
    }
}
pub fn is_void(t: u16) -> bool {
    (101..115).contains(&t)
}
pub fn is_frag(t: u16) -> bool {
    t >= FRAG
}
pub fn tag_of(name: &str) -> u16 {
    (0..117).find(|t| tag_name(*t) == name).unwrap()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    Lit(Lit, u8),
    Leaf { kind: u8, k: u8, ev: u32, tr: bool },
    /// A variable bound by a pattern or closure around.
    Bind(u8),
    El { tag: u16, delim: u8, trail: bool, path: u8, items: Vec<Item> },
    Wrap(W, Box<Ex>, u32),
    IterMap { l: u8, delim: u8, body: Box<Ex> },
    If { arms: Vec<(Cond, Ex)>, els: Option<Box<Ex>> },
    Match { scrut: Scrut, arms: Vec<(Pat, Option<Cond>, Ex)>, last: Box<Ex> },
    Comp { shape: u8, order: u8, args: Vec<Ex> },
    /// Leaves the enclosing function (only as a branch).
    Diverge(u8),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum W {
    Paren,
    Block,
    Let,
    Hoist,
    Func,
    Closure,
    Some,
    IterOne,
    Id,
    Ev,
    FragOne,
    /// `if cond {ex} else {ex}` would need equal types; a match with one arm does not.
    MatchOne,
    /// After a statement with an effect, in a block.
    Stmts,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Attr(Name, Ex),
    Bool(Name, BoolCond, u8),
    Child(Ex),
}

#[derive(Clone, Debug, PartialEq)]
pub enum BoolCond {
    Const(bool, u8),
    Dyn(Cond),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Name {
    Ident(u8),
    Raw(u8),
    Lit(Lit, u8),
    Dyn { kind: u8, k: u8, ev: u32, tr: bool },
}

pub const IDENTS: [&str; 52] = [
    "class", "id", "href", "src", "alt", "x", "data_x", "onclick", "_u", "title", "checked", "disabled", "viewBox", "xmlns", "buffer",
    "t1", "name", "value", "style", "frag", "div", "été", "srcset", "srcdoc", "action", "formaction", "content", "charset", "placeholder",
    "onload", "onerror", "poster", "data", "media", "sizes", "rel", "width", "height", "colspan", "tabindex", "lang", "role", "method",
    "selected", "hidden", "required", "list", "pattern", "min", "node", "v", "key",
];
pub const RAWS: [&str; 10] = ["type", "for", "async", "loop", "as", "ref", "match", "class", "static", "move"];

#[derive(Clone, Debug, PartialEq)]
pub struct Cond {
    pub kind: u8,
    pub k: u8,
    pub k2: u8,
    pub ev: u32,
}
pub const COND_PLAIN: u8 = 28;
/// True or false depending on how often asked (only with the log, in one chain of branches).
pub const TICK: u8 = 128;
pub const COND_ALL: u8 = COND_PLAIN + 3;
const BIND_OPTION: u8 = COND_PLAIN;
const BIND_SLICE: u8 = COND_PLAIN + 1;
const BIND_RANGE: u8 = COND_PLAIN + 2;

#[derive(Clone, Debug, PartialEq)]
pub struct Scrut {
    pub kind: u8,
    pub k: u8,
    pub ev: u32,
}
pub const SCRUTS: u8 = 8;

/// A pattern, as an index into the patterns of the scrutinee's kind.
#[derive(Clone, Debug, PartialEq)]
pub struct Pat(pub u8);

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Str(String),
    Int(i64),
}

// ---- writing ----

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty {
    Str,
    /// By value.
    Text,
    Int,
}

#[derive(Clone)]
pub struct Em {
    pub items: String,
    pub stmts: Vec<Vec<String>>,
    pub n: usize,
    pub binds: Vec<(String, Ty)>,
    /// Ordinary matches instead of wrapped ones.
    pub plain: bool,
    /// Write all names of laby with its path.
    pub force: bool,
    /// How laby is named in paths.
    pub root: &'static str,
    pub temps: bool,
    pub std: bool,
    pub closures: usize,
    comps: Vec<String>,
    /// Statements before everything, making values that own memory (where those are not to be made in place).
    pub pre: Option<Vec<String>>,
    /// Values of known sizes (and no alignment) instead of the leaves, and what may be stored in all.
    pub blobs: Option<usize>,
    /// Whether one of them must stay on its thread.
    pub stays: bool,
}

impl Em {
    pub fn new() -> Em {
        Em {
            items: String::new(),
            stmts: vec![vec![]],
            n: 0,
            binds: vec![],
            plain: false,
            force: false,
            root: "laby",
            temps: true,
            std: true,
            closures: 0,
            comps: vec![],
            pre: None,
            blobs: None,
            stays: false,
        }
    }

    fn store(&mut self, n: usize) {
        if let Some(b) = &mut self.blobs {
            *b += n;
        }
    }

    fn blob(&mut self, k: u8) -> String {
        let n = [0, 1, 1, 2, 3, 5, 8, 13, 100, 4000][k as usize % 10];
        self.store(n);
        if k >= 210 {
            self.stays = true;
            return format!("sz::L([{k}u8; {n}], ::core::marker::PhantomData)");
        }
        let s = format!("sz::B([{k}u8; {n}])");
        match k / 10 % 6 {
            0 => format!("sz::b::<{n}>()"),
            1 => {
                let v = self.name("m");
                self.stmts.last_mut().unwrap().push(format!("let {v} = {s};"));
                v
            }
            2 => format!("{{ let b1 = {s}; b1 }}"),
            3 => format!("sz::b::<{n}>().same()"),
            _ => s,
        }
    }

    fn name(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{p}{}", self.n)
    }

    fn without_temps<R>(&mut self, f: impl FnOnce(&mut Em) -> R) -> R {
        let t = std::mem::replace(&mut self.temps, false);
        let r = f(self);
        self.temps = t;
        r
    }

    /// An expression in a block of its own, with the statements it needs.
    fn framed(&mut self, f: impl FnOnce(&mut Em) -> String) -> String {
        self.stmts.push(vec![]);
        let e = self.without_temps(f);
        let st = self.stmts.pop().unwrap();
        format!("{{ {} {} }}", st.join(" "), e)
    }

    /// Takes the statements written so far in the current frame.
    pub fn take_stmts(&mut self) -> String {
        let st = std::mem::take(self.stmts.last_mut().unwrap());
        st.join("\n")
    }

    /// The path before a macro name: none, or one.
    pub fn lab(&self, path: u8) -> String {
        match path {
            0 if self.force => format!("{}::", self.root),
            0 => String::new(),
            1 => format!("{}::", self.root),
            _ => "::laby::".into(),
        }
    }

    pub fn ex(&mut self, e: &Ex) -> String {
        match e {
            Ex::Lit(l, _) if self.blobs.is_some() => self.blob(l.src.len() as u8),
            Ex::Lit(l, w) => wrap_lit(&l.src, *w),
            Ex::Leaf { k, .. } | Ex::Bind(k) if self.blobs.is_some() => self.blob(*k),
            Ex::Leaf { kind, k, ev, tr } => {
                if self.pre.is_some() {
                    return self.premade(*kind % LEAVES, *k);
                }
                if *kind == EFFECT && *ev != 0 {
                    return format!("{{ {} }}", effect(*ev));
                }
                let s = leaf_src(*kind, *k, self.temps && *ev == 0, self.std, self.root);
                self.log(s, *ev, *tr)
            }
            Ex::Bind(k) => match self.bind(*k) {
                Some((n, Ty::Text)) if *k & 64 == 0 => n,
                Some((n, Ty::Str | Ty::Text)) => format!("&{n}[..]"),
                Some((n, Ty::Int)) => n,
                None => leaf_src(0, *k, false, self.std, self.root),
            },
            Ex::El { tag, delim, trail, path, items } => self.el(*tag, *delim, *trail, *path, items),
            Ex::Wrap(w, e, ev) => self.wrap(*w, e, *ev),
            Ex::IterMap { l, delim, body } => {
                let x = self.name("it");
                self.binds.push((x.clone(), Ty::Str));
                self.closures += 1;
                let b = self.framed(|em| em.ex(body));
                self.closures -= 1;
                self.binds.pop();
                let lab = self.lab(1);
                // run when rendered: must not borrow an integer bound around
                let mv = if self.binds.iter().any(|b| b.1 != Ty::Str) { "move " } else { "" };
                format!("{lab}iter!({}v.l[{}].iter().map({mv}|{x}| {b}))", ITER_DELIMS[*delim as usize % 4].0, l % NL)
            }
            Ex::If { arms, els } => self.if_(arms, els.as_deref()),
            Ex::Match { scrut, arms, last } => self.match_(scrut, arms, last),
            Ex::Comp { shape, order, args } => self.comp(*shape, *order, args),
            Ex::Diverge(k) => {
                if self.closures > 0 {
                    "panic!(\"diverged\")".into()
                } else {
                    match k % 3 {
                        0 => "return h::text(\"early\")".into(),
                        1 => "{ let t = h::text(\"early\"); return t }".into(),
                        _ => "panic!(\"diverged\")".into(),
                    }
                }
            }
        }
    }

    /// A leaf whose evaluation allocates nothing.
    fn premade(&mut self, kind: u8, k: u8) -> String {
        let top = self.stmts.len() == 1 && self.closures == 0;
        match kind {
            2 | 5 | 20 | 32 | 43 | 48 if top => {
                let n = self.name("m");
                let s = if kind == 32 { format!("{}::iter!(\", <\", v.l[{}].clone())", self.root, k % NL) } else { leaf_src(kind, k, false, self.std, self.root) };
                self.pre.as_mut().unwrap().push(format!("let {n} = {s};"));
                n
            }
            2 => leaf_src(0, k, false, self.std, self.root),
            5 => leaf_src(4, k, false, self.std, self.root),
            20 => leaf_src(19, k, false, self.std, self.root),
            32 => format!("{}::iter!(\", <\", v.l[{}].iter().map(|x| &x[..]))", self.root, k % NL),
            48 => leaf_src(27, k, false, self.std, self.root),
            43 => format!("{}::RenderDisplay(h::Fmt2(&v.s[{}], v.i[{}]))", self.root, k % NS, k % NI),
            44 if !self.temps => format!("{}::RenderDisplay(h::Fmt2(&v.s[{}], v.i[{}]))", self.root, k % NS, k % NI),
            _ => leaf_src(kind, k, self.temps, self.std, self.root),
        }
    }

    fn log(&mut self, s: String, ev: u32, tr: bool) -> String {
        if ev == 0 {
            return s;
        }
        if tr {
            if ev % 3 == 0 {
                // moved in from a variable
                let n = self.name("m");
                self.stmts.last_mut().unwrap().push(format!("let {n} = h::ev({ev}, h::tr({ev}, {s}));"));
                return n;
            }
            format!("h::ev({ev}, h::tr({ev}, {s}))")
        } else {
            format!("h::ev({ev}, {s})")
        }
    }

    fn bind(&self, k: u8) -> Option<(String, Ty)> {
        if self.binds.is_empty() {
            None
        } else {
            Some(self.binds[self.binds.len() - 1 - (k as usize % self.binds.len())].clone())
        }
    }

    fn el(&mut self, tag: u16, delim: u8, trail: bool, path: u8, items: &[Item]) -> String {
        let mut parts = vec![];
        for it in items {
            match it {
                Item::Attr(n, v) => {
                    if is_frag(tag) {
                        continue;
                    }
                    let n = self.attr_name(n);
                    let v = self.item(v);
                    parts.push(format!("{n} = {v}"));
                }
                Item::Bool(n, c, d) => {
                    if is_frag(tag) {
                        continue;
                    }
                    let stays = self.stays;
                    let n = self.attr_name(n);
                    if matches!(c, BoolCond::Const(false, _)) {
                        self.stays = stays; // left out
                    }
                    let c = match c {
                        BoolCond::Const(b, w) => wrap_lit(&b.to_string(), *w),
                        BoolCond::Dyn(c) => {
                            self.store(1);
                            self.cond(c)
                        }
                    };
                    parts.push(format!("{n} = {}", delimit("bool", &c, *d)));
                }
                Item::Child(c) => {
                    if is_void(tag) {
                        continue;
                    }
                    parts.push(self.item(c));
                }
            }
        }
        let mut s = parts.join(", ");
        if trail && !parts.is_empty() {
            s.push(',');
        }
        delimit(&format!("{}{}", self.lab(path), tag_name(tag)), &s, delim)
    }

    /// Literals directly in an element are no values.
    fn item(&mut self, e: &Ex) -> String {
        match e {
            Ex::Lit(l, w) => wrap_lit(&l.src, *w),
            e => self.ex(e),
        }
    }

    fn attr_name(&mut self, n: &Name) -> String {
        match n {
            Name::Ident(k) => IDENTS[*k as usize % IDENTS.len()].into(),
            Name::Raw(k) => format!("r#{}", RAWS[*k as usize % RAWS.len()]),
            Name::Lit(l, w) => wrap_lit(&l.src, *w),
            Name::Dyn { k, .. } if self.blobs.is_some() => format!("({})", self.blob(*k)),
            Name::Dyn { kind, k, ev, tr } => {
                let kind = if self.pre.is_some() && *kind % NAMES == 1 { 0 } else { *kind };
                let s = name_src(kind, *k, &self.lab(0));
                let s = if *ev != 0 { self.log(s, *ev, *tr) } else { s };
                // a name that is an identifier would be taken literally
                if s.chars().all(|c| c.is_alphanumeric() || c == '_') {
                    format!("({s})")
                } else {
                    s
                }
            }
        }
    }

    pub fn cond(&mut self, c: &Cond) -> String {
        let (k, k2) = (c.k, c.k2);
        if c.kind == TICK {
            // no number, so that all look the same
            return format!("h::tick(v.i[{}])", k % NI);
        }
        let s = match c.kind % COND_PLAIN {
            0 => format!("v.b[{}]", k % NB),
            1 => format!("v.b[{}] && !v.b[{}]", k % NB, k2 % NB),
            2 => format!("v.i[{}] > 0", k % NI),
            3 => format!("v.s[{}].is_empty()", k % NS),
            4 => format!("v.o[{}].is_some()", k % NO),
            5 => match self.bind(k) {
                Some((n, Ty::Str | Ty::Text)) => format!("{n}.len() % 2 == 0"),
                Some((n, Ty::Int)) => format!("{n} % 2 == 0"),
                None => format!("v.b[{}] | v.b[{}]", k % NB, k2 % NB),
            },
            6 => format!("!(v.b[{}] == v.b[{}])", k % NB, k2 % NB),
            7 => format!("{{ let n = v.l[{}].len(); n >= 2 }}", k % NL),
            // conditions that the compiler knows, or that look as if
            8 => format!("{}", self.cfg(["unix", "windows", "not(windows)", "debug_assertions", "target_pointer_width = \"64\"", "any()", "all()"][k as usize % 7])),
            9 => format!("{}matches!(v.i[{}], 0..=9)", if self.std { "" } else { "::core::" }, k % NI),
            10 => ["!true", "!false", "!!true", "!(true)", "!{ false }"][k as usize % 5].into(),
            11 => format!("true && v.b[{}]", k % NB),
            12 => format!("false || v.b[{}]", k % NB),
            13 => format!("v.b[{}] && {}", k % NB, k2 % 2 == 0),
            14 => ["1 < 2", "2 < 1", "1 == 1", "true != true", "'a' < 'b'", "\"a\" == \"b\""][k as usize % 6].into(),
            15 => format!("if v.b[{}] {{ true }} else {{ v.b[{}] }}", k % NB, k2 % NB),
            16 => format!("match v.b[{}] {{ true => false, false => true }}", k % NB),
            17 => format!("{{ const LIMIT: ::core::primitive::bool = {}; LIMIT }}", k % 2 == 0),
            18 => format!("(|| v.b[{}])()", k % NB),
            19 => format!("v.s[{}] == \"a\"", k % NS),
            20 => format!("{{ let t1 = v.b[{}]; !t1 }}", k % NB),
            21 => format!("h::{}", if k % 2 == 0 { "FLAG" } else { "ON" }),
            22 => format!("{{ true; {} }}", k % 2 == 0),
            23 => format!("{} as ::core::primitive::u8 == 1", if k % 2 == 0 { "true" } else { "false" }),
            24 => format!("true & v.b[{}] ^ false", k % NB),
            26 => {
                let n = self.name("g");
                self.stmts.last_mut().unwrap().push(format!("let {n} = v.b[{}];", k % NB));
                n
            }
            27 => format!("*&v.b[{}]", k % NB),
            _ => format!("'lbl: {{ if v.b[{}] {{ break 'lbl true }} false }}", k % NB),
        };
        if c.ev != 0 {
            format!("h::ev({}, {s})", c.ev)
        } else {
            s
        }
    }

    fn cfg(&self, what: &str) -> String {
        format!("{}cfg!({what})", if self.std { "" } else { "::core::" })
    }

    /// A condition of an `if`, possibly binding a variable.
    fn if_cond(&mut self, c: &Cond) -> (String, Option<(String, Ty)>) {
        match if c.kind == TICK { 0 } else { c.kind % COND_ALL } {
            BIND_OPTION => {
                let x = self.name("x");
                let s = ev(format!("v.o[{}].as_deref()", c.k % NO), c.ev);
                (format!("let ::core::option::Option::Some({x}) = {s}"), Some((x, Ty::Text)))
            }
            BIND_SLICE => {
                let x = self.name("x");
                let s = ev(format!("v.l[{}].as_slice()", c.k % NL), c.ev);
                (format!("let [{x}, ..] = {s}"), Some((x, Ty::Str)))
            }
            BIND_RANGE => {
                let x = self.name("x");
                let s = ev(format!("v.i[{}]", c.k % NI), c.ev);
                (format!("let {x} @ 0..=99 = {s}"), Some((x, Ty::Int)))
            }
            _ => (self.cond(c), None),
        }
    }

    /// The body of a branch.
    fn branch(&mut self, e: &Ex, block: bool) -> String {
        self.store(1);
        if self.plain && !matches!(e, Ex::Diverge(_)) {
            return self.framed(|em| {
                let t = em.ex(e);
                format!("{}render!({t})", em.lab(1))
            });
        }
        self.stmts.push(vec![]);
        let t = self.without_temps(|em| em.ex(e));
        let st = self.stmts.pop().unwrap();
        if block || !st.is_empty() {
            format!("{{ {} {t} }}", st.join(" "))
        } else {
            t
        }
    }

    fn close_match(&mut self, s: String) -> String {
        if self.plain {
            format!("{}raw!({{ let text: ::std::string::String = {s}; text }})", self.lab(1))
        } else {
            let lab = self.lab(0);
            delimit(&format!("{lab}frag_match"), &s, (self.n + s.len()) as u8)
        }
    }

    fn if_(&mut self, arms: &[(Cond, Ex)], els: Option<&Ex>) -> String {
        let mut s = String::new();
        for (i, (c, e)) in arms.iter().enumerate() {
            let (c, b) = self.if_cond(c);
            let has = b.is_some();
            if let Some(b) = b {
                self.binds.push(b);
            }
            let body = self.branch(e, true);
            if has {
                self.binds.pop();
            }
            s.push_str(&format!("{}if {c} {body}", if i > 0 { " else " } else { "" }));
        }
        match els {
            Some(e) => {
                let body = self.branch(e, true);
                s.push_str(&format!(" else {body}"));
            }
            None if self.plain => s.push_str(" else { h::text(\"\") }"),
            None => {}
        }
        self.close_match(s)
    }

    fn match_(&mut self, scrut: &Scrut, arms: &[(Pat, Option<Cond>, Ex)], last: &Ex) -> String {
        let mut s = format!("match {} {{ ", ev(scrut_src(scrut), scrut.ev));
        // the same name in all arms, or not
        let one = (scrut.kind >= 4 || scrut.k % 3 == 0).then(|| self.name("x"));
        for (i, (p, g, e)) in arms.iter().enumerate() {
            let x = one.clone().unwrap_or_else(|| self.name("x"));
            let (ps, ty) = pat_src(scrut, p, &x);
            if let Some(ty) = ty {
                self.binds.push((x, ty));
            }
            s.push_str(&ps);
            if let Some(g) = g {
                s.push_str(&format!(" if {}", self.cond(g)));
            }
            let body = self.branch(e, false);
            let comma = if body.starts_with('{') && body.ends_with('}') && i % 2 == 0 && !self.plain && is_block(&body) { "" } else { "," };
            s.push_str(&format!(" => {body}{comma} "));
            if ty.is_some() {
                self.binds.pop();
            }
        }
        let body = self.branch(last, false);
        // without a wildcard where the others are known
        let seen = |p: &[u8]| arms.iter().any(|a| a.1.is_none() && p.contains(&(a.0 .0 % 7)));
        let rest = match scrut.kind % SCRUTS {
            7 if seen(&[0, 3]) && scrut.k % 2 == 0 => "false",
            7 if seen(&[1, 4]) && scrut.k % 2 == 0 => "true",
            7 if scrut.k % 3 == 0 => "true | false",
            _ => "_",
        };
        s.push_str(&format!("{rest} => {body}{} }}", if arms.len() % 2 == 0 { "," } else { "" }));
        self.close_match(s)
    }

    fn wrap(&mut self, w: W, e: &Ex, evn: u32) -> String {
        match w {
            W::Paren => {
                let s = self.ex(e);
                format!("({s})")
            }
            W::Block => {
                let s = self.without_temps(|em| em.ex(e));
                format!("{{ {s} }}")
            }
            W::Let => {
                let s = self.without_temps(|em| em.ex(e));
                let n = self.name("b");
                format!("{{ let {n} = {s}; {n} }}")
            }
            W::Hoist => {
                let s = self.without_temps(|em| em.ex(e));
                let n = self.name("h");
                self.stmts.last_mut().unwrap().push(format!("let {n} = {s};"));
                n
            }
            W::Func => {
                let n = self.name("f");
                let t = std::mem::replace(&mut self.closures, 1);
                let body = self.framed(|em| em.ex(e));
                self.closures = t;
                let params: String =
                    self.binds.iter().map(|(n, t)| format!(", {n}: {}", if *t != Ty::Int { "&'a str" } else { "i64" })).collect();
                let args: String =
                    self.binds.iter().map(|(n, t)| if *t != Ty::Int { format!(", &{n}[..]") } else { format!(", {n}") }).collect();
                self.items.push_str(&format!("fn {n}<'a>(v: &'a h::V{params}) -> impl {}::Render + 'a {body}\n", self.root));
                format!("{n}(v{args})")
            }
            W::Closure => {
                self.closures += 1;
                let s = self.framed(|em| em.ex(e));
                self.closures -= 1;
                format!("(|| {s})()")
            }
            W::Some => {
                self.store(1);
                let s = self.without_temps(|em| em.ex(e));
                format!("::core::option::Option::Some({s})")
            }
            W::IterOne => {
                let s = self.without_temps(|em| em.ex(e));
                let lab = self.lab(1);
                if evn != 0 {
                    return format!("{lab}iter!(h::one({evn}, {s}))");
                }
                format!("{lab}iter!([{s}])")
            }
            W::Id => {
                let s = self.without_temps(|em| em.ex(e));
                format!("h::id({s})")
            }
            W::Ev => {
                let s = self.without_temps(|em| em.ex(e));
                ev(s, evn)
            }
            W::FragOne => {
                let s = self.ex(e);
                format!("{}frag!({s})", self.lab(0))
            }
            W::MatchOne => {
                let s = self.without_temps(|em| em.ex(e));
                let n = self.name("o");
                format!("match ({s}) {{ {n} => {n} }}")
            }
            W::Stmts => {
                let s = self.without_temps(|em| em.ex(e));
                format!("{{ {} {s} }}", effect(evn))
            }
        }
    }

    fn comp(&mut self, shape: u8, order: u8, args: &[Ex]) -> String {
        let shape = shape % 4;
        let name = ["card", "wrapper", "pair", "flagged"][shape as usize];
        if !self.comps.contains(&name.to_string()) {
            self.comps.push(name.into());
            let l = self.root;
            let r = format!("{l}::Render");
            let m = self.lab(0);
            self.items.push_str(&match shape {
                0 => format!("#[{l}::laby]\nfn card(title: impl {r}, #[rest] children: impl {r}) -> impl {r} {{ {m}article!({m}h1!(title), children) }}\n"),
                1 => format!("#[{l}::laby]\nfn wrapper(#[rest] children: impl {r}, #[default(\"d<\")] class: impl {r}) -> impl {r} {{ {m}section!(class = class, children) }}\n"),
                2 => format!("#[{l}::laby]\nfn pair(a: impl {r}, #[default(())] b: impl {r}) -> impl {r} {{ {m}frag!(a, \"|\", b) }}\n"),
                _ => format!("#[{l}::laby]\nfn flagged(#[default] on: ::core::primitive::bool, #[rest] c: impl {r}) -> impl {r} {{ {m}p!(hidden = bool!(on), c) }}\n"),
            });
        }
        let mut texts: Vec<String> = vec![];
        for a in args.iter().take(comp_max(shape)) {
            let t = self.without_temps(|em| em.ex(a));
            texts.push(t);
        }
        let o = order as usize;
        let parts: Vec<String> = match shape {
            0 => {
                let (first, rest) = split_first(&texts, "()");
                let mut r: Vec<String> = rest;
                let at = o % (r.len() + 1);
                r.insert(at, format!("title = {first}"));
                r
            }
            1 => {
                let mut r = texts.clone();
                if o % 3 == 1 && !r.is_empty() {
                    let f = r.remove(0);
                    let at = (o / 3) % (r.len() + 1);
                    r.insert(at, format!("class = {f}"));
                }
                r
            }
            2 => {
                let (a, rest) = split_first(&texts, "()");
                let mut r = vec![format!("a = {a}")];
                if let Some(b) = rest.first() {
                    r.insert(o % 2, format!("b = {b}"));
                }
                r
            }
            _ => {
                let mut r = texts.clone();
                let at = (o / 3) % (r.len() + 1);
                match o % 3 {
                    0 => {}
                    1 => r.insert(at, "on = true".into()),
                    _ => r.insert(at, format!("on = v.b[{}]", order % NB)),
                }
                r
            }
        };
        format!("{name}!({})", parts.join(", "))
    }
}

/// How many values a component takes.
fn comp_max(shape: u8) -> usize {
    if shape == 2 {
        2
    } else {
        usize::MAX
    }
}

fn split_first(t: &[String], none: &str) -> (String, Vec<String>) {
    match t.split_first() {
        Some((f, r)) => (f.clone(), r.to_vec()),
        None => (none.into(), vec![]),
    }
}

/// The text is one block for sure (and not e.g. a block and an operator).
fn is_block(s: &str) -> bool {
    let mut d = 0i32;
    for (i, c) in s.char_indices() {
        match c {
            '"' | '\'' => return false,
            '{' => d += 1,
            '}' => {
                d -= 1;
                if d == 0 && i + 1 != s.len() {
                    return false;
                }
            }
            _ => {}
        }
    }
    true
}

fn ev(s: String, n: u32) -> String {
    if n == 0 {
        s
    } else {
        format!("h::ev({n}, {s})")
    }
}

pub fn delimit(name: &str, inner: &str, delim: u8) -> String {
    match delim % 3 {
        0 => format!("{name}!({inner})"),
        1 => format!("{name}![{inner}]"),
        _ => format!("{name}! {{ {inner} }}"),
    }
}

pub fn wrap_lit(s: &str, w: u8) -> String {
    match w % 8 {
        1 => format!("({s})"),
        2 => format!("{{ {s} }}"),
        3 => format!("(({s}))"),
        4 => format!("({{ {s} }})"),
        _ => s.into(),
    }
}

pub const ITER_DELIMS: [(&str, &str); 4] = [("", ""), ("\", \", ", ", "), ("\" <&> \", ", " <&> "), ("\"\\n\", ", "\n")];

/// A statement.
fn effect(n: u32) -> String {
    if n == 0 {
        return "{ let _ = v.b[0]; }".into();
    }
    match n % 6 {
        0 => format!("h::ev({n}, ());"),
        1 => format!("let _ = h::ev({n}, 1);"),
        2 => format!("if h::ev({n}, true) {{ }}"),
        3 => format!("h::ev({n}, {{ }});"),
        4 => format!("for _ in 0..1 {{ h::ev({n}, 0); }}"),
        _ => format!("{{ h::ev({n}, ()); }};"),
    }
}

pub const LEAVES: u8 = 57;
/// A block of a statement.
pub const EFFECT: u8 = 51;
/// A value that changes between construction and rendering (only with the log).
pub const CELL: u8 = 50;

/// Kinds that write raw text.
pub fn leaf_is_raw(kind: u8) -> bool {
    matches!(kind % LEAVES, 25 | 35)
}

pub fn leaf_src(kind: u8, k: u8, temps: bool, std: bool, root: &str) -> String {
    let (s, i, b, c, o, l, f) = (k % NS, k % NI, k % NB, k % NC, k % NO, k % NL, k % NF);
    let (s2, b2) = ((k / 2 + 1) % NS, (k / 3 + 1) % NB);
    match kind % LEAVES {
        0 => format!("v.s[{s}].as_str()"),
        1 => format!("&*v.s[{s}]"),
        2 => format!("v.s[{s}].clone()"),
        3 => format!("&v.s[{s}][..]"),
        4 => format!("if v.b[{b}] {{ v.s[{s}].as_str() }} else {{ v.s[{s2}].as_str() }}"),
        5 => format!("match v.b[{b}] {{ true => v.s[{s}].clone(), false => v.s[{s2}].clone() }}"),
        6 => format!("{{ let t1 = v.s[{s}].as_str(); t1 }}"),
        7 => format!("(|| v.s[{s}].as_str())()"),
        8 => format!("unsafe {{ ::core::str::from_utf8_unchecked(v.s[{s}].as_bytes()) }}"),
        9 => format!("loop {{ break v.s[{s}].as_str() }}"),
        10 => format!("'lbl: {{ if v.b[{b}] {{ break 'lbl v.s[{s}].as_str() }} v.s[{s2}].as_str() }}"),
        11 => format!("v.i[{i}]"),
        12 => format!("v.i[{i}] as u8"),
        13 => format!("-(v.i[{i}] as i8 as i16)"),
        14 => format!("v.i[{i}] < 3"),
        15 => format!("!v.b[{b}]"),
        16 => format!("v.b[{b}] && v.b[{b2}]"),
        17 => format!("v.b[{b}]"),
        18 => format!("v.c[{c}]"),
        19 => format!("v.o[{o}].as_deref()"),
        20 => format!("v.o[{o}].clone()"),
        21 => format!("v.o[{o}].as_deref().unwrap_or(\"<none>\")"),
        22 => "h::STR".into(),
        23 => "concat!(\"a<\", 1, true)".into(),
        24 => "stringify!(x)".into(),
        25 => format!("{root}::raw!(v.s[{s}].as_str())"),
        26 => format!("{root}::RenderDisplay(&v.s[{s}])"),
        27 => format!("h::cow(&v.s[{s}])"),
        28 => format!("v.f[{f}]"),
        29 => format!("v.g[{f}]"),
        30 => "()".into(),
        31 => format!("{root}::iter!(v.l[{l}].iter().map(|x| x.as_str()))"),
        32 => format!("{root}::iter!(\", <\", v.l[{l}].iter().cloned())"),
        33 => format!("{root}::iter_lines!(v.l[{l}].iter().map(|x| &x[..]))"),
        34 => format!("v.s[{s}].len()"),
        35 => format!("{root}::DocType::HTML5"),
        36 => format!("h::id::<&str>(v.s[{s}].as_str())"),
        37 => format!("*&v.i[{i}]"),
        38 => format!("(v.i[{i}], 1).0"),
        39 => format!("h::S {{ x: v.i[{i}] }}.x"),
        40 => format!("v.s[{s}].chars().next().unwrap_or('&')"),
        41 => format!("h::id_mac!(v.s[{s}].as_str())"),
        42 => format!("v.s[{s}].as_bytes()[..].len() as u32 as u64"),
        43 => format!("h::fmt2(&v.s[{s}], v.i[{i}])"),
        44 if temps && std && k >= 128 => format!("format_args!(\"{{:<<4}}{{:\\\">3}}{{:?}}\", v.c[{c}], 'x', v.s[{s}])"),
        44 if temps && std => format!("format_args!(\"{{}}&{{}}\", v.s[{s}], v.i[{i}])"),
        44 => format!("h::fmt2(&v.s[{s}], v.i[{i}])"),
        45 => format!("::core::num::NonZeroU64::new(v.i[{i}] as u64)"),
        46 => format!("h::NUM + v.l[{l}].len() as u32"),
        47 => format!("v.i[{i}] as i128 * 1_000_000_000_000"),
        48 => format!("h::cow_owned(&v.s[{s}])"),
        CELL => format!("h::cell({})", k % 8),
        EFFECT => format!("{{ {} }}", effect(0)),
        52 => format!("{root}::RenderDisplay(h::Chars(&v.s[{s}]))"),
        53 => format!("{root}::RenderDisplay(h::Fill(&v.s[{s}], v.c[{c}]))"),
        54 => format!("{root}::RenderDisplay(h::Shown(&v.s[{s}]))"),
        55 => format!("{root}::RenderDisplay(v.c[{c}])"),
        56 => format!("{root}::RenderDisplay(v.s[{s}].escape_default())"),
        _ => format!("v.s[{s}].split('<').next().unwrap_or(\"\")"),
    }
}

/// What a leaf renders, before escaping.
pub fn leaf_text(kind: u8, k: u8, temps: bool, v: &Vals) -> String {
    let (s, i, b, c, o, l, f) =
        ((k % NS) as usize, (k % NI) as usize, (k % NB) as usize, (k % NC) as usize, (k % NO) as usize, (k % NL) as usize, (k % NF) as usize);
    let (s2, b2) = (((k / 2 + 1) % NS) as usize, ((k / 3 + 1) % NB) as usize);
    let s = v.s[s].clone();
    let s2 = v.s[s2].clone();
    let i = v.i[i];
    match kind % LEAVES {
        4 | 5 | 10 => {
            if v.b[b] {
                s
            } else {
                s2
            }
        }
        11 | 37 | 38 | 39 => i.to_string(),
        12 => (i as u8).to_string(),
        13 => (-(i as i8 as i16)).to_string(),
        14 => (i < 3).to_string(),
        15 => (!v.b[b]).to_string(),
        16 => (v.b[b] && v.b[b2]).to_string(),
        17 => v.b[b].to_string(),
        18 => v.c[c].to_string(),
        19 | 20 => v.o[o].clone().unwrap_or_default(),
        21 => v.o[o].clone().unwrap_or("<none>".into()),
        22 => "const<&>".into(),
        23 => "a<1true".into(),
        24 => "x".into(),
        28 => ryu::Buffer::new().format(v.f[f]).into(),
        29 => ryu::Buffer::new().format(v.g[f]).into(),
        30 => String::new(),
        31 => v.l[l].concat(),
        33 => v.l[l].join("\n"),
        34 | 42 => s.len().to_string(),
        35 => "<!DOCTYPE html>".into(),
        40 => s.chars().next().unwrap_or('&').to_string(),
        44 if temps && k >= 128 => format!("{:<<4}{:\">3}{:?}", v.c[c], 'x', s),
        44 if temps => format!("{s}&{i}"),
        43 | 44 => format!("{s}<{i}>"),
        45 => std::num::NonZeroU64::new(i as u64).map(|x| x.to_string()).unwrap_or_default(),
        46 => (4321 + v.l[l].len() as u32).to_string(),
        47 => (i as i128 * 1_000_000_000_000).to_string(),
        CELL => (100 + k % 8).to_string(),
        EFFECT => String::new(),
        53 => format!("{:<<9}{:'>4}{:&^5}{:\">3}", s, v.c[c], 'x', 1),
        54 => format!("{:?}", s),
        55 => v.c[c].to_string(),
        56 => s.escape_default().to_string(),
        49 => s.split('<').next().unwrap_or("").into(),
        _ => s,
    }
}

pub const NAMES: u8 = 8;
fn name_src(kind: u8, k: u8, lab: &str) -> String {
    let n = k % NN;
    match kind % NAMES {
        0 => format!("v.n[{n}].as_str()"),
        1 => format!("(v.n[{n}].clone())"),
        2 => format!("{{ let t = v.n[{n}].as_str(); t }}"),
        3 => "h::NAME".into(),
        4 => format!("{lab}frag!(\"data-\", v.n[{n}].as_str())"),
        5 => format!("if v.b[{}] {{ v.n[{n}].as_str() }} else {{ \"other\" }}", k % NB),
        6 => "::core::concat!(\"data-\", 1)".into(),
        _ => format!("&v.n[{n}][..]"),
    }
}
fn name_text(kind: u8, k: u8, v: &Vals) -> String {
    let n = v.n[(k % NN) as usize].clone();
    match kind % NAMES {
        3 => "data-const".into(),
        4 => format!("data-{n}"),
        5 if !v.b[(k % NB) as usize] => "other".into(),
        6 => "data-1".into(),
        _ => n,
    }
}

fn scrut_src(s: &Scrut) -> String {
    match s.kind % SCRUTS {
        0 => format!("v.i[{}]", s.k % NI),
        1 => format!("v.o[{}].as_deref()", s.k % NO),
        2 => format!("v.s[{}].as_str()", s.k % NS),
        3 => format!("v.l[{}].as_slice()", s.k % NL),
        5 => format!("h::mix(v, {}, {}, {})", s.k % NB, s.k % NS, s.k % NI),
        7 => format!("v.b[{}]", s.k % NB),
        6 => format!("(v.o[{}].as_deref(), v.i[{}], v.s[{}].as_str())", s.k % NO, s.k % NI, s.k % NS),
        _ => format!("(v.b[{}], v.b[{}])", s.k % NB, (s.k / 2 + 1) % NB),
    }
}

fn pat_src(s: &Scrut, p: &Pat, x: &str) -> (String, Option<Ty>) {
    let (t, ty) = match (s.kind % SCRUTS, p.0 % 7) {
        (_, 6) => ("_".into(), None),
        (0, 0) => ("0".into(), None),
        (0, 1) => ("1 | 2".into(), None),
        (0, 2) => ("3..=9".into(), None),
        (0, 3) => (format!("{x} @ -100..=-1"), Some(Ty::Int)),
        (0, 4) => (format!("{x} @ (5 | 99 | 100)"), Some(Ty::Int)),
        (0, _) => (x.to_string(), Some(Ty::Int)),
        (1, 0) => ("::core::option::Option::Some(\"\")".into(), None),
        (1, 1) => ("::core::option::Option::None".into(), None),
        (1, 2) => ("::core::option::Option::Some(\"a\" | \"<b>\")".into(), None),
        (1, _) => (format!("::core::option::Option::Some({x})"), Some(Ty::Str)),
        (2, 0) => ("\"\"".into(), None),
        (2, 1) => ("\"a\" | \"<b>\"".into(), None),
        (2, 2) => (format!("{x} @ \"x & y\""), Some(Ty::Str)),
        (2, _) => (x.to_string(), Some(Ty::Str)),
        (3, 0) => ("[]".into(), None),
        (3, 1) => (format!("[{x}]"), Some(Ty::Str)),
        (3, 2) => (format!("[_, {x}, ..]"), Some(Ty::Str)),
        (3, 3) => (format!("[.., {x}]"), Some(Ty::Str)),
        (3, 4) => (format!("[{x}, _, _]"), Some(Ty::Str)),
        (3, _) => ("[_, _]".into(), None),
        (4, 0) => ("(true, true)".into(), None),
        (4, 1) => ("(true, _)".into(), None),
        (4, 2) => ("(_, false)".into(), None),
        (4, 3) => ("(false, true) | (true, false)".into(), None),
        (4, 4) => ("(false, ..)".into(), None),
        (5, 0 | 4) => (format!("h::Mix::Text({x})"), Some(Ty::Text)),
        (5, 1 | 5) => (format!("h::Mix::Num({x})"), Some(Ty::Int)),
        (5, 2) => (format!("h::Mix::Num({x} @ 0..=9)"), Some(Ty::Int)),
        (5, _) => ("h::Mix::Nothing".into(), None),
        (6, 0) => (format!("(::core::option::Option::Some({x}), _, _)"), Some(Ty::Text)),
        (6, 1) => (format!("(_, {x} @ 0..=99, _)"), Some(Ty::Int)),
        (6, 2) => (format!("(_, _, {x} @ (\"a\" | \"<b>\" | \"\"))"), Some(Ty::Text)),
        (6, 3) => (format!("(.., {x})"), Some(Ty::Text)),
        (6, 4) => (format!("(_, {x}, ..)"), Some(Ty::Int)),
        (6, _) => ("(::core::option::Option::None, ..)".into(), None),
        (7, 0 | 3) => ("true".into(), None),
        (7, 1 | 4) => ("false".into(), None),
        (7, _) => ("true | false".into(), None),
        _ => ("(_, _)".into(), None),
    };
    (t, ty)
}

/// As `tick` of the log.
fn tick(n: i64, at: u32) -> bool {
    (n as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> (32 + at % 32) & 1 == 1
}

/// As `mix` of the harness.
fn mix(v: &Vals, k: u8) -> Option<Val> {
    let (b, s, i) = (v.b[(k % NB) as usize], &v.s[(k % NS) as usize], v.i[(k % NI) as usize]);
    if b {
        Some(Val::Str(s.clone()))
    } else if i % 3 == 0 && i != 0 {
        None
    } else {
        Some(Val::Int(i))
    }
}

fn pat_match(s: &Scrut, p: &Pat, v: &Vals) -> Option<Option<Val>> {
    let st = |x: &str| Some(Some(Val::Str(x.into())));
    let yes = |b: bool| if b { Some(None) } else { None };
    if p.0 % 7 == 6 {
        return yes(true);
    }
    match s.kind % SCRUTS {
        0 => {
            let i = v.i[(s.k % NI) as usize];
            match p.0 % 7 {
                0 => yes(i == 0),
                1 => yes(i == 1 || i == 2),
                2 => yes((3..=9).contains(&i)),
                3 => (-100..=-1).contains(&i).then(|| Some(Val::Int(i))),
                4 => matches!(i, 5 | 99 | 100).then(|| Some(Val::Int(i))),
                _ => Some(Some(Val::Int(i))),
            }
        }
        1 => {
            let o = v.o[(s.k % NO) as usize].as_deref();
            match p.0 % 7 {
                0 => yes(o == Some("")),
                1 => yes(o.is_none()),
                2 => yes(o == Some("a") || o == Some("<b>")),
                _ => o.and_then(st),
            }
        }
        2 => {
            let x = v.s[(s.k % NS) as usize].as_str();
            match p.0 % 7 {
                0 => yes(x.is_empty()),
                1 => yes(x == "a" || x == "<b>"),
                2 => {
                    if x == "x & y" {
                        st(x)
                    } else {
                        None
                    }
                }
                _ => st(x),
            }
        }
        3 => {
            let l = &v.l[(s.k % NL) as usize];
            match p.0 % 7 {
                0 => yes(l.is_empty()),
                1 if l.len() == 1 => st(&l[0]),
                2 if l.len() >= 2 => st(&l[1]),
                3 if !l.is_empty() => st(l.last().unwrap()),
                4 if l.len() == 3 => st(&l[0]),
                5 => yes(l.len() == 2),
                _ => None,
            }
        }
        5 => {
            let m = mix(v, s.k);
            match (p.0 % 7, &m) {
                (0 | 4, Some(Val::Str(_))) | (1 | 5, Some(Val::Int(_))) | (2, Some(Val::Int(0..=9))) => Some(m),
                (3, None) => Some(None),
                _ => None,
            }
        }
        6 => {
            let (o, i, x) = (v.o[(s.k % NO) as usize].as_deref(), v.i[(s.k % NI) as usize], v.s[(s.k % NS) as usize].as_str());
            match p.0 % 7 {
                0 => o.and_then(st),
                1 if (0..=99).contains(&i) => Some(Some(Val::Int(i))),
                2 if matches!(x, "a" | "<b>" | "") => st(x),
                3 => st(x),
                4 => Some(Some(Val::Int(i))),
                5 => yes(o.is_none()),
                _ => None,
            }
        }
        7 => {
            let b = v.b[(s.k % NB) as usize];
            match p.0 % 7 {
                0 | 3 => yes(b),
                1 | 4 => yes(!b),
                _ => yes(true),
            }
        }
        _ => {
            let (a, b) = (v.b[(s.k % NB) as usize], v.b[((s.k / 2 + 1) % NB) as usize]);
            match p.0 % 7 {
                0 => yes(a && b),
                1 => yes(a),
                2 => yes(!b),
                3 => yes(a != b),
                4 => yes(!a),
                _ => yes(true),
            }
        }
    }
}

// ---- meaning ----

/// A piece of a document.
#[derive(Clone, Debug, PartialEq)]
pub enum H {
    El { tag: &'static str, void: bool, attrs: Vec<(Vec<H>, Option<Vec<H>>)>, kids: Vec<H> },
    Text(String),
    Raw(String),
}

pub fn html(hs: &[H], o: &mut String) {
    for h in hs {
        match h {
            H::Text(t) => o.push_str(&esc(t)),
            H::Raw(t) => o.push_str(t),
            H::El { tag, void, attrs, kids } => {
                o.push('<');
                o.push_str(tag);
                for (n, v) in attrs {
                    o.push(' ');
                    html(n, o);
                    if let Some(v) = v {
                        o.push_str("=\"");
                        html(v, o);
                        o.push('"');
                    }
                }
                o.push('>');
                if !void {
                    html(kids, o);
                    o.push_str("</");
                    o.push_str(tag);
                    o.push('>');
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Halt {
    Return,
    Panic,
}

pub struct Env<'a> {
    pub v: &'a Vals,
    pub binds: Vec<Val>,
    /// Evaluations, at construction.
    pub log: Vec<String>,
    /// Tracked values rendered.
    pub rendered: Vec<String>,
    pub drops: Vec<String>,
    pub temps: bool,
    pub std: bool,
    pub closures: usize,
    ticks: u32,
    silent: bool,
}

pub type R = Result<Vec<H>, Halt>;

impl<'a> Env<'a> {
    pub fn new(v: &'a Vals) -> Env<'a> {
        Env { v, binds: vec![], log: vec![], rendered: vec![], drops: vec![], temps: true, std: true, closures: 0, ticks: 0, silent: false }
    }

    pub fn text(&mut self, e: &Ex) -> Result<String, Halt> {
        let h = self.ex(e)?;
        let mut o = String::new();
        html(&h, &mut o);
        Ok(o)
    }

    fn note(&mut self, ev: u32, tr: bool) {
        if ev != 0 {
            self.log.push(format!("e{ev}"));
            if tr {
                self.drops.push(format!("d{ev}"));
                if !self.silent {
                    self.rendered.push(format!("r{ev}"));
                }
            }
        }
    }

    fn without_temps<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        let t = std::mem::replace(&mut self.temps, false);
        let r = f(self);
        self.temps = t;
        r
    }

    fn bind(&self, k: u8) -> Option<Val> {
        if self.binds.is_empty() {
            None
        } else {
            Some(self.binds[self.binds.len() - 1 - (k as usize % self.binds.len())].clone())
        }
    }

    pub fn cond(&mut self, c: &Cond) -> bool {
        let v = self.v;
        let (k, k2) = (c.k, c.k2);
        let b = |k: u8| v.b[(k % NB) as usize];
        if c.kind == TICK {
            self.ticks += 1;
            return tick(v.i[(k % NI) as usize], self.ticks - 1);
        }
        if c.ev != 0 {
            self.log.push(format!("e{}", c.ev));
        }
        match c.kind % COND_PLAIN {
            0 => b(k),
            1 => b(k) && !b(k2),
            2 => v.i[(k % NI) as usize] > 0,
            3 => v.s[(k % NS) as usize].is_empty(),
            4 => v.o[(k % NO) as usize].is_some(),
            5 => match self.bind(k) {
                Some(Val::Str(s)) => s.len() % 2 == 0,
                Some(Val::Int(n)) => n % 2 == 0,
                None => b(k) | b(k2),
            },
            6 => b(k) != b(k2),
            7 => v.l[(k % NL) as usize].len() >= 2,
            8 => [true, false, true, true, true, false, true][k as usize % 7],
            9 => (0..=9).contains(&v.i[(k % NI) as usize]),
            10 => [false, true, true, false, true][k as usize % 5],
            11 | 12 | 18 | 24 | 25 | 26 | 27 => b(k),
            13 => b(k) && k2 % 2 == 0,
            14 => [true, false, true, false, true, false][k as usize % 6],
            15 => b(k) || b(k2),
            16 | 20 => !b(k),
            17 | 22 | 23 => k % 2 == 0,
            19 => v.s[(k % NS) as usize] == "a",
            _ => true,
        }
    }

    fn if_cond(&mut self, c: &Cond) -> (bool, Option<Val>) {
        let v = self.v;
        match if c.kind == TICK { 0 } else { c.kind % COND_ALL } {
            k @ BIND_OPTION..=BIND_RANGE => {
                if c.ev != 0 {
                    self.log.push(format!("e{}", c.ev));
                }
                match k {
                    BIND_OPTION => match &v.o[(c.k % NO) as usize] {
                        Some(s) => (true, Some(Val::Str(s.clone()))),
                        None => (false, None),
                    },
                    BIND_SLICE => match v.l[(c.k % NL) as usize].first() {
                        Some(s) => (true, Some(Val::Str(s.clone()))),
                        None => (false, None),
                    },
                    _ => {
                        let i = v.i[(c.k % NI) as usize];
                        if (0..=99).contains(&i) {
                            (true, Some(Val::Int(i)))
                        } else {
                            (false, None)
                        }
                    }
                }
            }
            _ => (self.cond(c), None),
        }
    }

    pub fn ex(&mut self, e: &Ex) -> R {
        Ok(match e {
            Ex::Lit(l, _) => vec![H::Text(l.plain.clone())],
            Ex::Leaf { kind, k, ev, tr } => {
                self.note(*ev, *tr);
                leaf_h(*kind, *k, self.temps && self.std && *ev == 0, self.v)
            }
            Ex::Bind(k) => match self.bind(*k) {
                Some(Val::Str(s)) => vec![H::Text(s)],
                Some(Val::Int(n)) => vec![H::Text(n.to_string())],
                None => leaf_h(0, *k, false, self.v),
            },
            Ex::El { tag, items, .. } => self.el(*tag, items)?,
            Ex::Wrap(w, e, ev) => {
                if matches!(w, W::Ev | W::Stmts) {
                    self.note(*ev, false);
                }
                if *w == W::IterOne && *ev != 0 {
                    self.note(*ev, false);
                    self.drops.push(format!("d{ev}"));
                }
                let cl = self.closures;
                match w {
                    W::Closure => self.closures += 1,
                    W::Func => self.closures = 1,
                    _ => {}
                }
                let r = match w {
                    W::Paren | W::FragOne => self.ex(e),
                    _ => self.without_temps(|s| s.ex(e)),
                };
                self.closures = cl;
                r?
            }
            Ex::IterMap { l, delim, body } => {
                let list = self.v.l[(l % NL) as usize].clone();
                let mut o = vec![];
                self.closures += 1;
                for (i, x) in list.iter().enumerate() {
                    if i > 0 {
                        o.push(H::Raw(ITER_DELIMS[*delim as usize % 4].1.into()));
                    }
                    self.binds.push(Val::Str(x.clone()));
                    let r = self.without_temps(|s| s.ex(body));
                    self.binds.pop();
                    o.extend(r?);
                }
                self.closures -= 1;
                o
            }
            Ex::If { arms, els } => {
                for (c, e) in arms {
                    let (yes, b) = self.if_cond(c);
                    if yes {
                        let has = b.is_some();
                        if let Some(b) = b {
                            self.binds.push(b);
                        }
                        let r = self.without_temps(|s| s.ex(e));
                        if has {
                            self.binds.pop();
                        }
                        return r;
                    }
                }
                match els {
                    Some(e) => self.without_temps(|s| s.ex(e))?,
                    None => vec![],
                }
            }
            Ex::Match { scrut, arms, last } => {
                if scrut.ev != 0 {
                    self.log.push(format!("e{}", scrut.ev));
                }
                for (p, g, e) in arms {
                    if let Some(b) = pat_match(scrut, p, self.v) {
                        let has = b.is_some();
                        if let Some(b) = b {
                            self.binds.push(b);
                        }
                        let ok = match g {
                            Some(g) => self.cond(g),
                            None => true,
                        };
                        let r = if ok { Some(self.without_temps(|s| s.ex(e))) } else { None };
                        if has {
                            self.binds.pop();
                        }
                        if let Some(r) = r {
                            return r;
                        }
                    }
                }
                self.without_temps(|s| s.ex(last))?
            }
            Ex::Comp { shape, order, args } => self.comp(*shape, *order, args)?,
            Ex::Diverge(k) => return Err(if self.closures > 0 || k % 3 == 2 { Halt::Panic } else { Halt::Return }),
        })
    }

    fn el(&mut self, tag: u16, items: &[Item]) -> R {
        let mut attrs = vec![];
        let mut kids: Vec<Vec<H>> = vec![];
        for it in items {
            match it {
                Item::Attr(n, v) => {
                    if is_frag(tag) {
                        continue;
                    }
                    let n = self.attr_name(n);
                    attrs.push((n, Some(self.ex(v)?)));
                }
                Item::Bool(n, c, _) => {
                    if is_frag(tag) {
                        continue;
                    }
                    let on = match c {
                        BoolCond::Const(b, _) => *b,
                        BoolCond::Dyn(c) => self.cond(c),
                    };
                    self.silent = !on;
                    let n = self.attr_name(n);
                    self.silent = false;
                    if on {
                        attrs.push((n, None));
                    }
                }
                Item::Child(c) => {
                    if is_void(tag) {
                        continue;
                    }
                    kids.push(self.ex(c)?);
                }
            }
        }
        if is_frag(tag) {
            let mut o = vec![];
            for (i, k) in kids.into_iter().enumerate() {
                if i > 0 && tag == CLASSES {
                    o.push(H::Raw(" ".into()));
                }
                o.extend(k);
            }
            return Ok(o);
        }
        Ok(vec![H::El { tag: tag_name(tag), void: is_void(tag), attrs, kids: kids.concat() }])
    }

    fn attr_name(&mut self, n: &Name) -> Vec<H> {
        vec![H::Text(match n {
            Name::Ident(k) => IDENTS[*k as usize % IDENTS.len()].into(),
            Name::Raw(k) => RAWS[*k as usize % RAWS.len()].into(),
            Name::Lit(l, _) => l.plain.clone(),
            Name::Dyn { kind, k, ev, tr } => {
                self.note(*ev, *tr);
                name_text(*kind, *k, self.v)
            }
        })]
    }

    fn comp(&mut self, shape: u8, order: u8, args: &[Ex]) -> R {
        let mut hs = vec![];
        for a in args.iter().take(comp_max(shape % 4)) {
            hs.push(self.without_temps(|s| s.ex(a))?);
        }
        let o = order as usize;
        let el = |tag, attrs, kids| H::El { tag, void: false, attrs, kids };
        let text = |s: &str| vec![H::Text(s.to_string())];
        Ok(match shape % 4 {
            0 => {
                let title = if hs.is_empty() { vec![] } else { hs.remove(0) };
                let mut k = vec![el("h1", vec![], title)];
                k.extend(hs.concat());
                vec![el("article", vec![], k)]
            }
            1 => {
                let class = if o % 3 == 1 && !hs.is_empty() { hs.remove(0) } else { text("d<") };
                vec![el("section", vec![(text("class"), Some(class))], hs.concat())]
            }
            2 => {
                let mut k = if hs.is_empty() { vec![] } else { hs.remove(0) };
                k.push(H::Text("|".into()));
                if !hs.is_empty() {
                    k.extend(hs.remove(0));
                }
                k
            }
            _ => {
                let on = match o % 3 {
                    0 => false,
                    1 => true,
                    _ => self.v.b[(order % NB) as usize],
                };
                vec![el("p", if on { vec![(text("hidden"), None)] } else { vec![] }, hs.concat())]
            }
        })
    }
}

fn leaf_h(kind: u8, k: u8, temps: bool, v: &Vals) -> Vec<H> {
    if kind % LEAVES == 32 {
        // the delimiter is raw, the items are not
        let l = &v.l[(k % NL) as usize];
        let mut o = vec![];
        for (i, x) in l.iter().enumerate() {
            if i > 0 {
                o.push(H::Raw(", <".into()));
            }
            o.push(H::Text(x.clone()));
        }
        return o;
    }
    let t = leaf_text(kind, k, temps, v);
    vec![if leaf_is_raw(kind) { H::Raw(t) } else { H::Text(t) }]
}

impl Ex {
    /// Visits all parts.
    pub fn walk(&mut self, f: &mut dyn FnMut(&mut Ex)) {
        f(self);
        match self {
            Ex::El { items, .. } => {
                for it in items {
                    match it {
                        Item::Attr(_, e) | Item::Child(e) => e.walk(f),
                        Item::Bool(..) => {}
                    }
                }
            }
            Ex::Wrap(_, e, _) => e.walk(f),
            Ex::IterMap { body, .. } => body.walk(f),
            Ex::If { arms, els } => {
                arms.iter_mut().for_each(|(_, e)| e.walk(f));
                if let Some(e) = els {
                    e.walk(f)
                }
            }
            Ex::Match { arms, last, .. } => {
                arms.iter_mut().for_each(|(_, _, e)| e.walk(f));
                last.walk(f);
            }
            Ex::Comp { args, .. } => args.iter_mut().for_each(|e| e.walk(f)),
            _ => {}
        }
    }

    /// Makes the conditions of one chain of branches depend on how often they are asked.
    pub fn tick(&mut self) -> bool {
        let mut done = false;
        self.walk(&mut |e| {
            if done {
                return;
            }
            let conds: Vec<&mut Cond> = match e {
                Ex::If { arms, .. } => arms.iter_mut().map(|a| &mut a.0).collect(),
                Ex::Match { arms, .. } => arms.iter_mut().filter_map(|a| a.1.as_mut()).collect(),
                _ => return,
            };
            if conds.len() > 1 {
                done = true;
                let k = conds[0].k;
                for c in conds {
                    *c = Cond { kind: TICK, k, k2: 0, ev: 0 };
                }
            }
        });
        done
    }

    /// Numbers the evaluations to be logged.
    /// Of eight, about `sparse` are left out.
    /// Below `alike` if that is not 0, so that different places are written alike.
    pub fn number(&mut self, next: &mut u32, track: bool, alike: u32, sparse: u32) {
        self.walk(&mut |e| {
            let mut id = || {
                *next += 1;
                if sparse > 0 && next.wrapping_mul(2654435761) >> 20 & 7 < sparse {
                    return 0;
                }
                match alike {
                    0 => *next,
                    m => 1 + *next % m,
                }
            };
            match e {
                Ex::Leaf { kind, ev, tr, .. } => {
                    *ev = id();
                    *tr = track && *ev % 2 == 1 && *kind != EFFECT && *ev != 0;
                }
                Ex::Wrap(W::Ev | W::Stmts, _, ev) => *ev = id(),
                Ex::Wrap(W::IterOne, _, ev) if track => *ev = id(),
                Ex::El { items, .. } => {
                    for it in items {
                        match it {
                            Item::Attr(n, _) | Item::Bool(n, BoolCond::Const(true, _), _) => {
                                if let Name::Dyn { ev, tr, .. } = n {
                                    *ev = id();
                                    *tr = track && *ev != 0;
                                }
                            }
                            Item::Bool(n, BoolCond::Const(false, _), _) => {
                                // not part of the node at all
                                if let Name::Dyn { .. } = n {
                                    *n = Name::Ident(0);
                                }
                            }
                            Item::Bool(n, BoolCond::Dyn(c), _) => {
                                c.ev = id();
                                if let Name::Dyn { ev, tr, .. } = n {
                                    *ev = id();
                                    *tr = track && *ev != 0;
                                }
                            }
                            _ => {}
                        }
                    }
                }
                Ex::If { arms, .. } => arms.iter_mut().for_each(|(c, _)| c.ev = id()),
                Ex::Match { scrut, arms, .. } => {
                    scrut.ev = id();
                    for (_, g, _) in arms {
                        if let Some(g) = g {
                            g.ev = id()
                        }
                    }
                }
                _ => {}
            }
        });
    }

    pub fn count(&self, f: &mut dyn FnMut(&Ex) -> usize) -> usize {
        let mut n = 0;
        let mut c = self.clone();
        c.walk(&mut |e| n += f(e));
        n
    }

    pub fn depth(&self) -> usize {
        match self {
            Ex::El { items, .. } => {
                1 + items
                    .iter()
                    .map(|i| match i {
                        Item::Attr(_, e) | Item::Child(e) => e.depth(),
                        _ => 0,
                    })
                    .max()
                    .unwrap_or(0)
            }
            Ex::Wrap(_, e, _) => e.depth(),
            Ex::IterMap { body, .. } => body.depth(),
            _ => 0,
        }
    }
}
