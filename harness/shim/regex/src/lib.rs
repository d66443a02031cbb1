//! A backtracking matcher for the patterns plotline-cli makes.
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
#[non_exhaustive]
pub enum Error {
    Syntax(String),
    CompiledTooBig(usize),
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("regex parse error")
    }
}

impl std::error::Error for Error {}

fn wrong<T>(what: &str) -> Result<T, Error> {
    Err(Error::Syntax(what.into()))
}

#[derive(Debug, Clone)]
enum Re {
    Byte(u8),
    Any,
    /// Ranges of bytes, or all others; what is beyond ASCII counts as others.
    Class(Vec<(u8, u8)>, bool),
    Start,
    End,
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, usize, usize, bool),
    Group(usize, Box<Re>),
}

/// Where the groups matched.
type Groups = [std::cell::Cell<Option<(usize, usize)>>];

fn is_meta(b: u8) -> bool {
    matches!(
        b,
        b'\\' | b'.' | b'+' | b'*' | b'?' | b'(' | b')' | b'|' | b'[' | b']' | b'{' | b'}' | b'^' | b'$' | b'#' | b'&' | b'-' | b'~'
    )
}

/// As the crate's: what a pattern has to be for the text to match itself.
pub fn escape(text: &str) -> String {
    let mut out = String::new();
    for c in text.chars() {
        if c.is_ascii() && is_meta(c as u8) {
            out.push('\\');
        }
        out.push(c);
    }
    out
}

struct Parser<'a> {
    t: &'a [u8],
    i: usize,
    fold: bool,
    groups: usize,
    names: Vec<(String, usize)>,
}

/// A letter of either case.
fn either(b: u8) -> Re {
    let (l, u) = (b.to_ascii_lowercase(), b.to_ascii_uppercase());
    Re::Class(vec![(l, l), (u, u)], false)
}

impl Parser<'_> {
    fn alt(&mut self) -> Result<Re, Error> {
        let mut out = vec![self.cat()?];
        while self.i < self.t.len() && self.t[self.i] == b'|' {
            self.i += 1;
            out.push(self.cat()?);
        }
        Ok(if out.len() == 1 { out.pop().unwrap() } else { Re::Alt(out) })
    }
    fn number(&mut self) -> Option<usize> {
        let from = self.i;
        while self.t.get(self.i).is_some_and(|b| b.is_ascii_digit()) {
            self.i += 1;
        }
        std::str::from_utf8(&self.t[from..self.i]).ok()?.parse().ok()
    }
    /// After the opening brace, up to the closing one.
    fn count(&mut self) -> Result<(usize, usize), Error> {
        let Some(min) = self.number() else {
            return wrong("repetition quantifier expects a valid decimal");
        };
        let mut max = min;
        if self.t.get(self.i) == Some(&b',') {
            self.i += 1;
            max = self.number().unwrap_or(usize::MAX);
        }
        if self.t.get(self.i) != Some(&b'}') {
            return wrong("unclosed counted repetition");
        }
        if min > max {
            return wrong("invalid repetition count range");
        }
        Ok((min, max))
    }
    fn set(b: u8) -> Option<Vec<(u8, u8)>> {
        match b {
            b'd' => Some(vec![(b'0', b'9')]),
            b'w' => Some(vec![(b'0', b'9'), (b'A', b'Z'), (b'a', b'z'), (b'_', b'_')]),
            b's' => Some(vec![(9, 13), (b' ', b' ')]),
            _ => None,
        }
    }
    /// After the opening bracket, up to the closing one.
    fn class(&mut self) -> Result<Re, Error> {
        let not = self.t.get(self.i) == Some(&b'^');
        if not {
            self.i += 1;
        }
        let mut out = Vec::new();
        loop {
            let Some(mut b) = self.t.get(self.i).copied() else {
                return wrong("unclosed character class");
            };
            match b {
                b']' if !out.is_empty() => return Ok(Re::Class(out, not)),
                b'[' | b'&' | b'~' => panic!("the model of regex does not know this class"),
                b'\\' => {
                    self.i += 1;
                    let Some(e) = self.t.get(self.i).copied() else {
                        return wrong("unclosed character class");
                    };
                    if let Some(r) = Self::set(e) {
                        out.extend(r);
                        self.i += 1;
                        continue;
                    }
                    if e.is_ascii_alphanumeric() {
                        panic!("the model of regex does not know this escape");
                    }
                    b = e;
                }
                _ => {}
            }
            self.i += 1;
            if self.t.get(self.i) == Some(&b'-') && self.t.get(self.i + 1).is_some_and(|b| *b != b']') {
                let to = self.t[self.i + 1];
                if to < b {
                    return wrong("invalid character class range");
                }
                out.push((b, to));
                self.i += 2;
            } else {
                out.push((b, b));
            }
        }
    }
    fn cat(&mut self) -> Result<Re, Error> {
        let mut out: Vec<Re> = Vec::new();
        while self.i < self.t.len() {
            let b = self.t[self.i];
            let e = match b {
                b'|' | b')' => break,
                b'(' => {
                    self.i += 1;
                    let mut group = None;
                    if self.t[self.i..].starts_with(b"?:") {
                        self.i += 2;
                    } else if self.t[self.i..].starts_with(b"?P<") || self.t[self.i..].starts_with(b"?<") {
                        self.i += if self.t[self.i + 1] == b'P' { 3 } else { 2 };
                        let from = self.i;
                        while self.t.get(self.i).is_some_and(|b| *b != b'>') {
                            self.i += 1;
                        }
                        self.groups += 1;
                        group = Some(self.groups);
                        self.names.push((String::from_utf8_lossy(&self.t[from..self.i]).into_owned(), self.groups));
                        self.i += 1;
                    } else if self.t[self.i..].starts_with(b"?i)") {
                        self.i += 3;
                        self.fold = true;
                        continue;
                    } else if self.t.get(self.i) == Some(&b'?') {
                        panic!("the model of regex does not know this group");
                    } else {
                        self.groups += 1;
                        group = Some(self.groups);
                    }
                    let e = self.alt()?;
                    if self.t.get(self.i) != Some(&b')') {
                        return wrong("unclosed group");
                    }
                    match group {
                        Some(n) => Re::Group(n, Box::new(e)),
                        None => e,
                    }
                }
                b'*' | b'+' | b'?' => {
                    let Some(e) = out.pop() else {
                        return wrong("repetition operator missing expression");
                    };
                    let lazy = self.t.get(self.i + 1) == Some(&b'?');
                    if lazy {
                        self.i += 1;
                    }
                    match b {
                        b'*' => Re::Rep(Box::new(e), 0, usize::MAX, lazy),
                        b'+' => Re::Rep(Box::new(e), 1, usize::MAX, lazy),
                        _ => Re::Rep(Box::new(e), 0, 1, lazy),
                    }
                }
                b'.' => Re::Any,
                b'^' => Re::Start,
                b'$' => Re::End,
                b'[' => {
                    self.i += 1;
                    self.class()?
                }
                b'{' => {
                    let Some(e) = out.pop() else {
                        return wrong("repetition operator missing expression");
                    };
                    self.i += 1;
                    let (min, max) = self.count()?;
                    let lazy = self.t.get(self.i + 1) == Some(&b'?');
                    if lazy {
                        self.i += 1;
                    }
                    Re::Rep(Box::new(e), min, max, lazy)
                }
                b'\\' => {
                    self.i += 1;
                    let Some(b) = self.t.get(self.i) else {
                        return wrong("incomplete escape sequence");
                    };
                    match *b {
                        b'z' => Re::End,
                        b'A' => Re::Start,
                        b if Self::set(b).is_some() => Re::Class(Self::set(b).unwrap(), false),
                        b if b.is_ascii_alphanumeric() => panic!("the model of regex does not know this escape"),
                        b => Re::Byte(b),
                    }
                }
                b if self.fold && b.is_ascii_alphabetic() => either(b),
                b => Re::Byte(b),
            };
            self.i += 1;
            out.push(e);
        }
        Ok(if out.len() == 1 { out.pop().unwrap() } else { Re::Cat(out) })
    }
}

impl Re {
    /// How many bytes it always takes, if that is so.
    fn width(&self) -> Option<usize> {
        match self {
            Re::Byte(_) | Re::Any | Re::Class(..) => Some(1),
            Re::Start | Re::End => Some(0),
            Re::Cat(x) => x.iter().map(|e| e.width()).sum(),
            Re::Alt(x) => {
                let a = x[0].width()?;
                x.iter().all(|e| e.width() == Some(a)).then_some(a)
            }
            Re::Group(_, e) => e.width(),
            Re::Rep(e, a, b, _) => (a == b).then_some(())?.into_width(e, *a),
        }
    }
    fn at_end(&self) -> bool {
        match self {
            Re::End => true,
            Re::Cat(x) => x.last().is_some_and(|e| e.at_end()),
            _ => false,
        }
    }
    fn go(&self, t: &[u8], g: &Groups, i: usize, then: &mut dyn FnMut(usize) -> bool) -> bool {
        match self {
            Re::Byte(b) => i < t.len() && t[i] == *b && then(i + 1),
            Re::Any => i < t.len() && t[i] != b'\n' && then(i + 1),
            Re::Class(r, not) => i < t.len() && (t[i] >= 0x80 && *not || t[i] < 0x80 && r.iter().any(|(a, b)| *a <= t[i] && t[i] <= *b) != *not) && then(i + 1),
            Re::Start => i == 0 && then(i),
            Re::End => i == t.len() && then(i),
            Re::Cat(x) => cat(x, t, g, i, then),
            Re::Alt(x) => x.iter().any(|e| e.go(t, g, i, then)),
            Re::Rep(e, min, max, lazy) => rep(e, *min, *max, *lazy, t, g, i, then),
            Re::Group(n, e) => e.go(t, g, i, &mut |j| {
                let old = g[*n].replace(Some((i, j)));
                then(j) || {
                    g[*n].set(old);
                    false
                }
            }),
        }
    }
}

trait IntoWidth {
    fn into_width(self, e: &Re, n: usize) -> Option<usize>;
}

impl IntoWidth for () {
    fn into_width(self, e: &Re, n: usize) -> Option<usize> {
        e.width().map(|w| w * n)
    }
}

fn cat(x: &[Re], t: &[u8], g: &Groups, i: usize, then: &mut dyn FnMut(usize) -> bool) -> bool {
    match x.split_first() {
        None => then(i),
        Some((e, rest)) => e.go(t, g, i, &mut |j| cat(rest, t, g, j, then)),
    }
}

#[allow(clippy::too_many_arguments)]
fn rep(e: &Re, min: usize, max: usize, lazy: bool, t: &[u8], g: &Groups, i: usize, then: &mut dyn FnMut(usize) -> bool) -> bool {
    if lazy && min == 0 && then(i) {
        return true;
    }
    if max > 0 && e.go(t, g, i, &mut |j| (j > i || min > 0) && rep(e, min.saturating_sub(1), max.saturating_sub(1), lazy, t, g, j, then)) {
        return true;
    }
    !lazy && min == 0 && then(i)
}

#[derive(Debug, Clone)]
pub struct Regex {
    text: String,
    re: Re,
    groups: usize,
    names: Vec<(String, usize)>,
}

/// A part of a text that matches.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Match<'h> {
    text: &'h str,
    from: usize,
    to: usize,
}

impl<'h> Match<'h> {
    pub fn start(&self) -> usize {
        self.from
    }
    pub fn end(&self) -> usize {
        self.to
    }
    pub fn len(&self) -> usize {
        self.to - self.from
    }
    pub fn is_empty(&self) -> bool {
        self.to == self.from
    }
    pub fn range(&self) -> std::ops::Range<usize> {
        self.from..self.to
    }
    pub fn as_str(&self) -> &'h str {
        &self.text[self.from..self.to]
    }
}

/// A builder that only knows about letter case.
#[derive(Debug, Clone)]
pub struct RegexBuilder {
    text: String,
    fold: bool,
}

impl RegexBuilder {
    pub fn new(re: &str) -> Self {
        Self { text: re.into(), fold: false }
    }
    pub fn case_insensitive(&mut self, yes: bool) -> &mut Self {
        self.fold = yes;
        self
    }
    pub fn build(&self) -> Result<Regex, Error> {
        Regex::make(&self.text, self.fold)
    }
}

impl std::str::FromStr for Regex {
    type Err = Error;
    fn from_str(s: &str) -> Result<Self, Error> {
        Regex::new(s)
    }
}

impl fmt::Display for Regex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.text)
    }
}

impl Regex {
    pub fn new(re: &str) -> Result<Self, Error> {
        Self::make(re, false)
    }
    pub fn find<'h>(&self, text: &'h str) -> Option<Match<'h>> {
        self.find_at(text, 0)
    }
    pub fn find_at<'h>(&self, text: &'h str, start: usize) -> Option<Match<'h>> {
        let (from, to) = self.search(text.as_bytes(), start)?[0].get()?;
        Some(Match { text, from, to })
    }
    /// Where it first matches, and its groups.
    fn search(&self, t: &[u8], start: usize) -> Option<Vec<std::cell::Cell<Option<(usize, usize)>>>> {
        let g = self.none();
        (start..=t.len()).find(|i| {
            self.re.go(t, &g, *i, &mut |j| {
                g[0].set(Some((*i, j)));
                true
            })
        })?;
        Some(g)
    }
    fn none(&self) -> Vec<std::cell::Cell<Option<(usize, usize)>>> {
        (0..=self.groups).map(|_| std::cell::Cell::new(None)).collect()
    }
    pub fn captures<'h>(&self, text: &'h str) -> Option<Captures<'h>> {
        let groups = self.search(text.as_bytes(), 0)?.iter().map(|g| g.get()).collect();
        Some(Captures { text, groups, names: self.names.clone() })
    }
    pub fn captures_len(&self) -> usize {
        self.groups + 1
    }
    /// Only for replacements without references to groups.
    pub fn replace<'h>(&self, text: &'h str, by: &str) -> std::borrow::Cow<'h, str> {
        assert!(!by.contains('$'), "the model of regex knows no references");
        match self.find(text) {
            Some(m) => [&text[..m.from], by, &text[m.to..]].concat().into(),
            None => text.into(),
        }
    }
    fn make(re: &str, fold: bool) -> Result<Self, Error> {
        let mut p = Parser { t: re.as_bytes(), i: 0, fold, groups: 0, names: Vec::new() };
        let e = p.alt()?;
        if p.i < p.t.len() {
            return wrong("unopened group");
        }
        Ok(Self { text: re.into(), re: e, groups: p.groups, names: p.names })
    }
    pub fn as_str(&self) -> &str {
        &self.text
    }
    pub fn is_match(&self, text: &str) -> bool {
        self.matches(text.as_bytes())
    }
    fn matches(&self, t: &[u8]) -> bool {
        let g = self.none();
        if self.re.at_end() {
            if let Some(w) = self.re.width() {
                return w <= t.len() && self.re.go(t, &g, t.len() - w, &mut |_| true);
            }
        }
        (0..=t.len()).any(|i| self.re.go(t, &g, i, &mut |_| true))
    }
}

/// The groups of a match.
#[derive(Debug)]
pub struct Captures<'h> {
    text: &'h str,
    groups: Vec<Option<(usize, usize)>>,
    names: Vec<(String, usize)>,
}

impl<'h> Captures<'h> {
    pub fn get(&self, i: usize) -> Option<Match<'h>> {
        let (from, to) = (*self.groups.get(i)?)?;
        Some(Match { text: self.text, from, to })
    }
    pub fn name(&self, name: &str) -> Option<Match<'h>> {
        self.get(self.names.iter().find(|n| n.0 == name)?.1)
    }
    #[allow(clippy::len_without_is_empty)]
    pub fn len(&self) -> usize {
        self.groups.len()
    }
}

impl std::ops::Index<usize> for Captures<'_> {
    type Output = str;
    fn index(&self, i: usize) -> &str {
        self.get(i).expect("no group at this index").as_str()
    }
}

impl std::ops::Index<&str> for Captures<'_> {
    type Output = str;
    fn index(&self, name: &str) -> &str {
        self.name(name).expect("no group of this name").as_str()
    }
}

/// The same over bytes.
pub mod bytes {
    #[derive(Debug, Clone)]
    pub struct Regex(super::Regex);

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Match<'h> {
        text: &'h [u8],
        from: usize,
        to: usize,
    }

    impl<'h> Match<'h> {
        pub fn start(&self) -> usize {
            self.from
        }
        pub fn end(&self) -> usize {
            self.to
        }
        pub fn range(&self) -> std::ops::Range<usize> {
            self.from..self.to
        }
        pub fn as_bytes(&self) -> &'h [u8] {
            &self.text[self.from..self.to]
        }
    }

    impl Regex {
        pub fn new(re: &str) -> Result<Self, super::Error> {
            super::Regex::new(re).map(Self)
        }
        pub fn as_str(&self) -> &str {
            self.0.as_str()
        }
        pub fn is_match(&self, text: &[u8]) -> bool {
            self.0.matches(text)
        }
        pub fn find<'h>(&self, text: &'h [u8]) -> Option<Match<'h>> {
            let (from, to) = self.0.search(text, 0)?[0].get()?;
            Some(Match { text, from, to })
        }
    }
}
