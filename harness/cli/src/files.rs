//! Documents and files: what is listed, and what is found.
use crate::{
    fsys::{self, Kind},
    sym::*,
};
use plotline::{
    deref::TryDeref,
    document::{lazy::LazyDocument, DocumentRepository},
    id::Identify,
};
use plotline_cli::repository::LocalDocumentRepository;
use std::{ffi::OsStr, os::unix::ffi::OsStrExt, path::PathBuf, sync::Arc};

pub fn path(b: &[u8]) -> PathBuf {
    PathBuf::from(OsStr::from_bytes(b))
}

/// Some content: nothing, a byte, several, or more than fits a buffer, with arbitrary bytes in it.
pub fn body() -> Vec<u8> {
    let long = param("long", 0) as usize;
    match pick(if long > 0 { 4 } else { 3 }) {
        0 => vec![],
        1 => vec![u8_()],
        2 => (0..4).map(|_| u8_()).collect(),
        _ => {
            let mut out = vec![b'x'; long];
            out[[0, long / 2, long - 1][pick(3) as usize]] = u8_();
            out
        }
    }
}

/// A file name of some length up to `max`, of any ASCII characters, or of any at all.
pub fn name(max: u8) -> Vec<u8> {
    let n = 1 + pick(max);
    let any = param("any", 0) > 0;
    let mut out = Vec::new();
    for _ in 0..n {
        let b = u8_();
        assume((b != 0) & (b != b'/') & (any | (b < 0x80)));
        out.push(b);
    }
    if out.len() <= 2 {
        assume(out != b"." && out != b"..");
    }
    out
}

pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

/// How the context is spelled, and the directory it is.
pub fn context() -> (String, usize) {
    let root = 0;
    let (spelled, dir) = match pick(param("contexts", 4) as u8) {
        0 => ("c", fsys::add(root, b"c", Kind::Dir, b"")),
        1 => (".", root),
        2 => ("c/", fsys::add(root, b"c", Kind::Dir, b"")),
        3 => ("./c.md/e", {
            let c = fsys::add(root, b"c.md", Kind::Dir, b"");
            fsys::add(c, b"e", Kind::Dir, b"")
        }),
        4 => (".h/./e.d", {
            let h = fsys::add(root, b".h", Kind::Dir, b"");
            fsys::add(h, b"e.d", Kind::Dir, b"")
        }),
        5 => ("l.md", fsys::add(root, b"l.md", Kind::ToDir, b"")),
        6 => ("elsewhere/..", {
            fsys::add(root, b"elsewhere", Kind::Dir, b"");
            root
        }),
        _ => {
            let all = std::env::current_dir().unwrap();
            return (format!("{}/c", all.display()), fsys::add(root, b"c", Kind::Dir, b""));
        }
    };
    (spelled.into(), dir)
}

pub fn extension() -> &'static str {
    ["md", "m", "tar.gz", "c+", "(", "md.", "", "é"][pick(param("exts", 4) as u8) as usize]
}

/// The part of a name before the extension, if it has it.
fn stem<'a>(name: &'a [u8], ext: &str) -> Option<&'a [u8]> {
    let s = format!(".{ext}");
    let n = name.len().checked_sub(s.len())?;
    (n > 0 && same(&name[n..], s.as_bytes())).then(|| &name[..n])
}

/// Exactly the visible files with the extension are listed, each under its path without it, and
/// what is listed has the file's content.
pub fn listing() {
    fsys::reset();
    let (ctx, dir) = context();
    let ext = extension();
    let max = param("name", 4) as u8;
    let mut want: Vec<(PathBuf, Option<Vec<u8>>)> = Vec::new();
    let mut names: Vec<(usize, Vec<u8>)> = Vec::new();
    let closed = param("closed", 0) > 0;
    let sub = fsys::add(dir, b"d", Kind::Dir, b"");
    names.push((dir, b"d".to_vec()));
    for _ in 0..param("nodes", 2) {
        let kind = pick(param("kinds", 3) as u8) as usize;
        // Another name of a file that is listed.
        let other = kind.checked_sub(6).map(|k| k == 1);
        let kind = [Kind::File, Kind::Dir, Kind::ToFile, Kind::ToDir, Kind::Pipe, Kind::ToNothing, Kind::File, Kind::File][kind];
        let deep = flag();
        let parent = if deep { sub } else { dir };
        let n = name(max);
        for (p, o) in &names {
            assume(*p != parent || !same(o, &n));
        }
        let body = body();
        let closed = closed && matches!(kind, Kind::File | Kind::Dir | Kind::ToFile) && other.is_none() && flag();
        // There are documents before and after what may not be read, in whichever order they are found.
        let around = |at: &[usize], names: &mut Vec<(usize, Vec<u8>)>, want: &mut Vec<_>| {
            for k in at {
                let name = format!("{}{k}.{ext}", names.len()).into_bytes();
                assume(!same(&n, &name) && names.iter().all(|(_, o)| !same(o, &name)));
                fsys::add(dir, &name, Kind::File, b"around");
                want.push((path(stem(&name, ext).unwrap()), Some(b"around".to_vec())));
                names.push((dir, name));
            }
        };
        if closed {
            around(&[0, 1], &mut names, &mut want);
        }
        let node = match other {
            None => fsys::add(parent, &n, kind, &body),
            Some(link) => {
                let name = format!("file{}.{ext}", want.len()).into_bytes();
                assume(!same(&n, &name));
                let to = fsys::add(dir, &name, Kind::File, &body);
                want.push((path(stem(&name, ext).unwrap()), Some(body.clone())));
                names.push((dir, name));
                cover("another name");
                fsys::alias(parent, &n, to, link)
            }
        };
        let above: &[u8] = if deep { b"d/" } else { b"" };
        if matches!(kind, Kind::Dir | Kind::ToDir) {
            // What is in a directory is listed unless that is hidden, or reached by a link.
            fsys::add(node, format!("i.{ext}").as_bytes(), Kind::File, b"in");
            if kind == Kind::Dir && n[0] != b'.' && !closed {
                want.push((path(&[above, &n[..], b"/i"].concat()), Some(b"in".to_vec())));
            }
        }
        if matches!(kind, Kind::File | Kind::ToFile) && n[0] != b'.' {
            if let Some(s) = stem(&n, ext) {
                want.push((path(&[above, s].concat()), (!closed).then_some(body)));
            }
        }
        if closed {
            fsys::close_off(node);
            around(&[2, 3], &mut names, &mut want);
            cover("closed");
        }
        names.push((parent, n));
    }
    if closed {
        fsys::unprivileged();
    }
    let repo = Arc::new(LocalDocumentRepository { context: path(ctx.as_bytes()), extension: ext.into() });
    let got: Vec<_> = repo.all().collect();
    for (id, body) in &want {
        let mut k = 0;
        for d in &got {
            if d.id() == id {
                k += 1;
                let Some(body) = body else {
                    check(d.try_deref().is_none(), "what may not be read is not loaded");
                    continue;
                };
                check(
                    d.try_deref().is_some_and(|d| same(&d.bytes, body)),
                    "a listed document has the content of its file",
                );
                check(d.try_deref().is_some_and(|f| f.id() == d.id()), "what is loaded has the identifier of what is listed");
            }
        }
        check(k == 1, "each document is listed once, under its path without the extension");
        cover("document");
    }
    check(got.len() == want.len(), "nothing but documents is listed");
    if want.is_empty() {
        cover("none");
    }
}

/// An identifier leads to the file of that name, or to none.
pub fn lookup() {
    fsys::reset();
    let (ctx, dir) = context();
    let ext = extension();
    let max = param("name", 4) as u8;
    let sub = fsys::add(dir, b"d", Kind::Dir, b"");
    let mut id = name(max);
    assume(id[0] != b'.' && !same(&id, b"d"));
    let n = name(max);
    assume(!same(&n, b"d"));
    let body = body();
    // What is there, and what is asked for, may each be a directory further in.
    let deep = flag();
    let kind = [Kind::File, Kind::ToFile, Kind::Dir, Kind::ToDir, Kind::ToNothing][pick(param("kinds", 1) as u8) as usize];
    fsys::add(if deep { sub } else { dir }, &n, kind, &body);
    let asked = pick(param("asked", 2) as u8);
    let before = ["", "d/", "./", "d/../", "d/./", "d//", "n/"][asked as usize];
    // Where that leads, if it stays where it should.
    let at = match asked {
        0 | 2 | 3 => Some(false),
        1 | 4 | 5 => Some(true),
        _ => None,
    };
    id = [before.as_bytes(), &id[..]].concat();
    let repo = LocalDocumentRepository { context: path(ctx.as_bytes()), extension: ext.into() };
    let got = repo.find_by_id(&path(&id));
    let file = [&id[before.len()..], b".", ext.as_bytes()].concat();
    if at == Some(deep) && same(&file, &n) && matches!(kind, Kind::File | Kind::ToFile) {
        check(got.as_ref().is_some_and(|d| same(&d.bytes, &body)), "finds the document's own file");
        check(got.is_some_and(|d| *d.id() == path(&id)), "what is found has the identifier asked for");
        cover("found");
    } else {
        check(got.is_none(), "finds nothing where there is no such file");
        cover("missing");
    }
}

/// A listed document has the content its file had when it was first asked for, and keeps it; while
/// the file is away there is none.
pub fn contents() {
    fsys::reset();
    let (ctx, dir) = context();
    let first = body();
    let file = fsys::add(dir, b"a.b.md", Kind::File, &first);
    let other = fsys::add(dir, b"a.md", Kind::File, &[u8_()]);
    let repo = || Arc::new(LocalDocumentRepository { context: path(ctx.as_bytes()), extension: "md".into() });
    let list = || {
        let repo = repo();
        let docs: Vec<_> = repo.all().collect();
        let count = docs.len();
        (docs.into_iter().find(|d| same(d.id().as_os_str().as_bytes(), b"a.b")), count)
    };
    let (doc, count) = list();
    check(count == 2, "lists both files");
    let Some(mut doc) = doc else {
        check(false, "lists the file");
        return;
    };
    let mut now: Option<Vec<u8>> = Some(first);
    let mut kept: Option<Vec<u8>> = None;
    for _ in 0..param("steps", 3) {
        match pick(if param("anew", 0) > 0 { 5 } else { 4 }) {
            0 => {
                now = Some(if flag() { vec![u8_()] } else { vec![] });
                fsys::change(file, now.as_deref());
            }
            1 => {
                now = None;
                fsys::change(file, None);
                cover("away");
            }
            2 => fsys::change(other, None),
            3 => {
                if kept.is_none() {
                    kept = now.clone();
                }
                let got = doc.try_deref().map(|d| d.bytes.clone());
                check(
                    match (&got, &kept) {
                        (Some(a), Some(b)) => same(a, b),
                        (None, None) => true,
                        _ => false,
                    },
                    "has the content its file had when first asked for, if it was there",
                );
                cover(if kept.is_some() { "there" } else { "missing" });
            }
            _ => {
                // Another document for the same file, listed anew if it is there.
                let (listed, _) = list();
                check(listed.is_some() == now.is_some(), "lists the file if, and only if, it is there");
                doc = listed.unwrap_or_else(|| LazyDocument::builder(repo())(path(b"a.b")));
                kept = None;
            }
        }
    }
    cover("end");
}

/// Many files, some of them deep down, and one of an arbitrary name among them.
pub fn listing_long() {
    fsys::reset();
    let (ctx, dir) = context();
    let (wide, depth) = (param("wide", 40), param("depth", 6));
    let mut want: Vec<(PathBuf, Vec<u8>)> = Vec::new();
    let at = pick(depth as u8 + 1) as u32;
    let mut parent = dir;
    let mut prefix = String::new();
    for d in 0..=depth {
        for i in 0..wide {
            // One in three is no document.
            let (name, is) = match i % 3 {
                0 => (format!("file{i}.md"), true),
                1 => (format!("more.{i}.md"), true),
                _ => (format!("other{i}.txt"), false),
            };
            let body = vec![i as u8, d as u8];
            fsys::add(parent, name.as_bytes(), Kind::File, &body);
            if is {
                want.push((PathBuf::from(format!("{prefix}{}", name.strip_suffix(".md").unwrap())), body));
            }
        }
        if d == at {
            let n = [name(param("name", 1) as u8), b".md".to_vec()].concat();
            let body = body();
            assume(!same(&n, b"k.md"));
            fsys::add(parent, &n, Kind::File, &body);
            if n[0] != b'.' {
                want.push((path(&[prefix.as_bytes(), &n[..n.len() - 3]].concat()), body));
                cover("document");
            } else {
                cover("none");
            }
        }
        let name = if d % 2 == 0 { "k.md" } else { "k" };
        parent = fsys::add(parent, name.as_bytes(), Kind::Dir, b"");
        prefix += name;
        prefix.push('/');
    }
    let repo = Arc::new(LocalDocumentRepository { context: path(ctx.as_bytes()), extension: "md".into() });
    let graph = plotline::graph::Graph::from_iter(repo.all());
    let mut n = 0;
    for d in &graph {
        match want.iter().find(|w| w.0 == *d.id()) {
            Some(w) => check(
                d.try_deref().is_some_and(|d| same(&d.bytes, &w.1)),
                "a listed document has the content of its file",
            ),
            None => check(false, "nothing but documents is listed"),
        }
        n += 1;
    }
    check(n == want.len(), "every document is listed, once");
}

/// A great many files side by side, or one below the other, an odd entry anywhere among them.
pub fn listing_wide() {
    fsys::reset();
    let (n, deep) = (param("n", 300) as usize, param("deep", 0) > 0);
    let slots = param("slots", 3) as usize;
    // Where the odd entry is: places spread over the directory.
    let at = (n - 1) * each(pick(slots as u8)) as usize / (slots - 1).max(1);
    let odd = each(pick(4));
    let mut parent = fsys::add(0, b"c", Kind::Dir, b"");
    let mut prefix = String::new();
    let mut want: Vec<(String, usize)> = Vec::new();
    let mut odd_one = None;
    for i in 0..n {
        let stem = format!("f{i:04}");
        let (name, kind) = match (i == at, odd) {
            (true, 0) => (format!("{stem}.txt"), Kind::File),
            (true, 1) => (format!("{stem}.md"), Kind::Dir),
            (true, 2) => (format!("{stem}.md"), Kind::ToNothing),
            _ => (format!("{stem}.md"), Kind::File),
        };
        let body = if kind == Kind::File { vec![i as u8, (i >> 8) as u8] } else { vec![] };
        let f = fsys::add(parent, name.as_bytes(), kind, &body);
        if i == at && odd == 3 {
            odd_one = Some((f, want.len()));
        }
        if i != at || odd == 3 {
            want.push((format!("{prefix}{stem}"), i));
        }
        if deep {
            parent = fsys::add(parent, b"d", Kind::Dir, b"");
            prefix += "d/";
        }
    }
    want.sort();
    if flag() {
        let words: Vec<_> = ["plotline", "--context=c", "doc", "list"].iter().map(|w| w.as_bytes().to_vec()).collect();
        let (ok, out) = fsys::program(&words);
        check(ok, "listing succeeds");
        let lines = want.iter().fold(vec![], |all, w| [&all[..], b"\"", w.0.as_bytes(), b"\"\n"].concat());
        check(same(&out, &lines), "the list is printed, in order");
        cover("printed");
        return;
    }
    let repo = Arc::new(LocalDocumentRepository { context: "c".into(), extension: "md".into() });
    let mut got: Vec<_> = repo.all().collect();
    got.sort_by(|a, b| a.id().cmp(b.id()));
    check(got.len() == want.len(), "every document is listed, once");
    check(
        got.iter().zip(&want).all(|(g, w)| g.id().as_os_str() == w.0.as_str()),
        "nothing but documents is listed",
    );
    // The content is read when it is needed.
    let body = vec![u8_()];
    if let Some((f, _)) = odd_one {
        fsys::change(f, Some(&body));
        cover("changed");
    }
    for k in 0..slots {
        let k = (got.len() - 1) * k / (slots - 1).max(1);
        let i = want[k].1;
        let bytes = if odd == 3 && i == at { body.clone() } else { vec![i as u8, (i >> 8) as u8] };
        check(got[k].try_deref().is_some_and(|d| same(&d.bytes, &bytes)), "a listed document has the content of its file");
    }
    cover("listed");
}

/// A repository whose directory is not there, or is none: nothing is listed, nothing found, until it is.
pub fn absent() {
    fsys::reset();
    // A document elsewhere, of the same name as the one asked for.
    let id = name(param("name", 1) as u8);
    assume(id[0] != b'.');
    let file = [&id[..], b".md"].concat();
    // A name the command line takes for nothing else.
    let plain = id.len() == 1 && (b'a'..=b'z').contains(&id[0]);
    assume(!same(&file, b"f.md"));
    fsys::add(0, &file, Kind::File, b"elsewhere");
    let place = pick(6);
    let ctx = match place {
        0 => "no",
        1 => "no/further",
        2 => {
            fsys::add(0, b"f.md", Kind::File, &body());
            "f.md"
        }
        3 => {
            fsys::add(0, b"f.md", Kind::ToFile, &body());
            "./f.md"
        }
        4 => {
            fsys::add(0, b"no", Kind::ToNothing, b"");
            "no"
        }
        _ => {
            fsys::add(0, b"no", Kind::Pipe, b"");
            "no/"
        }
    };
    if param("program", 0) > 0 {
        assume(plain);
        let what = pick(3) as usize;
        let mut words: Vec<Vec<u8>> = vec![b"plot".to_vec(), format!("-C{ctx}").into_bytes(), b"doc".to_vec()];
        if what > 0 {
            words.push(id);
        }
        words.push(["list", "delete", "save"][what].as_bytes().to_vec());
        let (ok, out) = fsys::program(&words);
        check(ok == (what != 1), "listing and saving succeed, deleting fails");
        check(out.is_empty(), "nothing is printed");
        cover(["list", "delete", "save"][what]);
        return;
    }
    let repo = Arc::new(LocalDocumentRepository { context: path(ctx.as_bytes()), extension: "md".into() });
    check(repo.all().count() == 0, "nothing is listed");
    check(repo.find_by_id(&path(&id)).is_none(), "nothing is found");
    cover("nothing");
    // The document may be asked for before the directory is there.
    let doc = LazyDocument::builder(repo.clone())(path(&id));
    if flag() {
        check(doc.try_deref().is_none(), "there is no such document");
    }
    if place == 0 {
        let dir = fsys::add(0, b"no", Kind::Dir, b"");
        check(repo.all().count() == 0, "nothing is listed in an empty directory");
        check(doc.try_deref().is_none(), "there is no such document yet");
        let body = body();
        fsys::add(dir, &file, Kind::File, &body);
        let got: Vec<_> = repo.all().collect();
        check(got.len() == 1 && same(got[0].id().as_os_str().as_bytes(), &id), "the document is listed");
        check(doc.try_deref().is_some_and(|d| same(&d.bytes, &body)), "the document is found");
        cover("later");
    }
}
