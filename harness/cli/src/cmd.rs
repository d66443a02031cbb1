//! The commands: what each does to the graph of documents, and the whole program.
use crate::{
    files::{context, path, same},
    fsys::{self, Kind},
    sym::*,
};
use clap::{Args, Command, FromArgMatches};
use plotline::{
    deref::TryDeref,
    document::lazy::LazyDocument,
    graph::Graph,
    id::Identify,
    prelude::{AfterDelete, AfterSave, BeforeDelete, BeforeSave},
    schema::{transaction::Ctx, Schema},
};
use plotline_cli::{
    document::{DocumentCli, DocumentCommand},
    repository::LocalDocumentRepository,
};
use std::{ffi::OsString, os::unix::ffi::OsStringExt, sync::Arc};

fn refuse(_: Ctx<'_, LazyDocument<LocalDocumentRepository>>) -> plotline::schema::Result<()> {
    Err(plotline::schema::Error::custom("no"))
}

type Schemata = Schema<LazyDocument<LocalDocumentRepository>>;

fn letter() -> u8 {
    let b = u8_();
    assume((b >= b'a') & (b <= b'z'));
    b
}

/// A word that is no option, of up to `max` characters that print as they are.
fn plain(max: u8) -> Vec<u8> {
    let n = 1 + pick(max);
    let mut out = Vec::new();
    for _ in 0..n {
        let b = u8_();
        assume((b > b' ') & (b < 0x7f) & (b != b'/') & (b != b'"') & (b != b'\\'));
        out.push(b);
    }
    assume((out[0] != b'-') & (out[0] != b'.'));
    out
}

/// An identifier that is no command.
fn ident() -> Vec<u8> {
    let mut id = plain(param("len", 1) as u8);
    assume(!same(&id, b"ls"));
    let tails = ["", ".md", " ", "\u{e9}", ".", ".md.md", " x", "list"];
    id.extend_from_slice(tails[pick(param("tails", 1) as u8) as usize].as_bytes());
    // Of the directory, or of one in it.
    [["", "c/"][pick(param("subs", 1) as u8) as usize].as_bytes(), &id].concat()
}

/// What to save.
fn text() -> Vec<u8> {
    let mut b = if flag() { plain(param("len", 1) as u8) } else { vec![] };
    let tails = ["", " ", "\n", "\u{e9}", "\r\n\r\n", "\t=\"'\\", "  x ", "0", "delete", "help", ".md"];
    let n = pick(param("bodies", 1) as u8) as usize;
    b.extend_from_slice(tails[n].as_bytes());
    if n == 7 {
        b.extend(b"0123456789abcdef".iter().cycle().take(5000));
    }
    b
}

fn os(b: &[u8]) -> OsString {
    OsString::from_vec(b.to_vec())
}

/// What the command line says, if it says anything.
fn parse(words: &[Vec<u8>]) -> Option<DocumentCommand> {
    let all = std::iter::once(os(b"doc")).chain(words.iter().map(|w| os(w)));
    let m = DocumentCommand::augment_args(Command::new("doc")).try_get_matches_from(all).ok()?;
    DocumentCommand::from_arg_matches(&m).ok()
}

/// The documents, as ids and contents, in order; the content may not be known.
type Docs = Vec<(Vec<u8>, Vec<u8>)>;

/// The order of paths: component by component.
fn before(a: &[u8], b: &[u8]) -> bool {
    a.split(|c| *c == b'/').lt(b.split(|c| *c == b'/'))
}

fn set(docs: &mut Docs, id: Vec<u8>, body: Vec<u8>) {
    for d in docs.iter_mut() {
        if same(&d.0, &id) {
            d.1 = body;
            return;
        }
    }
    let mut i = 0;
    while i < docs.len() && before(&docs[i].0, &id) {
        i += 1;
    }
    docs.insert(i, (id, body));
}

fn lines(docs: &Docs) -> Vec<u8> {
    let mut out = Vec::new();
    for d in docs {
        out.push(b'"');
        // As text is shown in quotes, and what is no text byte by byte.
        for b in &d.0 {
            match b {
                0xff => out.extend_from_slice(b"\\xFF"),
                b'\n' => out.extend_from_slice(b"\\n"),
                b'"' | b'\\' => out.extend_from_slice(&[b'\\', *b]),
                b => out.push(*b),
            }
        }
        out.extend_from_slice(b"\"\n");
    }
    out
}

/// Files in the context, and where in the tree they are.
fn files(dir: usize, n: u32) -> (Docs, Vec<usize>) {
    let mut docs = Docs::new();
    let mut nodes = Vec::new();
    let sub = if param("subs", 1) > 1 { fsys::add(dir, b"c", Kind::Dir, b"") } else { dir };
    for k in 0..n {
        let mut id = ident();
        if k == 0 {
            // A name that no command line can say, or that is not shown as it is.
            let tails: [&[u8]; 5] = [b"", b"\xff", b"\n", b"\"", b"\\"];
            id.extend_from_slice(tails[pick(param("odd", 1) as u8) as usize]);
        }
        for d in &docs {
            assume(!same(&d.0, &id));
        }
        let body = if flag() { vec![u8_()] } else { vec![] };
        let (at, name) = match id.strip_prefix(b"c/") {
            Some(name) => (sub, name),
            None => (dir, &id[..]),
        };
        nodes.push(fsys::add(at, &[name, b".md"].concat(), Kind::File, &body));
        set(&mut docs, id, body);
    }
    (docs, nodes)
}

fn word(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}

/// A command line of its own kind, and what it is: the identifier, the content (None: no save), whether it deletes.
struct Line {
    words: Vec<Vec<u8>>,
    id: Option<Vec<u8>>,
    what: u8,
    content: Option<Vec<u8>>,
}

fn line() -> Line {
    let id = if flag() { Some(ident()) } else { None };
    let what = pick(4);
    let mut words = Vec::new();
    if let Some(id) = &id {
        words.push(id.clone());
    }
    words.push(word(["list", "ls", "delete", "save"][what as usize]));
    let mut content = None;
    if what == 3 && flag() {
        let b = text();
        words.push(b.clone());
        content = Some(b);
    }
    Line { words, id, what, content }
}

/// `loads`: whether the files are still there.
fn agrees(schema: &Schemata, docs: &Docs, loads: bool, label: &str) {
    let g = schema.read();
    let mut n = 0;
    for d in g.into_iter() {
        check(n < docs.len() && same_path(d.id(), &docs[n].0), label);
        check(!loads || d.try_deref().is_some_and(|d| same(&d.bytes, &docs[n].1)), label);
        n += 1;
    }
    check(n == docs.len(), label);
}

fn same_path(p: &std::path::Path, b: &[u8]) -> bool {
    use std::os::unix::ffi::OsStrExt;
    same(p.as_os_str().as_bytes(), b)
}

/// Any sequence of commands, over the same graph.
pub fn commands() {
    fsys::reset();
    let (ctx, dir) = context();
    let (mut docs, nodes) = files(dir, param("files", 1));
    let repo = Arc::new(LocalDocumentRepository { context: path(ctx.as_bytes()), extension: "md".into() });
    // A schema may have triggers that refuse what is asked.
    let refuses = pick(param("triggers", 1) as u8);
    let schema = Schema::from(Graph::from_iter(repo.all()));
    let schema = Arc::new(match refuses {
        0 => schema,
        1 => schema.with_trigger(BeforeSave, refuse),
        2 => schema.with_trigger(AfterSave, refuse),
        3 => schema.with_trigger(BeforeDelete, refuse),
        _ => schema.with_trigger(AfterDelete, refuse),
    });
    let cli = DocumentCli { schema: schema.clone(), document_repo: repo };
    // The files may go away before the commands: the graph is what counts.
    let away = param("away", 0) > 0 && flag();
    if away {
        for n in nodes {
            fsys::change(n, None);
        }
        cover("away");
    }
    for _ in 0..param("cmds", 2) {
        let l = line();
        let Some(c) = parse(&l.words) else {
            check(false, "the command line is understood");
            return;
        };
        let mut r = None;
        let out = fsys::output(|| r = Some(cli.execute(c)));
        let ok = r.is_some_and(|r| r.is_ok());
        match (l.what, l.id) {
            (0 | 1, _) => {
                check(ok && same(&out, &lines(&docs)), "prints each document of the graph once, in order");
                cover("list");
            }
            (2, Some(id)) => {
                let i = docs.iter().position(|d| same(&d.0, &id)).filter(|_| refuses < 3);
                check(ok == i.is_some(), "fails exactly when there is no such document to delete");
                match i {
                    Some(i) => {
                        docs.remove(i);
                        cover("deleted");
                    }
                    None => cover("nothing to delete"),
                }
            }
            (3, Some(_)) if refuses == 1 || refuses == 2 => {
                check(!ok, "fails if a trigger refuses the save");
                cover("refused");
            }
            (3, Some(id)) => {
                check(ok, "saves");
                set(&mut docs, id, l.content.unwrap_or_default());
                cover("saved");
            }
            _ => {
                check(!ok, "fails without an identifier");
                cover("no id");
            }
        }
        if l.what > 1 {
            check(out.is_empty(), "prints nothing");
        }
        agrees(&schema, &docs, !away, "the graph is as the commands leave it");
    }
    cover("end");
}

/// The program itself: what it prints, and whether it succeeds.
pub fn program() {
    fsys::reset();
    let mut words: Vec<Vec<u8>> = vec![word("plot")];
    // Where: the working directory unless told otherwise.
    let place = pick(param("places", 3) as u8);
    let c = fsys::add(0, b"c", Kind::Dir, b"");
    // What: markdown unless told otherwise.
    let other = pick(param("opts", 3) as u8);
    let ext: &[u8] = [&b"md"[..], b"tx", b"tx", b".md", b"MD", b"t.x", b"."][other as usize];
    let mut want: Vec<Vec<u8>> = Vec::new();
    let mut names: Vec<(bool, u8)> = vec![(true, b'c')];
    for _ in 0..param("files", 1) {
        let id = letter();
        // In the working directory, or in the one in it.
        let above = flag();
        for n in &names {
            assume((n.0 != above) | (n.1 != id));
        }
        names.push((above, id));
        let end: &[u8] = [&b".md"[..], b".tx", b"..md", b".MD", b".t.x", b"..", b".mdx", b"md"][pick(param("ends", 2) as u8) as usize];
        let name = [&[id][..], end].concat();
        fsys::add(if above { 0 } else { c }, &name, Kind::File, b"");
        let dotted = [&b"."[..], ext].concat();
        if end.ends_with(&dotted) && (place == 0 || !above) {
            let mut at = if above || place != 0 { vec![] } else { vec![b'c', b'/'] };
            at.extend_from_slice(&name[..name.len() - dotted.len()]);
            let mut i = 0;
            while i < want.len() && want[i] < at {
                i += 1;
            }
            want.insert(i, at);
        }
    }
    let mut opts: Vec<Vec<u8>> = Vec::new();
    match place {
        0 => {}
        1 => opts.extend([word("-C"), word("c")]),
        2 => opts.push(word("--context=c")),
        3 => opts.push(word("-C./c/")),
        4 => opts.extend([word("--context"), word("c/.")]),
        _ => opts.push(word("-C=c/../c")),
    }
    match other {
        0 => {}
        1 => opts.extend([word("-e"), word("tx")]),
        2 => opts.extend([word("--extension"), word("tx")]),
        3 => opts.push([&b"--extension="[..], ext].concat()),
        _ => opts.push([&b"-e"[..], ext].concat()),
    }
    let l = line();
    let last = flag();
    if !last {
        words.extend(opts.iter().cloned());
    }
    words.push(word("doc"));
    words.extend(l.words.iter().cloned());
    if last {
        words.extend(opts);
    }
    let (ok, out) = fsys::program(&words);
    let mut lines = Vec::new();
    for d in &want {
        lines.extend_from_slice(&[b"\"", &d[..], b"\"\n"].concat());
    }
    match (l.what, l.id) {
        (0 | 1, _) => {
            check(ok && same(&out, &lines), "lists the documents of the context with the extension");
            cover("list");
        }
        (2, Some(id)) => {
            check(ok == want.iter().any(|d| same(d, &id)) && out.is_empty(), "fails exactly when there is no such document to delete");
            cover(if ok { "deleted" } else { "nothing to delete" });
        }
        (3, Some(_)) => {
            check(ok && out.is_empty(), "saves");
            cover("saved");
        }
        _ => {
            check(!ok && out.is_empty(), "fails without an identifier");
            cover("no id");
        }
    }
}

/// However odd the names, what is listed is one line for each, and not the same for two.
pub fn names() {
    fsys::reset();
    let mut all: Vec<Vec<u8>> = Vec::new();
    for _ in 0..param("files", 2) {
        let mut n = Vec::new();
        for _ in 0..1 + pick(param("name", 1) as u8) {
            let b = u8_();
            assume((b != 0) & (b != b'/'));
            n.push(b);
        }
        n.extend_from_slice(["", "\"", "\\n", "\u{2028}", "'", "\t"][pick(param("tails", 1) as u8) as usize].as_bytes());
        assume(n[0] != b'.');
        for o in &all {
            assume(!same(o, &n));
        }
        fsys::add(0, &[&n[..], b".md"].concat(), Kind::File, b"");
        all.push(n);
    }
    let (ok, out) = fsys::program(&[word("plot"), word("doc"), word("list")]);
    check(ok, "listing succeeds");
    check(out.last() == Some(&b'\n'), "what is listed ends in a line break");
    let lines: Vec<&[u8]> = out[..out.len() - 1].split(|b| *b == b'\n').collect();
    check(lines.len() == all.len(), "a line for each document");
    for i in 0..lines.len() {
        for j in 0..i {
            check(!same(lines[i], lines[j]), "no two documents are listed alike");
        }
    }
    cover("listed");
}
