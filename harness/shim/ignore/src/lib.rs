//! The environment of plotline-cli: a file tree, what walks it, and the system calls that read it.
pub mod world;

use std::{
    ffi::{OsStr, OsString},
    fmt,
    os::unix::ffi::OsStringExt,
    path::{Path, PathBuf},
    sync::Arc,
};

#[derive(Debug)]
pub enum Error {
    Io(std::io::Error),
}

impl Error {
    pub fn is_partial(&self) -> bool {
        false
    }
    pub fn is_io(&self) -> bool {
        true
    }
    pub fn depth(&self) -> Option<usize> {
        None
    }
    pub fn io_error(&self) -> Option<&std::io::Error> {
        let Error::Io(e) = self;
        Some(e)
    }
    pub fn into_io_error(self) -> Option<std::io::Error> {
        let Error::Io(e) = self;
        Some(e)
    }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("input/output error")
    }
}

impl std::error::Error for Error {}

#[derive(Debug, Clone)]
pub struct DirEntry {
    path: PathBuf,
    name: OsString,
    kind: world::Kind,
    link: bool,
    depth: usize,
}

impl DirEntry {
    pub fn path(&self) -> &Path {
        &self.path
    }
    pub fn into_path(self) -> PathBuf {
        self.path
    }
    pub fn path_is_symlink(&self) -> bool {
        self.link
    }
    pub fn is_stdin(&self) -> bool {
        false
    }
    pub fn file_name(&self) -> &OsStr {
        &self.name
    }
    pub fn depth(&self) -> usize {
        self.depth
    }
    pub fn file_type(&self) -> Option<std::fs::FileType> {
        let mode = if self.link { world::LINK } else { world::mode(self.kind) };
        // SAFETY: on Linux a file type is the mode it was read from.
        Some(unsafe { std::mem::transmute::<u32, std::fs::FileType>(mode) })
    }
    pub fn metadata(&self) -> Result<std::fs::Metadata, Error> {
        let r = if self.link { std::fs::symlink_metadata(&self.path) } else { std::fs::metadata(&self.path) };
        r.map_err(Error::Io)
    }
    pub fn ino(&self) -> Option<u64> {
        use std::os::unix::fs::MetadataExt;
        std::fs::symlink_metadata(&self.path).ok().map(|m| m.ino())
    }
    pub fn error(&self) -> Option<&Error> {
        None
    }
}

/// What of the builder matters to a tree without ignore files.
#[derive(Debug, Clone)]
pub struct WalkBuilder {
    roots: Vec<PathBuf>,
    hidden: bool,
    min: usize,
    max: usize,
    follow: bool,
    size: Option<u64>,
    sorter: Option<Sorter>,
    filter: Option<Filter>,
}

#[derive(Clone)]
struct Sorter(Arc<dyn Fn(&Path, &Path) -> std::cmp::Ordering + Send + Sync>);

#[derive(Clone)]
struct Filter(Arc<dyn Fn(&DirEntry) -> bool + Send + Sync>);

impl fmt::Debug for Sorter {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Sorter")
    }
}

impl fmt::Debug for Filter {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Filter")
    }
}

macro_rules! no_effect {
    ($($f:ident),*) => {
        $(
            pub fn $f(&mut self, _: bool) -> &mut Self {
                self
            }
        )*
    };
}

impl WalkBuilder {
    pub fn new<P: AsRef<Path>>(path: P) -> Self {
        Self {
            roots: vec![path.as_ref().to_owned()],
            hidden: true,
            min: 0,
            max: usize::MAX,
            follow: false,
            size: None,
            sorter: None,
            filter: None,
        }
    }
    pub fn add<P: AsRef<Path>>(&mut self, path: P) -> &mut Self {
        self.roots.push(path.as_ref().to_owned());
        self
    }
    pub fn hidden(&mut self, yes: bool) -> &mut Self {
        self.hidden = yes;
        self
    }
    pub fn standard_filters(&mut self, yes: bool) -> &mut Self {
        self.hidden = yes;
        self
    }
    pub fn max_depth(&mut self, depth: Option<usize>) -> &mut Self {
        self.max = depth.unwrap_or(usize::MAX);
        self
    }
    pub fn min_depth(&mut self, depth: Option<usize>) -> &mut Self {
        self.min = depth.unwrap_or(0);
        self
    }
    pub fn follow_links(&mut self, yes: bool) -> &mut Self {
        self.follow = yes;
        self
    }
    pub fn max_filesize(&mut self, size: Option<u64>) -> &mut Self {
        self.size = size;
        self
    }
    pub fn sort_by_file_name<F>(&mut self, cmp: F) -> &mut Self
    where
        F: Fn(&OsStr, &OsStr) -> std::cmp::Ordering + Send + Sync + 'static,
    {
        self.sorter = Some(Sorter(Arc::new(move |a, b| cmp(a.file_name().unwrap_or_default(), b.file_name().unwrap_or_default()))));
        self
    }
    pub fn sort_by_file_path<F>(&mut self, cmp: F) -> &mut Self
    where
        F: Fn(&Path, &Path) -> std::cmp::Ordering + Send + Sync + 'static,
    {
        self.sorter = Some(Sorter(Arc::new(cmp)));
        self
    }
    pub fn filter_entry<P>(&mut self, filter: P) -> &mut Self
    where
        P: Fn(&DirEntry) -> bool + Send + Sync + 'static,
    {
        self.filter = Some(Filter(Arc::new(filter)));
        self
    }
    pub fn threads(&mut self, _: usize) -> &mut Self {
        self
    }
    no_effect!(parents, ignore, git_global, git_ignore, git_exclude, require_git, ignore_case_insensitive, same_file_system);
    pub fn build(&self) -> Walk {
        let mut out = Vec::new();
        for root in &self.roots {
            self.walk(root.clone(), None, 0, &mut out);
        }
        Walk { out: out.into_iter() }
    }
    fn walk(&self, path: PathBuf, name: Option<Vec<u8>>, depth: usize, out: &mut Vec<Result<DirEntry, Error>>) {
        let raw = path.clone().into_os_string().into_vec();
        let Some(n) = world::find(&raw) else {
            out.push(Err(Error::Io(std::io::Error::from_raw_os_error(world::ENOENT))));
            return;
        };
        // A link found on the way is shown, not followed; one given as the root is followed.
        let link = world::node(n).link && depth > 0;
        let kind = if link && !self.follow { world::Kind::Other } else { world::node(n).kind };
        let e = DirEntry {
            name: match &name {
                Some(n) => OsString::from_vec(n.clone()),
                None => path.file_name().unwrap_or(path.as_os_str()).to_owned(),
            },
            path: path.clone(),
            kind,
            link,
            depth,
        };
        if depth > 0 && self.filter.as_ref().is_some_and(|f| !(f.0)(&e)) {
            return;
        }
        if depth >= self.min && !(kind == world::Kind::File && self.size.is_some_and(|s| world::node(world::itself(n)).bytes.len() as u64 > s)) {
            out.push(Ok(e));
        }
        if kind == world::Kind::Dir && depth < self.max {
            if world::node(n).closed {
                out.push(Err(Error::Io(std::io::Error::from_raw_os_error(world::EACCES))));
                return;
            }
            let mut all = world::children(n);
            if let Some(s) = &self.sorter {
                let at = |c: &usize| path.join(OsString::from_vec(world::node(*c).name.clone()));
                all.sort_by(|a, b| (s.0)(&at(a), &at(b)));
            }
            for c in all {
                let name = world::node(c).name.clone();
                if self.hidden && name.first() == Some(&b'.') {
                    continue;
                }
                self.walk(path.join(OsString::from_vec(name.clone())), Some(name), depth + 1, out);
            }
        }
    }
}

pub struct Walk {
    out: std::vec::IntoIter<Result<DirEntry, Error>>,
}

impl Walk {
    pub fn new<P: AsRef<Path>>(path: P) -> Self {
        WalkBuilder::new(path).build()
    }
}

impl Iterator for Walk {
    type Item = Result<DirEntry, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        self.out.next()
    }
}

impl std::iter::FusedIterator for Walk {}
