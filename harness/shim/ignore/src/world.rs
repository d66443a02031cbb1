//! The file tree, and the system calls that read it.
//!
//! A node is a file, a directory or something else, and may be reached through a symbolic link (a
//! link's node has the kind of what it leads to). The first node is the working directory.
use std::ffi::{c_char, c_int, c_void};

pub const ENOENT: i32 = 2;
const EBADF: i32 = 9;
pub const EACCES: i32 = 13;
const ENOTDIR: i32 = 20;
const EISDIR: i32 = 21;
const EINVAL: i32 = 22;
const EROFS: i32 = 30;
const ENAMETOOLONG: i32 = 36;
pub const LINK: u32 = 0o120777;

/// Where the working directory is.
const CWD: &[u8] = b"/work";

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    File,
    Dir,
    Other,
    /// What a link to nothing leads to.
    None,
}

pub fn mode(k: Kind) -> u32 {
    match k {
        Kind::File => 0o100644,
        Kind::Dir => 0o040755,
        Kind::Other | Kind::None => 0o010644,
    }
}

#[derive(Debug, Clone)]
pub struct Node {
    pub parent: usize,
    pub name: Vec<u8>,
    pub kind: Kind,
    pub link: bool,
    pub bytes: Vec<u8>,
    pub gone: bool,
    /// Whether it may not be read, nor anything in it be reached.
    pub closed: bool,
    /// The file whose other name this is, if it is none of its own.
    pub to: Option<usize>,
}

struct Fd {
    node: usize,
    at: usize,
}

struct World {
    nodes: Vec<Node>,
    fds: Vec<Option<Fd>>,
    out: Vec<u8>,
    opened: Vec<usize>,
}

static mut WORLD: World = World { nodes: Vec::new(), fds: Vec::new(), out: Vec::new(), opened: Vec::new() };

// SAFETY (throughout): the harnesses that use the tree have one thread.
#[allow(static_mut_refs)]
fn w() -> &'static mut World {
    unsafe { &mut WORLD }
}

pub fn reset() {
    let w = w();
    w.nodes = vec![Node { parent: 0, name: Vec::new(), kind: Kind::Dir, link: false, bytes: Vec::new(), gone: false, closed: false, to: None }];
    w.fds = Vec::new();
    w.out = Vec::new();
    w.opened = Vec::new();
}

pub fn add(parent: usize, name: Vec<u8>, kind: Kind, link: bool, bytes: Vec<u8>) -> usize {
    let w = w();
    w.nodes.push(Node { parent, name, kind, link, bytes, gone: false, closed: false, to: None });
    w.nodes.len() - 1
}

/// Another name of a file: a symbolic link, or one more entry for it.
pub fn alias(parent: usize, name: Vec<u8>, to: usize, link: bool) -> usize {
    let n = add(parent, name, Kind::File, link, Vec::new());
    w().nodes[n].to = Some(to);
    n
}

/// The file itself.
pub fn itself(n: usize) -> usize {
    w().nodes[n].to.unwrap_or(n)
}

/// Gives a file another content, or takes it away.
pub fn change(n: usize, bytes: Option<Vec<u8>>) {
    let x = &mut w().nodes[itself(n)];
    x.gone = bytes.is_none();
    x.bytes = bytes.unwrap_or_default();
}

/// Takes the right to read a file, or to read a directory and reach what is in it, away.
pub fn close_off(n: usize) {
    w().nodes[n].closed = true;
}

pub fn node(n: usize) -> &'static Node {
    &w().nodes[n]
}

pub fn children(n: usize) -> Vec<usize> {
    (1..w().nodes.len()).filter(|c| w().nodes[*c].parent == n && !w().nodes[*c].gone).collect()
}

/// What was written to the standard output.
pub fn output() -> Vec<u8> {
    std::mem::take(&mut w().out)
}

/// Whether two byte strings are the same, in one expression.
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

fn lookup(path: &[u8]) -> Result<usize, i32> {
    if path.is_empty() {
        return Err(ENOENT);
    }
    let path = if path[0] == b'/' {
        match path.strip_prefix(CWD) {
            Some([]) => b".",
            Some(rest) if rest[0] == b'/' => &rest[1..],
            // Nothing outside the working directory is part of the world.
            _ => return Err(ENOENT),
        }
    } else {
        path
    };
    let mut at = 0;
    for part in path.split(|b| *b == b'/') {
        // Whatever is followed by a slash has to be a directory, a trailing one included.
        if w().nodes[at].kind != Kind::Dir {
            return Err(ENOTDIR);
        }
        if part.is_empty() || part == b"." {
            continue;
        }
        if w().nodes[at].closed {
            return Err(EACCES);
        }
        if part.len() > 255 {
            return Err(ENAMETOOLONG);
        }
        if part == b".." {
            if at == 0 {
                return Err(ENOENT);
            }
            at = w().nodes[at].parent;
            continue;
        }
        match (1..w().nodes.len()).find(|c| w().nodes[*c].parent == at && !w().nodes[*c].gone && same(&w().nodes[*c].name, part)) {
            Some(c) => at = c,
            None => return Err(ENOENT),
        }
    }
    Ok(at)
}

/// The node at a path, links followed to what they lead to.
fn target(path: &[u8]) -> Result<usize, i32> {
    let n = itself(lookup(path)?);
    if w().nodes[n].kind == Kind::None || w().nodes[n].gone {
        Err(ENOENT)
    } else {
        Ok(n)
    }
}

/// That node, if it may be read.
fn readable(path: &[u8]) -> Result<usize, i32> {
    target(path).and_then(|n| if w().nodes[n].closed { Err(EACCES) } else { Ok(n) })
}

pub fn find(path: &[u8]) -> Option<usize> {
    lookup(path).ok()
}

extern "C" {
    fn __errno_location() -> *mut c_int;
}

unsafe fn fail(e: i32) -> c_int {
    *__errno_location() = e;
    -1
}

unsafe fn cstr<'a>(p: *const c_char) -> &'a [u8] {
    std::ffi::CStr::from_ptr(p).to_bytes()
}

const FIRST: usize = 3;

unsafe fn fd(f: c_int) -> Option<&'static mut Fd> {
    let i = (f as usize).wrapping_sub(FIRST);
    w().fds.get_mut(i).and_then(|f| f.as_mut())
}

/// The files opened so far, by what they are.
pub fn opened() -> Vec<usize> {
    w().opened.clone()
}

#[no_mangle]
unsafe extern "C" fn open64(p: *const c_char, flags: c_int, _mode: u32) -> c_int {
    if flags & 3 != 0 || flags & 0o100 != 0 {
        return fail(EROFS);
    }
    match readable(cstr(p)) {
        Ok(n) => {
            w().opened.push(n);
            w().fds.push(Some(Fd { node: n, at: 0 }));
            (w().fds.len() - 1 + FIRST) as c_int
        }
        Err(e) => fail(e),
    }
}

#[no_mangle]
unsafe extern "C" fn close(f: c_int) -> c_int {
    let i = (f as usize).wrapping_sub(FIRST);
    match w().fds.get_mut(i) {
        Some(x) if x.is_some() => {
            *x = None;
            0
        }
        _ => fail(EBADF),
    }
}

#[no_mangle]
unsafe extern "C" fn read(f: c_int, buf: *mut u8, n: usize) -> isize {
    let Some(f) = fd(f) else {
        return fail(EBADF) as isize;
    };
    let node = &w().nodes[f.node];
    if node.kind == Kind::Dir {
        return fail(EISDIR) as isize;
    }
    let k = n.min(node.bytes.len() - f.at);
    for i in 0..k {
        *buf.add(i) = node.bytes[f.at + i];
    }
    f.at += k;
    k as isize
}

#[no_mangle]
unsafe extern "C" fn lseek64(f: c_int, off: i64, whence: c_int) -> i64 {
    let Some(f) = fd(f) else {
        return fail(EBADF) as i64;
    };
    let base = match whence {
        0 => 0,
        1 => f.at as i64,
        2 => w().nodes[f.node].bytes.len() as i64,
        _ => return fail(EINVAL) as i64,
    };
    if base + off < 0 {
        return fail(EINVAL) as i64;
    }
    f.at = (base + off) as usize;
    f.at as i64
}

#[no_mangle]
unsafe extern "C" fn write(f: c_int, buf: *const u8, n: usize) -> isize {
    if f == 1 {
        w().out.extend_from_slice(std::slice::from_raw_parts(buf, n));
    } else if f != 2 {
        return fail(EBADF) as isize;
    }
    n as isize
}

#[repr(C)]
struct Iovec {
    base: *const u8,
    len: usize,
}

#[no_mangle]
unsafe extern "C" fn writev(f: c_int, parts: *const Iovec, n: c_int) -> isize {
    let mut all = 0;
    for p in std::slice::from_raw_parts(parts, n as usize) {
        let k = write(f, p.base, p.len);
        if k < 0 {
            return k;
        }
        all += k;
    }
    all
}

#[repr(C)]
struct Statx {
    mask: u32,
    blksize: u32,
    attributes: u64,
    nlink: u32,
    uid: u32,
    gid: u32,
    mode: u16,
    pad: u16,
    ino: u64,
    size: u64,
    rest: [u64; 26],
}

unsafe fn stat_of(n: usize, follow: bool) -> (u32, u64, u64) {
    // One more entry for a file is that file; a link is a link if it is not followed.
    let n = if w().nodes[n].link && !follow { n } else { itself(n) };
    let x = &w().nodes[n];
    if x.link && !follow {
        // As long as the path it holds.
        return (LINK, 60, n as u64 + 1);
    }
    (if x.closed { mode(x.kind) & 0o170000 } else { mode(x.kind) }, x.bytes.len() as u64, n as u64 + 1)
}

#[no_mangle]
unsafe extern "C" fn statx(dir: c_int, p: *const c_char, flags: c_int, _mask: u32, out: *mut c_void) -> c_int {
    const AT_FDCWD: c_int = -100;
    const AT_EMPTY_PATH: c_int = 0x1000;
    const AT_SYMLINK_NOFOLLOW: c_int = 0x100;
    if p.is_null() {
        return fail(14);
    }
    let path = cstr(p);
    let n = if path.is_empty() && flags & AT_EMPTY_PATH != 0 && dir != AT_FDCWD {
        match fd(dir) {
            Some(f) => f.node,
            None => return fail(EBADF),
        }
    } else {
        match if flags & AT_SYMLINK_NOFOLLOW == 0 { target(path) } else { lookup(path) } {
            Ok(n) => n,
            Err(e) => return fail(e),
        }
    };
    let (mode, size, ino) = stat_of(n, flags & AT_SYMLINK_NOFOLLOW == 0);
    *(out as *mut Statx) = Statx {
        mask: 0xfff,
        blksize: 4096,
        attributes: 0,
        nlink: 1,
        uid: 0,
        gid: 0,
        mode: mode as u16,
        pad: 0,
        ino,
        size,
        rest: [0; 26],
    };
    0
}

#[no_mangle]
unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    match if mode == 0 { target(cstr(p)) } else { readable(cstr(p)) } {
        Ok(_) => 0,
        Err(e) => fail(e),
    }
}

#[no_mangle]
unsafe extern "C" fn getcwd(buf: *mut c_char, n: usize) -> *mut c_char {
    if n <= CWD.len() {
        fail(34);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(CWD.as_ptr() as *const c_char, buf, CWD.len());
    *buf.add(CWD.len()) = 0;
    buf
}

// -- directories -----------------------------------------------------------------------------------

#[repr(C)]
struct Dirent {
    ino: u64,
    off: i64,
    reclen: u16,
    kind: u8,
    name: [u8; 256],
}

struct Stream {
    fd: c_int,
    entries: std::vec::IntoIter<(u64, u8, Vec<u8>)>,
    entry: Dirent,
}

unsafe fn stream(n: usize, fd: c_int) -> *mut c_void {
    const DT_FIFO: u8 = 1;
    const DT_DIR: u8 = 4;
    const DT_REG: u8 = 8;
    const DT_LNK: u8 = 10;
    let mut entries = vec![(n as u64 + 1, DT_DIR, b".".to_vec()), (0, DT_DIR, b"..".to_vec())];
    for c in children(n) {
        let x = node(c);
        let kind = match x.kind {
            _ if x.link => DT_LNK,
            Kind::File => DT_REG,
            Kind::Dir => DT_DIR,
            _ => DT_FIFO,
        };
        let ino = if x.link { c } else { itself(c) };
        entries.push((ino as u64 + 1, kind, x.name.clone()));
    }
    Box::into_raw(Box::new(Stream {
        fd,
        entries: entries.into_iter(),
        entry: Dirent { ino: 0, off: 0, reclen: 0, kind: 0, name: [0; 256] },
    })) as *mut c_void
}

#[no_mangle]
unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    let r = readable(cstr(p)).and_then(|n| if node(n).kind == Kind::Dir { Ok(n) } else { Err(ENOTDIR) });
    match r {
        Ok(n) => {
            w().fds.push(Some(Fd { node: n, at: 0 }));
            stream(n, (w().fds.len() - 1 + FIRST) as c_int)
        }
        Err(e) => {
            fail(e);
            std::ptr::null_mut()
        }
    }
}

#[no_mangle]
unsafe extern "C" fn fdopendir(f: c_int) -> *mut c_void {
    match fd(f) {
        Some(x) if node(x.node).kind == Kind::Dir => stream(x.node, f),
        Some(_) => {
            fail(ENOTDIR);
            std::ptr::null_mut()
        }
        None => {
            fail(EBADF);
            std::ptr::null_mut()
        }
    }
}

#[no_mangle]
unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    (*(d as *mut Stream)).fd
}

#[no_mangle]
unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    let s = Box::from_raw(d as *mut Stream);
    close(s.fd)
}

#[no_mangle]
unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
    let s = &mut *(d as *mut Stream);
    let Some((ino, kind, name)) = s.entries.next() else {
        return std::ptr::null_mut();
    };
    s.entry.ino = ino;
    s.entry.off += 1;
    s.entry.reclen = std::mem::size_of::<Dirent>() as u16;
    s.entry.kind = kind;
    for (i, b) in name.iter().enumerate() {
        s.entry.name[i] = *b;
    }
    s.entry.name[name.len()] = 0;
    &mut s.entry as *mut Dirent as *mut c_void
}

extern "C" {
    fn malloc(n: usize) -> *mut c_void;
}

/// The path from the root, no links to directories in it followed.
#[no_mangle]
unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    let n = match lookup(cstr(p)).and_then(|n| target(cstr(p)).map(|t| if node(n).link { t } else { n })) {
        Ok(n) => n,
        Err(e) => {
            fail(e);
            return std::ptr::null_mut();
        }
    };
    let mut parts = Vec::new();
    let mut at = n;
    while at != 0 {
        parts.push(node(at).name.clone());
        at = node(at).parent;
    }
    let mut path = CWD.to_vec();
    for x in parts.iter().rev() {
        path.push(b'/');
        path.extend_from_slice(x);
    }
    path.push(0);
    let to = if out.is_null() { malloc(path.len()) as *mut c_char } else { out };
    for (i, b) in path.iter().enumerate() {
        *to.add(i) = *b as c_char;
    }
    to
}
