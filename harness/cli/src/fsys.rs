//! The file tree a harness works on: a model of one, or real files in a directory of their own.
pub type Bytes = Vec<u8>;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    File,
    Dir,
    /// A symbolic link to a file that is no document, or to an empty directory.
    ToFile,
    ToDir,
    /// A named pipe.
    Pipe,
    /// A symbolic link to nothing.
    ToNothing,
}

#[cfg(feature = "model")]
mod imp {
    use super::*;
    use ignore::world::{self, Kind as K};
    use std::io::Write;

    pub fn reset() {
        world::reset()
    }

    pub fn add(parent: usize, name: &[u8], kind: Kind, bytes: &[u8]) -> usize {
        let (k, link) = match kind {
            Kind::File => (K::File, false),
            Kind::Dir => (K::Dir, false),
            Kind::ToFile => (K::File, true),
            Kind::ToDir => (K::Dir, true),
            Kind::Pipe => (K::Other, false),
            Kind::ToNothing => (K::None, true),
        };
        world::add(parent, name.to_vec(), k, link, bytes.to_vec())
    }

    /// Another name of a file: a symbolic link to it, or one more entry for it.
    pub fn alias(parent: usize, name: &[u8], to: usize, link: bool) -> usize {
        world::alias(parent, name.to_vec(), to, link)
    }

    /// Gives a file another content, or takes it away.
    pub fn change(n: usize, bytes: Option<&[u8]>) {
        world::change(n, bytes.map(|b| b.to_vec()))
    }

    /// Takes the right to read it away.
    pub fn close_off(n: usize) {
        world::close_off(n)
    }

    /// Goes on as someone who may not read everything.
    pub fn unprivileged() {}

    pub fn output(f: impl FnOnce()) -> Bytes {
        let _ = std::io::stdout().flush();
        world::output();
        f();
        let _ = std::io::stdout().flush();
        world::output()
    }

    extern "C-unwind" {
        fn sym_args(argc: i32, argv: *const *const u8);
        fn sym_process(f: extern "C-unwind" fn(usize) -> i32, arg: usize) -> i32;
    }

    /// Runs the program with this command line: whether it succeeds, and what it prints.
    pub fn program(words: &[Bytes]) -> (bool, Bytes) {
        let mut argv: Vec<*const u8> = Vec::new();
        for w in words {
            let mut w = w.clone();
            w.push(0);
            argv.push(w.leak().as_ptr());
        }
        argv.push(std::ptr::null());
        unsafe { sym_args(words.len() as i32, argv.leak().as_ptr()) };
        extern "C-unwind" fn go(_: usize) -> i32 {
            match std::panic::catch_unwind(crate::app::run_program) {
                Ok(ok) => !ok as i32,
                Err(_) => 101,
            }
        }
        let mut status = 0;
        let out = output(|| status = unsafe { sym_process(go, 0) });
        (status & 255 == 0, out)
    }
}

#[cfg(not(feature = "model"))]
mod imp {
    use super::*;
    use std::{
        ffi::OsStr,
        fs,
        io::{Read, Seek, Write},
        os::{
            fd::AsRawFd,
            unix::{ffi::OsStrExt, fs::PermissionsExt},
        },
        path::PathBuf,
        sync::Mutex,
    };

    extern "C" {
        fn atexit(f: extern "C" fn()) -> i32;
        fn mkfifo(p: *const std::ffi::c_char, mode: u32) -> i32;
        fn dup(fd: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
        fn close(fd: i32) -> i32;
        fn setfsuid(uid: u32) -> i32;
        fn geteuid() -> u32;
    }

    static NODES: Mutex<Vec<PathBuf>> = Mutex::new(Vec::new());

    fn base() -> PathBuf {
        std::env::temp_dir().join(format!("plotline-replay-{}", std::process::id()))
    }

    extern "C" fn clean() {
        unsafe { setfsuid(geteuid()) };
        let _ = std::env::set_current_dir("/");
        let _ = fs::remove_dir_all(base());
    }

    pub fn reset() {
        if NODES.lock().unwrap().is_empty() {
            unsafe { atexit(clean) };
        }
        clean();
        fs::create_dir_all(base().join("work")).unwrap();
        fs::create_dir_all(base().join("links")).unwrap();
        *NODES.lock().unwrap() = vec![base().join("work")];
        std::env::set_current_dir(base().join("work")).unwrap();
    }

    pub fn add(parent: usize, name: &[u8], kind: Kind, bytes: &[u8]) -> usize {
        let mut nodes = NODES.lock().unwrap();
        let p = nodes[parent].join(OsStr::from_bytes(name));
        let to = base().join("links").join(nodes.len().to_string());
        match kind {
            Kind::File => fs::write(&p, bytes).unwrap(),
            Kind::Dir => fs::create_dir(&p).unwrap(),
            Kind::ToFile => {
                fs::write(&to, bytes).unwrap();
                std::os::unix::fs::symlink(&to, &p).unwrap();
            }
            Kind::ToDir => {
                fs::create_dir(&to).unwrap();
                std::os::unix::fs::symlink(&to, &p).unwrap();
            }
            Kind::Pipe => {
                let p = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
                assert!(unsafe { mkfifo(p.as_ptr(), 0o600) } == 0);
            }
            Kind::ToNothing => std::os::unix::fs::symlink(&to, &p).unwrap(),
        }
        nodes.push(p);
        nodes.len() - 1
    }

    /// Another name of a file: a symbolic link to it, or one more entry for it.
    pub fn alias(parent: usize, name: &[u8], to: usize, link: bool) -> usize {
        let mut nodes = NODES.lock().unwrap();
        let p = nodes[parent].join(OsStr::from_bytes(name));
        if link {
            std::os::unix::fs::symlink(&nodes[to], &p).unwrap();
        } else {
            fs::hard_link(&nodes[to], &p).unwrap();
        }
        nodes.push(p);
        nodes.len() - 1
    }

    /// Gives a file another content, or takes it away.
    pub fn change(n: usize, bytes: Option<&[u8]>) {
        let p = NODES.lock().unwrap()[n].clone();
        match bytes {
            Some(b) => fs::write(p, b).unwrap(),
            None => drop(fs::remove_file(p)),
        }
    }

    /// Takes the right to read it away.
    pub fn close_off(n: usize) {
        let p = NODES.lock().unwrap()[n].clone();
        // What is changed is what a link leads to.
        fs::set_permissions(p, fs::Permissions::from_mode(0)).unwrap();
    }

    /// Goes on as someone who may not read everything.
    pub fn unprivileged() {
        unsafe { setfsuid(65534) };
    }

    pub fn output(f: impl FnOnce()) -> Bytes {
        let mut file = fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(base().join("output"))
            .unwrap();
        std::io::stdout().flush().unwrap();
        // SAFETY: the standard output is given back below.
        let kept = unsafe { dup(1) };
        unsafe { dup2(file.as_raw_fd(), 1) };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        std::io::stdout().flush().unwrap();
        unsafe {
            dup2(kept, 1);
            close(kept);
        }
        if let Err(p) = r {
            std::panic::resume_unwind(p);
        }
        let mut out = Vec::new();
        file.rewind().unwrap();
        file.read_to_end(&mut out).unwrap();
        out
    }

    /// Runs the program, in a process of its own (see `replay.rs`), with this command line.
    pub fn program(words: &[Bytes]) -> (bool, Bytes) {
        let out = std::process::Command::new(std::env::current_exe().unwrap())
            .args(words[1..].iter().map(|w| OsStr::from_bytes(w)))
            .env("PLOTLINE_REPLAY_PROGRAM", "1")
            .stdin(std::process::Stdio::null())
            .output()
            .unwrap();
        (out.status.success(), out.stdout)
    }
}

pub use imp::*;
