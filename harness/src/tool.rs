//! Runs the compiler under test as a user would.

use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: String,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.stdout).to_string()
    }
    /// The error message, without what the tool logs before it.
    pub fn error(&self) -> String {
        let l: Vec<&str> = self.stderr.lines().filter(|l| l.contains("Error") || l.contains("panicked") || l.contains("overflow")).collect();
        let mut s = l.last().copied().unwrap_or("no message").to_string();
        s.truncate(s.char_indices().nth(600).map(|c| c.0).unwrap_or(s.len()));
        match (self.code, self.signal) {
            (Some(1), _) => s,
            (c, g) => format!("exit {:?} signal {:?}: {}", c, g, s),
        }
    }
}

pub fn hampi() -> PathBuf {
    PathBuf::from(std::env::var("HAMPI").unwrap_or_else(|_| "/verif/target/hampi/debug/hampi-asn1c".into()))
}
/// A scratch directory of this process, with a `bin` in which rustfmt does nothing.
pub fn dir() -> &'static Path {
    static D: OnceLock<PathBuf> = OnceLock::new();
    D.get_or_init(|| {
        let base = std::env::var("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| crate::engine::scratch());
        let d = base.join(format!("t{}", std::process::id()));
        std::fs::create_dir_all(d.join("bin")).unwrap();
        let p = d.join("bin/rustfmt");
        std::fs::write(&p, "#!/bin/sh\nexec cat\n").unwrap();
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
        d
    })
}
#[derive(Clone, Copy)]
pub struct Limits {
    pub cpu_s: u64,
    pub mem: u64,
    pub rustfmt: bool,
    pub fault: Fault,
}
/// What goes wrong around the compiler.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    None,
    /// The formatter is this shell script.
    Formatter(&'static str),
    /// There is no formatter.
    NoFormatter,
    /// The output has no room: `/dev/full`.
    FullOutput,
}
impl Default for Limits {
    fn default() -> Self {
        Limits { cpu_s: 60, mem: 4 << 30, rustfmt: false, fault: Fault::None }
    }
}
/// Compiles files that already exist.
pub fn run_files(files: &[PathBuf], lim: Limits) -> Out {
    let mut c = Command::new(hampi());
    c.args(files).current_dir(dir()).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    if !lim.rustfmt {
        let path = std::env::var("PATH").unwrap_or_default();
        c.env("PATH", format!("{}:{}", dir().join("bin").display(), path));
    }
    match lim.fault {
        Fault::None => {}
        Fault::Formatter(script) => {
            let b = dir().join("faulty");
            std::fs::create_dir_all(&b).unwrap();
            let name = b.join("rustfmt");
            // Written under another name first: what runs is never open for writing.
            std::fs::write(b.join("new"), format!("#!/bin/sh\n{}\n", script)).unwrap();
            use std::os::unix::fs::PermissionsExt;
            std::fs::set_permissions(b.join("new"), std::fs::Permissions::from_mode(0o755)).unwrap();
            std::fs::rename(b.join("new"), &name).unwrap();
            c.env("PATH", format!("{}:/usr/bin:/bin", b.display()));
        }
        Fault::NoFormatter => {
            c.env("PATH", dir().join("nothing"));
        }
        Fault::FullOutput => {
            c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap());
        }
    }
    c.env_remove("RUST_BACKTRACE");
    unsafe {
        c.pre_exec(move || {
            let set = |r, v: u64| {
                let l = libc::rlimit { rlim_cur: v, rlim_max: v + 5 };
                libc::setrlimit(r, &l);
            };
            set(libc::RLIMIT_CPU as _, lim.cpu_s);
            set(libc::RLIMIT_AS as _, lim.mem);
            set(libc::RLIMIT_CORE as _, 0);
            Ok(())
        });
    }
    let mut k = c.spawn().unwrap_or_else(|e| {
        eprintln!("cannot run {}: {}", hampi().display(), e);
        std::process::exit(2)
    });
    let so = k.stdout.take();
    let mut se = k.stderr.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        v
    });
    let mut stdout = vec![];
    if let Some(mut so) = so {
        let _ = so.read_to_end(&mut stdout);
    }
    let st = k.wait().unwrap();
    let stderr = String::from_utf8_lossy(&h.join().unwrap()).to_string();
    Out { code: st.code(), signal: st.signal(), stdout, stderr }
}
/// Compiles texts, each a file of its own.
pub fn run(texts: &[&[u8]], lim: Limits) -> Out {
    let mut files = vec![];
    for (i, t) in texts.iter().enumerate() {
        let p = dir().join(format!("in{}.asn", i));
        std::fs::write(&p, t).unwrap();
        files.push(p);
    }
    run_files(&files, lim)
}
pub fn compile(text: &str) -> Out {
    run(&[text.as_bytes()], Limits::default())
}
