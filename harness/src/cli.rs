//! Running the real command, in scratch directories only.
use std::ffi::OsStr;
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub fn bin() -> PathBuf {
    PathBuf::from(format!("{}/harness/target/cli/release/hongdown", crate::core::ROOT))
}

/// The library that stands between the command and the C library
pub fn shim() -> PathBuf {
    PathBuf::from(format!("{}/harness/target/shim.so", crate::core::ROOT))
}

/// A directory of its own for one case, removed with it.
pub struct Scratch(pub PathBuf);
static N: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new() -> Scratch {
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let p = PathBuf::from(format!("{base}/hdmc-{}-{}", std::process::id(), N.fetch_add(1, Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
    pub fn put(&self, name: &str, content: impl AsRef<[u8]>) -> PathBuf {
        let p = self.0.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).expect("scratch dir");
        std::fs::write(&p, content).expect("scratch file");
        p
    }
    pub fn path(&self, name: &str) -> PathBuf { self.0.join(name) }
    pub fn read(&self, name: &str) -> Option<Vec<u8>> { std::fs::read(self.0.join(name)).ok() }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if std::env::var("HDMC_KEEP").is_err() { let _ = std::fs::remove_dir_all(&self.0); }
    }
}

pub struct Run {
    /// Exit status; a negative number is a signal, −999 a run that did not end.
    pub code: i32,
    pub out: Vec<u8>,
    pub err: String,
    pub time: Duration,
}
impl Run {
    pub fn ok(&self) -> bool { self.code == 0 }
    /// An orderly failure: neither success nor a panic nor a signal
    pub fn failed(&self) -> bool { self.code > 0 && self.code != 101 }
    pub fn text(&self) -> String { String::from_utf8_lossy(&self.out).into_owned() }
}

#[derive(Clone, Default)]
pub struct Call {
    pub args: Vec<String>,
    pub cwd: PathBuf,
    pub home: Option<PathBuf>,
    pub env: Vec<(String, String)>,
    pub stdin: Vec<u8>,
    pub limit: u64,
}

impl Call {
    /// A call with everything the environment decides set to something empty.
    pub fn new(cwd: &Path, args: &[&str]) -> Call {
        Call { args: args.iter().map(|s| s.to_string()).collect(), cwd: cwd.into(), limit: 20, ..Default::default() }
    }
    pub fn stdin(mut self, s: impl AsRef<[u8]>) -> Call { self.stdin = s.as_ref().to_vec(); self }
    pub fn env(mut self, k: &str, v: impl AsRef<OsStr>) -> Call { self.env.push((k.into(), v.as_ref().to_string_lossy().into_owned())); self }
    pub fn run(&self) -> Run {
        let mut c = Command::new(bin());
        c.args(&self.args).current_dir(&self.cwd).env_clear()
            .env("PATH", "/usr/local/bin:/usr/bin:/bin")
            .env("HOME", self.home.clone().unwrap_or_else(|| PathBuf::from("/nonexistent-home")))
            .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).process_group(0);
        for (k, v) in &self.env { c.env(k, v); }
        let t0 = Instant::now();
        let mut ch = c.spawn().expect("the hongdown command");
        let mut i = ch.stdin.take().unwrap();
        let (mut o, mut e) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
        let (mut out, mut err) = (vec![], vec![]);
        let mut st = None;
        std::thread::scope(|s| {
            use std::io::Read;
            let input = &self.stdin;
            s.spawn(move || { let _ = i.write_all(input); drop(i); });
            let (oo, ee) = (&mut out, &mut err);
            s.spawn(move || { let _ = o.read_to_end(oo); });
            s.spawn(move || { let _ = e.read_to_end(ee); });
            let mut nap = 200;
            loop {
                if let Ok(Some(x)) = ch.try_wait() { st = Some(x); break; }
                if t0.elapsed() > Duration::from_secs(self.limit) {
                    unsafe extern "C" { fn kill(pid: i32, sig: i32) -> i32; }
                    unsafe { kill(-(ch.id() as i32), 9); }
                    let _ = ch.wait();
                    break;
                }
                std::thread::sleep(Duration::from_micros(nap));
                nap = (nap * 2).min(5000);
            }
        });
        let code = st.map_or(-999, |s| s.code().unwrap_or_else(|| -s.signal().unwrap_or(0)));
        Run { code, out, err: String::from_utf8_lossy(&err).into_owned(), time: t0.elapsed() }
    }
}
