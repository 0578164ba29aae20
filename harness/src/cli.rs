//! Running the `bulloak` binary in a scratch directory and reading what it says.

use std::{
    fs,
    io::Read,
    os::unix::process::{CommandExt, ExitStatusExt},
    path::PathBuf,
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering},
        Once,
    },
    time::{Duration, SystemTime, UNIX_EPOCH},
};

use crate::engine::{Ctx, Fail};

const SLOTS: usize = 64;
static PIDS: [AtomicI32; SLOTS] = [const { AtomicI32::new(0) }; SLOTS];
static STARTED: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static KILLED: [AtomicBool; SLOTS] = [const { AtomicBool::new(false) }; SLOTS];
static WATCHDOG: Once = Once::new();
const WALL_LIMIT_S: u64 = 120;
const CPU_LIMIT_S: u64 = 20;

fn now_s() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs()
}

pub fn start_watchdog() {
    WATCHDOG.call_once(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_secs(2));
            for i in 0..SLOTS {
                let pid = PIDS[i].load(Ordering::SeqCst);
                if pid > 0 && now_s().saturating_sub(STARTED[i].load(Ordering::SeqCst)) > WALL_LIMIT_S {
                    KILLED[i].store(true, Ordering::SeqCst);
                    unsafe { libc::kill(pid, libc::SIGKILL) };
                }
            }
        });
    });
}

pub struct Env {
    pub dir: PathBuf,
    pub bin: PathBuf,
    pub runs: u64,
    slot: usize,
    pub root: bool,
}

/// Circumstances of a run.
#[derive(Clone, Debug, Default)]
pub struct How {
    /// Another (unprivileged) user; ignored unless the check runs as root.
    pub uid: Option<u32>,
    pub cwd: Option<PathBuf>,
    pub envs: Vec<(String, String)>,
    /// Limit on the size of written files.
    pub fsize: Option<u64>,
    /// Standard output accepts nothing, as on a full disk.
    pub full: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Run {
    /// Exit status, or None when killed by a signal.
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
    pub raw_out: Vec<u8>,
    pub raw_err: Vec<u8>,
}

impl Run {
    pub fn crashed(&self) -> Option<String> {
        if let Some(s) = self.signal {
            if s == libc::SIGXCPU {
                return Some(format!("did not terminate within {CPU_LIMIT_S}s of CPU time"));
            }
            return Some(format!("killed by signal {s}; stderr: {}", clip(&self.err)));
        }
        match self.code {
            Some(101) => Some(format!("panicked: {}", clip(&self.err))),
            _ => None,
        }
    }
}

pub fn clip(s: &str) -> String {
    if s.len() > 1500 {
        let mut i = 1500;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        format!("{}…", &s[..i])
    } else {
        s.to_owned()
    }
}

/// Removes ANSI colour sequences.
pub fn strip_ansi(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            it.next();
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

impl Env {
    pub fn new(ctx: &Ctx, idx: usize) -> Env {
        let base = if fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false)
            && fs::create_dir_all(format!("/dev/shm/bvh-{}", std::process::id())).is_ok()
        {
            PathBuf::from(format!("/dev/shm/bvh-{}", std::process::id()))
        } else {
            std::env::temp_dir().join(format!("bvh-{}", std::process::id()))
        };
        let dir = base.join(format!("w{idx}"));
        fs::create_dir_all(&dir).expect("scratch directory");
        Env {
            dir,
            bin: PathBuf::from(&ctx.bin),
            runs: 0,
            slot: idx % SLOTS,
            root: unsafe { libc::geteuid() } == 0,
        }
    }

    pub fn remove_all() {
        let _ = fs::remove_dir_all(format!("/dev/shm/bvh-{}", std::process::id()));
        let _ = fs::remove_dir_all(
            std::env::temp_dir().join(format!("bvh-{}", std::process::id())),
        );
    }

    /// Empties the scratch directory.
    pub fn clean(&self) {
        if let Ok(rd) = fs::read_dir(&self.dir) {
            for e in rd.flatten() {
                let p = e.path();
                if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                    let _ = fs::remove_dir_all(p);
                } else {
                    let _ = fs::remove_file(p);
                }
            }
        }
    }

    pub fn write(&self, name: &str, content: impl AsRef<[u8]>) {
        fs::write(self.dir.join(name), content).expect("write scratch file");
    }

    pub fn read(&self, name: &str) -> Option<String> {
        fs::read(self.dir.join(name)).ok().map(|b| String::from_utf8_lossy(&b).into_owned())
    }

    pub fn remove(&self, name: &str) {
        let _ = fs::remove_file(self.dir.join(name));
    }

    pub fn run(&mut self, args: &[&str]) -> Result<Run, Fail> {
        self.run_how(args, &How::default())
    }

    /// Runs the binary under the given circumstances.
    pub fn run_how(&mut self, args: &[&str], how: &How) -> Result<Run, Fail> {
        let mut last = String::new();
        for attempt in 0..3 {
            match self.run_once(args, how) {
                Ok(r) => return Ok(r),
                Err(m) => {
                    last = m;
                    std::thread::sleep(Duration::from_millis(200 * (attempt + 1)));
                }
            }
        }
        Err(Fail::Broken(last))
    }

    /// A copy of the binary that any user can reach.
    fn shared_bin(&self) -> Result<PathBuf, String> {
        static COPY: std::sync::Mutex<bool> = std::sync::Mutex::new(false);
        let base = self.dir.parent().unwrap();
        let to = base.join("bulloak");
        let mut done = COPY.lock().unwrap_or_else(|e| e.into_inner());
        if !*done {
            use std::os::unix::fs::PermissionsExt;
            fs::copy(&self.bin, &to).map_err(|e| format!("cannot copy the binary: {e}"))?;
            for p in [base.to_path_buf(), to.clone()] {
                fs::set_permissions(&p, fs::Permissions::from_mode(0o755)).map_err(|e| e.to_string())?;
            }
            *done = true;
        }
        Ok(to)
    }

    fn run_once(&mut self, args: &[&str], how: &How) -> Result<Run, String> {
        self.runs += 1;
        let uid = how.uid.filter(|_| self.root);
        let mut c = Command::new(if uid.is_some() { self.shared_bin()? } else { self.bin.clone() });
        let fsize = how.fsize;
        c.args(args)
            .current_dir(how.cwd.as_deref().unwrap_or(&self.dir))
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        for (k, v) in &how.envs {
            c.env(k, v);
        }
        if let Some(u) = uid {
            c.uid(u).gid(u);
        }
        let full = how.full;
        unsafe {
            c.pre_exec(move || {
                if full {
                    let fd = libc::open(c"/dev/full".as_ptr(), libc::O_WRONLY);
                    if fd < 0 || libc::dup2(fd, 1) < 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                }
                if let Some(n) = fsize {
                    // Writes beyond the limit fail as on a full disk.
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                    let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                    libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                }
                let l = libc::rlimit { rlim_cur: CPU_LIMIT_S, rlim_max: CPU_LIMIT_S + 5 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
                let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &l);
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &l);
                Ok(())
            });
        }
        let mut child = c.spawn().map_err(|e| format!("cannot start {:?}: {e}", self.bin))?;
        KILLED[self.slot].store(false, Ordering::SeqCst);
        STARTED[self.slot].store(now_s(), Ordering::SeqCst);
        PIDS[self.slot].store(child.id() as i32, Ordering::SeqCst);
        let (mut out, mut err) = (vec![], vec![]);
        let res = read2(&mut child, &mut out, &mut err);
        let st = child.wait();
        PIDS[self.slot].store(0, Ordering::SeqCst);
        res.map_err(|e| format!("reading output: {e}"))?;
        let st = st.map_err(|e| format!("wait: {e}"))?;
        if KILLED[self.slot].load(Ordering::SeqCst) {
            return Err(format!("no answer within {WALL_LIMIT_S}s of wall time"));
        }
        if st.signal() == Some(libc::SIGKILL) {
            return Err("killed from outside".to_owned());
        }
        Ok(Run {
            code: st.code(),
            signal: st.signal(),
            out: strip_ansi(&String::from_utf8_lossy(&out)),
            err: strip_ansi(&String::from_utf8_lossy(&err)),
            raw_out: out,
            raw_err: err,
        })
    }
}

fn read2(child: &mut std::process::Child, out: &mut Vec<u8>, err: &mut Vec<u8>) -> std::io::Result<()> {
    use std::os::fd::AsRawFd;
    let mut o = child.stdout.take().unwrap();
    let mut e = child.stderr.take().unwrap();
    let (mut od, mut ed) = (false, false);
    let mut buf = [0u8; 65536];
    while !od || !ed {
        let mut fds = [
            libc::pollfd { fd: if od { -1 } else { o.as_raw_fd() }, events: libc::POLLIN, revents: 0 },
            libc::pollfd { fd: if ed { -1 } else { e.as_raw_fd() }, events: libc::POLLIN, revents: 0 },
        ];
        let n = unsafe { libc::poll(fds.as_mut_ptr(), 2, -1) };
        if n < 0 {
            let er = std::io::Error::last_os_error();
            if er.kind() == std::io::ErrorKind::Interrupted {
                continue;
            }
            return Err(er);
        }
        if fds[0].revents != 0 {
            let k = o.read(&mut buf)?;
            if k == 0 {
                od = true;
            } else {
                out.extend_from_slice(&buf[..k]);
            }
        }
        if fds[1].revents != 0 {
            let k = e.read(&mut buf)?;
            if k == 0 {
                ed = true;
            } else {
                err.extend_from_slice(&buf[..k]);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------- check's report

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Missing(String),
    Order(String),
    ContractMissing(String),
    ContractName(String, String),
    SolMissing,
    Unreadable,
    TreeInvalid(String),
    TreeSemantic,
    SolInvalid,
    Other(String),
}

impl Kind {
    pub fn fixable(&self) -> bool {
        matches!(
            self,
            Kind::Missing(_) | Kind::Order(_) | Kind::ContractMissing(_) | Kind::ContractName(_, _)
        )
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Viol {
    pub kind: Kind,
    pub help: Option<String>,
    pub fix: Option<String>,
    pub file: String,
    pub line: Option<usize>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CheckReport {
    pub viols: Vec<Viol>,
    /// (failed, fixes) from the summary line
    pub summary: Option<(usize, Option<usize>)>,
    pub success: bool,
}

fn quoted(s: &str, q: char) -> Vec<String> {
    s.split(q).skip(1).step_by(2).map(str::to_owned).collect()
}

fn kind_of(msg: &str) -> Kind {
    if msg.starts_with("function \"") && msg.ends_with("is missing in .sol") {
        return Kind::Missing(quoted(msg, '"')[0].clone());
    }
    if msg.starts_with("incorrect position for function `") {
        return Kind::Order(quoted(msg, '`')[0].clone());
    }
    if msg.starts_with("contract \"") {
        let q = quoted(msg, '"');
        if msg.contains("-- found") && q.len() == 2 {
            return Kind::ContractName(q[0].clone(), q[1].clone());
        }
        if msg.ends_with("is missing in .sol") && q.len() == 1 {
            return Kind::ContractMissing(q[0].clone());
        }
    }
    if msg.starts_with("the tree is missing its matching Solidity file") {
        return Kind::SolMissing;
    }
    if msg.starts_with("bulloak couldn't read the file") {
        return Kind::Unreadable;
    }
    if let Some(k) = msg.strip_prefix("an error occurred while parsing the tree: ") {
        return Kind::TreeInvalid(k.to_owned());
    }
    if msg.starts_with("at least one semantic error occurred while parsing the tree") {
        return Kind::TreeSemantic;
    }
    if msg.starts_with("an error occurred while parsing the solidity file") {
        return Kind::SolInvalid;
    }
    Kind::Other(msg.to_owned())
}

pub const SUCCESS: &str = "All checks completed successfully! No issues found.";

/// Parses what `bulloak check` printed.
pub fn parse_check(r: &Run) -> Result<CheckReport, String> {
    let mut viols: Vec<Viol> = vec![];
    let mut summary = None;
    let mut open = false;
    for l in r.err.lines() {
        if let Some(m) = l.strip_prefix("warn: ") {
            let first: String = m.chars().take_while(|c| c.is_ascii_digit()).collect();
            let rest = &m[first.len()..];
            if !first.is_empty() && (rest.starts_with(" check failed") || rest.starts_with(" checks failed")) {
                let fixes = m.find("to apply ").map(|i| {
                    m[i + 9..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0)
                });
                let n: usize = first.parse().map_err(|_| format!("a number is expected in {l:?}"))?;
                // The wording the documentation shows.
                let mut want = format!("{n} check{} failed", if n == 1 { "" } else { "s" });
                if let Some(f) = fixes {
                    want.push_str(&format!(
                        " (run `bulloak check --fix <.tree files>` to apply {f} fix{})",
                        if f == 1 { "" } else { "es" }
                    ));
                }
                if m != want {
                    return Err(format!("the summary is {m:?}, not {want:?}"));
                }
                summary = Some((n, fixes));
                open = false;
                continue;
            }
            viols.push(Viol { kind: kind_of(m), help: None, fix: None, file: String::new(), line: None });
            open = true;
            continue;
        }
        let t = l.trim_start();
        if !open {
            if !t.is_empty() {
                return Err(format!("unexpected line on standard error: {l:?}"));
            }
            continue;
        }
        let v = viols.last_mut().unwrap();
        if let Some(h) = t.strip_prefix("= help: ") {
            v.help = Some(h.to_owned());
        } else if let Some(f) = t.strip_prefix("+ fix: run ") {
            v.fix = Some(f.to_owned());
        } else if let Some(loc) = t.strip_prefix("--> ") {
            match loc.rsplit_once(':') {
                Some((f, n)) if !n.is_empty() && n.chars().all(|c| c.is_ascii_digit()) => {
                    v.file = f.to_owned();
                    v.line = n.parse().ok();
                }
                _ => v.file = loc.to_owned(),
            }
            open = false;
        } else if !t.is_empty() {
            return Err(format!("unexpected line on standard error: {l:?}"));
        }
    }
    Ok(CheckReport { viols, summary, success: r.out.contains(SUCCESS) })
}

/// `N issue(s) fixed.` as printed by check --fix.
pub fn fixed_count(out: &str) -> Option<usize> {
    out.lines().rev().find_map(|l| {
        let m = l.strip_prefix("success: ")?;
        let n: String = m.chars().take_while(|c| c.is_ascii_digit()).collect();
        m.ends_with("fixed.").then(|| n.parse().ok()).flatten()
    })
}

/// One diagnostic of a rejected tree, as printed by scaffold.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Diag {
    pub kind: String,
    pub pos: Option<(usize, usize)>,
    pub quoted: Option<String>,
    pub carets: Option<(usize, usize)>,
}

/// Splits scaffold's stderr into diagnostics of rejected trees.
pub fn parse_diags(err: &str) -> Vec<Diag> {
    let mut v = vec![];
    let lines: Vec<&str> = err.split('\n').collect();
    let mut i = 0;
    while i < lines.len() {
        if let Some(k) = lines[i].strip_prefix("bulloak error: ") {
            let mut d = Diag { kind: k.to_owned(), pos: None, quoted: None, carets: None };
            if lines.get(i + 1) == Some(&"") {
                let mut j = i + 2;
                while j < lines.len() && !lines[j].starts_with("bulloak error: ") && !lines[j].starts_with("file: ") {
                    if let Some(r) = lines[j].strip_prefix("--- (line ") {
                        let nums: Vec<usize> = r
                            .split(|c: char| !c.is_ascii_digit())
                            .filter(|s| !s.is_empty())
                            .filter_map(|s| s.parse().ok())
                            .collect();
                        if nums.len() == 2 {
                            d.pos = Some((nums[0], nums[1]));
                        }
                        break;
                    }
                    j += 1;
                }
                if d.pos.is_some() && j >= i + 4 {
                    d.quoted = Some(lines[i + 2].to_owned());
                    let c = lines[i + 3];
                    let sp = c.chars().take_while(|c| *c == ' ').count();
                    let n = c.chars().filter(|c| *c == '^').count();
                    if n > 0 && c.chars().count() == sp + n {
                        d.carets = Some((sp + 1, n));
                    }
                }
            }
            v.push(d);
        }
        i += 1;
    }
    v
}
