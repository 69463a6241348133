//! C18: the issue cache
use std::{
    cell::RefCell,
    collections::HashMap,
    io::{Read, Write},
    net::{TcpListener, TcpStream},
    os::fd::AsRawFd,
    path::{Path, PathBuf},
    process::{Child, Command},
    str::FromStr,
    sync::{Arc, Mutex},
};

use hun_law::mk_downloader::MkIssue;

use super::fixups::scratch;
use crate::{
    check, check_eq,
    engine::{fail, no_panic, Arm, Case, CaseResult, Fail, Kind, Prop, Src},
};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        level: "exploration",
        rule: "Histories of requests for a few issues against a local server with scripted faults; every request is a process of its own whose file operations can fail, be cut short, or be the point where the process dies; in the schedule arm a second process runs to completion while the first is stopped at one of its operations. A model tracks which issues were fetched. Non-trivial: the history has at least one successful fetch and one fault, or two requests of the same issue.",
        assumptions: &[
            "interruption means the death of the process, not of the machine: what was written before is there afterwards",
            "a response without a length that ends early cannot be told from a complete one",
            "in the schedule arm the server keeps sending the same bytes",
        ],
        arms: vec![
            Arm { name: "history", kind: Kind::Random(10_000, 200_000), f: c18_history },
            Arm { name: "crash", kind: Kind::Random(8_000, 120_000), f: c18_crash },
            Arm { name: "schedule", kind: Kind::Random(4_000, 80_000), f: c18_schedule },
            Arm { name: "large", kind: Kind::Random(60, 1_500), f: c18_large },
            Arm { name: "descriptor", kind: Kind::Random(200_000, 4_000_000), f: c18_descriptor },
        ],
    }]
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Reply {
    Length,
    Chunked,
    UntilClose,
    Redirect,
    Status(u16),
    /// With this many thousandths of the body
    TruncatedLength(u64),
    TruncatedChunked(u64),
    ResetLength(u64),
    Garbage,
    Nothing,
}

impl Reply {
    fn good(self) -> bool {
        matches!(self, Reply::Length | Reply::Chunked | Reply::UntilClose | Reply::Redirect)
    }
}

fn gen_reply(src: &mut Src) -> Reply {
    match src.weighted(&[6, 2, 1, 1, 3, 3, 2, 2, 1, 1]) {
        0 => Reply::Length,
        1 => Reply::Chunked,
        2 => Reply::UntilClose,
        3 => Reply::Redirect,
        4 => Reply::Status(*src.pick(&[404, 500, 403, 400, 503, 502, 410, 429])),
        5 => Reply::TruncatedLength(src.below(1000)),
        6 => Reply::TruncatedChunked(src.below(1000)),
        7 => Reply::ResetLength(src.below(1000)),
        8 => Reply::Garbage,
        _ => Reply::Nothing,
    }
}

#[derive(Default)]
struct State {
    contents: HashMap<String, Vec<u8>>,
    reply: Option<Reply>,
    log: Vec<String>,
}

struct Server {
    port: u16,
    state: Arc<Mutex<State>>,
}

fn respond(mut s: TcpStream, state: &Mutex<State>) -> std::io::Result<()> {
    s.set_nodelay(true)?;
    s.set_read_timeout(Some(std::time::Duration::from_secs(20)))?;
    let mut head = Vec::new();
    let mut b = [0u8; 512];
    while !head.windows(4).any(|w| w == b"\r\n\r\n") {
        let n = s.read(&mut b)?;
        if n == 0 {
            return Ok(());
        }
        head.extend(&b[..n]);
    }
    let head = String::from_utf8_lossy(&head).to_string();
    let path = head.split(' ').nth(1).unwrap_or("").to_string();
    let host = head
        .lines()
        .find_map(|l| l.to_ascii_lowercase().strip_prefix("host:").map(|h| h.trim().to_string()))
        .unwrap_or_default();
    let (reply, body) = {
        let mut st = state.lock().unwrap();
        st.log.push(format!("{host}{path}"));
        let real = path.strip_suffix("?moved").unwrap_or(&path);
        (
            st.reply.unwrap_or(Reply::Nothing),
            st.contents.get(real).filter(|_| host == "www.kozlonyok.hu").cloned(),
        )
    };
    let Some(body) = body else {
        return s.write_all(b"HTTP/1.1 404 Not Found\r\nContent-Length: 4\r\nConnection: close\r\n\r\nnope");
    };
    let len = body.len();
    let cut = |k: u64| (len as u64 * k / 1000) as usize;
    let chunked = |s: &mut TcpStream, upto: usize, finish: bool| -> std::io::Result<()> {
        s.write_all(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n")?;
        for c in body[..upto].chunks((len / 3).max(1)) {
            s.write_all(format!("{:x}\r\n", c.len()).as_bytes())?;
            s.write_all(c)?;
            s.write_all(b"\r\n")?;
        }
        if finish {
            s.write_all(b"0\r\n\r\n")?;
        }
        Ok(())
    };
    let with_length = |s: &mut TcpStream, upto: usize| -> std::io::Result<()> {
        s.write_all(format!("HTTP/1.1 200 OK\r\nContent-Type: application/pdf\r\nContent-Length: {len}\r\n\r\n").as_bytes())?;
        s.write_all(&body[..upto])
    };
    match reply {
        Reply::Length => with_length(&mut s, len),
        Reply::Redirect if path.ends_with("?moved") => with_length(&mut s, len),
        Reply::Redirect => s.write_all(
            format!("HTTP/1.1 302 Found\r\nLocation: http://www.kozlonyok.hu{path}?moved\r\nContent-Length: 0\r\nConnection: close\r\n\r\n").as_bytes(),
        ),
        Reply::Chunked => chunked(&mut s, len, true),
        Reply::UntilClose => {
            s.write_all(b"HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n")?;
            s.write_all(&body)
        }
        Reply::Status(c) => {
            s.write_all(format!("HTTP/1.1 {c} Error\r\nContent-Length: {len}\r\nConnection: close\r\n\r\n").as_bytes())?;
            s.write_all(&body)
        }
        Reply::TruncatedLength(k) => with_length(&mut s, cut(k)),
        Reply::TruncatedChunked(k) => chunked(&mut s, cut(k), false),
        Reply::ResetLength(k) => {
            with_length(&mut s, cut(k))?;
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            unsafe {
                libc::setsockopt(
                    s.as_raw_fd(),
                    libc::SOL_SOCKET,
                    libc::SO_LINGER,
                    &l as *const _ as *const libc::c_void,
                    std::mem::size_of::<libc::linger>() as u32,
                );
            }
            Ok(())
        }
        Reply::Garbage => s.write_all(b"%PDF-1.4 this is not http\r\n\r\n"),
        Reply::Nothing => Ok(()),
    }
}

thread_local! {
    static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
}

/// The server of this worker thread
fn server() -> (u16, Arc<Mutex<State>>) {
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.get_or_insert_with(|| {
            let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
            let port = l.local_addr().unwrap().port();
            let state: Arc<Mutex<State>> = Default::default();
            let st = state.clone();
            std::thread::spawn(move || {
                for c in l.incoming().flatten() {
                    let st = st.clone();
                    // Requests of processes that died must not hold up others
                    std::thread::spawn(move || {
                        let _ = respond(c, &st);
                    });
                }
            });
            Server { port, state }
        });
        (s.port, s.state.clone())
    })
}

#[derive(Debug, PartialEq, Clone)]
enum Out {
    Bytes(Vec<u8>),
    Error(String),
    Died,
}

fn exe() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("hv_fetch")
}

fn spawn(dir: &Path, out: &Path, port: u16, issue: (i64, i64), plan: &str) -> Child {
    Command::new(exe())
        .arg(out)
        .arg(dir.join("cache"))
        .arg(issue.0.to_string())
        .arg(issue.1.to_string())
        .env_clear()
        .env("HV_PORT", port.to_string())
        .env("HV_PLAN", plan)
        .env("TMPDIR", dir.join("tmp"))
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("starting hv_fetch")
}

fn finish(mut child: Child, out: &Path) -> Result<(Out, i32), Fail> {
    let st = child.wait().expect("waiting for hv_fetch");
    match st.code() {
        Some(99) => Ok((Out::Died, 0)),
        Some(c) if c >= 100 => {
            let b = std::fs::read(out).expect("output of hv_fetch");
            let o = match b[0] {
                b'O' => Out::Bytes(b[1..].to_vec()),
                b'E' => Out::Error(String::from_utf8_lossy(&b[1..]).to_string()),
                _ => return fail("panic in download_mk_issue", "the call panicked"),
            };
            Ok((o, c - 100))
        }
        other => fail("download process ended unexpectedly", format!("{other:?} {st:?}")),
    }
}

fn fetch(dir: &Path, port: u16, issue: (i64, i64), plan: &str) -> Result<(Out, i32), Fail> {
    let out = dir.join("out");
    let child = spawn(dir, &out, port, issue, plan);
    finish(child, &out)
}

fn url(issue: (i64, i64)) -> String {
    format!("/nkonline/MKPDF/hiteles/MK{:02}{:03}.pdf", issue.0 % 100, issue.1)
}

fn gen_issue(src: &mut Src) -> (i64, i64) {
    (
        *src.pick(&[2012, 2011, 1912, 201, 20121, 2005]),
        *src.pick(&[1, 2, 11, 12, 21, 121, 999, 1000]),
    )
}

fn gen_content(src: &mut Src, tag: u64) -> Vec<u8> {
    let n = match src.weighted(&[1, 3, 3, 2, 1]) {
        0 => 0,
        1 => src.usize(1, 60),
        2 => src.usize(900, 1200),
        3 => src.usize(5_000, 20_000),
        _ => src.usize(60_000, 150_000),
    };
    let mut v: Vec<u8> = format!("%PDF {tag} ").into_bytes();
    if n == 0 {
        v.clear();
    }
    let mut i = 0u64;
    while v.len() < n {
        i = i.wrapping_mul(6364136223846793005).wrapping_add(tag * 2 + 1);
        v.extend_from_slice(&i.to_be_bytes());
    }
    v.truncate(n);
    v
}

fn gen_plan(src: &mut Src) -> String {
    let k = src.below(12);
    match src.weighted(&[10, 3, 2, 2, 1, 1]) {
        0 => String::new(),
        1 => format!("crash:{k}:{}", *src.pick(&[0u64, 1, 100, 1000, 10_000, 1_000_000])),
        2 => format!("fail:{k}:{}", *src.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EROFS, libc::EDQUOT])),
        3 => format!("full:{k}"),
        4 => format!("short:{k}:{}", src.range(1, 2000)),
        _ => format!("eintr:{k}"),
    }
}

/// Plans that are legal behaviour of the system and must not make a difference
fn harmless(plan: &str) -> bool {
    plan.is_empty() || plan.starts_with("short") || plan.starts_with("eintr")
}

fn digest(b: &[u8]) -> String {
    format!("{} bytes {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(20)]))
}

struct World {
    dir: tempfile::TempDir,
    port: u16,
    state: Arc<Mutex<State>>,
    /// What was returned successfully
    fetched: HashMap<(i64, i64), Vec<u8>>,
    /// What was sent completely in requests that died or failed while storing: it may or may not be in the cache
    maybe: Vec<((i64, i64), Vec<u8>)>,
    trace: Vec<String>,
}

impl World {
    fn new() -> World {
        let (port, state) = server();
        *state.lock().unwrap() = State::default();
        let dir = scratch();
        std::fs::create_dir(dir.path().join("tmp")).unwrap();
        World { dir, port, state, fetched: HashMap::new(), maybe: vec![], trace: vec![] }
    }
    fn check_result(&mut self, issue: (i64, i64), out: &Out, served: &[u8], faulty: bool, log: &[String]) -> CaseResult {
        let t = &self.trace;
        if let Some(first) = self.fetched.get(&issue) {
            check!(log.is_empty(), "a fetched issue is downloaded again", "{t:#?}\n{log:?}");
            match out {
                Out::Bytes(b) => check!(b == first, "a fetched issue changes", "{t:#?}\n{} instead of {}", digest(b), digest(first)),
                Out::Error(e) => return fail("a fetched issue is lost", format!("{t:#?}\n{e}")),
                Out::Died => (),
            }
            return Ok(());
        }
        match out {
            Out::Bytes(b) => {
                let complete = |m: &((i64, i64), Vec<u8>)| m.0 == issue && m.1 == *b;
                check!(b == served || self.maybe.iter().any(complete), "not what the server sent", "{t:#?}\n{} instead of {}", digest(b), digest(served));
                self.fetched.insert(issue, b.clone());
            }
            Out::Error(e) => check!(faulty, "a good response is refused", "{t:#?}\n{e}"),
            Out::Died => (),
        }
        Ok(())
    }
    fn request(&mut self, issue: (i64, i64), reply: Reply, content: &[u8], plan: &str) -> Result<Out, Fail> {
        {
            let mut st = self.state.lock().unwrap();
            // Every other issue has other contents
            st.contents.clear();
            st.contents.insert(url(issue), content.to_vec());
            st.reply = Some(reply);
            st.log.clear();
        }
        let (out, events) = fetch(self.dir.path(), self.port, issue, plan)?;
        let log = self.state.lock().unwrap().log.clone();
        let shown = match &out {
            Out::Bytes(b) => digest(b),
            Out::Error(e) => format!("error {}", e.lines().next().unwrap_or("")),
            Out::Died => "died".into(),
        };
        self.trace.push(format!("{issue:?} {reply:?} ({}) plan {plan:?}: {shown} ({events} operations, {} requests)", digest(content), log.len()));
        // An empty body cannot be cut
        let cut_ok = |k: u64| content.len() as u64 * k / 1000 == content.len() as u64;
        let bad_reply = match reply {
            Reply::TruncatedLength(k) => !cut_ok(k),
            Reply::ResetLength(_) => true, // even a complete body may be lost by a reset
            r => !r.good(),
        };
        let may_fail = bad_reply || !harmless(plan);
        if bad_reply && !matches!(reply, Reply::ResetLength(k) if cut_ok(k)) && !self.fetched.contains_key(&issue) {
            if let Out::Bytes(b) = &out {
                let complete = |m: &((i64, i64), Vec<u8>)| m.0 == issue && m.1 == *b;
                check!(self.maybe.iter().any(complete) && log.is_empty(),  "a failed download is returned as a success", "{:#?}\n{}", self.trace, digest(b));
            }
        }
        self.check_result(issue, &out, content, may_fail, &log)?;
        if !bad_reply && !matches!(out, Out::Bytes(_)) {
            self.maybe.push((issue, content.to_vec()));
        }
        Ok(out)
    }
}

fn c18_history(c: &mut Case) -> CaseResult {
    let mut w = World::new();
    let issues: Vec<(i64, i64)> = (0..c.src.usize(1, 3)).map(|_| gen_issue(&mut c.src)).collect();
    let mut seen: HashMap<(i64, i64), u32> = HashMap::new();
    let mut tag = 0;
    let mut faults = 0;
    for _ in 0..c.src.usize(1, 5) {
        let issue = *c.src.pick(&issues);
        let reply = gen_reply(&mut c.src);
        tag += 1;
        let content = gen_content(&mut c.src, tag);
        let plan = gen_plan(&mut c.src);
        if !reply.good() || !harmless(&plan) {
            faults += 1;
        }
        *seen.entry(issue).or_default() += 1;
        let out = w.request(issue, reply, &content, &plan)?;
        c.label_if(out == Out::Died, "crash");
        c.label_if(matches!(out, Out::Error(_)), "error");
    }
    // In the end everything that was fetched is still there, and everything else can be fetched
    for issue in issues {
        tag += 1;
        let content = gen_content(&mut c.src, tag);
        let known = w.fetched.contains_key(&issue);
        let out = w.request(issue, if known { Reply::Nothing } else { Reply::Length }, &content, "")?;
        check!(matches!(out, Out::Bytes(_)), "issue cannot be fetched after a failure", "{:#?}", w.trace);
    }
    c.nontrivial = faults > 0 && !w.fetched.is_empty() || seen.values().any(|n| *n > 1);
    c.input(&w.trace);
    c.describe(|| format!("{:#?}", w.trace));
    Ok(())
}

/// Issues of the size of real ones
fn c18_large(c: &mut Case) -> CaseResult {
    let mut w = World::new();
    let issue = gen_issue(&mut c.src);
    let size = match c.src.weighted(&[2, 2, 2, 1]) {
        // Around powers of two
        0 => (1usize << c.src.usize(20, 25)) + c.src.usize(0, 2),
        1 => c.src.usize(200_000, 4_000_000),
        2 => c.src.usize(4_000_000, 20_000_000),
        _ => c.src.usize(20_000_000, 45_000_000),
    };
    let tag = c.src.below(1 << 40);
    let mut i = tag;
    let mut content: Vec<u8> = b"%PDF-1.4 ".to_vec();
    while content.len() < size {
        i = i.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        content.extend_from_slice(&i.to_be_bytes());
    }
    content.truncate(size);
    let first = match c.src.weighted(&[2, 1, 1]) {
        0 => None,
        1 => Some(Reply::TruncatedLength(*c.src.pick(&[500, 900, 999]))),
        _ => Some(Reply::TruncatedChunked(*c.src.pick(&[500, 900, 999]))),
    };
    if let Some(r) = first {
        w.request(issue, r, &content, "")?;
    }
    let reply = *c.src.pick(&[Reply::Length, Reply::Chunked, Reply::UntilClose, Reply::Redirect]);
    let out = w.request(issue, reply, &content, "")?;
    check!(out == Out::Bytes(content.clone()), "large issue", "{:#?}", w.trace);
    w.request(issue, Reply::Nothing, b"", "")?;
    c.nontrivial = size > 1_000_000;
    c.label_if(size > 10_000_000, "more than ten million bytes");
    c.input(&w.trace);
    c.describe(|| format!("{:#?}", w.trace));
    Ok(())
}

/// One request that dies, and another one after it
fn c18_crash(c: &mut Case) -> CaseResult {
    let mut w = World::new();
    let issue = gen_issue(&mut c.src);
    if c.src.bool() {
        // The directories exist already
        let other = (issue.0, issue.1 + 1);
        w.request(other, Reply::Length, b"other", "")?;
    }
    let content = gen_content(&mut c.src, 1);
    let k = c.src.below(12);
    let at = if content.is_empty() { 0 } else { c.src.below(content.len() as u64 + 1) };
    let full = c.src.chance(1, 4);
    let plan = if full { format!("full:{k}") } else { format!("crash:{k}:{at}") };
    let good = [Reply::Length, Reply::Chunked];
    let reply = *c.src.pick(&good);
    let out = w.request(issue, reply, &content, &plan)?;
    c.label_if(out == Out::Died, "crash");
    c.nontrivial = !matches!(out, Out::Bytes(_));
    // The server is down now: nothing may be returned, except the complete issue
    let nothing = w.request(issue, Reply::Nothing, b"", "")?;
    if let Out::Bytes(b) = &nothing {
        check!(*b == content, "an interrupted download is returned later", "{:#?}\n{}", w.trace, digest(b));
        c.label("complete anyway");
    } else {
        check!(!w.fetched.contains_key(&issue), "a fetched issue is lost", "{:#?}", w.trace);
    }
    let again = w.request(issue, Reply::Length, &content, "")?;
    check!(again == Out::Bytes(content.clone()), "issue cannot be fetched after an interruption", "{:#?}", w.trace);
    w.request(issue, Reply::Nothing, b"", "")?;
    c.input(&w.trace);
    c.describe(|| format!("{:#?}", w.trace));
    Ok(())
}

/// A process is stopped at one of its operations while others run
fn c18_schedule(c: &mut Case) -> CaseResult {
    let mut w = World::new();
    let issue = gen_issue(&mut c.src);
    let content = gen_content(&mut c.src, 1);
    let other = gen_issue(&mut c.src);
    let other_content = gen_content(&mut c.src, 2);
    let k = c.src.below(12);
    {
        let mut st = w.state.lock().unwrap();
        st.contents.insert(url(other), other_content.clone());
        st.contents.insert(url(issue), content.clone());
        st.reply = Some(Reply::Length);
    }
    let same_url = url(issue) == url(other);
    let expected = |i: (i64, i64)| if i == issue || same_url { &content } else { &other_content };
    let out_a = w.dir.path().join("out-a");
    let child = spawn(w.dir.path(), &out_a, w.port, issue, &format!("stop:{k}"));
    let pid = child.id() as i32;
    let stopped = is_stopped(pid);
    c.label_if(stopped, "stopped");
    c.nontrivial = stopped;
    let mut res = Ok(());
    for _ in 0..c.src.usize(1, 3) {
        let i = if c.src.chance(1, 4) { other } else { issue };
        let r = fetch(w.dir.path(), w.port, i, "");
        res = match r {
            Ok((Out::Bytes(b), _)) if b == *expected(i) => Ok(()),
            Ok((o, _)) => fail(
                "a request during another one",
                format!("{issue:?} stopped at operation {k}, {i:?}: {}", match o {
                    Out::Bytes(b) => format!("{} instead of {}", digest(&b), digest(expected(i))),
                    o => format!("{o:?}"),
                }),
            ),
            Err(e) => Err(e),
        };
        w.trace.push(format!("{i:?} while {issue:?} is at operation {k}"));
        if res.is_err() {
            break;
        }
    }
    unsafe { libc::kill(pid, libc::SIGCONT) };
    let a = finish(child, &out_a);
    res?;
    let (a, _) = a?;
    check!(a == Out::Bytes(content.clone()), "a request during which another one ran", "{issue:?} stopped at {k}: {}", match &a {
        Out::Bytes(b) => digest(b),
        o => format!("{o:?}"),
    });
    w.state.lock().unwrap().reply = Some(Reply::Nothing);
    w.state.lock().unwrap().log.clear();
    let (last, _) = fetch(w.dir.path(), w.port, issue, "")?;
    check!(last == Out::Bytes(content.clone()), "the issue after concurrent requests", "{issue:?} stopped at {k}: {}", match &last {
        Out::Bytes(b) => digest(b),
        o => format!("{o:?}"),
    });
    let log = w.state.lock().unwrap().log.clone();
    check!(log.is_empty(), "a fetched issue is downloaded again", "{log:?}");
    c.input(format!("{issue:?}{other:?}{k}{}", content.len()));
    c.input(&w.trace);
    c.describe(|| format!("{issue:?} ({}) stopped at operation {k}; {:?}", digest(&content), w.trace));
    Ok(())
}

/// Wait until the process is stopped or has ended (without reaping it)
fn is_stopped(pid: i32) -> bool {
    let mut info: libc::siginfo_t = unsafe { std::mem::zeroed() };
    let r =
        unsafe { libc::waitid(libc::P_PID, pid as u32, &mut info, libc::WSTOPPED | libc::WEXITED | libc::WNOWAIT) };
    r == 0 && info.si_code == libc::CLD_STOPPED
}

fn c18_descriptor(c: &mut Case) -> CaseResult {
    let year = c.src.range(-5, 3000);
    let issue = c.src.range(-5, 3000);
    let mut text = format!("{year}/{issue}");
    let kind = c.src.weighted(&[3, 1, 1, 1, 1]);
    match kind {
        1 => text = text.replace('/', *c.src.pick::<&str>(&["-", "", " ", "//", ".", "/1/"])),
        2 => text.push(*c.src.pick(&['x', '/', ' ', '.'])),
        3 => text.insert(0, *c.src.pick(&['x', '/', ' ', '.'])),
        4 => text = c.src.pick(&["", "/", "2012/", "/12", "2012/1.5", "2012/I", "99999999999999999999/1"]).to_string(),
        _ => (),
    }
    c.input(&text);
    c.describe(|| text.clone());
    c.nontrivial = true;
    c.label_if(kind == 0, "good");
    match no_panic("MkIssue::from_str", || MkIssue::from_str(&text))? {
        Ok(m) => {
            check!(kind == 0, "junk accepted as an issue", "{text:?} is {m:?}");
            check_eq!((m.year, m.issue), (year, issue), "issue descriptor", "{text:?}");
        }
        Err(e) => check!(kind != 0, "issue descriptor refused", "{text:?}: {e:?}"),
    }
    Ok(())
}
