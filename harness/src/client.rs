//! Scenario runner: starts the server, plays the client steps in order, records everything.
use crate::app::{self, body_value, bytes, gen, Ctx};
use crate::interpose::{self, Plan};
use crate::trace;
use octane::prelude::*;
use openssl::ssl::{SslConnector, SslMethod, SslSession, SslStream, SslVerifyMode, SslVersion};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

pub static PORT: AtomicU32 = AtomicU32::new(12000);
/// how often a client gave up waiting in this process
pub static TIMEOUTS: AtomicU32 = AtomicU32::new(0);
pub static PORT_BASE: AtomicU32 = AtomicU32::new(12000);

fn next_port() -> u16 {
    let base = PORT_BASE.load(SeqCst);
    loop {
        let p = PORT.fetch_add(1, SeqCst);
        if p >= base + 1900 {
            PORT.store(base, SeqCst);
            continue;
        }
        return p as u16;
    }
}

enum Sock {
    None,
    Plain(TcpStream),
    Tls(SslStream<TcpStream>),
}
struct Conn {
    sock: Sock,
    bytes: Vec<u8>,
    sent: usize,
    buf: Vec<u8>,
    end: String,
    tls: bool,
    tw: bool,
    spec: Value,
}

/// How many descriptors the process may have while a scenario with `nofile` runs (0: as many as it likes).
static LIMIT: AtomicU64 = AtomicU64::new(0);

fn descriptors(n: Option<u64>) {
    if LIMIT.load(SeqCst) == 0 {
        return;
    }
    unsafe {
        let mut r: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut r);
        r.rlim_cur = n.filter(|n| *n > 0 && *n < r.rlim_max).unwrap_or(r.rlim_max);
        libc::setrlimit(libc::RLIMIT_NOFILE, &r);
    }
}

/// Lets the server have at most `n` descriptors more than are open now (0: no limit).
fn limit_descriptors(n: u64) {
    if n == 0 {
        descriptors(None);
        LIMIT.store(0, SeqCst);
        return;
    }
    let top = std::fs::read_dir("/proc/self/fd")
        .map(|d| d.filter_map(|e| e.ok()?.file_name().to_str()?.parse::<u64>().ok()).max().unwrap_or(64))
        .unwrap_or(64);
    LIMIT.store(top + n, SeqCst);
    descriptors(Some(top + n));
}

fn linger0(s: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
    }
}

fn usizes(v: &Value) -> Vec<usize> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default()
}

/// Connects from a fresh local port that is registered before the server can accept.
fn connect(to: u16, plan: Plan, rcvbuf: i64, wait: u64, last: u8) -> std::io::Result<TcpStream> {
    let deadline = Instant::now() + Duration::from_millis(wait);
    loop {
        // the client's own sockets do not count against the server's descriptors
        descriptors(None);
        let fd = unsafe { libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0) };
        let e = std::io::Error::last_os_error();
        descriptors(Some(LIMIT.load(SeqCst)));
        if fd < 0 {
            return Err(e);
        }
        let s = unsafe { TcpStream::from_raw_fd(fd) };
        let mk = |p: u16, last: u8| {
            let mut a: libc::sockaddr_in = unsafe { std::mem::zeroed() };
            a.sin_family = libc::AF_INET as u16;
            a.sin_port = p.to_be();
            a.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, last]);
            a
        };
        let sl = std::mem::size_of::<libc::sockaddr_in>() as u32;
        unsafe {
            if rcvbuf > 0 {
                let v = rcvbuf as libc::c_int;
                libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_RCVBUF, &v as *const _ as *const libc::c_void, 4);
            }
            let a = mk(0, 1);
            if libc::bind(fd, &a as *const _ as *const libc::sockaddr, sl) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            let lp = s.local_addr()?.port();
            interpose::register(lp, plan.clone());
            let d = mk(to, last);
            let _ = s.set_nonblocking(true);
            let mut r = libc::connect(fd, &d as *const _ as *const libc::sockaddr, sl);
            let mut e = std::io::Error::last_os_error();
            if r != 0 && e.raw_os_error() == Some(libc::EINPROGRESS) {
                let left = deadline.checked_duration_since(Instant::now()).unwrap_or_default().as_millis() as i32;
                let mut pfd = libc::pollfd { fd, events: libc::POLLOUT, revents: 0 };
                if libc::poll(&mut pfd, 1, left.max(1)) == 1 {
                    match s.take_error() {
                        Ok(None) => r = 0,
                        Ok(Some(x)) => e = x,
                        Err(x) => e = x,
                    }
                }
            }
            let _ = s.set_nonblocking(false);
            if r == 0 {
                let _ = s.set_nodelay(true);
                return Ok(s);
            }
            if Instant::now() > deadline {
                return Err(e);
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn read_until(c: &mut Conn, want: usize, tmo: Duration) {
    let deadline = Instant::now() + tmo;
    let mut b = vec![0u8; 65536];
    while c.buf.len() < want && c.end.is_empty() {
        let left = deadline.checked_duration_since(Instant::now()).unwrap_or(Duration::from_millis(0));
        if left < Duration::from_millis(1) {
            c.end = "timeout".into();
            return;
        }
        let n = (want - c.buf.len()).min(b.len());
        let r = match &mut c.sock {
            Sock::None => {
                c.end = "none".into();
                return;
            }
            Sock::Plain(s) => {
                let _ = s.set_read_timeout(Some(left));
                s.read(&mut b[..n])
            }
            Sock::Tls(s) => {
                let _ = s.get_ref().set_read_timeout(Some(left));
                match s.ssl_read(&mut b[..n]) {
                    Ok(n) => Ok(n),
                    Err(e) => match e.into_io_error() {
                        Ok(e) => {
                            if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut {
                                Err(e)
                            } else {
                                Ok(0)
                            }
                        }
                        Err(_) => Ok(0),
                    },
                }
            }
        };
        match r {
            Ok(0) => c.end = "eof".into(),
            Ok(n) => c.buf.extend_from_slice(&b[..n]),
            Err(e) => match e.kind() {
                std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut => c.end = "timeout".into(),
                std::io::ErrorKind::Interrupted => {}
                _ => c.end = "rst".into(),
            },
        }
    }
}

fn drop_sock(c: &mut Conn, hard: bool) {
    match std::mem::replace(&mut c.sock, Sock::None) {
        Sock::Plain(s) => {
            if hard {
                linger0(&s)
            }
        }
        Sock::Tls(s) => {
            if hard {
                linger0(s.get_ref())
            }
        }
        Sock::None => {}
    }
}

/// A running server: either a task of the scenario's runtime or a program whose main is `#[octane::main]`.
enum Run {
    Task(tokio::task::JoinHandle<()>),
    Main(tokio::sync::oneshot::Sender<()>, Receiver<()>),
}

struct Srv {
    run: Run,
    cb: Receiver<&'static str>,
}

impl Run {
    /// Ends the server; waits for the end if a runtime is given.
    fn stop(self, rt: Option<&tokio::runtime::Runtime>) {
        match self {
            Run::Task(handle) => {
                handle.abort();
                if let Some(rt) = rt {
                    let _ = rt.block_on(async { handle.await });
                }
            }
            Run::Main(stop, done) => {
                let _ = stop.send(());
                let _ = done.recv_timeout(Duration::from_millis(3000));
            }
        }
    }
}

/// What a program written as the documentation shows does.
#[octane::main]
async fn under_main(serving: std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>>, stop: tokio::sync::oneshot::Receiver<()>) {
    use std::future::Future;
    let (mut serving, mut stop, mut served) = (serving, stop, false);
    std::future::poll_fn(|cx| {
        if !served && serving.as_mut().poll(cx).is_ready() {
            served = true;
        }
        std::pin::Pin::new(&mut stop).poll(cx).map(|_| ())
    })
    .await
}

/// Creates a file as the scenario describes it.
fn put_file(dir: &str, f: &Value) {
    let mut p = format!("{}/f/{}", dir, app::text(&f["name"]));
    if let Some(d) = std::path::Path::new(&p).parent() {
        std::fs::create_dir_all(d).unwrap();
    }
    // the name can lead to its content through a symbolic or a hard link
    let via = f["via"].as_str().unwrap_or("");
    let link = p.clone();
    if !via.is_empty() {
        std::fs::create_dir_all(format!("{}/f/.real", dir)).unwrap();
        p = format!("{}/f/.real/{}.zip", dir, via);
    }
    match f["k"].as_str().unwrap() {
        "d" => std::fs::create_dir_all(&p).unwrap(),
        "g" => std::fs::write(&p, gen(f["s"].as_u64().unwrap(), f["n"].as_u64().unwrap())).unwrap(),
        _ => std::fs::write(&p, bytes(&f["b"])).unwrap(),
    }
    match via {
        "soft" => std::os::unix::fs::symlink(&p, &link).unwrap(),
        "soft2" => {
            let mid = format!("{}/f/.real/mid.css", dir);
            std::os::unix::fs::symlink(&p, &mid).unwrap();
            std::os::unix::fs::symlink(&mid, &link).unwrap();
        }
        "hard" => std::fs::hard_link(&p, &link).unwrap(),
        _ => {}
    }
}

/// Changes the file system while the server runs: the file becomes what the step says.
fn change_file(dir: &str, st: &Value) {
    let f = &st["f"];
    let p = format!("{}/f/{}", dir, app::text(&f["name"]));
    let content = match f["k"].as_str().unwrap() {
        "g" => gen(f["s"].as_u64().unwrap(), f["n"].as_u64().unwrap()),
        _ => bytes(&f["b"]),
    };
    match st["how"].as_str().unwrap_or("put") {
        "rm" => {
            let _ = std::fs::remove_file(&p);
            let _ = std::fs::remove_dir_all(&p);
        }
        // the same file, longer
        "grow" => {
            let old = std::fs::metadata(&p).unwrap().len() as usize;
            std::fs::OpenOptions::new().append(true).open(&p).unwrap().write_all(&content[old..]).unwrap();
        }
        // the same file, other content
        "over" => std::fs::write(&p, &content).unwrap(),
        "dir" => {
            let _ = std::fs::remove_file(&p);
            std::fs::create_dir_all(&p).unwrap();
        }
        // another file under the same name
        _ => app::swap_file(&p, &content),
    }
}

pub fn run(sc: &Value) -> Value {
    interpose::reset();
    trace::take();
    app::reset_gates();
    let dir = std::env::var("DRIVE_DIR").unwrap_or_else(|_| "/tmp/octane-drive".into());
    let gens: Vec<(u64, u64)> = sc["gens"]
        .as_array()
        .map(|a| a.iter().map(|x| (x[0].as_u64().unwrap(), x[1].as_u64().unwrap())).collect())
        .unwrap_or_default();
    let empty = vec![];
    if let Some(fs) = sc["files"].as_array() {
        let _ = std::fs::remove_dir_all(format!("{}/f", dir));
        std::fs::create_dir_all(format!("{}/f", dir)).unwrap();
        for f in fs {
            put_file(&dir, f);
        }
    }
    interpose::FILE_CHUNK.store(sc["fchunk"].as_u64().unwrap_or(0), SeqCst);
    *interpose::AFAULTS.lock().unwrap() =
        sc["afaults"].as_array().unwrap_or(&empty).iter().map(|x| x.as_i64().unwrap() as i32).collect();
    let days = sc["clock"][0].as_i64().unwrap_or(18000);
    let secs = sc["clock"][1].as_i64().unwrap_or(0);
    interpose::NOW.store(days * 86400 + secs, SeqCst);
    interpose::FROZEN.store(true, SeqCst);

    let nconn = sc["conns"].as_array().map(|a| a.len()).unwrap_or(0);
    let ctx = Ctx {
        view: sc["view"].as_array().unwrap_or(&empty).iter().map(|v| v.as_str().unwrap().to_string()).collect(),
        gens: gens.clone(),
        dir: format!("{}/f", dir),
        nconn: if sc["xc"].as_bool().unwrap_or(false) { 0 } else { nconn },
        seq: sc["seq"].as_bool().unwrap_or(false),
    };
    let mut conns: Vec<Conn> = sc["conns"]
        .as_array()
        .unwrap_or(&empty)
        .iter()
        .map(|c| {
            let mut b = bytes(&c["bytes"]);
            if let Some(g) = c["tail"].as_array().filter(|g| !g.is_empty()) {
                b.extend(gen(g[0].as_u64().unwrap(), g[1].as_u64().unwrap()));
            }
            Conn {
                sock: Sock::None,
                bytes: b,
                sent: 0,
                buf: vec![],
                end: String::new(),
                tls: c["tls"].as_bool().unwrap_or(false),
                tw: c["tw"].as_bool().unwrap_or(false),
                spec: c.clone(),
            }
        })
        .collect();
    let tmo = Duration::from_millis(
        std::env::var("DRIVE_TMO").ok().and_then(|s| s.parse().ok()).unwrap_or(sc["tmo"].as_u64().unwrap_or(4000)),
    );
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(sc["workers"].as_u64().unwrap_or(2) as usize)
        .enable_all()
        .build()
        .unwrap();
    let mut regs = vec![];
    let mut slots: HashMap<u64, u16> = HashMap::new();
    let mut holds: HashMap<u64, TcpListener> = HashMap::new();
    let mut servers: HashMap<u64, Srv> = HashMap::new();
    let mut tls_port: u16 = 0;
    let manual = sc["manual"].as_bool().unwrap_or(false);
    let as_main = sc["main"].as_bool().unwrap_or(false);
    let mut setup_err = Value::Null;

    let ops = sc["app"].as_array().unwrap_or(&empty).clone();
    let certdir = std::env::var("DRIVE_TLS").unwrap_or_else(|_| "/verif/harness/tls".into());
    let use_tls = sc["tls"].as_bool().unwrap_or(false);
    let mut mkapp = |regs: &mut Vec<bool>, tls_port: &mut u16| {
        regs.clear();
        let mut a = app::build(&ops, &ctx, regs);
        *tls_port = next_port();
        let key = if use_tls { format!("{}/key.pem", certdir) } else { String::new() };
        let cert = if use_tls { format!("{}/cert.pem", certdir) } else { String::new() };
        a.ssl(*tls_port).key(&key).cert(&cert);
        a
    };
    let start = |a: Octane, port: u16| -> Srv {
        let (tx, rx) = channel();
        let tx2 = tx.clone();
        let probe = manual;
        let serving = async move {
            let r = a
                .listen(port, move || {
                    let ok = !probe || TcpStream::connect_timeout(&SocketAddr::from(([127, 0, 0, 1], port)), Duration::from_millis(500)).is_ok();
                    let _ = tx.send(if ok { "cb" } else { "cb-refused" });
                })
                .await
                .is_ok();
            let _ = tx2.send(if r { "ret-ok" } else { "ret-err" });
        };
        let run = if as_main {
            let (stop, stopped) = tokio::sync::oneshot::channel();
            let (done, ended) = channel();
            std::thread::spawn(move || {
                under_main(Box::pin(serving), stopped);
                let _ = done.send(());
            });
            Run::Main(stop, ended)
        } else {
            Run::Task(rt.spawn(serving))
        };
        Srv { run, cb: rx }
    };
    if !manual {
        let mut ok = false;
        for _ in 0..40 {
            let a = mkapp(&mut regs, &mut tls_port);
            let port = next_port();
            // make sure nobody else owns the port (the harness' own choice, not a verdict)
            if TcpListener::bind(("0.0.0.0", port)).is_err() {
                continue;
            }
            let s = start(a, port);
            slots.insert(0, port);
            let m = s.cb.recv_timeout(Duration::from_millis(3000)).unwrap_or("none");
            if m == "cb" {
                // an implementation may report late failures: give it no benefit, just go on
                servers.insert(0, s);
                ok = true;
                break;
            }
            s.run.stop(None);
        }
        if !ok {
            setup_err = json!("server did not start");
        }
    }
    limit_descriptors(sc["nofile"].as_u64().unwrap_or(0));
    let mut turned = 0;
    let mut session: Option<SslSession> = None;
    let mut waited = 0;
    let steps = sc["steps"].as_array().unwrap_or(&empty).clone();
    if setup_err.is_null() {
        for st in &steps {
            let ci = st["c"].as_u64().unwrap_or(0) as usize;
            match st["do"].as_str().unwrap() {
                "open" => {
                    let c = &mut conns[ci - 1];
                    let plan = Plan {
                        conn: ci,
                        reads: usizes(&c.spec["reads"]),
                        writes: usizes(&c.spec["writes"]),
                        rfault: c.spec["rfault"].as_u64().map(|x| x as usize),
                        wfault: c.spec["wfault"].as_u64().map(|x| x as usize),
                        log: !c.tls,
                        sndbuf: if c.spec["rcvbuf"].is_null() { 0 } else { 8192 },
                        ..Default::default()
                    };
                    let slot = c.spec["port"].as_u64().unwrap_or(0);
                    let to = if c.tls || c.spec["totls"].as_bool().unwrap_or(false) { tls_port } else { *slots.entry(slot).or_insert_with(next_port) };
                    app::CURRENT.store(ci, SeqCst);
                    trace::event(json!({"e":"open","c":ci,"n":0}));
                    // after a few clients were turned away the others are not given as long
                    match connect(to, plan, c.spec["rcvbuf"].as_i64().unwrap_or(0), if turned < 3 { 1500 } else { 5 }, c.spec["addr"].as_u64().unwrap_or(1) as u8) {
                        Ok(s) => {
                            if c.tls {
                                // a client that takes its time before the handshake
                                std::thread::sleep(Duration::from_millis(c.spec["hswait"].as_u64().unwrap_or(0)));
                                let mut b = SslConnector::builder(SslMethod::tls()).unwrap();
                                b.set_verify(SslVerifyMode::NONE);
                                // what this client offers
                                match c.spec["tlsv"].as_u64().unwrap_or(0) {
                                    12 => {
                                        let _ = b.set_max_proto_version(Some(SslVersion::TLS1_2));
                                    }
                                    13 => {
                                        let _ = b.set_min_proto_version(Some(SslVersion::TLS1_3));
                                    }
                                    _ => {}
                                }
                                if let Some(a) = c.spec["alpn"].as_array() {
                                    let mut w = vec![];
                                    for x in a {
                                        let x = x.as_str().unwrap().as_bytes();
                                        w.push(x.len() as u8);
                                        w.extend_from_slice(x);
                                    }
                                    let _ = b.set_alpn_protos(&w);
                                }
                                let sni = c.spec["sni"].as_bool().unwrap_or(false);
                                let _ = s.set_read_timeout(Some(tmo));
                                let mut conf = b.build().configure().unwrap().verify_hostname(false).use_server_name_indication(sni);
                                if c.spec["resume"].as_bool().unwrap_or(false) {
                                    if let Some(x) = &session {
                                        let _ = unsafe { conf.set_session(x) };
                                    }
                                }
                                match conf.connect("localhost", s) {
                                    Ok(t) => {
                                        session = t.ssl().session().map(|x| x.to_owned());
                                        // a client told to speak something else can not go on in HTTP/1.1
                                        match t.ssl().selected_alpn_protocol() {
                                            None | Some(b"http/1.1") => c.sock = Sock::Tls(t),
                                            Some(_) => c.end = "refused".into(),
                                        }
                                    }
                                    Err(_) => {
                                        c.end = "refused".into();
                                    }
                                }
                            } else {
                                c.sock = Sock::Plain(s)
                            }
                        }
                        Err(_) => {
                            turned += 1;
                            c.end = "refused".into();
                        }
                    }
                }
                "send" => {
                    let c = &mut conns[ci - 1];
                    let n = st["n"].as_u64().map(|x| x as usize).unwrap_or(c.bytes.len());
                    let to = (c.sent + n).min(c.bytes.len());
                    let part = c.bytes[c.sent..to].to_vec();
                    c.sent = to;
                    if !part.is_empty() {
                        trace::event(json!({"e":"csend","c":ci,"n":part.len()}));
                        let _ = match &mut c.sock {
                            Sock::Plain(s) => {
                                let _ = s.set_write_timeout(Some(tmo));
                                s.write_all(&part)
                            }
                            Sock::Tls(s) => s.write_all(&part),
                            Sock::None => Ok(()),
                        };
                    }
                    if st["sync"].as_bool().unwrap_or(false) {
                        let dl = Instant::now() + Duration::from_millis(200);
                        let mut seen = false;
                        while Instant::now() < dl {
                            match interpose::consumed(ci) {
                                Some(g) => {
                                    seen = true;
                                    if g >= c.sent {
                                        break;
                                    }
                                }
                                None => {
                                    if seen {
                                        break;
                                    }
                                }
                            }
                            std::thread::sleep(Duration::from_micros(100));
                        }
                        std::thread::sleep(Duration::from_micros(200));
                    }
                }
                "half" => {
                    let c = &mut conns[ci - 1];
                    trace::event(json!({"e":"half","c":ci,"n":0}));
                    match &mut c.sock {
                        Sock::Plain(s) => {
                            let _ = s.shutdown(Shutdown::Write);
                        }
                        Sock::Tls(s) => {
                            // close_notify; the read side stays open
                            let _ = s.shutdown();
                        }
                        _ => {}
                    }
                }
                "rst" => {
                    let c = &mut conns[ci - 1];
                    trace::event(json!({"e":"rst","c":ci,"n":0}));
                    drop_sock(c, true);
                    c.end = "gone".into();
                }
                "leave" => {
                    let c = &mut conns[ci - 1];
                    trace::event(json!({"e":"leave","c":ci,"n":0}));
                    drop_sock(c, false);
                    c.end = "gone".into();
                }
                "readn" => {
                    let c = &mut conns[ci - 1];
                    let want = c.buf.len() + st["n"].as_u64().unwrap() as usize;
                    read_until(c, want, tmo);
                }
                "finish" => {
                    let c = &mut conns[ci - 1];
                    let tmo = if waited < 3 { tmo } else { tmo.min(Duration::from_millis(30)) };
                    let pace = st["pace"].as_u64().unwrap_or(0) as usize;
                    if pace > 0 {
                        while c.end.is_empty() {
                            let w = c.buf.len() + pace;
                            read_until(c, w, tmo);
                            std::thread::sleep(Duration::from_millis(1));
                        }
                    } else {
                        read_until(c, usize::MAX, tmo);
                    }
                    let faulted = c.end == "refused" && c.spec["loose"].as_bool() == Some(true);
                    if (c.end == "timeout" || c.end == "refused") && !faulted {
                        waited += 1;
                        TIMEOUTS.fetch_add(1, SeqCst);
                    }
                    let pos = c.buf.windows(4).position(|w| w == b"\r\n\r\n");
                    let (head, body) = match pos {
                        Some(i) => (&c.buf[..i + 4], &c.buf[i + 4..]),
                        None => (&c.buf[..], &c.buf[c.buf.len()..]),
                    };
                    let hv = if head.len() > 100_000 { &head[..100_000] } else { head };
                    trace::event(json!({"e":"done","c":ci,"n":c.buf.len(),"end":c.end,
                        "head":hv.iter().map(|b| Value::from(*b)).collect::<Vec<_>>(),
                        "body":body_value(body, &gens)}));
                    let tw = c.tw;
                    drop_sock(c, !tw);
                }
                "gate" => app::open_gate(st["n"].as_u64().unwrap()),
                "await" => {
                    // wait until the log shows the given number of events of a kind for this connection
                    let dl = Instant::now() + tmo;
                    let e = st["e"].as_str().unwrap();
                    let n = st["n"].as_u64().unwrap() as usize;
                    while Instant::now() < dl && trace::count(e, ci) < n {
                        std::thread::sleep(Duration::from_micros(200));
                    }
                    if trace::count(e, ci) < n {
                        TIMEOUTS.fetch_add(1, SeqCst);
                    }
                }
                "sleep" => std::thread::sleep(Duration::from_millis(st["n"].as_u64().unwrap())),
                "clock" => {
                    interpose::NOW.store(st["n"].as_i64().unwrap() * 86400 + st["m"].as_i64().unwrap(), SeqCst);
                    trace::event(json!({"e":"clock","c":0,"n":st["n"],"m":st["m"]}));
                }
                "fs" => {
                    change_file(&dir, st);
                    trace::event(json!({"e":"fs","c":0,"n":0,"f":st["f"]}));
                }
                "start" => {
                    let s = st["n"].as_u64().unwrap();
                    let slot = st["p"].as_u64().unwrap();
                    let port = *slots.entry(slot).or_insert_with(|| loop {
                        let p = next_port();
                        if TcpListener::bind(("0.0.0.0", p)).is_ok() {
                            break p;
                        }
                    });
                    let a = mkapp(&mut regs, &mut tls_port);
                    let srv = start(a, port);
                    let mut cb = 0;
                    let mut conn = true;
                    let mut ret = "running";
                    let first = srv.cb.recv_timeout(tmo).unwrap_or("none");
                    let mut msgs = vec![first];
                    // a second message (return after callback, or a second callback) if any
                    if let Ok(m) = srv.cb.recv_timeout(Duration::from_millis(60)) {
                        msgs.push(m);
                    }
                    for m in msgs {
                        match m {
                            "cb" => cb += 1,
                            "cb-refused" => {
                                cb += 1;
                                conn = false
                            }
                            "ret-ok" => ret = "ok",
                            "ret-err" => ret = "err",
                            _ => ret = "none",
                        }
                    }
                    trace::event(json!({"e":"start","c":0,"n":s,"p":slot,"cb":cb,"conn":conn,"ret":ret}));
                    servers.insert(s, srv);
                }
                "stop" => {
                    let s = st["n"].as_u64().unwrap();
                    if let Some(srv) = servers.remove(&s) {
                        let Srv { run, cb: rx } = srv;
                        run.stop(Some(&rt));
                        let mut cb = 0;
                        while let Ok(m) = rx.try_recv() {
                            if m.starts_with("cb") {
                                cb += 1;
                            }
                        }
                        trace::event(json!({"e":"stop","c":0,"n":s,"p":st["p"],"cb":cb}));
                    }
                }
                "occupy" => {
                    let slot = st["p"].as_u64().unwrap();
                    let port = *slots.entry(slot).or_insert_with(next_port);
                    let l = TcpListener::bind(("0.0.0.0", port));
                    trace::event(json!({"e":"occupy","c":0,"n":l.is_ok() as u8,"p":slot}));
                    if let Ok(l) = l {
                        holds.insert(slot, l);
                    }
                }
                "free" => {
                    let slot = st["p"].as_u64().unwrap();
                    trace::event(json!({"e":"free","c":0,"n":0,"p":slot}));
                    holds.remove(&slot);
                }
                x => panic!("harness: unknown step {}", x),
            }
        }
    }
    app::open_all_gates();
    let mut ending = vec![];
    limit_descriptors(0);
    for (_, s) in servers.drain() {
        match s.run {
            Run::Main(..) => ending.push(s.run),
            task => task.stop(None),
        }
    }
    for c in conns.iter_mut() {
        drop_sock(c, true);
    }
    for run in ending {
        run.stop(None);
    }
    rt.shutdown_timeout(Duration::from_millis(3000));
    let dl = Instant::now() + Duration::from_millis(500);
    while interpose::live_fds() > 0 && Instant::now() < dl {
        std::thread::sleep(Duration::from_micros(200));
    }
    interpose::FROZEN.store(false, SeqCst);
    json!({"regs": regs, "events": trace::take(), "err": if setup_err.is_null() { json!("") } else { setup_err }})
}
