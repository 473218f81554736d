//! libc interposition: the harness executable defines these symbols itself, so every call the
//! server (std, mio, tokio) makes goes through here. Nothing in /repo is touched.
//! Server-side sockets are recognised by the client's (pre-registered) local port at accept time.
use crate::trace;
use libc::{c_int, c_long, c_void, size_t, sockaddr, socklen_t, ssize_t, timespec};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

#[derive(Clone, Default, Debug)]
pub struct Plan {
    /// the kernel holds no more than this of a response for a client that does not read
    pub sndbuf: c_int,
    pub conn: usize,
    pub reads: Vec<usize>,  // sizes of successive successful reads; last one repeats
    pub writes: Vec<usize>, // same for writes
    pub rfault: Option<usize>, // index (0-based) of the recv call that fails with ECONNRESET
    pub wfault: Option<usize>, // index of the send call that fails with EPIPE
    pub log: bool,
    pub nread: usize,
    pub nwrite: usize,
    pub got: usize,
}

pub static FROZEN: AtomicBool = AtomicBool::new(false);
pub static NOW: AtomicI64 = AtomicI64::new(0);
pub static FILE_CHUNK: AtomicU64 = AtomicU64::new(0); // 0: no limit on file reads
pub static ACCEPTS: AtomicU64 = AtomicU64::new(0);

pub static PORTS: Mutex<Option<HashMap<u16, Plan>>> = Mutex::new(None);
pub static FDS: Mutex<Option<HashMap<c_int, Plan>>> = Mutex::new(None);
/// errno values to be returned by the next accepts that have a connection pending
pub static AFAULTS: Mutex<Vec<i32>> = Mutex::new(Vec::new());

pub fn reset() {
    *PORTS.lock().unwrap() = Some(HashMap::new());
    *FDS.lock().unwrap() = Some(HashMap::new());
    AFAULTS.lock().unwrap().clear();
    FILE_CHUNK.store(0, SeqCst);
    ACCEPTS.store(0, SeqCst);
}
pub fn register(port: u16, plan: Plan) {
    if let Some(m) = PORTS.lock().unwrap().as_mut() {
        m.insert(port, plan);
    }
}
pub fn consumed(conn: usize) -> Option<usize> {
    FDS.lock().unwrap().as_ref().and_then(|m| m.values().find(|p| p.conn == conn).map(|p| p.got))
}
pub fn live_fds() -> usize {
    FDS.lock().unwrap().as_ref().map(|m| m.len()).unwrap_or(0)
}
fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}
fn pick(v: &[usize], n: usize, len: usize) -> usize {
    if v.is_empty() {
        return len;
    }
    let k = if n < v.len() { v[n] } else { v[v.len() - 1] };
    if k == 0 { len } else { k.min(len) }
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int) -> ssize_t {
    let mut want = len;
    let mut conn = 0;
    let mut log = false;
    if flags & libc::MSG_PEEK == 0 {
        if let Ok(mut g) = FDS.lock() {
            if let Some(p) = g.as_mut().and_then(|m| m.get_mut(&fd)) {
                conn = p.conn;
                log = p.log;
                if p.rfault == Some(p.nread) {
                    p.nread += 1;
                    drop(g);
                    trace::server_event(conn, "rerr", 0, log);
                    set_errno(libc::ECONNRESET);
                    return -1;
                }
                want = pick(&p.reads, p.nread, len);
            }
        }
    }
    let r = libc::syscall(libc::SYS_recvfrom, fd, buf, want, flags, 0usize, 0usize) as ssize_t;
    if conn > 0 {
        let e = *libc::__errno_location();
        if r >= 0 && !(r == 0 && want == 0) {
            if let Some(p) = FDS.lock().unwrap().as_mut().and_then(|m| m.get_mut(&fd)) {
                p.nread += 1;
                p.got += r as usize;
            }
            trace::server_event(conn, if r == 0 { "eof" } else { "recv" }, r as usize, log);
        } else if r < 0 && e != libc::EAGAIN && e != libc::EINTR {
            trace::server_event(conn, "rerr", 0, log);
        }
        set_errno(e);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: size_t, flags: c_int) -> ssize_t {
    let mut want = len;
    let mut conn = 0;
    if let Ok(mut g) = FDS.lock() {
        if let Some(p) = g.as_mut().and_then(|m| m.get_mut(&fd)) {
            conn = p.conn;
            if p.wfault == Some(p.nwrite) {
                p.nwrite += 1;
                let log = p.log;
                drop(g);
                trace::server_event(conn, "werr", 0, log);
                set_errno(libc::EPIPE);
                return -1;
            }
            want = pick(&p.writes, p.nwrite, len);
        }
    }
    let r = libc::syscall(libc::SYS_sendto, fd, buf, want, flags | libc::MSG_NOSIGNAL, 0usize, 0usize) as ssize_t;
    if conn > 0 && r >= 0 {
        let e = *libc::__errno_location();
        if let Some(p) = FDS.lock().unwrap().as_mut().and_then(|m| m.get_mut(&fd)) {
            p.nwrite += 1;
        }
        set_errno(e);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, addr: *mut sockaddr, len: *mut socklen_t, flags: c_int) -> c_int {
    {
        let mut f = AFAULTS.lock().unwrap();
        if !f.is_empty() {
            let mut pfd = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            if libc::poll(&mut pfd, 1, 0) == 1 {
                let e = f.remove(0);
                drop(f);
                if e == libc::ECONNABORTED {
                    // the pending connection is the one that was aborted
                    let nfd = libc::syscall(libc::SYS_accept4, fd, 0usize, 0usize, flags) as c_int;
                    if nfd >= 0 {
                        let l = libc::linger { l_onoff: 1, l_linger: 0 };
                        libc::setsockopt(nfd, libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const c_void, std::mem::size_of::<libc::linger>() as u32);
                        libc::syscall(libc::SYS_close, nfd);
                    }
                }
                trace::event(serde_json::json!({"e":"aerr","c":0,"n":e}));
                set_errno(e);
                return -1;
            }
        }
    }
    let mut sa: libc::sockaddr_storage = std::mem::zeroed();
    let mut sl = std::mem::size_of::<libc::sockaddr_storage>() as socklen_t;
    let r = libc::syscall(libc::SYS_accept4, fd, &mut sa as *mut _, &mut sl as *mut _, flags) as c_int;
    if r >= 0 {
        // the connection came in after the poll above saw none: it is still the one to be aborted
        let mut f = AFAULTS.lock().unwrap();
        if f.first() == Some(&libc::ECONNABORTED) {
            f.remove(0);
            drop(f);
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            libc::setsockopt(r, libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const c_void, std::mem::size_of::<libc::linger>() as u32);
            libc::syscall(libc::SYS_close, r);
            trace::event(serde_json::json!({"e":"aerr","c":0,"n":libc::ECONNABORTED}));
            set_errno(libc::ECONNABORTED);
            return -1;
        }
        drop(f);
        ACCEPTS.fetch_add(1, SeqCst);
        if !addr.is_null() && !len.is_null() {
            let n = (*len).min(sl) as usize;
            std::ptr::copy_nonoverlapping(&sa as *const _ as *const u8, addr as *mut u8, n);
            *len = sl;
        }
        if sa.ss_family as i32 == libc::AF_INET {
            let port = u16::from_be((*(&sa as *const _ as *const libc::sockaddr_in)).sin_port);
            let plan = PORTS.lock().unwrap().as_mut().and_then(|m| m.remove(&port));
            if let Some(p) = plan {
                if p.sndbuf > 0 {
                    libc::setsockopt(r, libc::SOL_SOCKET, libc::SO_SNDBUF, &p.sndbuf as *const _ as *const c_void, std::mem::size_of::<c_int>() as u32);
                }
                if let Some(m) = FDS.lock().unwrap().as_mut() {
                    m.insert(r, p);
                }
            }
        }
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Ok(mut g) = FDS.try_lock() {
        if let Some(m) = g.as_mut() {
            m.remove(&fd);
        }
    } else {
        // never block in close() for long, but do not lose the event either
        if let Some(m) = FDS.lock().unwrap().as_mut() {
            m.remove(&fd);
        }
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: size_t) -> ssize_t {
    let k = FILE_CHUNK.load(SeqCst) as usize;
    let mut want = len;
    if k > 0 && len > k {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut st) == 0 && st.st_mode & libc::S_IFMT == libc::S_IFREG {
            want = k;
        }
    }
    libc::syscall(libc::SYS_read, fd, buf, want) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut timespec) -> c_int {
    if clk == libc::CLOCK_REALTIME && FROZEN.load(SeqCst) {
        (*ts).tv_sec = NOW.load(SeqCst);
        (*ts).tv_nsec = 0 as c_long;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as c_int
}
