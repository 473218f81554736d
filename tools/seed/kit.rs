// A small client and server starter shared by the demonstrations.
#![allow(dead_code)]
use octane::prelude::*;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::mpsc;
use std::thread;
use std::time::Duration;

pub fn free_port() -> u16 {
    TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}

pub fn start_app(app: Octane, port: u16) {
    let (tx, rx) = mpsc::channel();
    thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_multi_thread().enable_all().build().unwrap();
        rt.block_on(async move {
            let _ = app.listen(port, move || tx.send(()).unwrap()).await;
        });
    });
    if rx.recv_timeout(Duration::from_secs(20)).is_err() {
        fail("the server did not start");
    }
}

pub fn start<F: FnOnce(&mut Octane)>(f: F) -> u16 {
    let port = free_port();
    let mut app = Octane::new();
    f(&mut app);
    start_app(app, port);
    port
}

pub fn connect(port: u16) -> TcpStream {
    let s = TcpStream::connect(("127.0.0.1", port)).unwrap_or_else(|e| fail(&format!("connect: {}", e)));
    s.set_read_timeout(Some(Duration::from_secs(8))).unwrap();
    s.set_nodelay(true).unwrap();
    s
}

pub fn finish(mut s: TcpStream) -> Vec<u8> {
    let mut out = Vec::new();
    let mut buf = [0u8; 4096];
    loop {
        match s.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(_) => break,
        }
    }
    out
}

pub fn talk(port: u16, req: &[u8]) -> Vec<u8> {
    talk_parts(port, &[req])
}

pub fn talk_parts(port: u16, parts: &[&[u8]]) -> Vec<u8> {
    let mut s = connect(port);
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            thread::sleep(Duration::from_millis(60));
        }
        let _ = s.write_all(p);
        let _ = s.flush();
    }
    finish(s)
}

pub fn half_close(s: &TcpStream) {
    let _ = s.shutdown(Shutdown::Write);
}

pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

impl Resp {
    pub fn get(&self, name: &str) -> Vec<String> {
        self.headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.clone()).collect()
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.body).into_owned()
    }
}

pub fn parse(raw: &[u8]) -> Resp {
    let end = match raw.windows(4).position(|w| w == b"\r\n\r\n") {
        Some(e) => e,
        None => return Resp { status: 0, headers: vec![], body: raw.to_vec() },
    };
    let head = String::from_utf8_lossy(&raw[..end]).into_owned();
    let mut lines = head.split("\r\n");
    let status = lines.next().and_then(|l| l.split(' ').nth(1)).and_then(|s| s.parse().ok()).unwrap_or(0);
    let headers = lines
        .filter_map(|l| {
            let mut t = l.splitn(2, ':');
            Some((t.next()?.to_owned(), t.next()?.trim().to_owned()))
        })
        .collect();
    Resp { status, headers, body: raw[end + 4..].to_vec() }
}

pub fn req(port: u16, method: &str, target: &str) -> Resp {
    parse(&talk(port, format!("{} {} HTTP/1.1\r\nHost: x\r\n\r\n", method, target).as_bytes()))
}

pub fn get(port: u16, target: &str) -> Resp {
    req(port, "GET", target)
}

pub fn fail(msg: &str) -> ! {
    eprintln!("DEMO FAILED: {}", msg);
    std::process::exit(1)
}

pub fn expect<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    if got != want {
        fail(&format!("{}: got {:?}, wanted {:?}", what, got, want));
    }
}
