"""The planted bugs: edits of /repo plus the demonstration of each."""
BUGS = []


def bug(id, prop, needs, breaks, edits, main, features="", deps="", default=""):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, main=main,
                     features=features, deps=deps, default=default))


HEAD = "mod kit;\nuse kit::*;\nuse octane::prelude::*;\n"

bug("literal-shadows-variable", "C01",
    "a literal and a variable route that both match the same path",
    "a route with a variable is not run when a literal route matches as well, although the literal one continues",
    [("src/path.rs", """            if let Some(v) = cur.get(&PathChunk::CatchAll) {
                let found = v.dfs(&chunks[1..]);
                ret.extend(found);
            }""", """            if ret.is_empty() {
                if let Some(v) = cur.get(&PathChunk::CatchAll) {
                    ret = v.dfs(&chunks[1..]);
                }
            }""")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.get("/a/b", route!(|req, res| { res.send("literal"); Flow::Next })).unwrap();
        app.get("/a/:x", route!(|req, res| { res.send("variable"); Flow::Stop })).unwrap();
    });
    expect("last handler", get(port, "/a/b").text(), "variable".to_string());
}
""")

bug("all-routes-unsorted", "C02",
    "two add_route handlers that match the same request, the one with the variable registered first",
    "handlers registered for every method run literal first instead of in registration order",
    [("src/router.rs", """        if let Some(functions) = self.paths.get(&RequestMethod::All) {
            let mut routes = functions.get(&req.path);
            routes.sort_by_key(|v| v.index);
            matches.push(routes);
        }""", """        if let Some(functions) = self.paths.get(&RequestMethod::All) {
            matches.push(functions.get(&req.path));
        }""")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.add_route("/a/:x", route!(|req, res| { res.send("first"); Flow::Stop })).unwrap();
        app.add_route("/a/b", route!(|req, res| { res.send("second"); Flow::Stop })).unwrap();
    });
    expect("the first handler stops", get(port, "/a/b").text(), "first".to_string());
}
""")

bug("mount-counter-max", "C03",
    "routes on the app before a router is mounted, the router holding at least two, and routes after it that overlap",
    "after mounting a router the counter is too small, so later routes run before routes of the mounted router",
    [("src/router.rs", "        self.route_counter += other_count;",
      "        self.route_counter = self_count.max(other_count);")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.get("/z", route!(|req, res| { res.send("z"); Flow::Stop })).unwrap();
        app.get("/zz", route!(|req, res| { res.send("zz"); Flow::Stop })).unwrap();
        let mut r = Router::new();
        r.get("/y", route!(|req, res| { res.send("y"); Flow::Stop })).unwrap();
        r.get("/w", route!(|req, res| { res.send("w"); Flow::Stop })).unwrap();
        r.get("/v", route!(|req, res| { res.send("mounted"); Flow::Stop })).unwrap();
        app.with_router(r);
        app.add(route!(|req, res| { res.send("late"); Flow::Stop })).unwrap();
    });
    expect("mounted first", get(port, "/v").text(), "mounted".to_string());
}
""")

bug("dotdot-counted", "C04",
    "a path whose .. come before the segments they would need",
    "a path that climbs above the root and comes back down is served instead of refused",
    [("src/path.rs", """        let mut chunks = Vec::new();
        for chunk in path.split('/') {""", """        let mut chunks = Vec::new();
        let mut depth = 0_isize;
        for chunk in path.split('/') {"""),
     ("src/path.rs", """                if chunks.pop().is_none() {
                    return Err(InvalidPathError);
                }
                continue;
            }
            chunks.push(chunk.to_owned());
        }
""", """                chunks.pop();
                depth -= 1;
                continue;
            }
            depth += 1;
            chunks.push(chunk.to_owned());
        }
        if depth < 0 {
            return Err(InvalidPathError);
        }
""")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.get("/a", route!(|req, res| { res.send("a"); Flow::Stop })).unwrap();
    });
    expect("inside", get(port, "/x/../a").status, 200);
    expect("outside", get(port, "/../a").status, 400);
}
""")

bug("stale-variables", "C05",
    "two handlers that continue, with differently named variables on the same path",
    "the second handler sees the variable names of the first one",
    [("src/router.rs", "                matched.vars = matches[minind][indices[minind]].vars.clone();",
      """                let vars = &matches[minind][indices[minind]].vars;
                if matched.vars.len() != vars.len() {
                    matched.vars = vars.clone();
                }""")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.get("/:a", route!(|req, res| { Flow::Next })).unwrap();
        app.get("/:b", route!(|req, res| {
            res.send(req.vars.get("b").copied().unwrap_or("none"));
            Flow::Stop
        })).unwrap();
    });
    expect("own name", get(port, "/q").text(), "q".to_string());
}
""")

bug("head-partial-write", "C06",
    "a response head larger than the socket's send buffer",
    "only the part of the head that fits into the send buffer is sent, the rest of it is lost",
    [("src/server.rs", "        stream_async.write_all(response.0.as_bytes()).await?;",
      "        let _ = stream_async.write(response.0.as_bytes()).await?;")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.get("/", route!(|req, res| {
            res.set("Big", &"v".repeat(24_000_000)).send("tail");
            Flow::Stop
        })).unwrap();
    });
    let s = { use std::io::Write; let mut s = connect(port); s.write_all(b"GET / HTTP/1.1\\r\\nHost: x\\r\\n\\r\\n").unwrap(); s };
    std::thread::sleep(std::time::Duration::from_millis(500));
    let r = parse(&finish(s));
    expect("status", r.status, 200);
    expect("big header", r.get("big").pop().map(|v| v.len()), Some(24_000_000));
    expect("body", r.text(), "tail".to_string());
}
""")

bug("boundary-scan", "C07",
    "the empty line that ends the head arrives with its last byte in a segment of its own",
    "the end of the head is missed when reads split it in one place, so the request hangs",
    [("octane_http/src/http1x/mod.rs", """            data.extend_from_slice(&buf[..read]);
            if let Some(i) = find_in_slice(&data[..], b"\\r\\n\\r\\n") {""",
      """            let from = data.len().saturating_sub(2);
            data.extend_from_slice(&buf[..read]);
            if let Some(i) = find_in_slice(&data[from..], b"\\r\\n\\r\\n").map(|i| i + from) {""")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.get("/", route!(|req, res| { res.send("ok"); Flow::Stop })).unwrap();
    });
    let r = parse(&talk_parts(port, &[b"GET / HTTP/1.1\\r\\nHost: x\\r\\n\\r", b"\\n"]));
    expect("status", r.status, 200);
}
""")

bug("empty-host-refused", "C08",
    "an HTTP/1.1 request whose Host header is present but empty",
    "a well-formed request is answered 400 instead of being handled",
    [("src/http/http11.rs", "    if validator.request.headers.get(\"host\").is_none() {",
      "    if validator.request.headers.get(\"host\").map_or(true, |h| h.is_empty()) {")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.get("/", route!(|req, res| { res.send("ok"); Flow::Stop })).unwrap();
    });
    let r = parse(&talk(port, b"GET / HTTP/1.1\\r\\nHost:\\r\\n\\r\\n"));
    expect("status", r.status, 200);
}
""")

bug("body-u16", "C09",
    "a request body of 65536 bytes or a multiple",
    "such a body is seen as empty by the handlers",
    [("src/request.rs", "        if body_len > 0 {\n", "        if body_len as u16 > 0 {\n")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.post("/", route!(|req, res| { res.send(req.body.len().to_string()); Flow::Stop })).unwrap();
    });
    let mut m = b"POST / HTTP/1.1\\r\\nHost: x\\r\\nContent-Length: 65536\\r\\n\\r\\n".to_vec();
    m.extend(vec![b'b'; 65536]);
    expect("body length", parse(&talk(port, &m)).text(), "65536".to_string());
}
""")

bug("repeated-header-dedup", "C10",
    "a header sent twice where the second value is part of the first",
    "a repeated header value is dropped from the combined value",
    [("src/request.rs", "                .and_modify(|v| *v = format!(\"{}, {}\", v, parsed.value))",
      """                .and_modify(|v| {
                    if !v.contains(&parsed.value) {
                        *v = format!("{}, {}", v, parsed.value)
                    }
                })""")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.get("/", route!(|req, res| { res.send(req.headers.get("x").unwrap()); Flow::Stop })).unwrap();
    });
    let r = parse(&talk(port, b"GET / HTTP/1.1\\r\\nHost: x\\r\\nX: abc\\r\\nX: b\\r\\n\\r\\n"));
    expect("value", r.text(), "abc, b".to_string());
}
""")

bug("query-last-equals", "C11",
    "a query value that contains an equals sign",
    "the name and the value are split at the last equals sign instead of the first",
    [("src/query.rs", """        if cfg!(feature = "faithful") && tok.is_empty() {
            continue;
        }
        match tok.find('=') {
            Some(v) => {
                let (name, val) = tok.split_at(v);
                if cfg!""", """        if cfg!(feature = "faithful") && tok.is_empty() {
            continue;
        }
        match tok.rfind('=') {
            Some(v) => {
                let (name, val) = tok.split_at(v);
                if cfg!""")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.get("/", route!(|req, res| {
            res.send(req.get_query().get("a").cloned().unwrap_or_default());
            Flow::Stop
        })).unwrap();
    });
    expect("value", get(port, "/?a=b=c").text(), "b=c".to_string());
}
""")

bug("object-first-key-wins", "C12",
    "the same object key given twice in an extended query",
    "the first value of an object key is kept instead of the last",
    [("src/query.rs", "                                    v.insert(inside, unescaped_val);",
      "                                    v.entry(inside).or_insert(unescaped_val);")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.get("/", route!(|req, res| {
            let q = req.get_extended_query();
            res.send(q.get("o").and_then(|o| o.get_obj()).and_then(|o| o.get("k").cloned()).unwrap_or_default());
            Flow::Stop
        })).unwrap();
    });
    expect("value", get(port, "/?o[k]=1&o[k]=2").text(), "2".to_string());
}
""", features='"extended_queries"')

bug("cookie-stops-at-bad", "C13",
    "a malformed pair that is followed by good cookies",
    "the cookies that follow a malformed one are lost",
    [("src/cookie.rs", """        for tok in header_cookies {
""", """        for tok in header_cookies.take_while(|tok| tok.contains('=')) {
""")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.get("/", route!(|req, res| { res.send(req.cookies.len().to_string()); Flow::Stop })).unwrap();
    });
    let r = parse(&talk(port, b"GET / HTTP/1.1\\r\\nHost: x\\r\\nCookie: a=1; bad; b=2\\r\\n\\r\\n"));
    expect("cookies", r.text(), "2".to_string());
}
""")

bug("length-in-characters", "C14",
    "a text body with characters of more than one byte",
    "Content-Length counts characters instead of bytes",
    [("src/responder.rs", "        self.content_len = Some(body_slice.len());",
      "        self.content_len = Some(std::str::from_utf8(body_slice).map_or(len, |s| s.chars().count()));")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.get("/", route!(|req, res| { res.send("h\\u{e9}llo"); Flow::Stop })).unwrap();
    });
    let r = get(port, "/");
    expect("length", r.get("content-length"), vec![r.body.len().to_string()]);
}
""")

bug("attachment-keeps-type", "C15",
    "a Content-Type set before attachment_with_filename",
    "the later call no longer decides the content type",
    [("src/responder.rs", "        self.set(\"Content-Type\", &extension);\n        self\n",
      "        if self.get(\"Content-Type\").is_none() {\n            self.set(\"Content-Type\", &extension);\n        }\n        self\n")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.get("/", route!(|req, res| {
            res.with_type("text/css").attachment_with_filename("p.png").send("x");
            Flow::Stop
        })).unwrap();
    });
    expect("type", get(port, "/").get("content-type"), vec!["image/png".to_string()]);
}
""")

bug("symlink-length", "C17",
    "a file sent through a symbolic link",
    "the announced length is that of the link and not of the file",
    [("src/file_handler.rs", """            let meta = file.metadata()?;
            if meta.is_file() {""", """            let meta = path.symlink_metadata()?;
            if !meta.is_dir() {""")],
    HEAD + """fn main() {
    let dir = std::env::temp_dir().join(format!("demo-link-{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    let file = dir.join("real.txt");
    std::fs::write(&file, vec![b'f'; 9000]).unwrap();
    let link = dir.join("link.txt");
    std::os::unix::fs::symlink(&file, &link).unwrap();
    let name = link.to_str().unwrap().to_owned();
    let port = start(move |app| {
        app.get("/", route!(|req, res| { res.send_file(&name).unwrap(); Flow::Stop })).unwrap();
    });
    let r = get(port, "/");
    std::fs::remove_dir_all(&dir).unwrap();
    expect("length", r.get("content-length"), vec!["9000".to_string()]);
    expect("body", r.body.len(), 9000);
}
""")

bug("inline-when-busy", "C18",
    "more than 48 connections that are open at the same time and send nothing",
    "one silent connection too many is waited for in the accept loop and stops everyone else",
    [("src/server_builder.rs", """                let server = Arc::clone(&server);
                task!({
                    exec(stream, server).await;
                });
""", """                let server = Arc::clone(&server);
                if Arc::strong_count(&server) > 50 {
                    // enough tasks, finish this one first
                    exec(stream, server).await;
                    continue;
                }
                task!({
                    exec(stream, server).await;
                });
""")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.get("/", route!(|req, res| { res.send("ok"); Flow::Stop })).unwrap();
    });
    let idle: Vec<_> = (0..60).map(|_| connect(port)).collect();
    std::thread::sleep(std::time::Duration::from_millis(300));
    let r = get(port, "/");
    drop(idle);
    expect("answered", r.status, 200);
}
""")

bug("poisoned-router", "C19",
    "a handler that panics",
    "after one panic no later request is answered",
    [("src/router.rs", """pub struct Router {
""", """pub struct Router {
    /// Guards the handlers of one request
    pub guard: std::sync::Mutex<usize>,
"""),
     ("src/router.rs", """        Router {
            route_counter: 0,""", """        Router {
            guard: Default::default(),
            route_counter: 0,"""),
     ("src/router.rs", """            let flow = (matches[minind][indices[minind]].closure)(&matched, &mut res);""",
      """            let mut run = self.guard.lock().unwrap();
            *run += 1;
            let flow = (matches[minind][indices[minind]].closure)(&matched, &mut res);
            drop(run);""")],
    HEAD + """fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let port = start(|app| {
        app.get("/bad", route!(|req, res| { if req.body.is_empty() { panic!("bad") } Flow::Stop })).unwrap();
        app.get("/", route!(|req, res| { res.send("ok"); Flow::Stop })).unwrap();
    });
    expect("before", get(port, "/").status, 200);
    get(port, "/bad");
    expect("after", get(port, "/").status, 200);
}
""")

bug("leap-day-2000-cycle", "C20",
    "the clock standing at 29 February of a year like 2028, the last day of a four year cycle",
    "the last day of a four year cycle is shown as 1 March",
    [("src/time.rs", """        if remyears == 4 {
            remyears -= 1;
        }
""", "")],
    HEAD + """use std::time::*;
fn main() {
    // the clock of this process is moved by a preloaded library built beside it
    let port = start(|app| {
        app.get("/", route!(|req, res| { res.send("ok"); Flow::Stop })).unwrap();
    });
    let now = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs();
    if now / 86400 != 21243 { fail("the clock was not moved"); }
    let date = get(port, "/").get("date").pop().unwrap_or_default();
    if !date.starts_with("Tue, 29 Feb 2028 ") { fail(&date); }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32 {
    extern "C" { fn syscall(n: i64, a: i64, b: *mut [i64; 2]) -> i64; }
    let r = syscall(228, clock as i64, ts);
    if clock == 0 { (*ts)[0] = 21243 * 86400 + (*ts)[0] % 86400; }
    r as i32
}
""")

bug("handshake-in-accept-loop", "C21",
    "a client of the TLS port that connects and does not start the handshake",
    "one stalled handshake keeps every other TLS client waiting",
    [("src/server_builder.rs", """            task!({
                let stream = tokio_openssl::accept(&acceptor, tcp_stream).await;
                if let""", """            let stream = tokio_openssl::accept(&acceptor, tcp_stream).await;
            task!({
                if let""")],
    HEAD + """use openssl::ssl::*;
use std::io::{Read, Write};
fn main() {
    let here = std::env::var("HERE").unwrap();
    let (p1, p2) = (free_port(), free_port());
    let mut app = Octane::new();
    app.ssl(p2)
        .key(&format!("{}/key.pem", here))
        .cert(&format!("{}/cert.pem", here));
    app.get("/", route!(|req, res| { res.send("ok"); Flow::Stop })).unwrap();
    start_app(app, p1);
    std::thread::sleep(std::time::Duration::from_millis(500));
    let stalled = connect(p2);
    std::thread::sleep(std::time::Duration::from_millis(300));
    let mut b = SslConnector::builder(SslMethod::tls()).unwrap();
    b.set_verify(SslVerifyMode::NONE);
    let s = match b.build().connect("localhost", connect(p2)) {
        Ok(mut s) => {
            s.write_all(b"GET / HTTP/1.1\\r\\nHost: x\\r\\n\\r\\n").unwrap();
            let mut out = Vec::new();
            let _ = s.read_to_end(&mut out);
            parse(&out).status
        }
        Err(_) => 0,
    };
    drop(stalled);
    expect("status", s, 200);
}
""", features='"openSSL"', deps='\nopenssl = "0.10.30"')

bug("short-backlog", "C22",
    "a burst of connections that arrive before the server gets to accept them",
    "the listener queues only a handful of connections, so a burst after the callback is not served",
    [("src/server_builder.rs", "        socket.listen(2048)?;", "        socket.listen(8)?;")],
    HEAD + """fn main() {
    // the only worker is kept busy by the callback, as a real callback that does some work would
    let port = free_port();
    let mut app = Octane::new();
    app.get("/", route!(|req, res| { res.send("ok"); Flow::Stop })).unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    let (tx2, rx2) = std::sync::mpsc::channel::<()>();
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
        rt.block_on(async move {
            let _ = app.listen(port, move || { tx.send(()).unwrap(); let _ = rx2.recv(); }).await;
        });
    });
    rx.recv().unwrap();
    let a: std::net::SocketAddr = ([127, 0, 0, 1], port).into();
    let mut held = Vec::new();
    for _ in 0..100 {
        match std::net::TcpStream::connect_timeout(&a, std::time::Duration::from_millis(800)) {
            Ok(s) => held.push(s),
            Err(e) => fail(&format!("connection {} not accepted: {}", held.len() + 1, e)),
        }
    }
    drop(held);
    tx2.send(()).unwrap();
    expect("served", get(port, "/").status, 200);
}
""")

bug("config-keeps-keepalive", "C23",
    "a config whose keep alive is None given to with_config",
    "with_config keeps the previous keep alive when the new one is None",
    [("src/config.rs", "        self.keep_alive = settings.keep_alive;",
      "        self.keep_alive = settings.keep_alive.or(self.keep_alive);")],
    HEAD + """fn main() {
    let mut app = Octane::new();
    let mut c = octane::config::OctaneConfig::new();
    c.keep_alive = None;
    app.with_config(c);
    expect("keep alive", app.settings.keep_alive, None);
}
""")

bug("sort-only-with-variables", "C24",
    "a build without url_variables, and a mounted router with two handlers on one path",
    "handlers of a mounted router run in the wrong order when the feature url_variables is off",
    [("src/router.rs", """        // run RequestMethod::All regardless of the request method
        if let Some(functions) = self.paths.get(&RequestMethod::All) {
            let mut routes = functions.get(&req.path);
            routes.sort_by_key(|v| v.index);
""", """        // run RequestMethod::All regardless of the request method
        if let Some(functions) = self.paths.get(&RequestMethod::All) {
            let mut routes = functions.get(&req.path);
            // without variables only one leaf can match
            if cfg!(feature = "url_variables") {
                routes.sort_by_key(|v| v.index);
            }
""")],
    HEAD + """fn main() {
    let port = start(|app| {
        let mut r = Router::new();
        r.add_route("/a", route!(|req, res| { res.send("first"); Flow::Next })).unwrap();
        r.add_route("/a", route!(|req, res| { res.send("second"); Flow::Next })).unwrap();
        app.with_router(r);
    });
    expect("last handler", get(port, "/a").text(), "second".to_string());
}
""", default=", default-features = false", features="\"faithful\"")

bug("location-apart", "C16",
    "a redirect whose target holds a line break",
    "the Location line is written apart from the other headers and its line breaks reach the client",
    [("src/responder.rs", """            format!("{}{}{}", self.status_line(), self.headers(), CRLF),
""", """            format!(
                "{}{}{}{}",
                self.status_line(),
                // where to go comes first
                self.headers
                    .get("Location")
                    .map(|to| format!("Location:{}{}{}", SP, to, CRLF))
                    .unwrap_or_default(),
                self.headers(),
                CRLF
            ),
"""),
     ("src/responder.rs", """        self.headers
            .iter()
            .for_each(|data|""", """        self.headers
            .iter()
            .filter(|data| data.0 != "Location")
            .for_each(|data|""")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.get("/", route!(|req, res| {
            let to = req.get_query().get("to").cloned().unwrap_or_default();
            res.redirect(&to).send("moved");
            Flow::Stop
        })).unwrap();
    });
    expect("plain", get(port, "/?to=/x").get("location"), vec!["/x".to_string()]);
    let r = get(port, "/?to=/x%0d%0aX-Injected:%20yes");
    expect("injected header", r.get("x-injected"), Vec::<String>::new());
    expect("body", r.text(), "moved".to_string());
}
""")

bug("remembered-misses", "C01",
    "two requests for one path: the first with a method nothing is registered for, the second with one that has a handler",
    "a path that was not found once is not looked up again, whatever the method",
    [("src/router.rs", """    pub paths: Paths,
}
""", """    pub paths: Paths,
    /// Paths for which nothing was found
    pub misses: std::sync::Mutex<std::collections::HashSet<crate::path::PathBuf>>,
}
"""),
     ("src/router.rs", """            paths: HashMap::new(),
        }""", """            paths: HashMap::new(),
            misses: Default::default(),
        }"""),
     ("src/router.rs", """        if let Some(functions) = self.paths.get(&req.method) {
            let mut routes = functions.get(&req.path);
""", """        let missed = self.misses.lock().map(|m| m.contains(&req.path)).unwrap_or(false);
        if !missed && self.paths.get(&req.method).map_or(true, |f| f.get(&req.path).is_empty()) {
            if let Ok(mut misses) = self.misses.lock() {
                misses.insert(req.path.clone());
            }
        }
        if let Some(functions) = self.paths.get(&req.method).filter(|_| !missed) {
            let mut routes = functions.get(&req.path);
""")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.get("/a", route!(|req, res| { res.send("a"); Flow::Stop })).unwrap();
        app.get("/b", route!(|req, res| { res.send("b"); Flow::Stop })).unwrap();
    });
    expect("alone", get(port, "/b").text(), "b".to_string());
    expect("nothing for POST", req(port, "POST", "/a").status, 404);
    expect("GET after POST", get(port, "/a").text(), "a".to_string());
}
""")

bug("deep-routes-not-mounted", "C03",
    "a mounted router with a route of six or more segments",
    "the walk over a mounted router gives up below a certain depth and its deep routes are lost",
    [("src/path.rs", """                // using continue as tail recursion
                match v {
                    PathNode::Node(n) => {
                        self.stack.push(n.into_iter().map(get_second));
                        continue;
                    }""", """                // using continue as tail recursion
                match v {
                    PathNode::Node(n) => {
                        if self.stack.len() < 6 {
                            self.stack.push(n.into_iter().map(get_second));
                        }
                        continue;
                    }""")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.get("/1/2/3/4/5/6/7", route!(|req, res| { res.send("direct"); Flow::Stop })).unwrap();
        let mut r = Router::new();
        r.get("/a/b", route!(|req, res| { res.send("shallow"); Flow::Stop })).unwrap();
        r.get("/a/b/c/d/e/f/g", route!(|req, res| { res.send("deep"); Flow::Stop })).unwrap();
        app.with_router(r);
    });
    expect("direct", get(port, "/1/2/3/4/5/6/7").text(), "direct".to_string());
    expect("shallow", get(port, "/a/b").text(), "shallow".to_string());
    expect("deep", get(port, "/a/b/c/d/e/f/g").text(), "deep".to_string());
}
""")

bug("same-length-resend", "C15",
    "a body of the same length as the one before it, and a header that body depends on changed in between",
    "sending again leaves the headers as they are when the length did not change",
    [("src/responder.rs", """        self.content_len = Some(body_slice.len());
        self.default_headers();
""", """        if self.content_len != Some(len) {
            self.content_len = Some(len);
            self.default_headers();
        }
""")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.get("/", route!(|req, res| {
            res.send("ab");
            res.set("Content-Length", "1");
            res.send("cd");
            Flow::Stop
        })).unwrap();
    });
    let r = get(port, "/");
    expect("length", r.get("content-length"), vec!["2".to_string()]);
    expect("body", r.text(), "cd".to_string());
}
""")

bug("places-lost-by-panics", "C19",
    "64 requests whose handler panics",
    "a request that panics keeps its place among those in progress; when all places are taken nobody is served",
    [("src/server.rs", """                    server.router.run(request.clone(), &mut res);
""", """                    static PLACES: std::sync::atomic::AtomicUsize =
                        std::sync::atomic::AtomicUsize::new(64);
                    let order = std::sync::atomic::Ordering::SeqCst;
                    if PLACES.load(order) == 0 {
                        declare_error!(writer, StatusCode::ServiceUnavailable);
                    }
                    PLACES.fetch_sub(1, order);
                    server.router.run(request.clone(), &mut res);
                    PLACES.fetch_add(1, order);
""")],
    HEAD + """fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let port = start(|app| {
        app.get("/bad", route!(|req, res| { if req.body.is_empty() { panic!("bad") } Flow::Stop })).unwrap();
        app.get("/", route!(|req, res| { res.send("ok"); Flow::Stop })).unwrap();
    });
    expect("before", get(port, "/").status, 200);
    for _ in 0..80 {
        get(port, "/bad");
    }
    expect("after", get(port, "/").status, 200);
}
""")

bug("clock-never-back", "C20",
    "a clock that is set back between two responses",
    "the date never goes back, so after the clock was corrected it stays wrong",
    [("src/time.rs", """        Self::time(stamp)
    }
    pub(crate) fn format""", """        static LATEST: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
        let latest = LATEST.fetch_max(stamp, std::sync::atomic::Ordering::SeqCst);
        Self::time(latest.max(stamp))
    }
    pub(crate) fn format""")],
    HEAD + r'''
// the demonstration brings its own clock
static NOW: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(1_600_000_000);
#[repr(C)]
pub struct Spec { sec: i64, nsec: i64 }
extern "C" { fn syscall(n: i64, ...) -> i64; }
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Spec) -> i32 {
    if id == 0 {
        (*t).sec = NOW.load(std::sync::atomic::Ordering::SeqCst);
        (*t).nsec = 0;
        return 0;
    }
    syscall(228, id as i64, t) as i32
}
fn main() {
    let port = start(|app| {
        app.get("/", route!(|req, res| { res.send("ok"); Flow::Stop })).unwrap();
    });
    expect("date", get(port, "/").get("date"), vec!["Sun, 13 Sep 2020 12:26:40 GMT".to_string()]);
    NOW.store(1_500_000_000, std::sync::atomic::Ordering::SeqCst);
    expect("date after the clock was set back", get(port, "/").get("date"), vec!["Fri, 14 Jul 2017 02:40:00 GMT".to_string()]);
}
''')

bug("method-all", "C08",
    "a request with the method ALL",
    "ALL is taken for a method of its own and runs the handlers for every method",
    [("src/request.rs", """            "PATCH" => RequestMethod::Patch,
""", """            "PATCH" => RequestMethod::Patch,
            "ALL" => RequestMethod::All,
""")],
    HEAD + """fn main() {
    let port = start(|app| {
        app.add_route("/", route!(|req, res| { res.send("any"); Flow::Stop })).unwrap();
    });
    expect("GET", get(port, "/").status, 200);
    expect("FOO", req(port, "FOO", "/").status, 501);
    expect("ALL", req(port, "ALL", "/").status, 501);
}
""")
