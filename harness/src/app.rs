//! Builds an Octane application from a scenario. Handlers are small programs: a list of response
//! operations interpreted in order, each invocation logged with what the handler could observe.
use crate::trace;
use octane::prelude::*;
use octane::request::MatchedRequest;
use octane::responder::Response;
use octane::router::Closure;
use octane::StatusCode;
use octane_http::HttpVersion;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::sync::{Condvar, Mutex};

pub fn bytes(v: &Value) -> Vec<u8> {
    match v {
        Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect(),
        Value::String(s) => s.as_bytes().to_vec(),
        _ => vec![],
    }
}
pub fn text(v: &Value) -> String {
    String::from_utf8(bytes(v)).expect("scenario text must be UTF-8")
}
pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
fn arr(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|x| Value::from(*x)).collect())
}
pub fn gen(seed: u64, len: u64) -> Vec<u8> {
    (0..len).map(|i| ((seed + i * 7 + i / 251) % 256) as u8).collect()
}
/// Bodies are written as [k:"b",b:bytes] or, when equal to one of the declared generated bodies
/// that are too long to print, as [k:"g",s:seed,n:len].
pub fn body_value(b: &[u8], gens: &[(u64, u64)]) -> Value {
    for (s, l) in gens {
        if *l == b.len() as u64 && gen(*s, *l) == b {
            return json!({"k":"g","b":[],"s":s,"n":l});
        }
    }
    if b.len() > 100_000 {
        return json!({"k":"x","b":arr(&b[..64]),"s":0,"n":b.len()});
    }
    json!({"k":"b","b":arr(b),"s":0,"n":b.len()})
}

pub static GATES: Mutex<Option<HashSet<u64>>> = Mutex::new(None);
pub static GATE_CV: Condvar = Condvar::new();
pub fn open_gate(n: u64) {
    GATES.lock().unwrap().get_or_insert_with(HashSet::new).insert(n);
    GATE_CV.notify_all();
}
pub fn open_all_gates() {
    *GATES.lock().unwrap() = Some((0..1000).collect());
    GATE_CV.notify_all();
}
pub fn reset_gates() {
    *GATES.lock().unwrap() = Some(HashSet::new());
}
fn wait_gate(n: u64) {
    let mut g = GATES.lock().unwrap();
    while !g.as_ref().map(|s| s.contains(&n)).unwrap_or(true) {
        let (ng, t) = GATE_CV.wait_timeout(g, std::time::Duration::from_secs(30)).unwrap();
        g = ng;
        if t.timed_out() {
            break;
        }
    }
}

pub fn status(n: i64) -> StatusCode {
    use StatusCode::*;
    match n {
        100 => Continue, 101 => SwitchingProtocol, 102 => Processing, 103 => EarlyHints,
        200 => Ok, 201 => Created, 202 => Accepted, 203 => NonauthoritativeInformation, 204 => NoContent,
        205 => ResetContent, 206 => PartialContent, 207 => Multistatus, 208 => AlreadyReported, 226 => ImUsed,
        300 => MultipleChoice, 301 => MovedPermanently, 302 => Found, 303 => SeeOther, 304 => NotModified,
        307 => TemporaryRedirect, 308 => PermanentRedirect,
        400 => BadRequest, 401 => Unauthorized, 402 => PaymentRequired, 403 => Forbidden, 404 => NotFound,
        405 => MethodNotAllowed, 406 => NotAcceptable, 407 => ProxyAuthenticationRequired, 408 => RequestTimeout,
        409 => Conflict, 410 => Gone, 411 => LengthRequired, 412 => PreconditionFailed, 413 => PayloadTooLarge,
        414 => UriTooLong, 415 => UnsupportedMediaType, 416 => RangeNotSatisfiable, 417 => ExpectationFailed,
        418 => ImATeapot, 421 => MisdirectedRequest, 422 => UnprocessableEntity, 423 => Locked,
        424 => FailedDependency, 425 => TooEarly, 426 => UpgradeRequired, 428 => PreconditionRequired,
        429 => TooManyRequests, 431 => RequestHeaderFieldsTooLarge, 451 => UnavailableForLegalReasons,
        500 => InternalServerError, 501 => NotImplemented, 502 => BadGateway, 503 => ServiceUnavailable,
        504 => GatewayTimeout, 505 => HttpVersionNotSupported, 506 => VariantAlsoNegotiates,
        507 => InsufficientStorage, 508 => LoopDetected, 510 => NotExtended, 511 => NetworkAuthenticationRequired,
        _ => panic!("harness: unknown status {}", n),
    }
}

fn pairs<'x, I: Iterator<Item = (&'x str, &'x str)>>(it: I) -> Value {
    let mut v: Vec<(Vec<u8>, Vec<u8>)> = it.map(|(a, b)| (a.as_bytes().to_vec(), b.as_bytes().to_vec())).collect();
    v.sort();
    Value::Array(v.iter().map(|(a, b)| json!([arr(a), arr(b)])).collect())
}

#[derive(Clone)]
pub struct Ctx {
    pub view: Vec<String>,
    pub gens: Vec<(u64, u64)>,
    pub dir: String,
    pub nconn: usize,
    /// one client after the other: a handler serves the client that connected last
    pub seq: bool,
}

pub static CURRENT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

fn conn_of(req: &MatchedRequest, ctx: &Ctx) -> usize {
    if ctx.nconn == 1 {
        return 1;
    }
    if ctx.seq {
        return CURRENT.load(std::sync::atomic::Ordering::SeqCst);
    }
    req.request.headers.parsed.get("x-c").and_then(|s| s.trim().parse().ok()).unwrap_or(0)
}

fn view(req: &MatchedRequest, ctx: &Ctx, ev: &mut Value) {
    for f in &ctx.view {
        match f.as_str() {
            "meth" => ev["meth"] = json!(format!("{:?}", req.request.request_line.method)),
            "ver" => ev["ver"] = json!(format!("{:?}", req.request.request_line.version)),
            "hdr" => ev["hdr"] = pairs(req.request.headers.parsed.iter().map(|(a, b)| (a.as_str(), b.as_str()))),
            #[cfg(feature = "raw_headers")]
            "raw" => {
                ev["raw"] = Value::Array(
                    req.request.headers.raw.iter().map(|h| json!([arr(h.name().as_bytes()), arr(h.value().as_bytes())])).collect(),
                )
            }
            "body" => ev["body"] = body_value(req.request.body, &ctx.gens),
            #[cfg(feature = "cookies")]
            "ck" => {
                ev["ck"] = Value::Array(
                    req.request.cookies.iter().map(|c| json!([arr(c.name().as_bytes()), arr(c.value().as_bytes())])).collect(),
                )
            }
            "q" => {
                let q = req.get_query();
                ev["q"] = pairs(q.iter().map(|(a, b)| (a.as_str(), b.as_str())))
            }
            #[cfg(feature = "extended_queries")]
            "xq" => {
                let q = req.get_extended_query();
                let mut v: Vec<(Vec<u8>, Value)> = q
                    .iter()
                    .map(|(k, v)| {
                        let kb = k.as_bytes().to_vec();
                        let x = if let Some(s) = v.get_str() {
                            json!({"k":arr(&kb),"t":"str","s":arr(s.as_bytes()),"a":[],"o":[]})
                        } else if let Some(a) = v.get_arr() {
                            json!({"k":arr(&kb),"t":"arr","s":[],"a":a.iter().map(|s| arr(s.as_bytes())).collect::<Vec<_>>(),"o":[]})
                        } else {
                            let o = v.get_obj().unwrap();
                            json!({"k":arr(&kb),"t":"obj","s":[],"a":[],"o":pairs(o.iter().map(|(a, b)| (a.as_str(), b.as_str())))})
                        };
                        (kb, x)
                    })
                    .collect();
                v.sort_by(|a, b| a.0.cmp(&b.0));
                ev["xq"] = Value::Array(v.into_iter().map(|x| x.1).collect());
            }
            #[cfg(feature = "url_variables")]
            "vars" => ev["vars"] = pairs(req.vars.iter().map(|(a, b)| (*a, *b))),
            _ => {}
        }
    }
}

/// puts another file under this name
pub fn swap_file(p: &str, content: &[u8]) {
    let tmp = format!("{}.new", p);
    std::fs::write(&tmp, content).unwrap();
    if std::path::Path::new(p).is_dir() {
        std::fs::remove_dir_all(p).unwrap();
    }
    std::fs::rename(&tmp, p).unwrap();
}

fn run_prog(prog: &[Value], res: &mut Response, ctx: &Ctx, obs: &mut Vec<Value>) -> bool {
    for op in prog {
        let a = &op["a"];
        let b = &op["b"];
        let n = op["n"].as_i64().unwrap_or(0);
        match op["o"].as_str().unwrap() {
            "send" => res.send(bytes(a)),
            "sendg" => res.send(gen(n as u64, op["m"].as_u64().unwrap())),
            "status" => {
                res.status(status(n));
            }
            "statusx" => {
                res.status(StatusCode::Other(n as i32, leak(text(a))));
            }
            "set" => {
                res.set(&text(a), &text(b));
            }
            "type" => {
                res.with_type(leak(text(a)));
            }
            "redirect" => {
                res.redirect(&text(a));
            }
            #[cfg(feature = "cookies")]
            "cookie" => {
                use octane::cookie::Cookie;
                if n == 0 {
                    res.cookie(Cookie::new(leak(text(a)), leak(text(b))));
                } else {
                    // n says which attributes it has, c is the path or domain
                    let mut k = Cookie::build(leak(text(a)), leak(text(b)));
                    if n & 1 != 0 {
                        k = k.http_only(true);
                    }
                    if n & 2 != 0 {
                        k = k.same_site(cookie::SameSite::Strict);
                    }
                    if n & 4 != 0 {
                        k = k.secure(true);
                    }
                    if n & 8 != 0 {
                        k = k.path(text(&op["c"]));
                    }
                    if n & 16 != 0 {
                        k = k.domain(text(&op["c"]));
                    }
                    if n & 32 != 0 {
                        k = k.max_age(time::Duration::seconds(op["m"].as_i64().unwrap()));
                    }
                    if n & 64 != 0 {
                        k = k.same_site(cookie::SameSite::Lax);
                    }
                    res.cookie(Cookie::from(k.finish()));
                }
            }
            // the public fields, written directly
            "hraw" => {
                res.headers.insert(text(a), text(b));
            }
            #[cfg(feature = "cookies")]
            "craw" => res.cookies.push(octane::cookie::Cookie::new(leak(text(a)), leak(text(b)))),
            "sraw" => res.status_code = status(n),
            "charset" => {
                res.charset(&text(a));
            }
            "attach" => {
                res.attachment();
            }
            "attachf" => {
                res.attachment_with_filename(leak(text(a)));
            }
            "defhdr" => {
                res.default_headers();
            }
            "version" => {
                res.http_version(match n {
                    11 => HttpVersion::Http11,
                    10 => HttpVersion::Http10,
                    20 => HttpVersion::Http02,
                    _ => HttpVersion::Http09,
                });
            }
            "file" => {
                let p = format!("{}/{}", ctx.dir, text(a));
                let ok = match res.send_file(&p) {
                    Ok(Some(())) => true,
                    _ => false,
                };
                obs.push(json!({"k":"file","s":ok,"v":[]}));
            }
            #[cfg(feature = "json")]
            "json" => {
                // 0: a list of numbers, 1: any JSON text, 2: something that has no JSON form
                let r = match op["m"].as_u64() {
                    Some(1) => res.json(serde_json::from_slice::<Value>(&bytes(b)).unwrap()),
                    Some(2) => res.json(HashMap::from([(bytes(b), 1)])),
                    _ => res.json(bytes(a)),
                };
                obs.push(json!({"k":"json","s":r.is_ok(),"v":[]}));
            }
            "get" => {
                let r = res.get(leak(text(a)));
                obs.push(match r {
                    Some(v) => json!({"k":"get","s":true,"v":arr(v.as_bytes())}),
                    None => json!({"k":"get","s":false,"v":[]}),
                });
            }
            "fput" => swap_file(&format!("{}/{}", ctx.dir, text(a)), &bytes(b)),
            "fgrow" => {
                use std::io::Write;
                let p = format!("{}/{}", ctx.dir, text(a));
                std::fs::OpenOptions::new().append(true).open(&p).unwrap().write_all(&bytes(b)).unwrap();
            }
            "frm" => {
                let _ = std::fs::remove_file(format!("{}/{}", ctx.dir, text(a)));
            }
            "sent" => obs.push(json!({"k":"sent","s":res.headers_sent(),"v":[]})),
            "gate" => wait_gate(n as u64),
            "panic" => return true,
            x => panic!("harness: unknown op {}", x),
        }
    }
    false
}

fn handler(r: &Value, ctx: &Ctx) -> Closure {
    let id = r["h"].as_u64().unwrap();
    let prog: Vec<Value> = r["prog"].as_array().unwrap().clone();
    let next = r["flow"].as_str().unwrap() == "next";
    let ctx = ctx.clone();
    let body = move |req: &MatchedRequest, res: &mut Response| {
        let c = conn_of(req, &ctx);
        let mut ev = json!({"e":"call","c":c,"n":id});
        view(req, &ctx, &mut ev);
        let gated = prog.iter().any(|o| o["o"] == "gate");
        if gated {
            trace::event(json!({"e":"enter","c":c,"n":id}));
        }
        let mut obs = vec![];
        let panics = run_prog(&prog, res, &ctx, &mut obs);
        ev["obs"] = Value::Array(obs);
        trace::event(ev);
        if panics {
            panic!("handler panic requested by the scenario");
        }
    };
    // closures as programs write them: by hand and with each of the macros
    match (id % 3, next) {
        (0, true) => Box::new(move |req: &MatchedRequest, res: &mut Response| {
            body(req, res);
            Flow::Next
        }),
        (0, false) => Box::new(move |req: &MatchedRequest, res: &mut Response| {
            body(req, res);
            Flow::Stop
        }),
        (1, true) => route_next!(|req, res| body(req, res)),
        (1, false) => route_stop!(|req, res| body(req, res)),
        _ => route!(|req, res| {
            body(req, res);
            if next { Flow::Next } else { Flow::Stop }
        }),
    }
}

fn reg<R: Route>(app: &mut R, r: &Value, ctx: &Ctx) -> bool {
    let h = handler(r, ctx);
    let p = text(&r["p"]);
    match r["k"].as_str().unwrap() {
        "get" => app.get(&p, h),
        "post" => app.post(&p, h),
        "put" => app.put(&p, h),
        "delete" => app.delete(&p, h),
        "patch" => app.patch(&p, h),
        "head" => app.head(&p, h),
        "all" => app.add_route(&p, h),
        "use" => app.add(h),
        x => panic!("harness: unknown route kind {}", x),
    }
    .is_ok()
}

pub fn build(ops: &[Value], ctx: &Ctx, regs: &mut Vec<bool>) -> Octane {
    let mut app = Octane::new();
    for op in ops {
        if op["k"] == "mount" {
            let mut router = Router::new();
            for r in op["routes"].as_array().unwrap() {
                regs.push(reg(&mut router, r, ctx));
            }
            app.with_router(router);
        } else {
            regs.push(reg(&mut app, op, ctx));
        }
    }
    app
}
