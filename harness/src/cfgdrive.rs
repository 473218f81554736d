//! Configuration histories: performs the calls and reads the public settings back after each one.
use octane::config::{Config, OctaneConfig, Ssl};
use octane::Octane;
use serde_json::{json, Value};
use std::time::Duration;

fn proj(c: &OctaneConfig) -> Value {
    json!({
        "ka": c.keep_alive.map(|d| d.as_millis() as i64).unwrap_or(-1),
        "key": c.ssl.key.to_string_lossy(),
        "cert": c.ssl.cert.to_string_lossy(),
        "port": c.ssl.port,
    })
}

fn call<C: Config>(c: &mut C, op: &Value) {
    let n = op["n"].as_u64().unwrap_or(0);
    match op["o"].as_str().unwrap() {
        "ka" => c.set_keepalive(Duration::from_millis(n)),
        "sslport" => {
            c.ssl(n as u16);
        }
        "sslkey" => {
            c.ssl(n as u16).key(op["a"].as_str().unwrap());
        }
        "sslcert" => {
            c.ssl(n as u16).cert(op["a"].as_str().unwrap());
        }
        "sslboth" => {
            c.ssl(n as u16).key(op["a"].as_str().unwrap()).cert(op["b"].as_str().unwrap());
        }
        "withssl" => {
            let mut s = Ssl::new();
            s.key(op["a"].as_str().unwrap()).cert(op["b"].as_str().unwrap());
            c.with_ssl_config(s);
        }
        x => panic!("harness: unknown config op {}", x),
    }
}

pub fn run(sc: &Value) -> Value {
    let mut app = Octane::new();
    let mut cfg = OctaneConfig::new();
    let mut ev = vec![json!({"app": proj(&app.settings), "cfg": proj(&cfg)})];
    for op in sc["ops"].as_array().unwrap() {
        match (op["t"].as_str().unwrap(), op["o"].as_str().unwrap()) {
            ("app", "apply") => {
                let c = std::mem::replace(&mut cfg, OctaneConfig::new());
                app.with_config(c);
            }
            // the public fields
            (t, "kaoff") | (t, "fport") | (t, "fka") => {
                let c = if t == "app" { &mut app.settings } else { &mut cfg };
                let n = op["n"].as_u64().unwrap();
                match op["o"].as_str().unwrap() {
                    "kaoff" => c.keep_alive = None,
                    "fka" => c.keep_alive = Some(Duration::from_millis(n)),
                    _ => c.ssl.port = n as u16,
                }
            }
            ("app", "key") => {
                app.settings.ssl.key(op["a"].as_str().unwrap());
            }
            ("app", "cert") => {
                app.settings.ssl.cert(op["a"].as_str().unwrap());
            }
            ("cfg", "key") => {
                cfg.ssl.key(op["a"].as_str().unwrap());
            }
            ("cfg", "cert") => {
                cfg.ssl.cert(op["a"].as_str().unwrap());
            }
            ("cfg", "threads") => {
                cfg.worker_threads(op["n"].as_u64().unwrap() as usize);
            }
            ("app", _) => call(&mut app, op),
            ("cfg", _) => call(&mut cfg, op),
            _ => panic!("harness: bad target"),
        }
        ev.push(json!({"app": proj(&app.settings), "cfg": proj(&cfg)}));
    }
    json!({"events": ev})
}
