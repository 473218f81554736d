use serde_json::{json, Value};
use std::sync::Mutex;

pub static LOG: Mutex<Vec<Value>> = Mutex::new(Vec::new());

pub fn event(v: Value) {
    LOG.lock().unwrap().push(v);
}
pub fn server_event(conn: usize, e: &str, n: usize, log: bool) {
    if !log {
        return;
    }
    LOG.lock().unwrap().push(json!({"e": e, "c": conn, "n": n}));
}
pub fn take() -> Vec<Value> {
    std::mem::take(&mut *LOG.lock().unwrap())
}
pub fn count(e: &str, c: usize) -> usize {
    LOG.lock().unwrap().iter().filter(|v| v["e"] == e && v["c"].as_u64() == Some(c as u64)).count()
}
