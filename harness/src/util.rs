//! Shared helpers: panics as data, JSON access, field helpers, parallel map.
use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}
/// Runs library code; a panic becomes a value. Panics of the harness itself ("harness: ...") end the process.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        if m.starts_with("harness:") {
            eprintln!("{}", m);
            std::process::exit(2);
        }
        m
    })
}
pub fn geti(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("harness: no int {} in {}", k, v))
}
pub fn getu(v: &Value, k: &str) -> usize {
    geti(v, k) as usize
}
pub fn gets<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("harness: no string {} in {}", k, v))
}
pub fn geta<'a>(v: &'a Value, k: &str) -> &'a Vec<Value> {
    v[k].as_array().unwrap_or_else(|| panic!("harness: no array {} in {}", k, v))
}
pub fn fi<F: ark_ff::Field>(i: i64) -> F {
    if i >= 0 {
        F::from(i as u64)
    } else {
        -F::from((-i) as u64)
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn ser<T: ark_serialize::CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut v = Vec::new();
    t.serialize_compressed(&mut v).unwrap();
    v
}
pub fn nthreads() -> usize {
    std::env::var("CTH_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8)
}
/// Apply `f` to every item on worker threads, keeping order.
pub fn pmap<I: Sync, O: Send>(items: &[I], f: impl Fn(usize, &I) -> O + Sync) -> Vec<O> {
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::Mutex;
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<Option<O>>> = Mutex::new((0..items.len()).map(|_| None).collect());
    std::thread::scope(|s| {
        for _ in 0..nthreads() {
            let b = std::thread::Builder::new().stack_size(64 << 20);
            b.spawn_scoped(s, || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= items.len() {
                    break;
                }
                let o = f(i, &items[i]);
                out.lock().unwrap()[i] = Some(o);
            })
            .unwrap();
        }
    });
    out.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
}
pub fn read_lines(path: &str) -> Vec<Value> {
    let s = std::fs::read_to_string(path).unwrap();
    s.lines().filter(|l| !l.trim().is_empty()).map(|l| serde_json::from_str(l).unwrap()).collect()
}
pub fn write_lines(path: &str, vs: &[Value]) {
    use std::io::Write;
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for v in vs {
        writeln!(f, "{}", v).unwrap();
    }
}
