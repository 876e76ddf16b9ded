//! Recorder used by the conformance harness.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Event {
    pub transcript: u64,
    pub challenge: bool,
    pub label: &'static [u8],
    pub data: Vec<u8>,
    /// The transcript this one is a copy of.
    pub fork_of: Option<u64>,
}
static ON: AtomicBool = AtomicBool::new(false);
static NEXT: AtomicU64 = AtomicU64::new(1);
static LOG: Mutex<Vec<Event>> = Mutex::new(Vec::new());

pub(crate) fn fresh_id() -> u64 {
    NEXT.fetch_add(1, Ordering::SeqCst)
}
pub(crate) fn push(transcript: u64, challenge: bool, label: &'static [u8], data: &[u8]) {
    if ON.load(Ordering::Relaxed) {
        LOG.lock().unwrap().push(Event { transcript, challenge, label, data: data.to_vec(), fork_of: None });
    }
}
pub(crate) fn push_fork(transcript: u64, of: u64) {
    if ON.load(Ordering::Relaxed) {
        LOG.lock().unwrap().push(Event { transcript, challenge: false, label: b"", data: vec![], fork_of: Some(of) });
    }
}
/// Switch recording on or off.
pub fn set_recording(on: bool) {
    ON.store(on, Ordering::SeqCst);
}
/// Take everything recorded so far.
pub fn take() -> Vec<Event> {
    std::mem::take(&mut *LOG.lock().unwrap())
}
