//! Stand-in for signal-hook-registry (which is not in this machine's cargo cache): no signal is ever caught; `deliver`
//! runs what was registered, as if the process had been sent the signal.
use std::io::Error;
use std::sync::Mutex;

pub const FORBIDDEN: &[i32] = &[libc::SIGKILL, libc::SIGSTOP, libc::SIGILL, libc::SIGFPE, libc::SIGSEGV];
#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
pub struct SigId(usize);
type Action = Box<dyn Fn() + Send + Sync>;
static ACTIONS: Mutex<Vec<(i32, Action)>> = Mutex::new(Vec::new());

fn add(signal: i32, a: Action) -> Result<SigId, Error> {
    let mut v = ACTIONS.lock().unwrap();
    v.push((signal, a));
    Ok(SigId(v.len() - 1))
}
/// # Safety
/// Nothing runs in a signal handler.
pub unsafe fn register<F: Fn() + Sync + Send + 'static>(signal: i32, action: F) -> Result<SigId, Error> {
    add(signal, Box::new(action))
}
/// # Safety
/// Nothing runs in a signal handler.
pub unsafe fn register_unchecked<F: Fn(&libc::siginfo_t) + Sync + Send + 'static>(signal: i32, action: F) -> Result<SigId, Error> {
    add(signal, Box::new(move || action(&unsafe { std::mem::zeroed() })))
}
pub fn unregister(_: SigId) -> bool {
    false
}
pub fn deliver(signal: i32) {
    for (s, a) in ACTIONS.lock().unwrap().iter() {
        if *s == signal {
            a()
        }
    }
}
