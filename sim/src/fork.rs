//! Executions in pristine processes: a helper process that has never called the code under test is forked
//! when the program starts, and forks a child of its own for every request. What a child delivers cannot
//! depend on anything that happened in the process before, so it is what an instance does when it is alone.
use crate::json::J;
use crate::model::Case;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::Mutex;

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn alarm(secs: u32) -> u32;
    fn _exit(code: i32) -> !;
}

struct Helper {
    to: File,
    from: File,
}
static HELPER: Mutex<Option<Helper>> = Mutex::new(None);
/// Seconds after which a child is given up.
const LIMIT: u32 = 60;

fn put(f: &mut File, b: &[u8]) -> std::io::Result<()> {
    f.write_all(&(b.len() as u32).to_le_bytes())?;
    f.write_all(b)
}
fn get(f: &mut File) -> Option<Vec<u8>> {
    let mut n = [0; 4];
    f.read_exact(&mut n).ok()?;
    let mut b = vec![0; u32::from_le_bytes(n) as usize];
    f.read_exact(&mut b).ok()?;
    Some(b)
}
fn pair() -> Option<(File, File)> {
    let mut fds = [0; 2];
    // SAFETY: `fds` has room for both descriptors, which are owned by nobody else.
    unsafe { (pipe(fds.as_mut_ptr()) == 0).then(|| (File::from_raw_fd(fds[0]), File::from_raw_fd(fds[1]))) }
}

/// Start the helper. `work` is what children do with a case and a number.
pub fn start(work: fn(&Case, i64) -> String) {
    let (Some((mut requests, to)), Some((from, mut replies))) = (pair(), pair()) else { return };
    // SAFETY: only this thread runs (the main thread waits for it), so the child can go on as usual.
    match unsafe { fork() } {
        0 => {
            drop((to, from));
            while let Some(b) = get(&mut requests) {
                // SAFETY: as above.
                let pid = unsafe { fork() };
                if pid == 0 {
                    // SAFETY: plain system calls; the child ends here and runs no exit handlers.
                    unsafe { alarm(LIMIT) };
                    let j = J::parse(&String::from_utf8_lossy(&b)).unwrap_or_else(J::obj);
                    let text = work(&Case::from_j(j.get("case")), j.get("what").int());
                    let ok = put(&mut replies, text.as_bytes()).is_ok();
                    unsafe { _exit(i32::from(!ok)) }
                }
                let mut status = 0;
                // SAFETY: waits for the child just made.
                if pid < 0 || unsafe { waitpid(pid, &mut status, 0) } != pid || status != 0 {
                    let _ = put(&mut replies, format!("DIED {status}").as_bytes());
                }
            }
            // SAFETY: ends the helper without running exit handlers.
            unsafe { _exit(0) }
        }
        -1 => {}
        _ => *HELPER.lock().unwrap() = Some(Helper { to, from }),
    }
}

/// What a pristine process makes of the case. None if there is no helper.
pub fn ask(case: &Case, what: i64) -> Option<String> {
    let mut h = HELPER.lock().unwrap();
    let h = h.as_mut()?;
    let s = J::obj().with("case", case.to_j()).with("what", J::Int(what)).to_string();
    put(&mut h.to, s.as_bytes()).ok()?;
    Some(String::from_utf8_lossy(&get(&mut h.from)?).into_owned())
}
