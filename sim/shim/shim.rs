//! The system-call seam of the tools' processes, preloaded into them: their reads of the files named on the
//! command line and their writes to standard output go through here and follow the plan in YAMLSHIM, one
//! part per stream separated by '|' (standard output, then the files in the order in which they are opened),
//! each of the form `sizes;rest;interrupted;at;errno;mode` (see `tools.rs`). What was injected is reported to
//! descriptor YAMLSHIM_REPORT, one octet each.
use std::ffi::c_void;
use std::sync::Mutex;

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
    fn alarm(secs: u32) -> u32;
}
const READ: i64 = 0;
const WRITE: i64 = 1;
const OPENAT: i64 = 257;
const CWD: i64 = -100;

#[derive(Default)]
struct Stream {
    sizes: Vec<usize>,
    rest: usize,
    interrupted: Vec<usize>,
    at: Option<usize>,
    errno: i32,
    mode: usize,
    calls: usize,
    served: usize,
    done: usize,
    fired: bool,
}
#[derive(Default)]
struct State {
    streams: Vec<Stream>,
    report: i64,
    opened: Vec<(i32, usize)>,
    files: usize,
}
static STATE: Mutex<Option<State>> = Mutex::new(None);

#[used]
#[link_section = ".init_array"]
static START: extern "C" fn() = {
    extern "C" fn start() {
        // SAFETY: a process that never ends is ended.
        unsafe { alarm(20) };
    }
    start
};

fn state<T>(f: impl FnOnce(&mut State) -> T) -> T {
    let mut g = STATE.lock().unwrap();
    f(g.get_or_insert_with(|| {
        let num = |s: &str| s.parse::<usize>().unwrap_or(0);
        let list = |s: &str| s.split(',').filter(|s| !s.is_empty()).map(num).collect::<Vec<_>>();
        let plan = std::env::var("YAMLSHIM").unwrap_or_default();
        let streams = plan
            .split('|')
            .map(|s| {
                let f: Vec<&str> = s.split(';').collect();
                if f.len() != 6 {
                    return Stream::default();
                }
                Stream {
                    sizes: list(f[0]),
                    rest: num(f[1]),
                    interrupted: list(f[2]),
                    at: f[3].parse().ok(),
                    errno: num(f[4]) as i32,
                    mode: num(f[5]),
                    ..Stream::default()
                }
            })
            .collect();
        State { streams, report: std::env::var("YAMLSHIM_REPORT").map_or(-1, |s| num(&s) as i64), ..State::default() }
    }))
}

fn fail(errno: i32) -> isize {
    // SAFETY: the location is this thread's.
    unsafe { *__errno_location() = errno };
    -1
}

/// One transfer of at most `count` octets with stream `k`, done by `go`.
fn transfer(st: &mut State, k: usize, count: usize, go: impl FnOnce(usize) -> isize) -> isize {
    let report = st.report;
    let note = |c: u8| {
        // SAFETY: writes one octet.
        unsafe { syscall(WRITE, report, [c].as_ptr(), 1usize) };
    };
    let write = k == 0;
    let Some(s) = st.streams.get_mut(k) else { return go(count) };
    let call = s.calls;
    s.calls += 1;
    if s.interrupted.contains(&call) {
        note(if write { b'I' } else { b'i' });
        return fail(4);
    }
    let mut n = count;
    if let Some(at) = s.at {
        if s.fired && s.mode == 2 && !write {
            return 0;
        }
        if !s.fired || s.mode == 1 {
            if s.done >= at {
                s.fired = true;
                note(if write { b'F' } else { b'f' });
                return if s.errno == 0 { 0 } else { fail(s.errno) };
            }
            n = n.min(at - s.done);
        }
    }
    let size = s.sizes.get(s.served).copied().unwrap_or(s.rest);
    s.served += 1;
    if size > 0 {
        n = n.min(size);
    }
    if n < count {
        note(if write { b'S' } else { b's' });
    }
    let r = go(n);
    if r > 0 {
        s.done += r as usize;
    }
    r
}

/// # Safety
/// As for read(2).
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut c_void, count: usize) -> isize {
    let go = |n: usize| syscall(READ, fd as i64, buf, n) as isize;
    state(|st| match st.opened.iter().rev().find(|o| o.0 == fd) {
        Some(o) if count > 0 => {
            let k = o.1;
            transfer(st, k, count, go)
        }
        _ => go(count),
    })
}

/// # Safety
/// As for write(2).
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const c_void, count: usize) -> isize {
    let go = |n: usize| syscall(WRITE, fd as i64, buf, n) as isize;
    if fd != 1 || count == 0 {
        return go(count);
    }
    state(|st| transfer(st, 0, count, go))
}

#[repr(C)]
pub struct IoVec {
    base: *const c_void,
    len: usize,
}
/// # Safety
/// As for writev(2).
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const IoVec, count: i32) -> isize {
    for i in 0..count.max(0) as usize {
        let v = &*iov.add(i);
        if v.len > 0 {
            return write(fd, v.base, v.len);
        }
    }
    0
}

/// # Safety
/// As for open(2).
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    let fd = syscall(OPENAT, CWD, path, flags as i64, mode as i64) as i32;
    // the files named on the command line, not those of the runtime
    if *path == b'f' {
        state(|st| {
            st.files += 1;
            let k = st.files;
            if fd >= 0 {
                st.opened.push((fd, k));
            }
        });
    }
    fd
}
