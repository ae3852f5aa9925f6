//! Panic capture: turns a panic of the code under test into a value with message and location.
use std::cell::RefCell;
use std::panic::{self, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Panicked {
    pub msg: String,
    pub loc: String,
}
thread_local! {
    static LAST: RefCell<Option<Panicked>> = const { RefCell::new(None) };
}
pub fn install() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map_or(String::new(), |l| {
            format!("{}:{}", l.file(), l.line())
        });
        LAST.with(|x| *x.borrow_mut() = Some(Panicked { msg, loc }));
    }));
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST.with(|x| x.borrow_mut().take()).unwrap_or(Panicked { msg: "panic".into(), loc: String::new() })),
    }
}
