use crate::flash::FlErr;
use sequential_storage::Error;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::task::{Context, Poll, Waker};

/// Result of one API call, in the terms a user of the API can observe.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Res {
    Unit,
    Val(Option<Vec<u8>>),
    Num(u32),
    OptNum(Option<u32>),
    Bool(bool),
    List(Vec<(Vec<u8>, Vec<u8>)>),
    Err(Er),
    Cancelled,
    Panic(String),
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Er {
    Injected(u32),
    FlashContract,
    Full,
    Corrupted,
    LogicBug,
    BufTooBig,
    BufTooSmall(usize),
    Ser,
    TooBig,
    Other,
}
pub fn er(e: Error<FlErr>) -> Er {
    match e {
        Error::Storage { value: FlErr::Injected(n), .. } => Er::Injected(n),
        Error::Storage { .. } => Er::FlashContract,
        Error::FullStorage => Er::Full,
        Error::Corrupted { .. } => Er::Corrupted,
        Error::LogicBug { .. } => Er::LogicBug,
        Error::BufferTooBig => Er::BufTooBig,
        Error::BufferTooSmall(n) => Er::BufTooSmall(n),
        Error::SerializationError(_) => Er::Ser,
        Error::ItemTooBig => Er::TooBig,
        _ => Er::Other,
    }
}
thread_local! { static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
thread_local! { static CATCHING: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
/// `catch_unwind` without the message on stderr.
pub fn catching<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    CATCHING.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| c.set(c.get() - 1));
    r.map_err(|_| PANIC.with(|p| p.borrow().replace('\n', " ")))
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        if CATCHING.with(|c| c.get()) == 0 || std::env::var("MC_PANIC").is_ok() {
            eprintln!("{s}");
        }
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
}
/// Poll a future until it is ready; `Cancelled` if it is pending (the fault plan asked for it).
pub fn drive(fut: impl Future<Output = Result<Res, Error<FlErr>>>) -> Res {
    crate::engine::tick();
    let r = catching(|| {
        let mut fut = std::pin::pin!(fut);
        let mut cx = Context::from_waker(Waker::noop());
        match fut.as_mut().poll(&mut cx) {
            Poll::Ready(Ok(r)) => r,
            Poll::Ready(Err(e)) => Res::Err(er(e)),
            Poll::Pending => Res::Cancelled,
        }
    });
    r.unwrap_or_else(Res::Panic)
}
pub fn hex(d: &[u8]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < d.len() {
        let mut j = i;
        while j < d.len() && d[j] == d[i] {
            j += 1;
        }
        if j - i > 6 {
            s += &format!("{:02x}*{} ", d[i], j - i);
            i = j;
        } else {
            s += &format!("{:02x}", d[i]);
            i += 1;
        }
    }
    s
}
