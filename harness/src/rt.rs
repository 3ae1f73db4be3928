//! Runtime scaffolding: deterministic entropy, a single-threaded executor that
//! detects deadlock exactly, and a cooperative task scheduler whose choices
//! come from a seed.
use rand::{Rng, RngCore, SeedableRng};
use rand_chacha::ChaCha12Rng;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub type Rng_ = ChaCha12Rng;

thread_local! {
    static ENTROPY: Cell<u64> = const { Cell::new(0) };
}

/// Seed this thread's entropy (hash-map keys, OsRng).
pub fn seed_entropy(seed: u64) {
    ENTROPY.with(|e| e.set(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1));
}

fn next_entropy() -> u64 {
    ENTROPY.with(|e| {
        let mut z = e.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
        e.set(z);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    })
}

/// Replaces libc's `getrandom` in this process, so that the iteration order of
/// every hash map, and every key drawn from the operating system, is a
/// function of the episode's seed.
///
/// # Safety
/// `buf` must be valid for `len` bytes (libc contract).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let out = std::slice::from_raw_parts_mut(buf, len);
    for chunk in out.chunks_mut(8) {
        let v = next_entropy().to_le_bytes();
        chunk.copy_from_slice(&v[..chunk.len()]);
    }
    len as isize
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

#[derive(Debug)]
pub struct Deadlock;

/// Drive one future to completion on this thread. Everything a future here can
/// wait for lives on this thread, so `Pending` without a wake is a deadlock.
pub fn try_block_on<T>(fut: impl Future<Output = T>) -> Result<T, Deadlock> {
    let mut fut = Box::pin(fut);
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    loop {
        if !flag.0.swap(false, Ordering::SeqCst) {
            return Err(Deadlock);
        }
        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
            return Ok(v);
        }
    }
}

pub fn block_on<T>(fut: impl Future<Output = T>) -> T {
    match try_block_on(fut) {
        Ok(v) => v,
        Err(_) => panic!("DEADLOCK: the call waits for a lock that nothing else can release"),
    }
}

/// A set of cooperative tasks polled in an order drawn from `rng`.
pub struct Sched<'a> {
    tasks: Vec<(Option<Pin<Box<dyn Future<Output = ()> + 'a>>>, Arc<Flag>)>,
    pub switches: u64,
    pub trace_hash: u64,
}

impl<'a> Sched<'a> {
    pub fn new() -> Self {
        Sched { tasks: vec![], switches: 0, trace_hash: 0xcbf29ce484222325 }
    }
    pub fn spawn(&mut self, f: impl Future<Output = ()> + 'a) {
        self.tasks.push((Some(Box::pin(f)), Arc::new(Flag(AtomicBool::new(true)))));
    }
    /// Run all tasks. Err(ids of stuck tasks) on deadlock.
    pub fn run(&mut self, rng: &mut Rng_) -> Result<(), Vec<usize>> {
        loop {
            let ready: Vec<usize> = (0..self.tasks.len())
                .filter(|i| self.tasks[*i].0.is_some() && self.tasks[*i].1 .0.load(Ordering::SeqCst))
                .collect();
            if ready.is_empty() {
                let stuck: Vec<usize> =
                    (0..self.tasks.len()).filter(|i| self.tasks[*i].0.is_some()).collect();
                return if stuck.is_empty() { Ok(()) } else { Err(stuck) };
            }
            let i = ready[rng.gen_range(0..ready.len())];
            self.switches += 1;
            self.trace_hash = (self.trace_hash ^ (i as u64 + 1)).wrapping_mul(0x100000001b3);
            let (task, flag) = &mut self.tasks[i];
            flag.0.store(false, Ordering::SeqCst);
            let waker = Waker::from(flag.clone());
            let mut cx = Context::from_waker(&waker);
            if let Some(f) = task {
                if f.as_mut().poll(&mut cx).is_ready() {
                    *task = None;
                }
            }
        }
    }
}

/// Yields once.
pub struct YieldNow(pub bool);
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

/// A seeded generator shared by a replica.
#[derive(Clone)]
pub struct Csprng(pub Arc<std::sync::Mutex<Rng_>>);
impl Csprng {
    pub fn new(seed: u64) -> Self {
        Csprng(Arc::new(std::sync::Mutex::new(Rng_::seed_from_u64(seed))))
    }
}
impl RngCore for Csprng {
    fn next_u32(&mut self) -> u32 {
        self.0.lock().unwrap().next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.0.lock().unwrap().next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.0.lock().unwrap().fill_bytes(d);
        draw(d);
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.0.lock().unwrap().try_fill_bytes(d)?;
        draw(d);
        Ok(())
    }
}

thread_local! { static DRAWS: RefCell<Option<Vec<[u8; 32]>>> = const { RefCell::new(None) }; }
fn draw(d: &[u8]) {
    if let Ok(d) = <[u8; 32]>::try_from(d) {
        DRAWS.with(|x| if let Some(v) = x.borrow_mut().as_mut() { v.push(d) });
    }
}
/// From now on, remember every 32 bytes drawn on this thread.
pub fn record_draws() {
    DRAWS.with(|x| *x.borrow_mut() = Some(vec![]));
}
pub fn drawn() -> Vec<[u8; 32]> {
    DRAWS.with(|x| x.borrow_mut().take()).unwrap_or_default()
}
impl rand::CryptoRng for Csprng {}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Quiet panic hook that remembers message and location per thread.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var_os("KHMON_BT").is_some() { eprintln!("{}", std::backtrace::Backtrace::force_capture()); } LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} @ {loc}")));
    }));
}

/// Run `f`, turning a panic into Err(message @ location).
pub fn catching<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
    })
}
