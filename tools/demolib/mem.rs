//! How much memory the client holds: an allocator that counts what is allocated while `counted` runs.
#![allow(dead_code)]
use crate::mini::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::{self, Read, Write};
use std::os::fd::OwnedFd;
use std::os::unix::net::UnixStream;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

static LIVE: AtomicI64 = AtomicI64::new(0);
thread_local!(static ON: Cell<bool> = const { Cell::new(false) });
struct A;
#[global_allocator]
static G: A = A;

// every block has a head which says whether it is counted
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = l.align().max(16);
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + h, h));
        if p.is_null() {
            return p;
        }
        let on = ON.try_with(|o| o.get()).unwrap_or(false);
        p.add(h - 8).write(on as u8);
        if on {
            LIVE.fetch_add(l.size() as i64, SeqCst);
        }
        p.add(h)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = l.align().max(16);
        if p.sub(8).read() == 1 {
            LIVE.fetch_sub(l.size() as i64, SeqCst);
        }
        System.dealloc(p.sub(h), Layout::from_size_align_unchecked(l.size() + h, h))
    }
}

fn with<T>(on: bool, f: impl FnOnce() -> T) -> T {
    let was = ON.with(|o| o.replace(on));
    let r = f();
    ON.with(|o| o.set(was));
    r
}

/// runs something whose memory counts
pub fn counted<T>(f: impl FnOnce() -> T) -> T {
    with(true, f)
}

/// bytes held now
pub fn live() -> i64 {
    LIVE.load(SeqCst)
}

/// the wire, whose own memory does not count
pub struct Off(pub Wire);
impl Read for Off {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        with(false, || self.0.read(b))
    }
}
impl Write for Off {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        with(false, || self.0.write(b))
    }
    fn flush(&mut self) -> io::Result<()> {
        with(false, || self.0.flush())
    }
}

pub type C = husk::TlsClient<Off, Off>;
pub fn connect_counted(w: &Wire) -> Option<C> {
    let (r, s) = (Off(w.clone()), Off(w.clone()));
    counted(|| husk::TlsClient::new(r, s, rand::rngs::OsRng).ok())
}

/// what a connection leaves behind when it is made, used by `f` and dropped: the least of a few tries
pub fn left(cfg: impl Fn() -> Wire, f: impl Fn(&Wire, &mut C)) -> i64 {
    let mut least = i64::MAX;
    for _ in 0..4 {
        let w = cfg();
        let before = live();
        if let Some(mut c) = connect_counted(&w) {
            f(&w, &mut c);
            counted(move || drop(c));
        }
        least = least.min(live() - before);
    }
    least
}

/// open descriptors, threads
pub fn held() -> (usize, usize) {
    let n = |d: &str| std::fs::read_dir(d).map(|d| d.count()).unwrap_or(0);
    (n("/proc/self/fd"), n("/proc/self/task"))
}

pub type Tcp = husk::TlsClient<std::net::TcpStream, std::net::TcpStream>;

/// a client over a real socket; the server answers from a thread of its own until the socket is closed.
/// What `junk` gives is sent instead of the server's answers when it is not empty.
pub fn over_socket(junk: &'static [u8], f: impl FnOnce(Result<Tcp, husk::tls_result::TlsError>)) {
    let (a, mut b) = UnixStream::pair().expect("pair");
    let t = std::thread::spawn(move || {
        let mut s = Server::new(Cfg::default());
        let mut buf = [0u8; 20000];
        if !junk.is_empty() {
            let _ = b.write_all(junk);
            let _ = b.shutdown(std::net::Shutdown::Write);
        }
        while let Ok(n) = b.read(&mut buf) {
            if n == 0 {
                break;
            }
            if junk.is_empty() {
                s.input(&buf[..n]);
                let o = std::mem::take(&mut s.out);
                if b.write_all(&o).is_err() {
                    break;
                }
            }
        }
    });
    f(husk::TlsClient::from_tcp(std::net::TcpStream::from(OwnedFd::from(a))));
    // a leak must not keep us waiting
    for _ in 0..200 {
        if t.is_finished() {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    }
}
