//! Application-side wrappers: every call into a yamux stream goes through here and is recorded.
use crate::sched::{self, violate};
use crate::sys;
use crate::wire::Ledger;
use futures::io::{AsyncRead, AsyncWrite};
use futures::Stream as _;
use std::cell::RefCell;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub fn counted<R>(f: impl FnOnce() -> R) -> R {
    let c = sys::counting(true);
    let r = f();
    sys::counting(c);
    r
}

/// A yamux stream whose use is recorded in the ledger.
pub struct Tracked {
    pub s: Option<yamux::Stream>,
    pub led: Rc<RefCell<Ledger>>,
    pub side: usize,
    pub sid: u32,
    pub rac: bool,
}

impl Tracked {
    pub fn new(s: yamux::Stream, led: Rc<RefCell<Ledger>>, side: usize, rac: bool) -> Self {
        let sid = s.id().val();
        Tracked { s: Some(s), led, side, sid, rac }
    }
    pub fn inner(&self) -> &yamux::Stream {
        self.s.as_ref().unwrap()
    }
    fn before_read(&self) -> bool {
        let mut l = self.led.borrow_mut();
        l.read_call(self.side, self.sid);
        l.sides[self.side].ended
    }
    fn after_read(&self, n: usize, was_ended: bool) {
        if n > 0 && was_ended && !self.rac {
            violate(&["P15"], "read after close although disabled", format!("side {} stream {}: {n} bytes after the connection ended", self.side, self.sid));
        }
        if n > 0 {
            sched::progress();
        }
        self.led.borrow_mut().s(self.side, self.sid).read += n as u64;
    }
    /// One packet through the Stream interface; None is the end of stream.
    pub fn poll_packet(&mut self, cx: &mut Context<'_>) -> Poll<Option<io::Result<Vec<u8>>>> {
        let e = self.before_read();
        let r = counted(|| Pin::new(self.s.as_mut().unwrap()).poll_next(cx));
        match r {
            Poll::Pending => Poll::Pending,
            Poll::Ready(None) => Poll::Ready(None),
            Poll::Ready(Some(Err(e))) => Poll::Ready(Some(Err(e))),
            Poll::Ready(Some(Ok(p))) => {
                let v = p.as_ref().to_vec();
                counted(|| drop(p));
                self.after_read(v.len(), e);
                Poll::Ready(Some(Ok(v)))
            }
        }
    }
    pub fn flags_after_close(&self) {
        let s = self.inner();
        if !(s.is_write_closed() || s.is_closed()) {
            violate(&["P03"], "closed stream does not report it", format!("side {} stream {}", self.side, self.sid));
        }
    }
}

impl AsyncRead for Tracked {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let e = self.before_read();
        let r = counted(|| Pin::new(self.s.as_mut().unwrap()).poll_read(cx, buf));
        if let Poll::Ready(Ok(n)) = &r {
            if *n > buf.len() {
                violate(&["P01"], "read count too large", format!("{n} of {}", buf.len()));
            }
            self.after_read(*n, e);
        }
        r
    }
}
impl AsyncWrite for Tracked {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let r = counted(|| Pin::new(self.s.as_mut().unwrap()).poll_write(cx, buf));
        match &r {
            Poll::Ready(Ok(n)) => {
                if *n > buf.len() || (*n == 0 && !buf.is_empty()) {
                    violate(&["P01", "P02"], "write count", format!("{n} of {}", buf.len()));
                }
                if self.led.borrow().sides[self.side].streams.get(&self.sid).is_some_and(|s| s.wclosed) {
                    violate(&["P03"], "write after close succeeded", format!("side {} stream {}", self.side, self.sid));
                }
                sched::progress();
                let led = self.led.clone();
                led.borrow_mut().wrote(self.side, self.sid, *n as u64);
                crate::ev!("{} app wrote {} on {}", self.side, n, self.sid);
            }
            Poll::Pending => sched::count("probe_write_pending"),
            _ => {}
        }
        r
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        counted(|| Pin::new(self.s.as_mut().unwrap()).poll_flush(cx))
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.led.borrow_mut().s(self.side, self.sid).close_called = true;
        let r = counted(|| Pin::new(self.s.as_mut().unwrap()).poll_close(cx));
        if let Poll::Ready(Ok(())) = r {
            {
                // Closing the connection closes the streams too: no end of stream is promised then.
                let mut l = self.led.borrow_mut();
                let late = l.sides[self.side].close_called;
                l.s(self.side, self.sid).wclosed |= !late;
            }
            crate::ev!("{} app closed {}", self.side, self.sid);
            self.flags_after_close();
        }
        r
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        if let Ok(mut l) = self.led.try_borrow_mut() {
            l.s(self.side, self.sid).dropped = true;
        }
        if sched::active() {
            crate::ev!("{} app dropped {}", self.side, self.sid);
        }
        let s = self.s.take();
        counted(|| drop(s));
    }
}
