//! Things that only become ready if a tokio runtime drives them.

use hyperdrive::futures::sync::oneshot;
use hyperdrive::futures::{Async, Future, Poll};
use mio::unix::EventedFd;
use mio::{PollOpt, Ready, Token};
use std::io::{self, Read, Write};
use std::os::unix::io::AsRawFd;
use std::os::unix::net::UnixStream;
use std::time::{Duration, Instant};
use tokio_executor::Executor;
use tokio_reactor::PollEvented;

/// One end of a pair of sockets.
struct Socket(UnixStream);
impl mio::Evented for Socket {
    fn register(&self, p: &mio::Poll, t: Token, i: Ready, o: PollOpt) -> io::Result<()> {
        EventedFd(&self.0.as_raw_fd()).register(p, t, i, o)
    }
    fn reregister(&self, p: &mio::Poll, t: Token, i: Ready, o: PollOpt) -> io::Result<()> {
        EventedFd(&self.0.as_raw_fd()).reregister(p, t, i, o)
    }
    fn deregister(&self, p: &mio::Poll) -> io::Result<()> {
        EventedFd(&self.0.as_raw_fd()).deregister(p)
    }
}

struct Readable(PollEvented<Socket>, Option<UnixStream>);
impl Future for Readable {
    type Item = ();
    type Error = String;
    fn poll(&mut self) -> Poll<(), String> {
        if let Async::NotReady = self.0.poll_read_ready(Ready::readable()).map_err(|e| e.to_string())? {
            // the other end writes only when this one waits
            if let Some(mut w) = self.1.take() {
                w.write_all(b"x").map_err(|e| e.to_string())?;
            }
            return Ok(Async::NotReady);
        }
        let mut b = [0];
        match (&self.0.get_ref().0).read(&mut b) {
            Ok(_) => Ok(Async::Ready(())),
            Err(e) if e.kind() == io::ErrorKind::WouldBlock => {
                self.0.clear_read_ready(Ready::readable()).map_err(|e| e.to_string())?;
                if let Some(mut w) = self.1.take() {
                    w.write_all(b"x").map_err(|e| e.to_string())?;
                }
                Ok(Async::NotReady)
            }
            Err(e) => Err(e.to_string()),
        }
    }
}

/// A timer, a task spawned on the runtime, or a socket.
pub fn resource(way: u32) -> Box<dyn Future<Item = (), Error = String> + Send> {
    match way {
        0 => Box::new(tokio_timer::Delay::new(Instant::now() + Duration::from_millis(1)).map_err(|e| e.to_string())),
        1 => {
            let (tx, rx) = oneshot::channel();
            let spawned = tokio_executor::DefaultExecutor::current().spawn(Box::new(hyperdrive::futures::lazy(move || tx.send(()).map_err(|_| ()))));
            match spawned {
                Ok(()) => Box::new(rx.map_err(|e| e.to_string())),
                Err(e) => Box::new(hyperdrive::futures::future::err(e.to_string())),
            }
        }
        _ => {
            let (a, b) = UnixStream::pair().expect("socket pair");
            a.set_nonblocking(true).unwrap();
            Box::new(Readable(PollEvented::new(Socket(a)), Some(b)))
        }
    }
}
