//! The system under test: the real `initialize` + `main_loop`, run on a thread of its own behind
//! rendezvous channels. The server is always either computing, blocked handing over an output, or
//! blocked waiting for input, and the simulator decides which of those it leaves next.

use std::sync::Mutex;
use std::thread::JoinHandle;
use std::time::Duration;

use crossbeam_channel::{Receiver, Select, Sender, TryRecvError};
use lsp_server::Message;

use crate::seam;

/// How the server thread ended.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Exit {
    /// `main_loop` returned `Ok`.
    Clean,
    /// `initialize` or `main_loop` returned `Err`.
    Error(String),
    /// The server panicked (message and location).
    Panic(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    /// The server thread ended.
    Exited(Exit),
    /// No progress within the (very generous) wall clock bound.
    Hang,
}

static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if seam::is_harness_thread() {
            default(info);
        } else {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                (*s).to_owned()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_owned()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(format!("{msg} @ {loc}"));
        }
    }));
}

pub struct Session {
    tx: Option<Sender<Message>>,
    rx: Option<Receiver<Message>>,
    handle: Option<JoinHandle<Exit>>,
    burst: bool,
}

const HANG: Duration = Duration::from_secs(40);

impl Session {
    /// Starts a server process stand-in. `burst`: the client may run ahead of the server (the
    /// input pipe buffers), otherwise input is handed over message by message.
    pub fn start(burst: bool, out_capacity: usize) -> Self {
        let (tx, srv_rx) = if burst {
            crossbeam_channel::bounded(4096)
        } else {
            crossbeam_channel::bounded(0)
        };
        let (srv_tx, rx) = crossbeam_channel::bounded(out_capacity);
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
        let handle = std::thread::Builder::new()
            .name("server".to_owned())
            .stack_size(8 << 20)
            .spawn(move || {
                let conn = lsp_server::Connection {
                    sender: srv_tx,
                    receiver: srv_rx,
                };
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let (conn, params) = ink_lsp_server::initialize(conn)?;
                    ink_lsp_server::main_loop(conn, params.capabilities)
                }));
                match res {
                    Ok(Ok(())) => Exit::Clean,
                    Ok(Err(e)) => Exit::Error(e.to_string()),
                    Err(_) => Exit::Panic(
                        LAST_PANIC
                            .lock()
                            .unwrap_or_else(|e| e.into_inner())
                            .take()
                            .unwrap_or_default(),
                    ),
                }
            })
            .expect("spawn server thread");
        Session {
            tx: Some(tx),
            rx: Some(rx),
            handle: Some(handle),
            burst,
        }
    }

    fn reap(&mut self) -> Stop {
        self.tx = None;
        self.rx = None;
        match self.handle.take() {
            Some(h) => {
                // The thread has dropped its channel ends, so it is about to finish.
                match h.join() {
                    Ok(exit) => Stop::Exited(exit),
                    Err(_) => Stop::Exited(Exit::Panic("thread".to_owned())),
                }
            }
            None => Stop::Exited(Exit::Clean),
        }
    }

    /// Waits for the server's next move: an output, or being ready for input (`None`).
    pub fn next_move(&mut self, within: Option<Duration>) -> Result<Option<Message>, Stop> {
        let (Some(tx), Some(rx)) = (self.tx.clone(), self.rx.clone()) else {
            return Err(self.reap());
        };
        loop {
            match rx.try_recv() {
                Ok(m) => return Ok(Some(m)),
                Err(TryRecvError::Disconnected) => {
                    drop((tx, rx));
                    return Err(self.reap());
                }
                Err(TryRecvError::Empty) => (),
            }
            let mut sel = Select::new();
            let r = sel.recv(&rx);
            if !self.burst {
                sel.send(&tx);
            }
            match sel.ready_timeout(within.unwrap_or(HANG)) {
                Ok(i) if i == r => continue,
                Ok(_) => match rx.try_recv() {
                    Ok(m) => return Ok(Some(m)),
                    Err(TryRecvError::Disconnected) => {
                        drop((tx, rx));
                        return Err(self.reap());
                    }
                    Err(TryRecvError::Empty) => return Ok(None),
                },
                Err(_) => return Err(Stop::Hang),
            }
        }
    }

    /// Hands one message to the server (which must be ready for input, or buffering).
    pub fn feed(&mut self, msg: Message) -> Result<(), Stop> {
        let Some(tx) = self.tx.clone() else {
            return Err(self.reap());
        };
        match tx.send_timeout(msg, HANG) {
            Ok(()) => Ok(()),
            Err(crossbeam_channel::SendTimeoutError::Timeout(_)) => Err(Stop::Hang),
            Err(crossbeam_channel::SendTimeoutError::Disconnected(_)) => {
                drop(tx);
                Err(self.reap())
            }
        }
    }

    /// Closes the client's sending side (EOF on the server's input).
    pub fn close_input(&mut self) {
        self.tx = None;
    }

    /// Closes the client's receiving side (broken pipe on the server's output).
    pub fn close_output(&mut self) {
        self.rx = None;
    }

    /// Wakes the server thread spuriously, so that an expired simulated timer is noticed.
    pub fn poke(&self) {
        if let Some(h) = &self.handle {
            h.thread().unpark();
        }
    }

    /// Waits for the thread to end after its channels have been closed; outputs still in flight
    /// are collected.
    pub fn finish(&mut self, within: Duration) -> (Vec<Message>, Stop) {
        let mut out = Vec::new();
        let t0 = std::time::Instant::now();
        self.tx = None;
        if let Some(rx) = self.rx.take() {
            loop {
                match rx.recv_timeout(within) {
                    Ok(m) => out.push(m),
                    Err(crossbeam_channel::RecvTimeoutError::Disconnected) => break,
                    Err(crossbeam_channel::RecvTimeoutError::Timeout) => return (out, Stop::Hang),
                }
            }
        }
        while let Some(h) = &self.handle {
            if h.is_finished() {
                return (out, self.reap());
            }
            if t0.elapsed() > within {
                return (out, Stop::Hang);
            }
            std::thread::sleep(Duration::from_micros(50));
        }
        (out, Stop::Exited(Exit::Clean))
    }

    pub fn is_finished(&self) -> bool {
        self.handle.as_ref().map_or(true, JoinHandle::is_finished)
    }
}

impl Drop for Session {
    fn drop(&mut self) {
        // Process death: both pipes vanish, the thread unblocks with an error and ends.
        self.tx = None;
        self.rx = None;
        if let Some(h) = self.handle.take() {
            let t0 = std::time::Instant::now();
            while !h.is_finished() && t0.elapsed() < Duration::from_secs(5) {
                h.thread().unpark();
                std::thread::sleep(Duration::from_micros(20));
            }
            if h.is_finished() {
                let _ = h.join();
            }
        }
    }
}
