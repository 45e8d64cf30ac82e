//! P13: a session ends when it should, and only then.
//!
//! A general history runs first; then the session is ended in one of several ways, chosen by the
//! trace's seed: in order, by the 30 s timer running out (on the simulated clock), by the pipes
//! breaking, with requests still queued, before the handshake, or as a whole process (the real
//! binary's `main`, its reader and writer threads included) fed through a pipe in odd pieces.

use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use lsp_server::{Message, RequestId};
use serde_json::{json, Value};

use crate::canon::canon;
use crate::fresh::{did_open, exchange, init_messages, notification, request, to_value};
use crate::props::{show, stop_name, Cov, Monitor, Viol};
use crate::rng::{derive, Rng};
use crate::seam;
use crate::srv::{Exit, Session, Stop};
use crate::world::{Step, World};

const WITHIN: Duration = Duration::from_secs(20);

pub struct P13;

fn viol<T>(key: &str, detail: impl Into<String>) -> Result<T, Viol> {
    Err(Viol {
        key: key.to_owned(),
        detail: detail.into(),
    })
}

fn exit_note() -> Message {
    notification("exit", Value::Null)
}

fn id_of(m: &Message) -> Option<&RequestId> {
    match m {
        Message::Response(r) => Some(&r.id),
        _ => None,
    }
}

/// Hands over shutdown and judges its answer.
fn shutdown(s: &mut Session, id: &RequestId) -> Result<(), Viol> {
    let (out, stop) = exchange(s, request(id.clone(), "shutdown", Value::Null));
    if let Some(stop) = stop {
        return viol("server ends at the shutdown request", stop_name(&stop));
    }
    judge_shutdown_answer(&out, id)
}

fn judge_shutdown_answer(out: &[Message], id: &RequestId) -> Result<(), Viol> {
    let vals: Vec<Value> = out.iter().map(to_value).collect();
    match out {
        [Message::Response(r)] if r.id == *id && r.error.is_none() && r.result.as_ref().map_or(true, Value::is_null) => Ok(()),
        _ => viol("shutdown is not acknowledged exactly once", format!("{vals:?}")),
    }
}

/// Waits until the server has ended, without closing its input.
fn ended(s: &mut Session, poke: bool) -> (Vec<Message>, Option<Stop>) {
    let t0 = Instant::now();
    let mut out = vec![];
    while t0.elapsed() < WITHIN {
        if poke {
            s.poke();
        }
        match s.next_move(Some(Duration::from_millis(50))) {
            Ok(Some(m)) => out.push(m),
            Ok(None) => std::thread::sleep(Duration::from_micros(200)),
            Err(Stop::Hang) => (),
            Err(stop) => return (out, Some(stop)),
        }
    }
    (out, None)
}

fn must_end(what: &str, got: (Vec<Message>, Option<Stop>), clean: bool) -> Result<(), Viol> {
    let (out, stop) = got;
    if let Some(m) = out.first() {
        return viol(&format!("{what}: server keeps talking"), show(m));
    }
    match stop {
        None | Some(Stop::Hang) => viol(&format!("{what}: server does not end"), format!("still running after {WITHIN:?} of real time")),
        Some(Stop::Exited(Exit::Panic(p))) => viol(&format!("{what}: server panics"), p),
        Some(Stop::Exited(Exit::Error(e))) if clean => viol(&format!("{what}: server reports failure"), e),
        Some(Stop::Exited(_)) => Ok(()),
    }
}

/// A few requests about whatever is open, each with an id of its own.
fn requests(w: &World, r: &mut Rng, n: usize) -> Vec<(RequestId, Message)> {
    let uris: Vec<&String> = w.docs.keys().collect();
    (0..n)
        .map(|i| {
            let id = if r.chance(1, 2) {
                RequestId::from(1000 + i as i32)
            } else {
                RequestId::from(format!("end-{i}"))
            };
            let uri = if uris.is_empty() { "file:///w/none/x.rs".to_owned() } else { (*r.pick(&uris)).clone() };
            let at = json!({"line": r.below(12), "character": r.below(8)});
            let td = json!({"uri": uri});
            let m = match r.below(5) {
                0 => request(id.clone(), "textDocument/hover", json!({"textDocument": td, "position": at})),
                1 => request(id.clone(), "textDocument/completion", json!({"textDocument": td, "position": at})),
                2 => request(id.clone(), "textDocument/inlayHint", json!({"textDocument": td, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 40, "character": 0}}})),
                3 => request(id.clone(), "textDocument/codeAction", json!({"textDocument": td, "range": {"start": at, "end": at}, "context": {"diagnostics": []}})),
                _ => request(id.clone(), "sim/unknown", json!({"n": i})),
            };
            (id, m)
        })
        .collect()
}

fn responses(out: &[Message]) -> Vec<&RequestId> {
    out.iter().filter_map(id_of).collect()
}

/// All requests answered once, in order, and the shutdown after them.
fn judge_sequence(out: &[Message], reqs: &[(RequestId, Message)], sid: &RequestId, init: Option<&RequestId>) -> Result<(), Viol> {
    let mut want: Vec<&RequestId> = init.into_iter().collect();
    want.extend(reqs.iter().map(|q| &q.0));
    want.push(sid);
    let got = responses(out);
    if got != want {
        return viol("requests queued before shutdown are not answered exactly once and in order", format!("asked {want:?}, answered {got:?}"));
    }
    if out.last().and_then(id_of) != Some(sid) {
        return viol("the server talks after the shutdown answer", out.last().map(show).unwrap_or_default());
    }
    judge_shutdown_answer(&out[out.len() - 1..], sid)
}

impl P13 {
    fn end(&self, w: &mut World, cov: &mut Cov) -> Result<(), Viol> {
        let mut r = Rng::new(derive(w.cfg.hash_seed, 0x13));
        let variant = r.below(12);
        let docs = w.docs.len();
        *w.fault_counts.entry(format!("ending {variant}: {}", NAMES[variant])).or_default() += 1;
        w.note(format!("end {}", NAMES[variant]));
        let sid = RequestId::from("bye".to_owned());
        let mut s = match variant {
            7 | 8 => Session::start(variant == 7, 0),
            _ => w.server.take().expect("server"),
        };
        match variant {
            0 | 1 => {
                shutdown(&mut s, &sid)?;
                if variant == 1 {
                    // Not yet 30 s.
                    seam::advance_clock(29_000_000_000);
                    w.sim_ns += 29_000_000_000;
                    for _ in 0..20 {
                        s.poke();
                        match s.next_move(Some(Duration::from_millis(5))) {
                            Ok(None) | Err(Stop::Hang) => (),
                            Ok(Some(m)) => return viol("the server talks after the shutdown answer", show(&m)),
                            Err(e) => return viol("server ends before exit", stop_name(&e)),
                        }
                    }
                }
                if let Err(e) = s.feed(exit_note()) {
                    return viol("server ends before exit", stop_name(&e));
                }
                must_end("shutdown and exit", ended(&mut s, false), true)?;
            }
            2 => {
                shutdown(&mut s, &sid)?;
                if let Err(e) = s.next_move(None) {
                    return viol("server ends before exit", stop_name(&e));
                }
                seam::advance_clock(31_000_000_000);
                w.sim_ns += 31_000_000_000;
                must_end("shutdown and no exit for 31 s", ended(&mut s, true), false)?;
            }
            3 => {
                shutdown(&mut s, &sid)?;
                let (_, m) = requests(w, &mut r, 1).remove(0);
                if let Err(e) = s.feed(m.clone()) {
                    return viol("server ends before exit", stop_name(&e));
                }
                // It may refuse the request or end, but must not serve it.
                let (out, stop) = ended_or_quiet(&mut s);
                for o in &out {
                    if let Message::Response(x) = o {
                        if x.error.is_none() {
                            return viol("a request after shutdown is served", format!("{} -> {}", show(&m), show(o)));
                        }
                    }
                }
                if stop.is_none() {
                    let _ = s.feed(exit_note());
                    must_end("exit after a late request", ended(&mut s, false), false)?;
                } else {
                    must_end("a request after shutdown", (vec![], stop), false)?;
                }
            }
            4 => {
                if let Err(e) = s.next_move(None) {
                    return viol("server ends before exit", stop_name(&e));
                }
                if let Err(e) = s.feed(exit_note()) {
                    return viol("server ends before exit", stop_name(&e));
                }
                must_end("exit without shutdown", ended(&mut s, false), false)?;
            }
            5 => {
                s.close_input();
                let got = s.finish(WITHIN);
                must_end("end of input", (got.0, Some(got.1)), false)?;
            }
            6 => {
                if let Err(e) = s.next_move(None) {
                    return viol("server ends before exit", stop_name(&e));
                }
                let (_, m) = requests(w, &mut r, 1).remove(0);
                let _ = s.feed(m);
                s.close_output();
                let got = s.finish(WITHIN);
                must_end("broken output and end of input", (got.0, Some(got.1)), false)?;
            }
            7 => {
                // Everything is queued before the server gets to run.
                let (init, inited) = init_messages(&w.cfg.caps.json());
                let mut msgs = vec![init, inited];
                msgs.extend(w.docs.iter().map(|(u, d)| did_open(u, "rust", d.version, &d.text)));
                let n = r.range(1, 8);
                let reqs = requests(w, &mut r, n);
                msgs.extend(reqs.iter().map(|q| q.1.clone()));
                msgs.push(request(sid.clone(), "shutdown", Value::Null));
                msgs.push(exit_note());
                for m in msgs {
                    if let Err(e) = s.feed(m) {
                        return viol("server ends with messages queued", stop_name(&e));
                    }
                }
                let (out, stop) = ended(&mut s, false);
                judge_sequence(&out, &reqs, &sid, Some(&RequestId::from(-1)))?;
                must_end("queued shutdown and exit", (vec![], stop), true)?;
            }
            8 => {
                // Requests before the handshake are refused, and the handshake still works.
                let n = r.range(1, 3);
                for (id, m) in requests(w, &mut r, n) {
                    let (out, stop) = exchange(&mut s, m.clone());
                    if let Some(stop) = stop {
                        return viol("server ends before the handshake", stop_name(&stop));
                    }
                    match &out[..] {
                        [Message::Response(x)] if x.id == id && x.error.as_ref().is_some_and(|e| e.code == -32002) => (),
                        _ => return viol("a request before the handshake is not refused", format!("{} -> {:?}", show(&m), out.iter().map(show).collect::<Vec<_>>())),
                    }
                }
                let (init, inited) = init_messages(&w.cfg.caps.json());
                let (out, stop) = exchange(&mut s, init);
                if stop.is_some() || out.len() != 1 || to_value(&out[0])["result"]["capabilities"].is_null() {
                    return viol("handshake fails after early requests", format!("{:?} {stop:?}", out.iter().map(show).collect::<Vec<_>>()));
                }
                let (out, stop) = exchange(&mut s, inited);
                if stop.is_some() || !out.is_empty() {
                    return viol("handshake fails after early requests", format!("{:?} {stop:?}", out.iter().map(show).collect::<Vec<_>>()));
                }
                shutdown(&mut s, &sid)?;
                let _ = s.feed(exit_note());
                must_end("shutdown and exit", ended(&mut s, false), true)?;
            }
            _ => {
                drop(s);
                self.process(w, &mut r, variant, &sid)?;
            }
        }
        cov.judged(true, &format!("{} after {} messages, {docs} documents open, seed {:x}", NAMES[variant], w.steps.len(), w.cfg.hash_seed));
        Ok(())
    }

    /// The real binary, whole: `main`, its reader and writer threads, and a pipe that delivers
    /// input in pieces of odd sizes.
    fn process(&self, w: &mut World, r: &mut Rng, variant: usize, sid: &RequestId) -> Result<(), Viol> {
        let exe = std::env::current_exe().map_err(|e| e.to_string()).and_then(|p| p.parent().map(|d| d.join("ink-lsp-real")).ok_or_else(String::new));
        let Some(exe) = exe.ok().filter(|p| p.is_file()) else {
            return viol("harness: the real binary is missing", "ink-lsp-real");
        };
        let (init, inited) = init_messages(&w.cfg.caps.json());
        let mut msgs = vec![init, inited];
        msgs.extend(w.docs.iter().map(|(u, d)| did_open(u, "rust", d.version, &d.text)));
        let n = r.range(0, 6);
        let reqs = requests(w, r, n);
        msgs.extend(reqs.iter().map(|q| q.1.clone()));
        if variant != 10 {
            msgs.push(request(sid.clone(), "shutdown", Value::Null));
            msgs.push(exit_note());
        }
        let mut bytes = vec![];
        for m in msgs {
            m.write(&mut bytes).expect("frame");
        }
        if variant == 10 {
            // The editor dies while it writes a message.
            let mut torn = vec![];
            let q = requests(w, r, 1).remove(0).1;
            q.write(&mut torn).expect("frame");
            let keep = r.range(0, torn.len() - 1);
            bytes.extend_from_slice(&torn[..keep]);
        }
        let mut cmd = Command::new(exe);
        if r.chance(1, 2) {
            // Editors pass arguments the server does not know.
            cmd.arg("--stdio");
        }
        let mut child = cmd
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn");
        let mut stdin = child.stdin.take().expect("stdin");
        let mut stdout = child.stdout.take().expect("stdout");
        let whole = r.chance(1, 3);
        let mut sizes = Rng::new(r.next());
        let writer = std::thread::spawn(move || {
            seam::exempt_current_thread();
            let mut rest = &bytes[..];
            while !rest.is_empty() {
                let n = if whole { rest.len() } else { sizes.range(1, 900).min(rest.len()) };
                if stdin.write_all(&rest[..n]).is_err() || stdin.flush().is_err() {
                    break;
                }
                rest = &rest[n..];
            }
            // With `variant` 11 the pipe stays open: only `exit` ends the server.
            if variant == 11 {
                return Some(stdin);
            }
            None
        });
        let reader = std::thread::spawn(move || {
            seam::exempt_current_thread();
            let mut buf = vec![];
            let _ = stdout.read_to_end(&mut buf);
            buf
        });
        let t0 = Instant::now();
        let mut status = None;
        while t0.elapsed() < WITHIN {
            match child.try_wait() {
                Ok(Some(st)) => {
                    status = Some(st);
                    break;
                }
                _ => std::thread::sleep(Duration::from_micros(500)),
            }
        }
        let what = NAMES[variant];
        let Some(status) = status else {
            // `exit` while the pipe stays open is judged below: the reader thread may only
            // notice once the pipe is closed.
            let _ = child.kill();
            let _ = child.wait();
            let _ = writer.join();
            let _ = reader.join();
            return viol(&format!("{what}: process does not end"), format!("still running after {WITHIN:?}"));
        };
        let _ = writer.join();
        let buf = reader.join().unwrap_or_default();
        let mut cur = &buf[..];
        let mut out = vec![];
        loop {
            match Message::read(&mut cur) {
                Ok(Some(m)) => out.push(m),
                Ok(None) => break,
                Err(e) => return viol(&format!("{what}: output is not well framed"), e.to_string()),
            }
        }
        for m in &out {
            w.note(format!("<- {}", canon(&to_value(m))));
        }
        use std::os::unix::process::ExitStatusExt;
        if let Some(sig) = status.signal() {
            return viol(&format!("{what}: process killed"), format!("signal {sig}"));
        }
        if status.code() == Some(101) {
            return viol(&format!("{what}: process panics"), "exit status 101");
        }
        if variant != 10 {
            judge_sequence(&out, &reqs, sid, Some(&RequestId::from(-1)))?;
            if !status.success() {
                return viol(&format!("{what}: process reports failure"), format!("{status}"));
            }
        } else {
            let mut want: Vec<&RequestId> = vec![];
            let first = RequestId::from(-1);
            want.push(&first);
            want.extend(reqs.iter().map(|q| &q.0));
            if responses(&out) != want {
                return viol("requests read before the input ended are not answered", format!("asked {want:?}, answered {:?}", responses(&out)));
            }
        }
        Ok(())
    }
}

/// Outputs until the server ends or waits for input again.
fn ended_or_quiet(s: &mut Session) -> (Vec<Message>, Option<Stop>) {
    let mut out = vec![];
    loop {
        match s.next_move(None) {
            Ok(Some(m)) => out.push(m),
            Ok(None) => return (out, None),
            Err(stop) => return (out, Some(stop)),
        }
    }
}

const NAMES: [&str; 12] = [
    "shutdown, exit",
    "shutdown, 29 s, exit",
    "shutdown, 31 s, no exit",
    "shutdown, late request",
    "exit without shutdown",
    "input closed",
    "output broken, input closed",
    "all queued, shutdown, exit",
    "early requests, handshake, shutdown, exit",
    "process: shutdown, exit, input closed",
    "process: input torn",
    "process: shutdown, exit, input left open",
];

impl Monitor for P13 {
    fn after(&mut self, _w: &mut World, _from: usize, _cov: &mut Cov) -> Result<(), Viol> {
        Ok(())
    }
    fn finish(&mut self, w: &mut World, cov: &mut Cov) -> Result<(), Viol> {
        self.end(w, cov)
    }
    fn judges(&self, _s: &Step) -> bool {
        false
    }
}
