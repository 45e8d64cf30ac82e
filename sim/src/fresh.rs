//! Pristine oracle: every query is answered by a process forked from a zygote that has never run
//! any analysis, so no history (static caches, allocator state, earlier documents) can leak into
//! the reference answer. The reference server is the real server with the shortest history that
//! can produce the answer: initialize, open the latest text, ask.

use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::path::PathBuf;
use std::sync::Mutex;

use lsp_server::Message;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::gen::Lang;
use crate::seam;
use crate::srv::{Session, Stop};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Query {
    pub caps: Value,
    /// Scratch root to serve file system calls from.
    pub root: PathBuf,
    pub hash_seed: u64,
    /// Documents to open (uri, text, version, language version to force).
    pub open: Vec<(String, String, i32, Lang)>,
    /// Messages to send afterwards.
    pub then: Vec<Message>,
    /// Send everything at once instead of step by step.
    pub burst: bool,
    /// Skip forcing of language versions (use the manifests on disk).
    pub natural: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Answer {
    /// Outputs per message: initialize result, one entry per opened document, one per message.
    pub init: Vec<Value>,
    pub opened: Vec<Vec<Value>>,
    pub then: Vec<Vec<Value>>,
    pub died: Option<String>,
}

struct Zygote {
    to: File,
    from: File,
}

static ZYGOTE: Mutex<Option<Zygote>> = Mutex::new(None);

fn write_frame(f: &mut File, bytes: &[u8]) -> std::io::Result<()> {
    f.write_all(&(bytes.len() as u64).to_le_bytes())?;
    f.write_all(bytes)?;
    f.flush()
}

fn read_frame(f: &mut File) -> std::io::Result<Vec<u8>> {
    let mut n = [0u8; 8];
    f.read_exact(&mut n)?;
    let mut buf = vec![0; u64::from_le_bytes(n) as usize];
    f.read_exact(&mut buf)?;
    Ok(buf)
}

/// Forks the zygote. Must be called while the process is single threaded and pristine.
pub fn start_zygote() {
    unsafe {
        let mut a = [0; 2];
        let mut b = [0; 2];
        assert_eq!(libc::pipe(a.as_mut_ptr()), 0);
        assert_eq!(libc::pipe(b.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(a[1]);
            libc::close(b[0]);
            let mut from = File::from_raw_fd(a[0]);
            let mut to = File::from_raw_fd(b[1]);
            loop {
                let Ok(req) = read_frame(&mut from) else {
                    libc::_exit(0);
                };
                let child = libc::fork();
                if child == 0 {
                    let ans = match serde_json::from_slice::<Query>(&req) {
                        Ok(q) => run(&q),
                        Err(e) => Answer {
                            init: vec![],
                            opened: vec![],
                            then: vec![],
                            died: Some(format!("query: {e}")),
                        },
                    };
                    let bytes = serde_json::to_vec(&ans).unwrap_or_default();
                    let _ = write_frame(&mut to, &bytes);
                    libc::_exit(0);
                }
                let mut status = 0;
                libc::waitpid(child, &mut status, 0);
                if !libc::WIFEXITED(status) {
                    let ans = Answer {
                        init: vec![],
                        opened: vec![],
                        then: vec![],
                        died: Some(format!("oracle process died: status {status}")),
                    };
                    let bytes = serde_json::to_vec(&ans).unwrap_or_default();
                    let _ = write_frame(&mut to, &bytes);
                }
            }
        }
        libc::close(a[0]);
        libc::close(b[1]);
        *ZYGOTE.lock().unwrap() = Some(Zygote {
            to: File::from_raw_fd(a[1]),
            from: File::from_raw_fd(b[0]),
        });
    }
}

/// Asks the pristine oracle.
pub fn ask(q: &Query) -> Answer {
    let mut guard = ZYGOTE.lock().unwrap();
    let z = guard.as_mut().expect("zygote");
    let bytes = serde_json::to_vec(q).expect("query");
    write_frame(&mut z.to, &bytes).expect("zygote write");
    let ans = read_frame(&mut z.from).expect("zygote read");
    serde_json::from_slice(&ans).expect("zygote answer")
}

pub fn to_value(m: &Message) -> Value {
    serde_json::to_value(m).expect("message")
}

pub fn notification(method: &str, params: Value) -> Message {
    Message::Notification(lsp_server::Notification {
        method: method.to_owned(),
        params,
    })
}

pub fn request(id: lsp_server::RequestId, method: &str, params: Value) -> Message {
    Message::Request(lsp_server::Request {
        id,
        method: method.to_owned(),
        params,
    })
}

/// Lockstep exchange: hand over one message, collect outputs until the server waits for input.
pub fn exchange(s: &mut Session, msg: Message) -> (Vec<Message>, Option<Stop>) {
    let mut out = Vec::new();
    // The server must be ready for input first.
    loop {
        match s.next_move(None) {
            Ok(None) => break,
            Ok(Some(m)) => out.push(m),
            Err(stop) => return (out, Some(stop)),
        }
    }
    if let Err(stop) = s.feed(msg) {
        return (out, Some(stop));
    }
    loop {
        match s.next_move(None) {
            Ok(None) => return (out, None),
            Ok(Some(m)) => out.push(m),
            Err(stop) => return (out, Some(stop)),
        }
    }
}

pub fn init_messages(caps: &Value) -> (Message, Message) {
    (
        request(
            lsp_server::RequestId::from(-1),
            "initialize",
            json!({"capabilities": caps, "processId": null, "rootUri": null}),
        ),
        notification("initialized", json!({})),
    )
}

pub fn did_open(uri: &str, lang_id: &str, version: i32, text: &str) -> Message {
    notification(
        "textDocument/didOpen",
        json!({"textDocument": {"uri": uri, "languageId": lang_id, "version": version, "text": text}}),
    )
}

pub const PROBE: &str = "sim/probe";

pub fn run(q: &Query) -> Answer {
    crate::srv::install_panic_hook();
    seam::activate(&q.root, q.hash_seed);
    let mut ans = Answer {
        init: vec![],
        opened: vec![],
        then: vec![],
        died: None,
    };
    if q.burst {
        return run_burst(q, ans);
    }
    let mut s = Session::start(false, 0);
    let (init, inited) = init_messages(&q.caps);
    macro_rules! step {
        ($msg:expr, $slot:expr) => {{
            let (out, stop) = exchange(&mut s, $msg);
            let vals: Vec<Value> = out.iter().map(to_value).collect();
            $slot(&mut ans, vals);
            if let Some(stop) = stop {
                ans.died = Some(format!("{stop:?}"));
                return ans;
            }
        }};
    }
    step!(init, |a: &mut Answer, v: Vec<Value>| a.init.extend(v));
    step!(inited, |a: &mut Answer, v: Vec<Value>| a.init.extend(v));
    for (uri, text, version, lang) in &q.open {
        if !q.natural {
            seam::force_manifest(Some(*lang));
        }
        step!(did_open(uri, "rust", *version, text), |a: &mut Answer, v| a.opened.push(v));
        seam::force_manifest(None);
    }
    for m in &q.then {
        step!(m.clone(), |a: &mut Answer, v| a.then.push(v));
    }
    ans
}

/// Everything is queued before the server gets to run; only the sequence of outputs is known.
fn run_burst(q: &Query, mut ans: Answer) -> Answer {
    let mut s = Session::start(true, 0);
    let (init, inited) = init_messages(&q.caps);
    let mut msgs = vec![init, inited];
    for (uri, text, version, _) in &q.open {
        msgs.push(did_open(uri, "rust", *version, text));
    }
    msgs.extend(q.then.iter().cloned());
    msgs.push(request(
        lsp_server::RequestId::from("sim-probe".to_owned()),
        PROBE,
        Value::Null,
    ));
    for m in msgs {
        if let Err(stop) = s.feed(m) {
            ans.died = Some(format!("{stop:?}"));
            return ans;
        }
    }
    let mut out = vec![];
    loop {
        match s.next_move(None) {
            Ok(Some(m)) => {
                let v = to_value(&m);
                if v.get("id") == Some(&json!("sim-probe")) {
                    break;
                }
                out.push(v);
            }
            Ok(None) => (),
            Err(stop) => {
                ans.died = Some(format!("{stop:?}"));
                break;
            }
        }
    }
    ans.then.push(out);
    ans
}
