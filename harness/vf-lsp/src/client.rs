//! A client that talks to the real server process over its standard streams, answers what the
//! server asks for, records the conversation and watches it online for protocol faults.
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::sync::mpsc::{Receiver, RecvTimeoutError, channel};
use std::time::{Duration, Instant};

/// Answers come within milliseconds; this is only for servers that never answer.
pub const PATIENCE: Duration = Duration::from_secs(90);

/// Servers that got stuck: one that does so in every conversation is not waited for every time.
static HANGS: AtomicU32 = AtomicU32::new(0);

fn patience() -> Duration {
    if HANGS.load(Ordering::Relaxed) < 3 { PATIENCE } else { Duration::from_secs(2) }
}

/// A scratch directory, removed when dropped.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!(
            "vf-lsp-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        ));
        std::fs::create_dir_all(&p).unwrap();
        // the server follows links when it walks packages
        Scratch(p.canonicalize().unwrap())
    }
    pub fn path(&self, rel: &str) -> PathBuf {
        self.0.join(rel)
    }
    pub fn write(&self, rel: &str, text: &str) {
        let p = self.path(rel);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, text).unwrap();
    }
    pub fn read(&self, rel: &str) -> String {
        std::fs::read_to_string(self.path(rel)).unwrap()
    }
    pub fn remove(&self, rel: &str) {
        let p = self.path(rel);
        if p.starts_with(&self.0) && rel != "" {
            let _ = if p.is_dir() { std::fs::remove_dir_all(&p) } else { std::fs::remove_file(&p) };
        }
    }
    pub fn uri(&self, rel: &str) -> String {
        uri_of(&self.path(rel))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if self.0.file_name().is_some_and(|n| n.to_string_lossy().starts_with("vf-lsp-")) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}

pub fn uri_of(p: &Path) -> String {
    let mut s = String::from("file://");
    for b in p.to_str().unwrap().bytes() {
        match b {
            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'/' | b'-' | b'_' | b'.' | b'~' => s.push(b as char),
            _ => s.push_str(&format!("%{b:02X}")),
        }
    }
    s
}

#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Ok(Value),
    Err(i64, String),
}
impl Answer {
    pub fn ok(self) -> Option<Value> {
        match self {
            Answer::Ok(v) => Some(v),
            Answer::Err(..) => None,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Answer::Ok(v) => v.to_string(),
            Answer::Err(c, m) => format!("error {c}: {m}"),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Encoding {
    Utf8,
    Utf16,
    Utf32,
}
impl Encoding {
    pub fn name(self) -> &'static str {
        match self {
            Encoding::Utf8 => "utf-8",
            Encoding::Utf16 => "utf-16",
            Encoding::Utf32 => "utf-32",
        }
    }
    pub fn width(self, c: char) -> usize {
        match self {
            Encoding::Utf8 => c.len_utf8(),
            Encoding::Utf16 => c.len_utf16(),
            Encoding::Utf32 => 1,
        }
    }
}
pub const ENCODINGS: [Encoding; 3] = [Encoding::Utf8, Encoding::Utf16, Encoding::Utf32];

/// What the client says of itself.
#[derive(Clone, Debug)]
pub struct Options {
    pub encodings: Vec<&'static str>,
    pub caps: Value,
    pub init: Option<Value>,
    /// Folders of the workspace, as URIs; the first is also the root.
    pub folders: Vec<String>,
    pub status: bool,
    pub env: Vec<(String, String)>,
}

/// Lay `over` on top of `base`, table by table.
pub fn merge(base: &mut Value, over: &Value) {
    match (base, over) {
        (Value::Object(b), Value::Object(o)) => {
            for (k, v) in o {
                merge(b.entry(k.clone()).or_insert(Value::Null), v);
            }
        }
        (b, o) => *b = o.clone(),
    }
}

impl Options {
    pub fn new(folder: &str) -> Options {
        Options {
            encodings: vec!["utf-16"],
            caps: json!({
                "textDocument": {
                    "codeAction": {
                        "codeActionLiteralSupport": {"codeActionKind": {"valueSet": ["", "quickfix", "refactor", "refactor.extract", "refactor.inline", "refactor.rewrite", "source", "source.organizeImports"]}},
                        "dataSupport": true,
                        "resolveSupport": {"properties": ["edit"]},
                    },
                    "completion": {"completionItem": {
                        "snippetSupport": true, "labelDetailsSupport": true,
                        "resolveSupport": {"properties": ["documentation", "detail", "additionalTextEdits"]},
                    }},
                    "documentSymbol": {"hierarchicalDocumentSymbolSupport": true},
                    "definition": {"linkSupport": true},
                    "rename": {"prepareSupport": true},
                    "hover": {"contentFormat": ["markdown", "plaintext"]},
                    "signatureHelp": {"signatureInformation": {"parameterInformation": {"labelOffsetSupport": true}, "documentationFormat": ["markdown"]}},
                    "inlayHint": {"resolveSupport": {"properties": ["tooltip", "textEdits", "label.tooltip", "label.location", "label.command"]}},
                    "semanticTokens": {"requests": {"range": true, "full": {"delta": true}}, "tokenTypes": [], "tokenModifiers": [], "formats": ["relative"], "overlappingTokenSupport": true, "multilineTokenSupport": true, "augmentsSyntaxTokens": true},
                    "diagnostic": {"dynamicRegistration": false},
                },
                "workspace": {
                    "workspaceEdit": {"documentChanges": true},
                    "configuration": true,
                    "workspaceFolders": true,
                    "symbol": {},
                    "didChangeWatchedFiles": {"dynamicRegistration": true, "relativePatternSupport": true},
                },
                "window": {"workDoneProgress": true},
                "general": {},
                "experimental": {
                    "commands": {"commands": ["move-on-aptos.runTest", "move-on-aptos.debugTest", "move-on-aptos.debugTransaction", "move-on-aptos.showReferences", "move-on-aptos.gotoLocation"]},
                },
            }),
            init: None,
            folders: vec![folder.to_string()],
            status: true,
            env: vec![],
        }
    }
    pub fn encoding(mut self, e: Encoding) -> Options {
        self.encodings = vec![e.name()];
        self
    }
    pub fn with(mut self, over: Value) -> Options {
        merge(&mut self.caps, &over);
        self
    }
    pub fn settings(mut self, v: Value) -> Options {
        self.init = Some(v);
        self
    }
    fn capabilities(&self) -> Value {
        let mut c = self.caps.clone();
        if !self.encodings.is_empty() {
            merge(&mut c, &json!({"general": {"positionEncodings": self.encodings}}));
        }
        if self.status {
            merge(&mut c, &json!({"experimental": {"serverStatusNotification": true}}));
        }
        c
    }
}

pub struct Client {
    child: Child,
    stdin: Option<ChildStdin>,
    inbox: Receiver<Value>,
    next_id: i64,
    /// requests without an answer yet
    pending: BTreeMap<String, String>,
    answered: HashMap<String, Answer>,
    server_ids: BTreeSet<String>,
    progress: BTreeMap<String, u32>,
    tokens: BTreeSet<String>,
    /// notifications of the server, in order
    pub notes: Vec<(String, Value)>,
    /// requests of the server, in order
    pub asked: Vec<(String, Value)>,
    /// what it did against the protocol
    pub faults: Vec<String>,
    pub settings: Value,
    pub capabilities: Value,
    pub encoding: Encoding,
    pub messages: u64,
    pub status: Option<Value>,
    pub closed: bool,
    hung: bool,
    /// answer what the server asks with an error
    pub refuse: bool,
    versions: HashMap<String, i64>,
    stderr: std::sync::Arc<std::sync::Mutex<String>>,
}

pub fn server_path() -> String {
    std::env::var("VF_SERVER").expect("VF_SERVER is not set: run this through /verif/check")
}

pub fn server_command() -> Command {
    let mut c = Command::new(server_path());
    for (k, _) in std::env::vars() {
        if k.starts_with("VF_") || k.starts_with("RUST_") || k.starts_with("APT_") {
            c.env_remove(k);
        }
    }
    c
}

fn read_message(r: &mut impl BufRead) -> Option<Result<Value, String>> {
    let mut len = None;
    loop {
        let mut line = String::new();
        match r.read_line(&mut line) {
            Ok(0) | Err(_) => return None,
            Ok(_) => {}
        }
        if line == "\r\n" {
            break;
        }
        match line.split_once(": ") {
            Some((k, v)) if k.eq_ignore_ascii_case("content-length") => len = v.trim().parse::<usize>().ok(),
            Some(_) => {}
            None => return Some(Err(format!("bad header line {line:?}"))),
        }
    }
    let Some(len) = len else { return Some(Err("no Content-Length".to_string())) };
    let mut buf = vec![0; len];
    if r.read_exact(&mut buf).is_err() {
        return None;
    }
    Some(serde_json::from_slice(&buf).map_err(|e| format!("not JSON: {e}")))
}

impl Client {
    /// Start the server without saying anything to it.
    pub fn spawn(env: &[(String, String)]) -> Client {
        let mut cmd = server_command();
        for (k, v) in env {
            cmd.env(k, v);
        }
        let mut child = cmd
            .arg("lsp-server")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("the server does not start");
        let stdout = child.stdout.take().unwrap();
        let mut err = child.stderr.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let mut r = BufReader::new(stdout);
            while let Some(m) = read_message(&mut r) {
                let m = m.unwrap_or_else(|e| json!({"vf-bad": e}));
                if tx.send(m).is_err() {
                    break;
                }
            }
        });
        let log = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
        let log2 = log.clone();
        std::thread::spawn(move || {
            let mut buf = [0u8; 4096];
            while let Ok(n) = err.read(&mut buf) {
                if n == 0 {
                    break;
                }
                let mut l = log2.lock().unwrap();
                if l.len() < 200_000 {
                    l.push_str(&String::from_utf8_lossy(&buf[..n]));
                }
            }
        });
        Client {
            stdin: child.stdin.take(),
            child,
            inbox: rx,
            next_id: 1,
            pending: BTreeMap::new(),
            answered: HashMap::new(),
            server_ids: BTreeSet::new(),
            progress: BTreeMap::new(),
            tokens: BTreeSet::new(),
            notes: vec![],
            asked: vec![],
            faults: vec![],
            settings: json!({}),
            capabilities: Value::Null,
            encoding: Encoding::Utf16,
            messages: 0,
            status: None,
            closed: false,
            hung: false,
            refuse: false,
            versions: HashMap::new(),
            stderr: log,
        }
    }

    pub fn start(o: &Options) -> Client {
        let mut c = Client::spawn(&o.env);
        c.settings = o.init.clone().unwrap_or(json!({}));
        let folders: Vec<Value> =
            o.folders.iter().enumerate().map(|(i, f)| json!({"uri": f, "name": format!("f{i}")})).collect();
        let mut p = json!({
            "processId": null,
            "rootUri": o.folders.first(),
            "capabilities": o.capabilities(),
            "workspaceFolders": folders,
        });
        if let Some(i) = &o.init {
            p["initializationOptions"] = i.clone();
        }
        let a = c.call("initialize", p);
        match a {
            Answer::Ok(v) => {
                c.capabilities = v["capabilities"].clone();
                c.encoding = match c.capabilities["positionEncoding"].as_str() {
                    Some("utf-8") => Encoding::Utf8,
                    Some("utf-32") => Encoding::Utf32,
                    _ => Encoding::Utf16,
                };
            }
            Answer::Err(code, m) => c.faults.push(format!("initialize failed with {code}: {m}")),
        }
        c.notify("initialized", json!({}));
        c
    }

    /// Start it and wait until its packages are loaded.
    pub fn ready(o: &Options) -> Client {
        let mut c = Client::start(o);
        c.settle();
        c
    }

    pub fn send_raw(&mut self, bytes: &[u8]) {
        if let Some(s) = &mut self.stdin {
            let _ = s.write_all(bytes);
            let _ = s.flush();
        }
    }
    pub fn send(&mut self, m: &Value) {
        let s = m.to_string();
        let framed = format!("Content-Length: {}\r\n\r\n{}", s.len(), s);
        self.send_raw(framed.as_bytes());
    }
    pub fn notify(&mut self, method: &str, params: Value) {
        self.send(&json!({"jsonrpc": "2.0", "method": method, "params": params}));
    }
    /// Send a request under an id of one's own.
    pub fn request_as(&mut self, id: Value, method: &str, params: Value) -> String {
        let key = id.to_string();
        self.pending.insert(key.clone(), method.to_string());
        self.answered.remove(&key);
        let mut m = json!({"jsonrpc": "2.0", "id": id, "method": method});
        if !params.is_null() {
            m["params"] = params;
        }
        self.send(&m);
        key
    }
    pub fn request(&mut self, method: &str, params: Value) -> String {
        let id = self.next_id;
        self.next_id += 1;
        self.request_as(json!(id), method, params)
    }

    fn handle(&mut self, m: Value) {
        self.messages += 1;
        if let Some(e) = m.get("vf-bad") {
            self.faults.push(format!("malformed message: {e}"));
            return;
        }
        let id = m.get("id").cloned();
        let method = m.get("method").and_then(|x| x.as_str()).map(|s| s.to_string());
        match (id, method) {
            (Some(id), Some(method)) => {
                let params = m.get("params").cloned().unwrap_or(Value::Null);
                if !self.server_ids.insert(id.to_string()) {
                    self.faults.push(format!("the server used the request id {id} twice"));
                }
                let result = match method.as_str() {
                    "workspace/configuration" => {
                        let n = params["items"].as_array().map(|a| a.len()).unwrap_or(0);
                        Value::Array(vec![self.settings.clone(); n])
                    }
                    "window/workDoneProgress/create" => {
                        let t = params["token"].to_string();
                        if self.progress.get(&t).is_some_and(|s| *s != 2) {
                            self.faults.push(format!("progress token {t} created while in use"));
                        }
                        self.progress.insert(t.clone(), 0);
                        self.tokens.insert(t);
                        Value::Null
                    }
                    _ => Value::Null,
                };
                if self.refuse {
                    self.send(&json!({"jsonrpc": "2.0", "id": id, "error": {"code": -32601, "message": "no"}}));
                } else {
                    self.send(&json!({"jsonrpc": "2.0", "id": id, "result": result}));
                }
                self.asked.push((method, params));
            }
            (Some(id), None) => {
                let key = id.to_string();
                let has_result = m.get("result").is_some();
                let err = m.get("error");
                match self.pending.remove(&key) {
                    None if self.answered.contains_key(&key) => {
                        self.faults.push(format!("a second response to request {key}: {}", cut(&m.to_string())))
                    }
                    None => self.faults.push(format!("a response nobody asked for: {}", cut(&m.to_string()))),
                    Some(method) => {
                        if has_result == err.is_some() {
                            self.faults.push(format!(
                                "the response to {method} has {} result and error",
                                if has_result { "both" } else { "neither" }
                            ));
                        }
                    }
                }
                let a = match err {
                    Some(e) => Answer::Err(
                        e["code"].as_i64().unwrap_or(0),
                        e["message"].as_str().unwrap_or("").to_string(),
                    ),
                    None => Answer::Ok(m.get("result").cloned().unwrap_or(Value::Null)),
                };
                self.answered.insert(key, a);
            }
            (None, Some(method)) => {
                let params = m.get("params").cloned().unwrap_or(Value::Null);
                if method == "$/progress" {
                    let t = params["token"].to_string();
                    let kind = params["value"]["kind"].as_str().unwrap_or("").to_string();
                    let state = self.progress.get(&t).copied();
                    let next = match (state, kind.as_str()) {
                        (Some(0), "begin") => Some(1),
                        (Some(1), "report") => Some(1),
                        (Some(1), "end") => Some(2),
                        _ => None,
                    };
                    match next {
                        Some(n) => {
                            self.progress.insert(t, n);
                        }
                        None => self.faults.push(format!("progress {kind} of token {t} in state {state:?}")),
                    }
                }
                if method == "experimental/serverStatus" {
                    self.status = Some(params.clone());
                }
                self.notes.push((method, params));
            }
            (None, None) => self.faults.push(format!("neither request nor response: {}", cut(&m.to_string()))),
        }
    }

    /// Take in one message; false when none came within `d`.
    pub fn pump(&mut self, d: Duration) -> bool {
        if self.closed {
            return false;
        }
        match self.inbox.recv_timeout(d) {
            Ok(m) => {
                self.handle(m);
                true
            }
            Err(RecvTimeoutError::Timeout) => false,
            Err(RecvTimeoutError::Disconnected) => {
                self.closed = true;
                false
            }
        }
    }
    pub fn drain(&mut self) {
        while self.pump(Duration::from_millis(0)) {}
    }

    pub fn wait(&mut self, key: &str) -> Answer {
        let t0 = Instant::now();
        loop {
            if let Some(a) = self.answered.get(key) {
                return a.clone();
            }
            if self.hung {
                return Answer::Err(0, "the server hung".to_string());
            }
            if self.closed {
                let e = self.stderr_tail();
                let what = self.pending.get(key).cloned().unwrap_or_default();
                self.faults.push(format!("the server ended with {what} unanswered: {e}"));
                return Answer::Err(0, "the server ended".to_string());
            }
            if t0.elapsed() > patience() {
                let what = self.pending.get(key).cloned().unwrap_or_default();
                self.give_up(format!("no response to {what}"));
                return Answer::Err(0, "no response".to_string());
            }
            self.pump(Duration::from_millis(200));
        }
    }
    pub fn call(&mut self, method: &str, params: Value) -> Answer {
        let k = self.request(method, params);
        self.wait(&k)
    }
    /// Ask again while the server says the content changed under the request.
    pub fn ask(&mut self, method: &str, params: Value) -> Answer {
        for _ in 0..200 {
            match self.call(method, params.clone()) {
                Answer::Err(-32801, _) | Answer::Err(-32802, _) => std::thread::sleep(Duration::from_millis(5)),
                a => return a,
            }
        }
        self.faults.push(format!("{method} is forever answered with content modified"));
        Answer::Err(-32801, "content modified".to_string())
    }

    /// The last thing the server said of itself is that nothing is going on.
    pub fn quiescent(&self) -> bool {
        self.status.as_ref().is_some_and(|s| s["quiescent"] == json!(true))
    }
    /// Everything sent is taken in and all packages are loaded.
    pub fn settle(&mut self) {
        let t0 = Instant::now();
        let mut calm = 0;
        while calm < 2 {
            if self.hung {
                return;
            }
            if self.closed || t0.elapsed() > patience() {
                let e = format!("the server does not settle: {:?}; {}", self.status, self.stderr_tail());
                self.give_up(e);
                return;
            }
            self.barrier();
            if self.quiescent() {
                calm += 1;
            } else {
                calm = 0;
                self.pump(Duration::from_millis(50));
            }
        }
    }
    /// Everything sent so far was taken in.
    pub fn barrier(&mut self) {
        // answered in the main loop
        let k = self.request("textDocument/selectionRange", json!({"vf": 1}));
        self.wait(&k);
        self.drain();
    }

    pub fn alive(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }
    pub fn pid(&self) -> u32 {
        self.child.id()
    }
    pub fn close_stdin(&mut self) {
        self.stdin = None;
    }
    pub fn wait_exit(&mut self) -> Option<ExitStatus> {
        let t0 = Instant::now();
        loop {
            self.pump(Duration::from_millis(20));
            if let Ok(Some(s)) = self.child.try_wait() {
                while self.pump(Duration::from_millis(20)) {}
                return Some(s);
            }
            if t0.elapsed() > patience() {
                return None;
            }
        }
    }
    /// It is stuck: nothing more is to be learnt from it.
    fn give_up(&mut self, fault: String) {
        self.faults.push(fault);
        if !self.closed {
            HANGS.fetch_add(1, Ordering::Relaxed);
            self.hung = true;
            self.closed = true;
            let _ = self.child.kill();
            let _ = self.child.wait();
        }
    }
    /// Shut it down as the protocol says and report how it ended.
    pub fn shutdown(&mut self) {
        if self.hung {
            return;
        }
        let a = self.call("shutdown", Value::Null);
        if a != Answer::Ok(Value::Null) {
            self.faults.push(format!("shutdown answered with {}", a.show()));
        }
        self.notify("exit", Value::Null);
        match self.wait_exit() {
            Some(s) if s.success() => {}
            Some(s) => {
                let e = self.stderr_tail();
                self.faults.push(format!("after shutdown and exit the server ended with {s}: {e}"))
            }
            None => self.faults.push("the server did not end after shutdown and exit".to_string()),
        }
        let left: Vec<String> = self.pending.values().cloned().collect();
        if !left.is_empty() {
            self.faults.push(format!("requests never answered: {left:?}"));
        }
    }
    pub fn unfinished_progress(&self) -> Vec<String> {
        self.progress.iter().filter(|(_, s)| **s == 1).map(|(t, _)| t.clone()).collect()
    }
    pub fn pending_count(&self) -> usize {
        self.pending.len()
    }
    pub fn answer_of(&self, key: &str) -> Option<&Answer> {
        self.answered.get(key)
    }
    pub fn stderr_tail(&self) -> String {
        std::thread::sleep(Duration::from_millis(50));
        let l = self.stderr.lock().unwrap();
        let n = l.len().saturating_sub(1500);
        let mut n = n;
        while !l.is_char_boundary(n) {
            n += 1;
        }
        l[n..].to_string()
    }

    // documents
    pub fn open(&mut self, uri: &str, text: &str) {
        self.versions.insert(uri.to_string(), 1);
        self.notify(
            "textDocument/didOpen",
            json!({"textDocument": {"uri": uri, "languageId": "move", "version": 1, "text": text}}),
        );
    }
    pub fn version(&self, uri: &str) -> i64 {
        self.versions.get(uri).copied().unwrap_or(0)
    }
    pub fn change(&mut self, uri: &str, changes: Value) {
        let v = self.versions.entry(uri.to_string()).or_insert(0);
        *v += 1;
        let v = *v;
        self.notify(
            "textDocument/didChange",
            json!({"textDocument": {"uri": uri, "version": v}, "contentChanges": changes}),
        );
    }
    pub fn set_text(&mut self, uri: &str, text: &str) {
        self.change(uri, json!([{"text": text}]));
    }
    pub fn save(&mut self, uri: &str) {
        self.notify("textDocument/didSave", json!({"textDocument": {"uri": uri}}));
    }
    pub fn close(&mut self, uri: &str) {
        self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}}));
    }
    pub fn watched(&mut self, changes: &[(&str, u32)]) {
        let cs: Vec<Value> = changes.iter().map(|(u, t)| json!({"uri": u, "type": t})).collect();
        self.notify("workspace/didChangeWatchedFiles", json!({"changes": cs}));
    }
    /// The server's own text of a document, as it hands it to the (stand-in) formatter.
    pub fn text_of(&mut self, uri: &str) -> Result<String, String> {
        let p = json!({"textDocument": {"uri": uri}, "options": {"tabSize": 4, "insertSpaces": true}});
        match self.ask("textDocument/formatting", p) {
            Answer::Ok(v) => {
                let e = v.as_array().ok_or("no edits")?;
                if e.len() != 1 {
                    return Err(format!("{} edits", e.len()));
                }
                let t = e[0]["newText"].as_str().unwrap_or("");
                t.strip_suffix(REVEAL).map(|t| t.to_string()).ok_or_else(|| format!("not the whole output: {}", cut(t)))
            }
            Answer::Err(c, m) => Err(format!("error {c}: {m}")),
        }
    }
}

const REVEAL: &str = "/*revealed*/";

impl Scratch {
    /// A stand-in for the formatter that gives back what it is given and a mark.
    pub fn revealing(&self) -> Value {
        let p = self.script("revealing", &format!("cat; printf '{REVEAL}'"));
        json!({"movefmt": {"path": p}})
    }
    /// A stand-in for the formatter.
    pub fn script(&self, name: &str, body: &str) -> String {
        use std::os::unix::fs::PermissionsExt;
        let rel = format!("bin/{name}");
        self.write(
            &rel,
            &format!("#!/bin/sh\nif [ \"$1\" = --version ]; then echo 'movefmt v1.2.1'; exit 0; fi\n{body}\n"),
        );
        let p = self.path(&rel);
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
        p.to_str().unwrap().to_string()
    }
}

impl Drop for Client {
    fn drop(&mut self) {
        self.stdin = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn cut(s: &str) -> String {
    let mut n = s.len().min(600);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    s[..n].to_string()
}
