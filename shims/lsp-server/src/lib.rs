//! The transport of a language server, after the crate of this name: messages, their framing over
//! stdio or over channels in memory, the handshake, and the queue of requests in flight.
use crossbeam_channel::{bounded, unbounded, Receiver, RecvError, RecvTimeoutError, Sender};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::HashMap;
use std::fmt;
use std::io::{self, BufRead, Write};
use std::thread;

#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(untagged)]
pub enum Message {
    Request(Request),
    Response(Response),
    Notification(Notification),
}
impl From<Request> for Message {
    fn from(it: Request) -> Message {
        Message::Request(it)
    }
}
impl From<Response> for Message {
    fn from(it: Response) -> Message {
        Message::Response(it)
    }
}
impl From<Notification> for Message {
    fn from(it: Notification) -> Message {
        Message::Notification(it)
    }
}

#[derive(Debug, Clone, PartialOrd, Ord, PartialEq, Eq, Hash, Deserialize, Serialize)]
#[serde(transparent)]
pub struct RequestId(IdRepr);
#[derive(Debug, Clone, PartialOrd, Ord, PartialEq, Eq, Hash, Deserialize, Serialize)]
#[serde(untagged)]
enum IdRepr {
    I32(i32),
    String(String),
}
impl From<i32> for RequestId {
    fn from(id: i32) -> RequestId {
        RequestId(IdRepr::I32(id))
    }
}
impl From<String> for RequestId {
    fn from(id: String) -> RequestId {
        RequestId(IdRepr::String(id))
    }
}
impl fmt::Display for RequestId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            IdRepr::I32(it) => fmt::Display::fmt(it, f),
            IdRepr::String(it) => fmt::Debug::fmt(it, f),
        }
    }
}

#[derive(Debug, Serialize, Deserialize, Clone)]
pub struct Request {
    pub id: RequestId,
    pub method: String,
    #[serde(default = "serde_json::Value::default")]
    #[serde(skip_serializing_if = "serde_json::Value::is_null")]
    pub params: serde_json::Value,
}

#[derive(Debug, Serialize, Deserialize, Clone)]
pub struct Response {
    pub id: RequestId,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub result: Option<serde_json::Value>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub error: Option<ResponseError>,
}

#[derive(Debug, Serialize, Deserialize, Clone)]
pub struct ResponseError {
    pub code: i32,
    pub message: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub data: Option<serde_json::Value>,
}

#[derive(Clone, Copy, Debug)]
#[non_exhaustive]
pub enum ErrorCode {
    ParseError = -32700,
    InvalidRequest = -32600,
    MethodNotFound = -32601,
    InvalidParams = -32602,
    InternalError = -32603,
    ServerErrorStart = -32099,
    ServerErrorEnd = -32000,
    ServerNotInitialized = -32002,
    UnknownErrorCode = -32001,
    RequestCanceled = -32800,
    ContentModified = -32801,
    ServerCancelled = -32802,
    RequestFailed = -32803,
}

#[derive(Debug, Serialize, Deserialize, Clone)]
pub struct Notification {
    pub method: String,
    #[serde(default = "serde_json::Value::default")]
    #[serde(skip_serializing_if = "serde_json::Value::is_null")]
    pub params: serde_json::Value,
}

#[derive(Debug)]
pub enum ExtractError<T> {
    MethodMismatch(T),
    JsonError { method: String, error: serde_json::Error },
}
impl<T: fmt::Debug> fmt::Display for ExtractError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            ExtractError::MethodMismatch(_) => write!(f, "Method mismatch"),
            ExtractError::JsonError { method, error } => write!(f, "Invalid request\nMethod: {method}\n error: {error}"),
        }
    }
}
impl<T: fmt::Debug> std::error::Error for ExtractError<T> {}

impl Request {
    pub fn new<P: Serialize>(id: RequestId, method: String, params: P) -> Request {
        Request { id, method, params: serde_json::to_value(params).unwrap() }
    }
    pub fn extract<P: DeserializeOwned>(self, method: &str) -> Result<(RequestId, P), ExtractError<Request>> {
        if self.method != method {
            return Err(ExtractError::MethodMismatch(self));
        }
        match serde_json::from_value(self.params) {
            Ok(params) => Ok((self.id, params)),
            Err(error) => Err(ExtractError::JsonError { method: self.method, error }),
        }
    }
}
impl Response {
    pub fn new_ok<R: Serialize>(id: RequestId, result: R) -> Response {
        Response { id, result: Some(serde_json::to_value(result).unwrap()), error: None }
    }
    pub fn new_err(id: RequestId, code: i32, message: String) -> Response {
        Response { id, result: None, error: Some(ResponseError { code, message, data: None }) }
    }
}
impl Notification {
    pub fn new(method: String, params: impl Serialize) -> Notification {
        Notification { method, params: serde_json::to_value(params).unwrap() }
    }
    pub fn extract<P: DeserializeOwned>(self, method: &str) -> Result<P, ExtractError<Notification>> {
        if self.method != method {
            return Err(ExtractError::MethodMismatch(self));
        }
        serde_json::from_value(self.params).map_err(|error| ExtractError::JsonError { method: self.method, error })
    }
    fn is_exit(&self) -> bool {
        self.method == "exit"
    }
    fn is_initialized(&self) -> bool {
        self.method == "initialized"
    }
}

impl Message {
    pub fn read(r: &mut impl BufRead) -> io::Result<Option<Message>> {
        let mut size = None;
        let mut buf = String::new();
        loop {
            buf.clear();
            if r.read_line(&mut buf)? == 0 {
                return Ok(None);
            }
            let Some(line) = buf.strip_suffix("\r\n") else {
                return Err(io::Error::new(io::ErrorKind::InvalidData, format!("malformed header: {buf:?}")));
            };
            if line.is_empty() {
                break;
            }
            if let Some((name, value)) = line.split_once(": ") {
                if name.eq_ignore_ascii_case("Content-Length") {
                    size = value.parse::<usize>().ok();
                }
            }
        }
        let size = size.ok_or_else(|| io::Error::new(io::ErrorKind::InvalidData, "no Content-Length"))?;
        let mut data = vec![0; size];
        r.read_exact(&mut data)?;
        serde_json::from_slice(&data).map(Some).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
    }
    pub fn write(&self, w: &mut impl Write) -> io::Result<()> {
        #[derive(Serialize)]
        struct JsonRpc<'a> {
            jsonrpc: &'static str,
            #[serde(flatten)]
            msg: &'a Message,
        }
        let text = serde_json::to_string(&JsonRpc { jsonrpc: "2.0", msg: self })?;
        write!(w, "Content-Length: {}\r\n\r\n{}", text.len(), text)?;
        w.flush()
    }
}

pub struct IoThreads {
    reader: thread::JoinHandle<io::Result<()>>,
    writer: thread::JoinHandle<io::Result<()>>,
}
impl IoThreads {
    pub fn join(self) -> io::Result<()> {
        match self.reader.join() {
            Ok(r) => r?,
            Err(err) => std::panic::panic_any(err),
        }
        match self.writer.join() {
            Ok(r) => r,
            Err(err) => std::panic::panic_any(err),
        }
    }
}

pub struct Connection {
    pub sender: Sender<Message>,
    pub receiver: Receiver<Message>,
}

#[derive(Debug)]
pub struct ProtocolError(String, bool);
impl ProtocolError {
    fn new(msg: impl Into<String>) -> Self {
        ProtocolError(msg.into(), false)
    }
    pub fn channel_is_disconnected(&self) -> bool {
        self.1
    }
}
impl fmt::Display for ProtocolError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for ProtocolError {}
impl From<RecvError> for ProtocolError {
    fn from(_: RecvError) -> Self {
        ProtocolError("disconnected channel".into(), true)
    }
}

impl Connection {
    pub fn stdio() -> (Connection, IoThreads) {
        let (writer_sender, writer_receiver) = bounded::<Message>(0);
        let writer = thread::spawn(move || {
            let stdout = io::stdout();
            let mut stdout = stdout.lock();
            writer_receiver.into_iter().try_for_each(|it| it.write(&mut stdout))
        });
        let (reader_sender, reader_receiver) = bounded::<Message>(0);
        let reader = thread::spawn(move || {
            let stdin = io::stdin();
            let mut stdin = stdin.lock();
            while let Some(msg) = Message::read(&mut stdin)? {
                let is_exit = matches!(&msg, Message::Notification(n) if n.is_exit());
                if let Err(e) = reader_sender.send(msg) {
                    return Err(io::Error::other(e));
                }
                if is_exit {
                    break;
                }
            }
            Ok(())
        });
        (Connection { sender: writer_sender, receiver: reader_receiver }, IoThreads { reader, writer })
    }

    pub fn memory() -> (Connection, Connection) {
        let (s1, r1) = unbounded();
        let (s2, r2) = unbounded();
        (Connection { sender: s1, receiver: r2 }, Connection { sender: s2, receiver: r1 })
    }

    pub fn initialize_start(&self) -> Result<(RequestId, serde_json::Value), ProtocolError> {
        self.initialize_start_while(|| true)
    }
    pub fn initialize_start_while<C: Fn() -> bool>(&self, running: C) -> Result<(RequestId, serde_json::Value), ProtocolError> {
        while running() {
            let msg = match self.receiver.recv_timeout(std::time::Duration::from_secs(1)) {
                Ok(msg) => msg,
                Err(RecvTimeoutError::Timeout) => continue,
                Err(RecvTimeoutError::Disconnected) => return Err(ProtocolError::from(RecvError)),
            };
            match msg {
                Message::Request(req) if req.method == "initialize" => return Ok((req.id, req.params)),
                Message::Request(req) => {
                    let resp = Response::new_err(
                        req.id.clone(),
                        ErrorCode::ServerNotInitialized as i32,
                        format!("expected initialize request, got {req:?}"),
                    );
                    self.sender.send(resp.into()).unwrap();
                }
                Message::Notification(n) if !n.is_exit() => {}
                msg => return Err(ProtocolError::new(format!("expected initialize request, got {msg:?}"))),
            }
        }
        Err(ProtocolError::new("Initialization has been aborted during initialization"))
    }
    pub fn initialize_finish(&self, id: RequestId, result: serde_json::Value) -> Result<(), ProtocolError> {
        self.sender.send(Response::new_ok(id, result).into()).unwrap();
        match self.receiver.recv()? {
            Message::Notification(n) if n.is_initialized() => Ok(()),
            msg => Err(ProtocolError::new(format!("expected initialized notification, got: {msg:?}"))),
        }
    }
    pub fn handle_shutdown(&self, req: &Request) -> Result<bool, ProtocolError> {
        if req.method != "shutdown" {
            return Ok(false);
        }
        let _ = self.sender.send(Response::new_ok(req.id.clone(), ()).into());
        match self.receiver.recv_timeout(std::time::Duration::from_secs(30)) {
            Ok(Message::Notification(n)) if n.is_exit() => Ok(true),
            Ok(msg) => Err(ProtocolError::new(format!("unexpected message during shutdown: {msg:?}"))),
            Err(_) => Err(ProtocolError::new("timed out or disconnected while waiting for exit")),
        }
    }
}

#[derive(Debug)]
pub struct ReqQueue<I, O> {
    pub incoming: Incoming<I>,
    pub outgoing: Outgoing<O>,
}
impl<I, O> Default for ReqQueue<I, O> {
    fn default() -> ReqQueue<I, O> {
        ReqQueue {
            incoming: Incoming { pending: HashMap::default() },
            outgoing: Outgoing { next_id: 0, pending: HashMap::default() },
        }
    }
}
#[derive(Debug)]
pub struct Incoming<I> {
    pending: HashMap<RequestId, I>,
}
impl<I> Incoming<I> {
    pub fn register(&mut self, id: RequestId, data: I) {
        self.pending.insert(id, data);
    }
    pub fn cancel(&mut self, id: RequestId) -> Option<Response> {
        let _data = self.complete(&id)?;
        let error = ResponseError {
            code: ErrorCode::RequestCanceled as i32,
            message: "canceled by client".to_owned(),
            data: None,
        };
        Some(Response { id, result: None, error: Some(error) })
    }
    pub fn complete(&mut self, id: &RequestId) -> Option<I> {
        self.pending.remove(id)
    }
    pub fn is_completed(&self, id: &RequestId) -> bool {
        !self.pending.contains_key(id)
    }
}
#[derive(Debug)]
pub struct Outgoing<O> {
    next_id: i32,
    pending: HashMap<RequestId, O>,
}
impl<O> Outgoing<O> {
    pub fn register<P: Serialize>(&mut self, method: String, params: P, data: O) -> Request {
        let id = RequestId::from(self.next_id);
        self.pending.insert(id.clone(), data);
        self.next_id += 1;
        Request::new(id, method, params)
    }
    pub fn complete(&mut self, id: RequestId) -> Option<O> {
        self.pending.remove(&id)
    }
}
