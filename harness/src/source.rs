//! Readers that deliver given bytes in a prescribed way.
use std::io::{self, ErrorKind, Read};

/// The failure that is injected; recognised again in a diagnosis.
#[derive(Debug)]
pub struct Injected;
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("injected failure")
    }
}
impl std::error::Error for Injected {}

#[derive(Clone, Default, Debug)]
pub struct Plan {
    /// sizes of successive reads, cyclically; empty: as much as asked for
    pub chunks: Vec<usize>,
    /// interruptions before successive reads, cyclically
    pub intr: Vec<usize>,
    /// fail when this offset is reached
    pub fault: Option<(usize, String, bool, bool)>,
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub reads: usize,
    pub intrs: usize,
    pub delivered: usize,
    pub eofs: usize,
    pub faults: usize,
    pub asked_after_fault: usize,
    /// bytes delivered (> 0), end of input (0), interruption (-1), failure (-2)
    pub events: Vec<i64>,
}

pub struct Source<'a> {
    pub data: &'a [u8],
    pub plan: Plan,
    pub pos: usize,
    pub st: Stats,
    pub log: bool,
    chunk_i: usize,
    intr_i: usize,
    intr_left: Option<usize>,
    /// called once, when `pos` reaches the given offset
    pub hook: Option<(usize, Box<dyn FnMut() + 'a>)>,
}

impl<'a> Source<'a> {
    pub fn new(data: &'a [u8], plan: Plan) -> Self {
        Source {
            data,
            plan,
            pos: 0,
            st: Stats::default(),
            log: false,
            chunk_i: 0,
            intr_i: 0,
            intr_left: None,
            hook: None,
        }
    }
}

impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let r = self.deliver(buf);
        if self.log {
            self.st.events.push(match &r {
                Ok(n) => *n as i64,
                Err(e) if e.kind() == ErrorKind::Interrupted => -1,
                Err(_) => -2,
            });
        }
        r
    }
}

impl Source<'_> {
    fn deliver(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.st.reads += 1;
        if self.st.faults > 0 {
            self.st.asked_after_fault += 1;
        }
        if !self.plan.intr.is_empty() {
            let left = *self
                .intr_left
                .get_or_insert(self.plan.intr[self.intr_i % self.plan.intr.len()]);
            if left > 0 {
                self.intr_left = Some(left - 1);
                self.st.intrs += 1;
                return Err(ErrorKind::Interrupted.into());
            }
            self.intr_left = None;
            self.intr_i += 1;
        }
        if let Some((at, _)) = &self.hook
            && self.pos >= *at
        {
            let (_, mut f) = self.hook.take().unwrap();
            f();
        }
        let mut n = buf.len().min(self.data.len() - self.pos);
        if !self.plan.chunks.is_empty() {
            let c = self.plan.chunks[self.chunk_i % self.plan.chunks.len()].max(1);
            self.chunk_i += 1;
            n = n.min(c);
        }
        if let Some((at, kind, sticky, os)) = &self.plan.fault
            && (*sticky || self.st.faults == 0)
        {
            if self.pos >= *at {
                self.st.faults += 1;
                return Err(failure(kind, *os));
            }
            n = n.min(*at - self.pos);
        }
        if n == 0 {
            self.st.eofs += 1;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.st.delivered += n;
        Ok(n)
    }
}

/// The failure that is injected: one with a payload, or, `os` being set, one
/// as the operating system reports it.
pub fn failure(kind: &str, os: bool) -> io::Error {
    if !os {
        return io::Error::new(kind_of(kind), Injected);
    }
    io::Error::from_raw_os_error(match kind {
        "InputOutputError" => 5,
        "NotFound" => 2,
        "WouldBlock" => 11,
        "PermissionDenied" => 13,
        "IsADirectory" => 21,
        "BrokenPipe" => 32,
        "ConnectionReset" => 104,
        "TimedOut" => 110,
        k => panic!("unknown system error {k}"),
    })
}

pub fn kind_of(name: &str) -> ErrorKind {
    match name {
        "NotFound" => ErrorKind::NotFound,
        "PermissionDenied" => ErrorKind::PermissionDenied,
        "ConnectionReset" => ErrorKind::ConnectionReset,
        "BrokenPipe" => ErrorKind::BrokenPipe,
        "WouldBlock" => ErrorKind::WouldBlock,
        "InvalidInput" => ErrorKind::InvalidInput,
        "InvalidData" => ErrorKind::InvalidData,
        "TimedOut" => ErrorKind::TimedOut,
        "WriteZero" => ErrorKind::WriteZero,
        "OutOfMemory" => ErrorKind::OutOfMemory,
        "UnexpectedEof" => ErrorKind::UnexpectedEof,
        "Other" => ErrorKind::Other,
        "ConnectionRefused" => ErrorKind::ConnectionRefused,
        "ConnectionAborted" => ErrorKind::ConnectionAborted,
        "NotConnected" => ErrorKind::NotConnected,
        "AddrInUse" => ErrorKind::AddrInUse,
        "AddrNotAvailable" => ErrorKind::AddrNotAvailable,
        "AlreadyExists" => ErrorKind::AlreadyExists,
        "Unsupported" => ErrorKind::Unsupported,
        "HostUnreachable" => ErrorKind::HostUnreachable,
        "NetworkUnreachable" => ErrorKind::NetworkUnreachable,
        "NetworkDown" => ErrorKind::NetworkDown,
        "NotADirectory" => ErrorKind::NotADirectory,
        "IsADirectory" => ErrorKind::IsADirectory,
        "DirectoryNotEmpty" => ErrorKind::DirectoryNotEmpty,
        "ReadOnlyFilesystem" => ErrorKind::ReadOnlyFilesystem,
        "StaleNetworkFileHandle" => ErrorKind::StaleNetworkFileHandle,
        "StorageFull" => ErrorKind::StorageFull,
        "NotSeekable" => ErrorKind::NotSeekable,
        "QuotaExceeded" => ErrorKind::QuotaExceeded,
        "FileTooLarge" => ErrorKind::FileTooLarge,
        "ResourceBusy" => ErrorKind::ResourceBusy,
        "ExecutableFileBusy" => ErrorKind::ExecutableFileBusy,
        "Deadlock" => ErrorKind::Deadlock,
        "CrossesDevices" => ErrorKind::CrossesDevices,
        "TooManyLinks" => ErrorKind::TooManyLinks,
        "InvalidFilename" => ErrorKind::InvalidFilename,
        "ArgumentListTooLong" => ErrorKind::ArgumentListTooLong,
        k => panic!("unknown error kind {k}"),
    }
}
