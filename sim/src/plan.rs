//! A plan is one fully explicit execution: entropy, peer, attacker, transport schedule, faults, application calls.
//! Everything random was decided when the plan was generated; running a plan is deterministic.
use serde::{Deserialize, Serialize};

fn is_def<T: Default + PartialEq>(t: &T) -> bool {
    *t == T::default()
}

/// Byte strings as hex in replay files.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Hex(pub Vec<u8>);
impl Serialize for Hex {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut t = String::new();
        for b in &self.0 {
            t.push_str(&format!("{:02x}", b));
        }
        s.serialize_str(&t)
    }
}
impl<'de> Deserialize<'de> for Hex {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Hex, D::Error> {
        let s = String::deserialize(d)?;
        if s.len() % 2 != 0 {
            return Err(serde::de::Error::custom("odd hex"));
        }
        let mut v = Vec::new();
        for i in (0..s.len()).step_by(2) {
            v.push(u8::from_str_radix(s.get(i..i + 2).unwrap_or("zz"), 16).map_err(serde::de::Error::custom)?);
        }
        Ok(Hex(v))
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
#[serde(default)]
pub struct Entropy {
    pub seed: u64,
    /// (byte offset, bytes) overriding the stream
    #[serde(skip_serializing_if = "is_def")]
    pub set: Vec<(u32, Hex)>,
    /// bit positions flipped
    #[serde(skip_serializing_if = "is_def")]
    pub flip: Vec<u32>,
    /// draws that reach this byte offset fail
    #[serde(skip_serializing_if = "is_def")]
    pub fail_at: Option<u32>,
    /// how many draws fail before the source recovers (0 = forever)
    #[serde(skip_serializing_if = "is_def")]
    pub fail_n: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub enum KeySpec {
    #[default]
    Seeded,
    /// private key, big endian (reduced into range)
    Scalar(Hex),
    /// private key k
    Small(u64),
    /// private key N - k
    NMinus(u64),
    /// public bytes as they go on the wire, private key unknown
    Raw(Hex),
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub enum Ext {
    #[default]
    None,
    /// extensions block present but empty
    Empty,
    PointFormats(Hex),
    /// (type, length)
    Unknown(u16, u16),
    /// any number of (type, data)
    List(Vec<(u16, Hex)>),
    /// whole block after the compression byte, verbatim
    Raw(Hex),
}

/// One item of a server flight.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Item {
    /// handshake message, complete with its header (coalesced with neighbours by the packing pattern)
    Hs(Hex),
    /// change cipher spec with this payload
    Ccs(Hex),
    Alert(u8, u8),
    /// record of this type, version and content
    Rec { ct: u8, ver: u16, body: Hex },
    /// start protecting from here on / stop
    Protect(bool),
    /// copy of message i of the unedited flight
    Copy(u32),
    /// Finished computed at this point (flight 2), xor mask on byte i
    Fin(u32, u8),
    /// the value the client's own Finished has (reflected)
    FinC,
    /// record with bytes [a, b) of the right Finished message
    FinPart(u32, u32),
    /// a value related to the right one, but not it
    FinAlt(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum MsgOp {
    Drop,
    Dup,
    SwapNext,
    InsertBefore(Item),
    /// xor byte (offset modulo length)
    Xor(u32, u8),
    /// cut the body to n bytes, fixing the length field
    Truncate(u32),
    /// append bytes to the body, fixing the length field
    Append(Hex),
    /// insert bytes at offset, not fixing anything
    InsertRaw(u32, Hex),
    /// remove n bytes at offset, not fixing anything
    Remove(u32, u32),
    /// overwrite the 24-bit length field
    SetLen(u32),
    SetType(u8),
    Replace(Item),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct MsgEdit {
    pub at: u32,
    pub op: MsgOp,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Act {
    /// records of these content lengths
    Send(Vec<u32>),
    /// n records of this length
    SendMany(u32, u32),
    /// record of this length whose content drives the record authenticator into rare states
    Craft(u32, u64),
    Close,
    Alert(u8, u8),
    /// record of this type with this content; protected with the session keys or not; header version
    Rec { ct: u8, body: Hex, prot: bool, ver: u16 },
    /// n protected records of this type and content, and a byte of data after every few of them
    Flood { ct: u8, body: Hex, n: u32, every: u32 },
    /// protected record of this type and `n` content bytes
    RecLen { ct: u8, n: u32 },
    /// raw bytes on the wire
    Bytes(Hex),
    /// end of the server's byte stream
    Fin,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Step {
    /// runs once this many application bytes were received (in order)
    #[serde(default)]
    pub after_rx: u64,
    #[serde(default)]
    pub delay: u32,
    pub act: Act,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(default)]
pub struct Srv {
    pub seed: u64,
    /// once connected, both sides go on as if this many more records had gone: client to server, server to client
    #[serde(skip_serializing_if = "is_def")]
    pub skip_c: u64,
    #[serde(skip_serializing_if = "is_def")]
    pub skip_s: u64,
    /// server random, where it is not a random one
    #[serde(skip_serializing_if = "is_def")]
    pub random: Hex,
    /// every byte of the session id, where it is not a random one
    #[serde(skip_serializing_if = "is_def")]
    pub sid_fill: Option<u8>,
    /// character of the application data
    #[serde(skip_serializing_if = "is_def")]
    pub content: u8,
    #[serde(skip_serializing_if = "is_def")]
    pub sid_len: u8,
    #[serde(skip_serializing_if = "is_def")]
    pub ext: Ext,
    pub certs: Vec<u32>,
    pub sig_len: u16,
    pub sig_alg: u16,
    #[serde(skip_serializing_if = "is_def")]
    pub key: KeySpec,
    pub ver: u16,
    pub suite: u16,
    #[serde(skip_serializing_if = "is_def")]
    pub comp: u8,
    pub curve_type: u8,
    pub curve: u16,
    /// cyclic record sizes for handshake messages (0 = all that is left of the flight)
    #[serde(skip_serializing_if = "is_def")]
    pub pack: Vec<u32>,
    /// cyclic record sizes for the protected Finished
    #[serde(skip_serializing_if = "is_def")]
    pub pack2: Vec<u32>,
    #[serde(skip_serializing_if = "is_def")]
    pub edits1: Vec<MsgEdit>,
    #[serde(skip_serializing_if = "is_def")]
    pub edits2: Vec<MsgEdit>,
    /// the edits are made on the way (the server's own transcript does not include them)
    #[serde(skip_serializing_if = "is_def")]
    pub edits_in_transit: bool,
    /// transcript of a rogue server: false = everything sent, true = first canonical message of each kind
    #[serde(skip_serializing_if = "is_def")]
    pub canon_transcript: bool,
    /// with `canon_transcript`: the last message of each kind
    #[serde(skip_serializing_if = "is_def")]
    pub canon_last: bool,
    /// go on as if the client's Finished had been right
    #[serde(skip_serializing_if = "is_def")]
    pub lenient: bool,
    /// do not wait for the client's second flight before sending flight 2 (1: right after flight 1,
    /// 2: once the key exchange arrived, 3: once the client's cipher change arrived)
    #[serde(skip_serializing_if = "is_def")]
    pub eager: u8,
    #[serde(skip_serializing_if = "is_def")]
    pub script: Vec<Step>,
    /// echo client application records
    #[serde(skip_serializing_if = "is_def")]
    pub echo: bool,
    /// close_notify in answer to the client's
    #[serde(skip_serializing_if = "is_def")]
    pub reply_close: bool,
    /// when nothing more will happen the connection ends instead of staying silent
    #[serde(skip_serializing_if = "is_def")]
    pub idle_eof: bool,
    /// nobody answers: S2C bytes are these alone
    #[serde(skip_serializing_if = "is_def")]
    pub raw: Option<Hex>,
}

impl Default for Srv {
    fn default() -> Srv {
        Srv {
            skip_c: 0,
            skip_s: 0,
            seed: 0,
            random: Hex(vec![]),
            sid_fill: None,
            content: 0,
            sid_len: 0,
            ext: Ext::None,
            certs: vec![100],
            sig_len: 64,
            sig_alg: 0x0401,
            key: KeySpec::Seeded,
            ver: 0x0303,
            suite: 0xcca8,
            comp: 0,
            curve_type: 3,
            curve: 23,
            pack: vec![],
            pack2: vec![],
            edits1: vec![],
            edits2: vec![],
            edits_in_transit: false,
            canon_transcript: false,
            canon_last: false,
            lenient: false,
            eager: 0,
            script: vec![],
            echo: false,
            reply_close: false,
            idle_eof: false,
            raw: None,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum RecOp {
    Drop,
    Dup,
    SwapNext,
    /// deliver a copy of record i (of the same direction) before this one
    Replay(u32),
    /// xor byte (offset modulo whole record length)
    Xor(u32, u8),
    SetType(u8),
    SetVer(u16),
    SetLen(u16),
    /// keep n payload bytes; fix the length field or not
    Truncate(u32, bool),
    /// append payload bytes; fix the length field or not
    Append(Hex, bool),
    /// deliver this record before
    Inject { ct: u8, ver: u16, body: Hex },
    InjectRaw(Hex),
    /// deliver a copy of the other direction's record i before this one
    Reflect(u32),
    /// re-split: first record gets n payload bytes
    Split(u32),
    /// join with the following record
    /// everything from here on is lost and the stream ends
    Cut,
    /// everything from here on is lost and the line stays silent
    Mute,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct RecEdit {
    pub at: u32,
    pub op: RecOp,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum FKind {
    /// read: end of stream; write: accepts zero bytes
    Zero,
    Reset,
    TimedOut,
    WouldBlock,
    BrokenPipe,
    Aborted,
    NotConnected,
    NoSpace,
    Other,
    UnexpectedEof,
    InvalidData,
    /// any other error number
    Os(i32),
    /// any other kind of error (index into `STD`)
    Std(u8),
}

pub const STD: [std::io::ErrorKind; 12] = {
    use std::io::ErrorKind::*;
    [NotFound, PermissionDenied, ConnectionRefused, AddrInUse, AddrNotAvailable, AlreadyExists, InvalidInput, Unsupported, OutOfMemory, HostUnreachable, NetworkDown, StorageFull]
};

impl FKind {
    /// for the hash of the event log
    pub fn code(self) -> u64 {
        match self {
            FKind::Os(e) => 0x1000 + e as u64,
            FKind::Std(i) => 0x2000 + i as u64,
            k => k.io().kind() as u64,
        }
    }
    pub fn io(self) -> std::io::Error {
        use std::io::ErrorKind::*;
        let k = match self {
            FKind::Zero => WriteZero,
            FKind::Reset => ConnectionReset,
            FKind::TimedOut => TimedOut,
            FKind::WouldBlock => WouldBlock,
            FKind::BrokenPipe => BrokenPipe,
            FKind::Aborted => ConnectionAborted,
            FKind::NotConnected => NotConnected,
            FKind::NoSpace => return std::io::Error::from_raw_os_error(libc::ENOBUFS),
            FKind::Other => return std::io::Error::new(Other, "simulated failure"),
            FKind::UnexpectedEof => UnexpectedEof,
            FKind::InvalidData => InvalidData,
            FKind::Os(e) => return std::io::Error::from_raw_os_error(e),
            FKind::Std(i) => STD[i as usize % STD.len()],
        };
        std::io::Error::from(k)
    }
}

/// When `off` bytes have passed in this direction, the next `n` calls fail (0 = for ever).
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Fault {
    pub off: u64,
    pub kind: FKind,
    #[serde(default)]
    pub n: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
#[serde(default)]
pub struct Net {
    /// cyclic: most bytes a read call returns (0 = no limit)
    #[serde(skip_serializing_if = "is_def")]
    pub rchunk: Vec<u32>,
    /// cyclic: interruptions before a read call gets through
    #[serde(skip_serializing_if = "is_def")]
    pub rintr: Vec<u8>,
    #[serde(skip_serializing_if = "is_def")]
    pub wchunk: Vec<u32>,
    #[serde(skip_serializing_if = "is_def")]
    pub wintr: Vec<u8>,
    /// interruptions of flush calls
    #[serde(skip_serializing_if = "is_def")]
    pub fintr: Vec<u8>,
    /// cyclic: sizes of the segments in which server bytes arrive (0 = as sent)
    #[serde(skip_serializing_if = "is_def")]
    pub seg: Vec<u32>,
    /// cyclic: microseconds between segments
    #[serde(skip_serializing_if = "is_def")]
    pub delay: Vec<u32>,
    /// cyclic: microseconds until the server sees client bytes
    #[serde(skip_serializing_if = "is_def")]
    pub cdelay: Vec<u32>,
    /// accepted-but-unprocessed client bytes at most (0 = no limit)
    #[serde(skip_serializing_if = "is_def")]
    pub window: u32,
    #[serde(skip_serializing_if = "is_def")]
    pub rfault: Vec<Fault>,
    #[serde(skip_serializing_if = "is_def")]
    pub wfault: Vec<Fault>,
    /// flush calls: off = index of the flush call
    #[serde(skip_serializing_if = "is_def")]
    pub ffault: Vec<Fault>,
    /// written bytes are held back until flush ...
    #[serde(skip_serializing_if = "is_def")]
    pub hold: bool,
    /// ... or until this many are held (0 = only flush)
    #[serde(skip_serializing_if = "is_def")]
    pub hold_cap: u32,
    /// reads that would wait longer than this fail with a time-out (0 = none)
    #[serde(skip_serializing_if = "is_def")]
    pub rtimeout: u32,
    /// seconds by which the wall clock is off, and by which it jumps (cyclic, one per reading)
    #[serde(skip_serializing_if = "is_def")]
    pub clock: i64,
    #[serde(skip_serializing_if = "is_def")]
    pub cjump: Vec<i32>,
    /// through from_tcp and the socket calls
    #[serde(skip_serializing_if = "is_def")]
    pub tcp: bool,
    /// the peer has an IPv6 address
    #[serde(skip_serializing_if = "is_def")]
    pub v6: bool,
    /// duplicating the socket fails
    #[serde(skip_serializing_if = "is_def")]
    pub dup_fail: bool,
    /// reading and setting socket options fails with this error while connecting (0 = works)
    #[serde(skip_serializing_if = "is_def")]
    pub opt_fail: i32,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Write(u32),
    WriteAll(u32),
    /// write_all of this many bytes that drive the record authenticator into rare states
    WriteCraft(u32, u64),
    /// n calls of write_all with len bytes
    WriteMany(u32, u32),
    Read(u32),
    /// reads with this buffer size until `total` bytes came, or end or error
    ReadN(u32, u32),
    /// cyclic buffer sizes until end of stream or error, at most n calls
    ReadAll(Vec<u32>, u32),
    /// everything until the end, in one call (0: read_to_end, 1: io::copy, 2: read_to_end of a BufReader)
    ReadEnd(u8),
    Flush,
    Close,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
#[serde(default)]
pub struct Plan {
    pub entropy: Entropy,
    pub srv: Srv,
    pub net: Net,
    /// attacker on server-to-client records
    #[serde(skip_serializing_if = "is_def")]
    pub atk: Vec<RecEdit>,
    /// attacker on client-to-server records
    #[serde(skip_serializing_if = "is_def")]
    pub atk_c: Vec<RecEdit>,
    pub ops: Vec<Op>,
    /// character of the application data the client writes
    #[serde(skip_serializing_if = "is_def")]
    pub content: u8,
    /// the application makes its calls from this many threads in turn (0 = one)
    #[serde(skip_serializing_if = "is_def")]
    pub hop: u8,
    /// reads and writes go through other methods of std's traits (0 = read, write and write_all themselves)
    #[serde(skip_serializing_if = "is_def")]
    pub via: u8,
}

/// Relation between the plans of one case.
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub enum Rel {
    /// independent judgement of each plan
    #[default]
    Each,
    /// both plans must have the same observable outcome (they differ in benign transport behaviour only)
    SameOutcome,
    /// every bit of entropy plan 0 consumes is flipped in turn; random or key share must change
    EntropyMatters,
    /// the plans differ in their entropy only; randoms and key shares must all differ, in every bit position
    EntropySpread,
    /// all plans run interleaved (on threads, or on one thread call by call, or every call on a thread of its own) by
    /// this cyclic schedule, and each must behave as alone
    Interleave {
        threads: bool,
        #[serde(default, skip_serializing_if = "is_def")]
        migrate: bool,
        sched: Vec<u8>,
    },
    /// plan 0 alone, again and again: what it held is given back; its many calls are alike, if `steady`, and so is what it
    /// holds between them
    Release {
        #[serde(default, skip_serializing_if = "is_def")]
        steady: bool,
    },
    /// record `rec` the server sent in plan 0's run is delivered in plan 1's run in place of / before record `at`
    Splice { rec: u32, at: u32, replace: bool },
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
#[serde(default)]
pub struct Case {
    pub prop: String,
    /// executions that came before in the same process (only for failures that need them)
    #[serde(skip_serializing_if = "is_def")]
    pub pre: Vec<Plan>,
    pub plans: Vec<Plan>,
    pub rel: Rel,
}
