//! Independent model of RSocket 1.0 frames: what a frame is, its bytes, how
//! bytes are to be read. Written from the protocol, not from the code.
use crate::gen::*;
use crate::kit::*;
use binate::frame::codec::*;
use binate::frame::{DecodeError, Flags, Frame, Version};
use binate::Payload;
use bytes::Bytes;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    Setup,
    Lease,
    Keepalive,
    Response,
    Fnf,
    Stream,
    Channel,
    RequestN,
    Cancel,
    Payload,
    Error,
    MetadataPush,
    Resume,
    ResumeOk,
}

pub const TYPES: [Ty; 14] = [
    Ty::Setup,
    Ty::Lease,
    Ty::Keepalive,
    Ty::Response,
    Ty::Fnf,
    Ty::Stream,
    Ty::Channel,
    Ty::RequestN,
    Ty::Cancel,
    Ty::Payload,
    Ty::Error,
    Ty::MetadataPush,
    Ty::Resume,
    Ty::ResumeOk,
];

/// Types with both a metadata length and data.
pub const BOTH: [Ty; 6] = [
    Ty::Setup,
    Ty::Response,
    Ty::Fnf,
    Ty::Stream,
    Ty::Channel,
    Ty::Payload,
];

pub const F_META: u16 = 0x100;
pub const F_FOLLOWS: u16 = 0x80;
pub const F_COMPLETE: u16 = 0x40;
pub const F_NEXT: u16 = 0x20;

impl Ty {
    pub fn code(self) -> u16 {
        match self {
            Ty::Setup => 1,
            Ty::Lease => 2,
            Ty::Keepalive => 3,
            Ty::Response => 4,
            Ty::Fnf => 5,
            Ty::Stream => 6,
            Ty::Channel => 7,
            Ty::RequestN => 8,
            Ty::Cancel => 9,
            Ty::Payload => 10,
            Ty::Error => 11,
            Ty::MetadataPush => 12,
            Ty::Resume => 13,
            Ty::ResumeOk => 14,
        }
    }
    pub fn of_code(c: u16) -> Option<Ty> {
        TYPES.iter().copied().find(|t| t.code() == c)
    }
    /// Pertains to the connection.
    pub fn on_zero(self) -> bool {
        matches!(
            self,
            Ty::Setup
                | Ty::Lease
                | Ty::Keepalive
                | Ty::MetadataPush
                | Ty::Resume
                | Ty::ResumeOk
        )
    }
    /// Flag bits with a meaning for this type.
    pub fn defined(self) -> u16 {
        match self {
            Ty::Setup => 0x1C0,
            Ty::Lease => 0x100,
            Ty::Keepalive => 0x80,
            Ty::Response | Ty::Fnf | Ty::Stream => 0x180,
            Ty::Channel => 0x1C0,
            Ty::Payload => 0x1E0,
            Ty::MetadataPush => 0x100,
            _ => 0,
        }
    }
    pub fn fixed_size(self) -> bool {
        matches!(
            self,
            Ty::Cancel | Ty::RequestN | Ty::Resume | Ty::ResumeOk
        )
    }
}

/// An abstract frame; only the fields of its type matter.
#[derive(Clone, Debug, PartialEq)]
pub struct M {
    pub ty: Ty,
    pub sid: u32,
    pub follows: bool,
    pub complete: bool,
    pub next: bool,
    pub respond: bool,
    pub lease: bool,
    pub resume: bool,
    pub major: u16,
    pub minor: u16,
    /// keepalive interval / ttl / n / position / server position
    pub a: u64,
    /// lifetime / number of requests / client position
    pub b: u64,
    pub code: u32,
    pub token: Option<Bytes>,
    pub mmime: Bytes,
    pub dmime: Bytes,
    pub meta: Option<Bytes>,
    pub data: Option<Bytes>,
}

pub fn short(b: &[u8]) -> String {
    if b.len() <= 24 {
        format!("{b:02x?}")
    } else {
        format!("{:02x?}..({} bytes)", &b[..12], b.len())
    }
}

fn oshort(b: &Option<Bytes>) -> String {
    match b {
        None => "absent".into(),
        Some(b) => short(b),
    }
}

impl M {
    pub fn blank(ty: Ty) -> M {
        M {
            ty,
            sid: 0,
            follows: false,
            complete: false,
            next: false,
            respond: false,
            lease: false,
            resume: false,
            major: 1,
            minor: 0,
            a: 0,
            b: 0,
            code: 0,
            token: None,
            mmime: Bytes::new(),
            dmime: Bytes::new(),
            meta: None,
            data: None,
        }
    }
    pub fn describe(&self) -> String {
        let mut s = format!("{:?} sid={}", self.ty, self.sid);
        for (n, v) in [
            ("follows", self.follows),
            ("complete", self.complete),
            ("next", self.next),
            ("respond", self.respond),
            ("lease", self.lease),
            ("resume", self.resume),
        ] {
            if v {
                s += " ";
                s += n;
            }
        }
        s += &format!(
            " v{}.{} a={} b={} code={:#x} token={} mm={}/{} meta={} data={}",
            self.major,
            self.minor,
            self.a,
            self.b,
            self.code,
            oshort(&self.token),
            short(&self.mmime),
            short(&self.dmime),
            oshort(&self.meta),
            oshort(&self.data)
        );
        s
    }
    /// The shape of this frame, for counting distinct cases.
    pub fn fingerprint(&self) -> u64 {
        let mut h = self.ty.code() as u64;
        let mut add = |x: u64| h = mix(h ^ x.wrapping_mul(0x9E3779B97F4A7C15));
        add(self.sid as u64);
        add(self.follows as u64
            | (self.complete as u64) << 1
            | (self.next as u64) << 2
            | (self.respond as u64) << 3
            | (self.lease as u64) << 4
            | (self.resume as u64) << 5);
        add((self.major as u64) << 16 | self.minor as u64);
        add(self.a);
        add(self.b);
        add(self.code as u64);
        add(len_class(self.token.as_ref().map(|x| x.len())));
        add(len_class(Some(self.mmime.len())));
        add(len_class(Some(self.dmime.len())));
        add(len_class(self.meta.as_ref().map(|x| x.len())));
        add(len_class(self.data.as_ref().map(|x| x.len())));
        h
    }
    pub fn size(&self) -> usize {
        self.meta.as_ref().map_or(0, |b| b.len())
            + self.data.as_ref().map_or(0, |b| b.len())
            + self.token.as_ref().map_or(0, |b| b.len())
    }
    pub fn flags(&self) -> u16 {
        let mut f = 0;
        let m = self.meta.is_some();
        match self.ty {
            Ty::Setup => {
                if m {
                    f |= F_META
                }
                if self.resume {
                    f |= 0x80
                }
                if self.lease {
                    f |= 0x40
                }
            }
            Ty::Lease => {
                if m {
                    f |= F_META
                }
            }
            Ty::Keepalive => {
                if self.respond {
                    f |= 0x80
                }
            }
            Ty::MetadataPush => f |= F_META,
            Ty::Response | Ty::Fnf | Ty::Stream | Ty::Channel
            | Ty::Payload => {
                if m {
                    f |= F_META
                }
                if self.follows {
                    f |= F_FOLLOWS
                }
                if self.complete
                    && matches!(self.ty, Ty::Channel | Ty::Payload)
                {
                    f |= F_COMPLETE
                }
                if self.next && self.ty == Ty::Payload {
                    f |= F_NEXT
                }
            }
            _ => {}
        }
        f
    }
}

/// Bits the protocol reserves or leaves undefined.
#[derive(Clone, Default, Debug)]
pub struct Noise {
    pub sid_high: bool,
    pub a_high: bool,
    pub b_high: bool,
    /// Flag bits; those the type defines are ignored.
    pub flags: u16,
}

impl Noise {
    pub fn is_none(&self, ty: Ty) -> bool {
        !self.sid_high
            && !self.a_high
            && !self.b_high
            && self.flags & 0x3FF & !ty.defined() == 0
    }
}

/// The bytes of a frame, and where its variable parts start.
pub fn ref_encode(m: &M, n: &Noise) -> Vec<u8> {
    let mut o = Vec::with_capacity(64 + m.size());
    let sid = if m.ty.on_zero() { 0 } else { m.sid };
    let sid = sid | if n.sid_high { 0x8000_0000 } else { 0 };
    o.extend_from_slice(&sid.to_be_bytes());
    let head =
        m.ty.code() << 10 | m.flags() | (n.flags & 0x3FF & !m.ty.defined());
    o.extend_from_slice(&head.to_be_bytes());
    let a31 = m.a as u32 | if n.a_high { 0x8000_0000 } else { 0 };
    let b31 = m.b as u32 | if n.b_high { 0x8000_0000 } else { 0 };
    let a63 = m.a | if n.a_high { 1 << 63 } else { 0 };
    let b63 = m.b | if n.b_high { 1 << 63 } else { 0 };
    match m.ty {
        Ty::Setup => {
            o.extend_from_slice(&m.major.to_be_bytes());
            o.extend_from_slice(&m.minor.to_be_bytes());
            o.extend_from_slice(&a31.to_be_bytes());
            o.extend_from_slice(&b31.to_be_bytes());
            if m.resume {
                let t = m.token.clone().unwrap_or_default();
                o.extend_from_slice(&(t.len() as u16).to_be_bytes());
                o.extend_from_slice(&t);
            }
            o.push(m.mmime.len() as u8);
            o.extend_from_slice(&m.mmime);
            o.push(m.dmime.len() as u8);
            o.extend_from_slice(&m.dmime);
            both(&mut o, m);
        }
        Ty::Lease => {
            o.extend_from_slice(&a31.to_be_bytes());
            o.extend_from_slice(&b31.to_be_bytes());
            o.extend_from_slice(m.meta.as_deref().unwrap_or(&[]));
        }
        Ty::Keepalive => {
            o.extend_from_slice(&a63.to_be_bytes());
            o.extend_from_slice(m.data.as_deref().unwrap_or(&[]));
        }
        Ty::Response | Ty::Fnf | Ty::Payload => both(&mut o, m),
        Ty::Stream | Ty::Channel => {
            o.extend_from_slice(&a31.to_be_bytes());
            both(&mut o, m);
        }
        Ty::RequestN => o.extend_from_slice(&a31.to_be_bytes()),
        Ty::Cancel => {}
        Ty::Error => {
            o.extend_from_slice(&m.code.to_be_bytes());
            o.extend_from_slice(m.data.as_deref().unwrap_or(&[]));
        }
        Ty::MetadataPush => {
            o.extend_from_slice(m.meta.as_deref().unwrap_or(&[]))
        }
        Ty::Resume => {
            o.extend_from_slice(&m.major.to_be_bytes());
            o.extend_from_slice(&m.minor.to_be_bytes());
            let t = m.token.clone().unwrap_or_default();
            o.extend_from_slice(&(t.len() as u16).to_be_bytes());
            o.extend_from_slice(&t);
            o.extend_from_slice(&a63.to_be_bytes());
            o.extend_from_slice(&b63.to_be_bytes());
        }
        Ty::ResumeOk => o.extend_from_slice(&a63.to_be_bytes()),
    }
    o
}

fn both(o: &mut Vec<u8>, m: &M) {
    if let Some(x) = &m.meta {
        let n = x.len() as u32;
        o.extend_from_slice(&n.to_be_bytes()[1..]);
        o.extend_from_slice(x);
    }
    o.extend_from_slice(m.data.as_deref().unwrap_or(&[]));
}

// ---------------------------------------------------------------- decoding

/// What decoding may answer.
#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// This frame, having consumed so many bytes.
    Frame(M, usize),
    /// One of these errors.
    Errors(Vec<DecodeError>),
}

struct Cut;

struct Rd<'a> {
    d: &'a [u8],
    p: usize,
}

impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], Cut> {
        if self.d.len() - self.p < n {
            return Err(Cut);
        }
        self.p += n;
        Ok(&self.d[self.p - n..self.p])
    }
    fn num(&mut self, n: usize) -> Result<u64, Cut> {
        Ok(self.take(n)?.iter().fold(0, |a, b| a << 8 | *b as u64))
    }
    fn rest(&mut self) -> Bytes {
        let r = Bytes::copy_from_slice(&self.d[self.p..]);
        self.p = self.d.len();
        r
    }
    fn opt_rest(&mut self) -> Option<Bytes> {
        let r = self.rest();
        if r.is_empty() {
            None
        } else {
            Some(r)
        }
    }
    fn both(&mut self, m: &mut M, flags: u16) -> Result<(), Cut> {
        if flags & F_META != 0 {
            let n = self.num(3)? as usize;
            m.meta = Some(Bytes::copy_from_slice(self.take(n)?));
        }
        m.data = self.opt_rest();
        Ok(())
    }
}

pub const CONN_CODES: [u32; 6] = [1, 2, 3, 4, 0x101, 0x102];
pub const STREAM_CODES: [u32; 4] = [0x201, 0x202, 0x203, 0x204];

/// Reads bytes as the protocol prescribes.
pub fn ref_decode(d: &[u8]) -> Expect {
    use DecodeError::*;
    let mut r = Rd { d, p: 0 };
    if d.len() < 6 {
        return Expect::Errors(vec![InComplete]);
    }
    let sid = (r.num(4).ok().unwrap() & MAX31 as u64) as u32;
    let head = r.num(2).ok().unwrap() as u16;
    let flags = head & 0x3FF;
    let Some(ty) = Ty::of_code(head >> 10) else {
        return Expect::Errors(vec![UnrecognizedFrameType(head >> 10)]);
    };
    let mut m = M::blank(ty);
    m.sid = sid;
    let mut errs = vec![];
    if ty.on_zero() && sid != 0 {
        errs.push(InvalidStreamId { expected: "0", found: sid });
    }
    let r1 = body(&mut r, &mut m, flags);
    if r1.is_err() {
        errs.push(InComplete);
    } else if ty == Ty::Error {
        if CONN_CODES.contains(&m.code) && sid != 0 {
            errs.push(InvalidStreamId { expected: "0", found: sid });
        }
        if STREAM_CODES.contains(&m.code) && sid == 0 {
            errs.push(InvalidStreamId { expected: "> 0", found: 0 });
        }
    }
    if errs.is_empty() {
        Expect::Frame(m, r.p)
    } else {
        Expect::Errors(errs)
    }
}

fn body(r: &mut Rd, m: &mut M, flags: u16) -> Result<(), Cut> {
    let on = |b: u16| flags & b != 0;
    match m.ty {
        Ty::Setup => {
            m.major = r.num(2)? as u16;
            m.minor = r.num(2)? as u16;
            m.a = r.num(4)? & MAX31 as u64;
            m.b = r.num(4)? & MAX31 as u64;
            m.resume = on(0x80);
            m.lease = on(0x40);
            if m.resume {
                let n = r.num(2)? as usize;
                m.token = Some(Bytes::copy_from_slice(r.take(n)?));
            }
            let n = r.num(1)? as usize;
            m.mmime = Bytes::copy_from_slice(r.take(n)?);
            let n = r.num(1)? as usize;
            m.dmime = Bytes::copy_from_slice(r.take(n)?);
            r.both(m, flags)?;
        }
        Ty::Lease => {
            m.a = r.num(4)? & MAX31 as u64;
            m.b = r.num(4)? & MAX31 as u64;
            let rest = r.rest();
            m.meta = if on(F_META) || !rest.is_empty() {
                Some(rest)
            } else {
                None
            };
        }
        Ty::Keepalive => {
            m.respond = on(0x80);
            m.a = r.num(8)? & MAX63;
            m.data = r.opt_rest();
        }
        Ty::Response | Ty::Fnf | Ty::Payload => {
            m.follows = on(F_FOLLOWS);
            m.complete = on(F_COMPLETE) && m.ty == Ty::Payload;
            m.next = on(F_NEXT) && m.ty == Ty::Payload;
            r.both(m, flags)?;
        }
        Ty::Stream | Ty::Channel => {
            m.follows = on(F_FOLLOWS);
            m.complete = on(F_COMPLETE) && m.ty == Ty::Channel;
            m.a = r.num(4)? & MAX31 as u64;
            r.both(m, flags)?;
        }
        Ty::RequestN => m.a = r.num(4)? & MAX31 as u64,
        Ty::Cancel => {}
        Ty::Error => {
            m.code = r.num(4)? as u32;
            m.data = r.opt_rest();
        }
        Ty::MetadataPush => m.meta = Some(r.rest()),
        Ty::Resume => {
            m.major = r.num(2)? as u16;
            m.minor = r.num(2)? as u16;
            let n = r.num(2)? as usize;
            m.token = Some(Bytes::copy_from_slice(r.take(n)?));
            m.a = r.num(8)? & MAX63;
            m.b = r.num(8)? & MAX63;
        }
        Ty::ResumeOk => m.a = r.num(8)? & MAX63,
    }
    Ok(())
}

/// The bytes up to which the frame's fixed fields and declared lengths reach,
/// and the positions and widths of its length fields.
pub fn layout(m: &M) -> (usize, Vec<(usize, usize)>) {
    let mut lens = vec![];
    let mut p = 6;
    let meta = |p: &mut usize, lens: &mut Vec<(usize, usize)>| {
        if let Some(x) = &m.meta {
            lens.push((*p, 3));
            *p += 3 + x.len();
        }
    };
    match m.ty {
        Ty::Setup => {
            p += 12;
            if m.resume {
                lens.push((p, 2));
                p += 2 + m.token.as_ref().map_or(0, |t| t.len());
            }
            lens.push((p, 1));
            p += 1 + m.mmime.len();
            lens.push((p, 1));
            p += 1 + m.dmime.len();
            meta(&mut p, &mut lens);
        }
        Ty::Lease | Ty::Keepalive | Ty::ResumeOk => p += 8,
        Ty::Response | Ty::Fnf | Ty::Payload => meta(&mut p, &mut lens),
        Ty::Stream | Ty::Channel => {
            p += 4;
            meta(&mut p, &mut lens);
        }
        Ty::RequestN | Ty::Error => p += 4,
        Ty::Cancel | Ty::MetadataPush => {}
        Ty::Resume => {
            p += 4;
            lens.push((p, 2));
            p += 2 + m.token.as_ref().map_or(0, |t| t.len()) + 16;
        }
    }
    (p, lens)
}

// ---------------------------------------------------------- real code side

pub fn payload_of(meta: &Option<Bytes>, data: &Option<Bytes>) -> Payload {
    let mut b = Payload::builder();
    if let Some(x) = meta {
        b = b.set_metadata(x.clone());
    }
    if let Some(x) = data {
        b = b.set_data(x.clone());
    }
    b.build()
}

/// Constructs the frame through the public API.
pub fn build(m: &M) -> Frame {
    let p = || payload_of(&m.meta, &m.data);
    match m.ty {
        Ty::Setup => {
            let mut b = SetupFrame::builder()
                .set_version(m.major, m.minor)
                .set_keepalive_interval(m.a as u32)
                .set_keepalive_timeout(m.b as u32)
                .set_metadata_mimetype(
                    String::from_utf8(m.mmime.to_vec()).unwrap(),
                )
                .set_data_mimetype(
                    String::from_utf8(m.dmime.to_vec()).unwrap(),
                );
            if m.resume {
                b = b.set_resume_flag();
            }
            if m.lease {
                b = b.set_lease_flag();
            }
            if let Some(t) = &m.token {
                b = b.set_resume_token(t.clone());
            }
            if let Some(x) = &m.meta {
                b = b.set_metadata(x.clone());
            }
            if let Some(x) = &m.data {
                b = b.set_data(x.clone());
            }
            Frame::Setup(b.build())
        }
        Ty::Lease => Frame::Lease(LeaseFrame::new(
            m.a as u32,
            m.b as u32,
            m.meta.clone(),
        )),
        Ty::Keepalive => Frame::Keepalive(KeepaliveFrame::new(
            m.a,
            m.data.clone(),
            m.respond,
        )),
        Ty::Response => Frame::RequestResponse(RequestResponseFrame::new(
            m.sid,
            m.follows,
            p(),
        )),
        Ty::Fnf => {
            Frame::RequestFnf(RequestFnfFrame::new(m.sid, m.follows, p()))
        }
        Ty::Stream => Frame::RequestStream(RequestStreamFrame::new(
            m.sid,
            m.follows,
            m.a as u32,
            p(),
        )),
        Ty::Channel => Frame::RequestChannel(RequestChannelFrame::new(
            m.sid,
            m.follows,
            m.complete,
            m.a as u32,
            p(),
        )),
        Ty::RequestN => {
            Frame::RequestN(RequestNFrame::new(m.sid, m.a as u32))
        }
        Ty::Cancel => Frame::Cancel(CancelFrame::new(m.sid)),
        Ty::Payload => {
            let mut f = Flags::empty();
            if m.follows {
                f |= Flags::FOLLOWS;
            }
            if m.complete {
                f |= Flags::COMPLETE;
            }
            if m.next {
                f |= Flags::NEXT;
            }
            Frame::Payload(PayloadFrame::new(m.sid, f, p()))
        }
        Ty::Error => {
            Frame::Error(ErrorFrame::new(m.sid, m.code, m.data.clone()))
        }
        Ty::MetadataPush => Frame::MetadataPush(MetadataPushFrame::new(
            m.meta.clone().unwrap_or_default(),
        )),
        Ty::Resume => Frame::Resume(ResumeFrame::new(
            Version::new(m.major, m.minor),
            m.token.clone().unwrap_or_default(),
            m.a,
            m.b,
        )),
        Ty::ResumeOk => Frame::ResumeOk(ResumeOkFrame::new(m.a)),
    }
}

/// How strictly zero-length parts are compared.
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// As constructed.
    Exact,
    /// As read from the wire: data (and a KEEPALIVE's or ERROR's data) of
    /// zero bytes may be absent or empty.
    Wire,
}

macro_rules! same {
    ($what:literal, $got:expr, $want:expr) => {{
        let (got, want) = ($got, $want);
        if got != want {
            return Err(format!(
                "{}: reported {:?}, expected {:?}",
                $what, got, want
            ));
        }
    }};
}

fn same_opt(
    what: &str,
    got: Option<&Bytes>,
    want: Option<&Bytes>,
    loose: bool,
) -> Check {
    let eq = match (got, want) {
        (Some(a), Some(b)) => a == b,
        (None, None) => true,
        (None, Some(b)) | (Some(b), None) => loose && b.is_empty(),
    };
    if eq {
        Ok(())
    } else {
        Err(format!(
            "{what}: reported {}, expected {}",
            got.map_or("absent".into(), |b| short(b)),
            want.map_or("absent".into(), |b| short(b)),
        ))
    }
}

fn same_mime(what: &str, got: Option<&str>, want: &[u8]) -> Check {
    let want = match std::str::from_utf8(want) {
        Ok(s) if want.is_ascii() => Some(s),
        _ => None,
    };
    ensure!(got == want, "{what}: reported {got:?}, expected {want:?}");
    Ok(())
}

/// Compares a frame with the model through its accessors.
pub fn matches(m: &M, f: &Frame, mode: Mode) -> Check {
    let loose = mode == Mode::Wire;
    let meta = m.meta.as_ref();
    let data = m.data.as_ref();
    macro_rules! payload {
        ($f:expr, $data:ident) => {{
            same_opt("metadata", $f.metadata(), meta, false)?;
            same_opt("data", $f.$data(), data, loose)?;
            let (pm, pd) = $f.clone().payload().split();
            same_opt("metadata of payload", pm.as_ref(), meta, false)?;
            same_opt("data of payload", pd.as_ref(), data, loose)?;
        }};
    }
    match (m.ty, f) {
        (Ty::Setup, Frame::Setup(f)) => {
            same!("version", (f.version().major(), f.version().minor()), (m.major, m.minor));
            same!("keepalive interval", f.keepalive_interval(), Duration::from_millis(m.a));
            same!("keepalive timeout", f.keepalive_timeout(), Duration::from_millis(m.b));
            same!("lease flag", f.is_lease(), m.lease);
            same!("resume flag", f.is_resume(), m.resume);
            same_opt(
                "resume token",
                f.resume_token(),
                m.token.as_ref(),
                loose && m.resume,
            )?;
            same_mime("metadata MIME type", f.metadata_mimetype(), &m.mmime)?;
            same_mime("data MIME type", f.data_mimetype(), &m.dmime)?;
            payload!(f, data);
        }
        (Ty::Lease, Frame::Lease(f)) => {
            same!("ttl", f.ttl(), Duration::from_millis(m.a));
            same!("number of requests", f.number_of_requests() as u64, m.b);
            same_opt("metadata", f.metadata(), meta, false)?;
        }
        (Ty::Keepalive, Frame::Keepalive(f)) => {
            same!("position", f.last_received_position(), m.a);
            same!("respond flag", f.is_respond(), m.respond);
            same_opt("data", f.data(), data, loose)?;
        }
        (Ty::Response, Frame::RequestResponse(f)) => {
            same!("stream ID", f.stream_id(), m.sid);
            same!("follows flag", f.is_follows(), m.follows);
            payload!(f, data);
        }
        (Ty::Fnf, Frame::RequestFnf(f)) => {
            same!("stream ID", f.stream_id(), m.sid);
            same!("follows flag", f.is_follows(), m.follows);
            payload!(f, request_data);
        }
        (Ty::Stream, Frame::RequestStream(f)) => {
            same!("stream ID", f.stream_id(), m.sid);
            same!("follows flag", f.is_follows(), m.follows);
            same!("initial request n", f.initial_request_n() as u64, m.a);
            payload!(f, data);
        }
        (Ty::Channel, Frame::RequestChannel(f)) => {
            same!("stream ID", f.stream_id(), m.sid);
            same!("follows flag", f.is_follows(), m.follows);
            same!("complete flag", f.is_complete(), m.complete);
            same!("initial request n", f.initial_request_n() as u64, m.a);
            payload!(f, data);
        }
        (Ty::RequestN, Frame::RequestN(f)) => {
            same!("stream ID", f.stream_id(), m.sid);
            same!("request n", f.request_n() as u64, m.a);
        }
        (Ty::Cancel, Frame::Cancel(f)) => {
            same!("stream ID", f.stream_id(), m.sid);
        }
        (Ty::Payload, Frame::Payload(f)) => {
            same!("stream ID", f.stream_id(), m.sid);
            same!("follows flag", f.is_follows(), m.follows);
            same!("complete flag", f.is_complete(), m.complete);
            same!("next flag", f.is_next(), m.next);
            payload!(f, data);
        }
        (Ty::Error, Frame::Error(f)) => {
            same!("stream ID", f.stream_id(), m.sid);
            same!("error code", f.error_code(), m.code);
            same_opt("data", f.data(), data, loose)?;
            let text = f.data_utf8();
            let want =
                data.and_then(|d| std::str::from_utf8(d).ok());
            let ok = text == want
                || (loose
                    && data.map_or(true, |d| d.is_empty())
                    && text.unwrap_or("").is_empty());
            ensure!(ok, "error text: reported {text:?}, expected {want:?}");
        }
        (Ty::MetadataPush, Frame::MetadataPush(f)) => {
            same_opt(
                "metadata",
                Some(f.metadata()),
                Some(&m.meta.clone().unwrap_or_default()),
                false,
            )?;
        }
        (Ty::Resume, Frame::Resume(f)) => {
            same!("version", (f.version().major(), f.version().minor()), (m.major, m.minor));
            same_opt(
                "resume token",
                Some(f.resume_token()),
                Some(&m.token.clone().unwrap_or_default()),
                false,
            )?;
            same!("server position", f.last_received_server_position(), m.a);
            same!("client position", f.first_available_client_position(), m.b);
        }
        (Ty::ResumeOk, Frame::ResumeOk(f)) => {
            same!("position", f.last_received_server_position(), m.a);
        }
        _ => {
            return Err(format!(
                "frame type: expected {:?}, got {}",
                m.ty,
                variant(f)
            ))
        }
    }
    Ok(())
}

pub fn variant(f: &Frame) -> &'static str {
    match f {
        Frame::Setup(_) => "Setup",
        Frame::Error(_) => "Error",
        Frame::Lease(_) => "Lease",
        Frame::Keepalive(_) => "Keepalive",
        Frame::RequestResponse(_) => "RequestResponse",
        Frame::RequestFnf(_) => "RequestFnf",
        Frame::RequestStream(_) => "RequestStream",
        Frame::RequestChannel(_) => "RequestChannel",
        Frame::RequestN(_) => "RequestN",
        Frame::Cancel(_) => "Cancel",
        Frame::Payload(_) => "Payload",
        Frame::MetadataPush(_) => "MetadataPush",
        Frame::Resume(_) => "Resume",
        Frame::ResumeOk(_) => "ResumeOk",
    }
}

/// True if no zero-length field lacks a presence bit, so that decoding must
/// give back an equal frame.
pub fn exact_on_wire(m: &M) -> bool {
    let empty = |o: &Option<Bytes>| matches!(o, Some(b) if b.is_empty());
    match m.ty {
        Ty::Lease | Ty::MetadataPush | Ty::Resume => true,
        Ty::Setup => !(m.resume && m.token.is_none()) && !empty(&m.data),
        _ => !empty(&m.data),
    }
}

// -------------------------------------------------------------- generation

/// A valid frame of the given type.
pub fn gen_frame_of(cx: &mut Cx, ty: Ty) -> M {
    let mut m = M::blank(ty);
    if !ty.on_zero() {
        m.sid = u31nz(cx);
        if cx.rng.chance(1, 40) {
            m.sid = 0;
        }
    }
    match ty {
        Ty::Setup => {
            m.major = num(cx, 16) as u16;
            m.minor = num(cx, 16) as u16;
            m.a = u31(cx) as u64;
            m.b = u31(cx) as u64;
            m.lease = cx.rng.bool();
            m.resume = cx.rng.bool();
            if m.resume && cx.rng.chance(4, 5) {
                let n = len(cx, 65_535);
                m.token = Some(bytes_of(cx, n));
            }
            m.mmime = Bytes::from(ascii(cx, 255));
            m.dmime = Bytes::from(ascii(cx, 255));
            m.meta = part(cx, MAX24);
            m.data = part(cx, MAX24);
        }
        Ty::Lease => {
            m.a = u31(cx) as u64;
            m.b = u31(cx) as u64;
            m.meta = part(cx, MAX24);
        }
        Ty::Keepalive => {
            m.respond = cx.rng.bool();
            m.a = u63(cx);
            m.data = part(cx, MAX24);
        }
        Ty::Response | Ty::Fnf => {
            m.follows = cx.rng.bool();
            m.meta = part(cx, MAX24);
            m.data = part(cx, MAX24);
        }
        Ty::Stream | Ty::Channel => {
            m.follows = cx.rng.bool();
            m.complete = ty == Ty::Channel && cx.rng.bool();
            m.a = u31nz(cx) as u64;
            m.meta = part(cx, MAX24);
            m.data = part(cx, MAX24);
        }
        Ty::RequestN => m.a = u31nz(cx) as u64,
        Ty::Cancel => {}
        Ty::Payload => {
            m.follows = cx.rng.bool();
            m.complete = cx.rng.bool();
            m.next = cx.rng.bool();
            m.meta = part(cx, MAX24);
            m.data = part(cx, MAX24);
        }
        Ty::Error => {
            m.code = error_code(cx);
            if CONN_CODES.contains(&m.code) {
                m.sid = 0;
            }
            if STREAM_CODES.contains(&m.code) && m.sid == 0 {
                m.sid = 1;
            }
            if !STREAM_CODES.contains(&m.code) && cx.rng.chance(1, 4) {
                m.sid = 0;
            }
            m.data = part(cx, MAX24);
        }
        Ty::MetadataPush => {
            let n = len(cx, MAX24);
            m.meta = Some(bytes_of(cx, n));
        }
        Ty::Resume => {
            m.major = num(cx, 16) as u16;
            m.minor = num(cx, 16) as u16;
            let n = len(cx, 65_535);
            m.token = Some(bytes_of(cx, n));
            m.a = u63(cx);
            m.b = u63(cx);
        }
        Ty::ResumeOk => m.a = u63(cx),
    }
    if cx.rng.chance(1, 5) {
        coincide(cx, &mut m);
    }
    m
}

/// Makes fields agree, or nearly, that have nothing to do with each other.
fn coincide(cx: &mut Cx, m: &mut M) {
    if cx.rng.bool() {
        if let (Some(a), Some(b)) = (&m.meta, &m.data) {
            let from_meta = cx.rng.bool();
            let x = alike(cx, if from_meta { a } else { b });
            if x.len() <= MAX24 {
                *(if from_meta { &mut m.data } else { &mut m.meta }) = Some(x);
            }
        }
    }
    if m.ty == Ty::Setup {
        match cx.rng.below(6) {
            0 => m.dmime = m.mmime.clone(),
            1 => m.mmime = Bytes::copy_from_slice(&m.dmime),
            2 => {
                let mut v = m.mmime.to_vec();
                match cx.rng.below(3) {
                    0 if v.len() < 255 => v.push(b'x'),
                    1 => {
                        v.pop();
                    }
                    _ => v.make_ascii_uppercase(),
                }
                m.dmime = v.into();
            }
            3 if m.data.is_some() && m.dmime.len() < 256 => m.data = Some(m.dmime.clone()),
            4 if m.meta.is_some() => m.meta = Some(m.mmime.clone()),
            _ => {}
        }
        if m.token.is_some() && cx.rng.chance(1, 3) {
            let k = cx.rng.below(3);
            let x = [&m.meta, &m.data, &Some(m.mmime.clone())][k].clone();
            if let Some(x) = x.filter(|x| x.len() <= 65_535) {
                m.token = Some(x);
            }
        }
    }
    // Which numbers the type has, and how many bits.
    let (a, b) = match m.ty {
        Ty::Setup | Ty::Lease => (31, 31),
        Ty::Resume => (63, 63),
        Ty::Keepalive | Ty::ResumeOk => (63, 0),
        Ty::Stream | Ty::Channel | Ty::RequestN => (31, 0),
        _ => (0, 0),
    };
    let part = |o: &Option<Bytes>| o.as_ref().map_or(0, |b| b.len() as u64);
    let rel = [
        m.a,
        m.b,
        m.sid as u64,
        part(&m.meta),
        part(&m.data),
        part(&m.token),
        m.major as u64,
        m.minor as u64,
        m.mmime.len() as u64,
        part(&m.meta) + part(&m.data),
    ];
    let near = |cx: &mut Cx, bits: u32| {
        let v = *cx.rng.pick(&rel);
        let v = match cx.rng.below(5) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            2 => v.swap_bytes() >> (64 - bits.max(1).next_power_of_two()),
            _ => v,
        };
        v & ((1u64 << bits) - 1)
    };
    let nonzero = matches!(m.ty, Ty::Stream | Ty::Channel | Ty::RequestN) as u64;
    if a > 0 && cx.rng.bool() {
        m.a = near(cx, a).max(nonzero);
    }
    if b > 0 && cx.rng.bool() {
        m.b = near(cx, b);
    }
    if matches!(m.ty, Ty::Setup | Ty::Resume) && cx.rng.chance(1, 3) {
        match cx.rng.below(3) {
            0 => m.minor = m.major,
            1 => m.major = near(cx, 16) as u16,
            _ => m.minor = near(cx, 16) as u16,
        }
    }
    if !m.ty.on_zero() && m.ty != Ty::Error && m.sid != 0 && cx.rng.chance(1, 3) {
        m.sid = near(cx, 31).max(1) as u32;
    }
}

pub fn error_code(cx: &mut Cx) -> u32 {
    match cx.rng.below(4) {
        0 => *cx.rng.pick(&CONN_CODES),
        1 => *cx.rng.pick(&STREAM_CODES),
        2 => *cx.rng.pick(&[
            0, 5, 6, 0x100, 0x103, 0x200, 0x205, 0x300, 0x301, 0x302,
            0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_FFFE, 0xFFFF_FFFF,
            0x8000_0201, 0x8000_0101,
        ]),
        _ => num(cx, 32) as u32,
    }
}

pub fn gen_frame(cx: &mut Cx) -> M {
    // SETUP and PAYLOAD have the most freedom.
    let ty = match cx.rng.below(20) {
        0..=13 => TYPES[cx.rng.below(14)],
        14..=16 => Ty::Setup,
        17 => Ty::Payload,
        18 => Ty::Error,
        _ => *cx.rng.pick(&BOTH),
    };
    gen_frame_of(cx, ty)
}

pub fn gen_noise(cx: &mut Cx) -> Noise {
    if cx.rng.chance(1, 4) {
        return Noise::default();
    }
    Noise {
        sid_high: cx.rng.bool(),
        a_high: cx.rng.bool(),
        b_high: cx.rng.bool(),
        flags: match cx.rng.below(3) {
            0 => 0x3FF,
            1 => 1 << cx.rng.below(10),
            _ => cx.rng.u32() as u16,
        },
    }
}

/// The abstract frame with what is lost on the wire normalised.
pub fn as_on_wire(m: &M) -> M {
    let mut m = m.clone();
    let norm = |o: &mut Option<Bytes>| {
        if matches!(o, Some(b) if b.is_empty()) {
            *o = None
        }
    };
    norm(&mut m.data);
    if m.ty == Ty::Setup && m.resume && m.token.is_none() {
        m.token = Some(Bytes::new());
    }
    m
}
