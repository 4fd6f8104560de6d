from s1 import AL, MA
SPECS=[]
def S(id,prop,edits,demo,needs,breaks,hooks=False,**k): SPECS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,hooks=hooks,**k))
BE='miri run -q --target s390x-unknown-linux-gnu'
W32='miri run -q --target i686-unknown-linux-gnu'
S('x01-swapped','X01',[('frame/version.rs','''        buf.put_u16(self.major);
        buf.put_u16(self.minor);''','''        // Major first, both in network order.
        let v = (self.major.swap_bytes() as u32) | (self.minor.swap_bytes() as u32) << 16;
        buf.put_slice(&v.to_ne_bytes());''')],AL+'''
fn main() {
    let mut b = BytesMut::new();
    Version::new(0x0102, 0x0304).encode(&mut b);
    assert_eq!(&b[..], &[1, 2, 3, 4]);
}''','a machine that stores the most significant byte first','the version is written in the byte order of a little-endian machine', tool='nightly', cmd=BE)
S('x01-word-position','X01',[('frame/codec/keepalive.rs','''        let last_received_position = eat_u63(buf)?;''','''        let position = eat_u63(buf)? as usize;
        let last_received_position = position as u64;''')],AL+'''
fn main() {
    let f = KeepaliveFrame::new(0x1234_5678_9ABC, None, true);
    match Frame::decode(&mut f.to_bytes()).unwrap() {
        Frame::Keepalive(g) => assert_eq!(g.last_received_position(), 0x1234_5678_9ABC),
        _ => panic!(),
    }
}''','a machine with words of 32 bits and a position beyond them','the position is cut to the word', tool='nightly', cmd=W32)
S('x01-aliased-u16','X01',[('frame/codec/resume.rs','''        let token_len = eat_u16(buf)?;
        let resume_token = eat_bytes(buf, token_len as usize)?;''','''        // The length is two bytes of its own.
        let len = eat_bytes(buf, 2)?;
        let len = [len[1], len[0]];
        let token_len = unsafe { (len.as_ptr() as *const u16).read_unaligned() };
        let resume_token = eat_bytes(buf, token_len as usize)?;''')],AL+'''
fn main() {
    let f = ResumeFrame::new(Version::new(1, 0), Bytes::from(vec![7; 3]), 1, 2);
    match Frame::decode(&mut f.to_bytes()) {
        Ok(Frame::Resume(g)) => assert_eq!(g.resume_token().len(), 3),
        e => panic!("{:?}", e),
    }
}''','a machine that stores the most significant byte first','the token length is read with its bytes exchanged', tool='nightly', cmd=BE)
