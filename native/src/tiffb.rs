//! Minimal TIFF writer for building input files.
#[derive(Clone, Debug)]
pub enum Val { Byte(Vec<u8>), Ascii(String), Short(Vec<u16>), Long(Vec<u32>), Rational(Vec<(u32, u32)>), SRational(Vec<(i32, i32)>), Undef(Vec<u8>), SByte(Vec<u8>), Ifd(Vec<Ifd>), Raw(u16, u32, Vec<u8>) }

#[derive(Clone, Debug, Default)]
pub struct Ifd { pub tags: Vec<(u16, Val)> }
impl Ifd {
    pub fn new() -> Ifd { Ifd { tags: vec![] } }
    pub fn tag(mut self, t: u16, v: Val) -> Ifd { self.tags.push((t, v)); self }
    pub fn short(self, t: u16, v: u16) -> Ifd { self.tag(t, Val::Short(vec![v])) }
    pub fn long(self, t: u16, v: u32) -> Ifd { self.tag(t, Val::Long(vec![v])) }
    pub fn ascii(self, t: u16, v: &str) -> Ifd { self.tag(t, Val::Ascii(v.to_string())) }
}

pub struct Builder { pub be: bool, pub buf: Vec<u8> }
impl Builder {
    pub fn new(be: bool) -> Builder {
        let mut b = Builder { be, buf: vec![] };
        b.buf.extend_from_slice(if be { b"MM" } else { b"II" });
        b.p16(42); b.p32(0);
        b
    }
    pub fn p16(&mut self, v: u16) { let x = if self.be { v.to_be_bytes() } else { v.to_le_bytes() }; self.buf.extend_from_slice(&x); }
    pub fn p32(&mut self, v: u32) { let x = if self.be { v.to_be_bytes() } else { v.to_le_bytes() }; self.buf.extend_from_slice(&x); }
    pub fn set32(&mut self, pos: usize, v: u32) { let x = if self.be { v.to_be_bytes() } else { v.to_le_bytes() }; self.buf[pos..pos + 4].copy_from_slice(&x); }
    pub fn align(&mut self) { if self.buf.len() % 2 == 1 { self.buf.push(0); } }
    /// append raw data, return its offset
    pub fn data(&mut self, d: &[u8]) -> u32 { self.align(); let o = self.buf.len() as u32; self.buf.extend_from_slice(d); o }
    fn enc(&mut self, v: &Val) -> (u16, u32, Vec<u8>) {
        let be = self.be;
        let e16 = |x: u16| if be { x.to_be_bytes().to_vec() } else { x.to_le_bytes().to_vec() };
        let e32 = |x: u32| if be { x.to_be_bytes().to_vec() } else { x.to_le_bytes().to_vec() };
        match v {
            Val::Byte(b) => (1, b.len() as u32, b.clone()),
            Val::Ascii(s) => { let mut b = s.as_bytes().to_vec(); b.push(0); (2, b.len() as u32, b) }
            Val::Short(s) => (3, s.len() as u32, s.iter().flat_map(|x| e16(*x)).collect()),
            Val::Long(s) => (4, s.len() as u32, s.iter().flat_map(|x| e32(*x)).collect()),
            Val::Rational(s) => (5, s.len() as u32, s.iter().flat_map(|x| [e32(x.0), e32(x.1)].concat()).collect()),
            Val::SByte(b) => (6, b.len() as u32, b.clone()),
            Val::Undef(b) => (7, b.len() as u32, b.clone()),
            Val::SRational(s) => (10, s.len() as u32, s.iter().flat_map(|x| [e32(x.0 as u32), e32(x.1 as u32)].concat()).collect()),
            Val::Ifd(l) => {
                let offs: Vec<u32> = l.iter().map(|i| self.write_ifd(i, 0).0).collect();
                (4, offs.len() as u32, offs.iter().flat_map(|x| e32(*x)).collect())
            }
            Val::Raw(t, n, b) => (*t, *n, b.clone()),
        }
    }
    /// writes the IFD; returns (its offset, position of its next-IFD pointer)
    pub fn write_ifd(&mut self, ifd: &Ifd, next: u32) -> (u32, usize) {
        let mut ents = vec![];
        for (t, v) in ifd.tags.clone().iter() {
            let (ty, n, mut b) = self.enc(v);
            if b.len() > 4 { let o = self.data(&b); b = if self.be { o.to_be_bytes().to_vec() } else { o.to_le_bytes().to_vec() }; }
            b.resize(4, 0);
            ents.push((*t, ty, n, b));
        }
        self.align();
        let off = self.buf.len() as u32;
        self.p16(ents.len() as u16);
        for (t, ty, n, b) in ents { self.p16(t); self.p16(ty); self.p32(n); self.buf.extend_from_slice(&b); }
        let np = self.buf.len();
        self.p32(next);
        (off, np)
    }
    /// chain of top-level IFDs; finishes the file
    pub fn finish(mut self, ifds: &[Ifd]) -> Vec<u8> {
        let mut prev = 4usize;
        for i in ifds { let (o, np) = self.write_ifd(i, 0); self.set32(prev, o); prev = np; }
        self.buf
    }
}
