//! The framing of snappy; every chunk is stored as it is.
const ID: &[u8] = b"\xff\x06\x00\x00sNaPpY";
const CHUNK: usize = 65536;
const TABLE: [u32; 256] = {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let (mut c, mut k) = (i as u32, 0);
        while k < 8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0x82f63b78 } else { c >> 1 };
            k += 1;
        }
        t[i] = c;
        i += 1;
    }
    t
};
fn checksum(data: &[u8]) -> u32 {
    let c = data.iter().fold(!0u32, |c, b| TABLE[(c as u8 ^ b) as usize] ^ (c >> 8));
    (!c).rotate_right(15).wrapping_add(0xa282ead8)
}
pub mod write {
    use std::io::{self, Write};

    pub struct FrameEncoder<W: Write> {
        inner: Option<W>,
        buf: Vec<u8>,
        started: bool,
    }
    pub struct IntoInnerError<W> {
        err: io::Error,
        _w: W,
    }
    impl<W> IntoInnerError<W> {
        pub fn error(&self) -> &io::Error {
            &self.err
        }
        pub fn into_error(self) -> io::Error {
            self.err
        }
    }
    impl<W> std::fmt::Debug for IntoInnerError<W> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.err.fmt(f)
        }
    }
    impl<W> std::fmt::Display for IntoInnerError<W> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.err.fmt(f)
        }
    }
    impl<W> std::error::Error for IntoInnerError<W> {}
    impl<W: Write> FrameEncoder<W> {
        pub fn new(w: W) -> Self {
            Self { inner: Some(w), buf: vec![], started: false }
        }
        pub fn into_inner(mut self) -> Result<W, IntoInnerError<FrameEncoder<W>>> {
            match self.flush() {
                Ok(()) => Ok(self.inner.take().expect("inner")),
                Err(err) => Err(IntoInnerError { err, _w: self }),
            }
        }
    }
    impl<W: Write> Write for FrameEncoder<W> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.buf.extend_from_slice(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            let w = self.inner.as_mut().expect("inner");
            for c in self.buf.chunks(super::CHUNK) {
                if !self.started {
                    w.write_all(super::ID)?;
                    self.started = true;
                }
                w.write_all(&[1])?;
                w.write_all(&(c.len() as u32 + 4).to_le_bytes()[..3])?;
                w.write_all(&super::checksum(c).to_le_bytes())?;
                w.write_all(c)?;
            }
            self.buf.clear();
            w.flush()
        }
    }
}
pub mod read {
    use std::io::{self, Read};

    pub struct FrameDecoder<R: Read> {
        r: R,
        buf: Vec<u8>,
        at: usize,
        started: bool,
    }
    fn bad(m: &str) -> io::Error {
        io::Error::other(format!("snappy: {m}"))
    }
    impl<R: Read> FrameDecoder<R> {
        pub fn new(r: R) -> Self {
            Self { r, buf: vec![], at: 0, started: false }
        }
        fn chunk(&mut self) -> io::Result<bool> {
            let mut h = [0u8; 4];
            if self.r.read(&mut h[..1])? == 0 {
                return Ok(false);
            }
            self.r.read_exact(&mut h[1..])?;
            let n = u32::from_le_bytes([h[1], h[2], h[3], 0]) as usize;
            if !self.started && h[0] != 0xff {
                return Err(bad("stream header expected"));
            }
            let mut body = vec![0; n];
            self.r.read_exact(&mut body)?;
            match h[0] {
                0xff if body == super::ID[4..] => self.started = true,
                0xff => return Err(bad("stream header mismatch")),
                1 if n >= 4 && n - 4 <= super::CHUNK => {
                    if super::checksum(&body[4..]).to_le_bytes() != body[..4] {
                        return Err(bad("checksum mismatch"));
                    }
                    self.buf = body[4..].to_vec();
                    self.at = 0;
                }
                0x80..=0xfe => {}
                _ => return Err(bad("unsupported chunk")),
            }
            Ok(true)
        }
    }
    impl<R: Read> Read for FrameDecoder<R> {
        fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
            while self.at == self.buf.len() {
                if !self.chunk()? {
                    return Ok(0);
                }
            }
            let n = out.len().min(self.buf.len() - self.at);
            out[..n].copy_from_slice(&self.buf[self.at..self.at + n]);
            self.at += n;
            Ok(n)
        }
    }
}
