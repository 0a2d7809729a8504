pub mod read {
    use std::io::Read;
    #[derive(Debug)]
    pub enum Error {
        IoError(std::io::Error),
        Overflow,
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            match self {
                Error::IoError(e) => e.fmt(f),
                Error::Overflow => write!(f, "The number being read is larger than can be represented"),
            }
        }
    }
    impl std::error::Error for Error {}
    pub fn unsigned<R: Read + ?Sized>(r: &mut R) -> Result<u64, Error> {
        let (mut result, mut shift) = (0u64, 0u32);
        loop {
            let mut buf = [0u8];
            r.read_exact(&mut buf).map_err(Error::IoError)?;
            if shift == 63 && buf[0] != 0 && buf[0] != 1 {
                while buf[0] & 0x80 != 0 {
                    r.read_exact(&mut buf).map_err(Error::IoError)?;
                }
                return Err(Error::Overflow);
            }
            result |= ((buf[0] & 0x7f) as u64) << shift;
            if buf[0] & 0x80 == 0 {
                return Ok(result);
            }
            shift += 7;
        }
    }
}
pub mod write {
    use std::io::{Error, Write};
    pub fn unsigned<W: Write + ?Sized>(w: &mut W, mut val: u64) -> Result<usize, Error> {
        let mut n = 0;
        loop {
            let mut b = (val & 0x7f) as u8;
            val >>= 7;
            if val != 0 {
                b |= 0x80;
            }
            w.write_all(&[b])?;
            n += 1;
            if val == 0 {
                return Ok(n);
            }
        }
    }
}
