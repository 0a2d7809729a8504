#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Nibbles {
    hex_data: Vec<u8>,
}
impl Nibbles {
    pub fn from_hex(hex: &[u8]) -> Self {
        Self { hex_data: hex.to_vec() }
    }
    pub fn from_raw(raw: &[u8], is_leaf: bool) -> Self {
        let mut h: Vec<u8> = raw.iter().flat_map(|b| [b >> 4, b & 15]).collect();
        if is_leaf {
            h.push(16);
        }
        Self { hex_data: h }
    }
    pub fn from_compact(compact: &[u8]) -> Self {
        let mut hex = vec![];
        if compact.is_empty() {
            return Self { hex_data: hex };
        }
        let flag = compact[0] >> 4;
        if flag & 1 == 1 {
            hex.push(compact[0] & 15);
        }
        for b in &compact[1..] {
            hex.push(b >> 4);
            hex.push(b & 15);
        }
        if flag & 2 == 2 {
            hex.push(16);
        }
        Self { hex_data: hex }
    }
    pub fn is_leaf(&self) -> bool {
        self.hex_data.last() == Some(&16)
    }
    pub fn encode_compact(&self) -> Vec<u8> {
        let leaf = self.is_leaf();
        let hex = if leaf { &self.hex_data[..self.hex_data.len() - 1] } else { &self.hex_data[..] };
        let mut v = if leaf { 0x20 } else { 0 };
        let rest = if hex.len() % 2 == 1 {
            v |= 0x10 | hex[0];
            &hex[1..]
        } else {
            hex
        };
        let mut out = vec![v];
        out.extend(rest.chunks(2).map(|c| c[0] << 4 | c[1]));
        out
    }
    pub fn len(&self) -> usize {
        self.hex_data.len()
    }
    pub fn is_empty(&self) -> bool {
        self.hex_data.is_empty()
    }
    pub fn at(&self, i: usize) -> usize {
        self.hex_data[i] as usize
    }
    pub fn get_data(&self) -> &[u8] {
        &self.hex_data
    }
    pub fn push(&mut self, e: u8) {
        self.hex_data.push(e)
    }
    pub fn offset(&self, i: usize) -> Nibbles {
        self.slice(i, self.len())
    }
    pub fn slice(&self, a: usize, b: usize) -> Nibbles {
        Nibbles { hex_data: self.hex_data[a..b].to_vec() }
    }
    pub fn extend(&mut self, b: &Nibbles) {
        self.hex_data.extend_from_slice(b.get_data())
    }
}
