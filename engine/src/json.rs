//! Minimal JSON reader.
#[derive(Debug, Clone)]
pub enum J {
    Null,
    B(bool),
    N(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
pub struct P<'a> {
    b: &'a [u8],
    i: usize,
}
pub fn parse(s: &str) -> Result<J, String> {
    let mut p = P { b: s.as_bytes(), i: 0 };
    p.val()
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && (self.b[self.i] as char).is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn val(&mut self) -> Result<J, String> {
        self.ws();
        match *self.b.get(self.i).ok_or("eof")? {
            b'n' => {
                self.i += 4;
                Ok(J::Null)
            }
            b't' => {
                self.i += 4;
                Ok(J::B(true))
            }
            b'f' => {
                self.i += 5;
                Ok(J::B(false))
            }
            b'"' => Ok(J::S(self.str()?)),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    if self.b[self.i] == b']' {
                        self.i += 1;
                        return Ok(J::A(v));
                    }
                    if self.b[self.i] == b',' {
                        self.i += 1;
                    }
                    v.push(self.val()?);
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    match self.b[self.i] {
                        b'}' => {
                            self.i += 1;
                            return Ok(J::O(v));
                        }
                        b',' => {
                            self.i += 1;
                        }
                        b'"' => {
                            let k = self.str()?;
                            self.ws();
                            if self.b[self.i] != b':' {
                                return Err("expected :".into());
                            }
                            self.i += 1;
                            let x = self.val()?;
                            v.push((k, x));
                        }
                        c => return Err(format!("bad char {}", c as char)),
                    }
                }
            }
            c if c.is_ascii_digit() => {
                let st = self.i;
                while self.i < self.b.len() && self.b[self.i].is_ascii_digit() {
                    self.i += 1;
                }
                std::str::from_utf8(&self.b[st..self.i]).unwrap().parse().map(J::N).map_err(|e| format!("{}", e))
            }
            c => Err(format!("bad char {} at {}", c as char, self.i)),
        }
    }
    fn str(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut o: Vec<u8> = vec![];
        loop {
            let c = *self.b.get(self.i).ok_or("eof in string")?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(o).map_err(|e| e.to_string()),
                b'\\' => {
                    let d = self.b[self.i];
                    self.i += 1;
                    match d {
                        b'n' => o.push(b'\n'),
                        b't' => o.push(b'\t'),
                        b'u' => {
                            let h = std::str::from_utf8(&self.b[self.i..self.i + 4]).unwrap();
                            self.i += 4;
                            let ch = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap_or('?');
                            let mut buf = [0; 4];
                            o.extend(ch.encode_utf8(&mut buf).bytes());
                        }
                        x => o.push(x),
                    }
                }
                c => o.push(c),
            }
        }
    }
}
impl J {
    pub fn get(&self, k: &str) -> &J {
        if let J::O(v) = self {
            for (a, b) in v {
                if a == k {
                    return b;
                }
            }
        }
        &J::Null
    }
    pub fn arr(&self) -> &[J] {
        if let J::A(v) = self {
            v
        } else {
            &[]
        }
    }
    pub fn at(&self, i: usize) -> &J {
        self.arr().get(i).unwrap_or(&J::Null)
    }
    pub fn us(&self) -> usize {
        self.n() as usize
    }
    pub fn n(&self) -> u128 {
        match self {
            J::N(n) => *n,
            _ => panic!("json: expected number, got {:?}", self),
        }
    }
    pub fn st(&self) -> &str {
        if let J::S(s) = self {
            s
        } else {
            ""
        }
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::B(true))
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    pub fn is_n(&self) -> bool {
        matches!(self, J::N(_))
    }
}
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
