//! A JSON reader independent of serde_json: strict, keeps number texts, last of equal keys wins.

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(m) => m.iter().rev().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    fn depth(&self) -> usize {
        match self {
            J::Arr(v) => 1 + v.iter().map(J::depth).max().unwrap_or(0),
            J::Obj(v) => 1 + v.iter().map(|(_, j)| j.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    /// Something a reader may legitimately refuse although it is JSON.
    pub fn extreme(&self) -> bool {
        fn huge(j: &J) -> bool {
            match j {
                J::Num(n) => n.parse::<f64>().map_or(true, |f| f.is_infinite()),
                J::Arr(v) => v.iter().any(huge),
                J::Obj(v) => v.iter().any(|(_, j)| huge(j)),
                _ => false,
            }
        }
        self.depth() > 100 || huge(self)
    }
    /// Equal as JSON values; numbers by value.
    pub fn same(&self, o: &J) -> bool {
        match (self, o) {
            (J::Null, J::Null) => true,
            (J::Bool(a), J::Bool(b)) => a == b,
            (J::Str(a), J::Str(b)) => a == b,
            (J::Num(a), J::Num(b)) => match (a.parse::<i128>(), b.parse::<i128>()) {
                (Ok(x), Ok(y)) if x.abs() <= u64::MAX as i128 => x == y,
                // what is not an integer of 64 bits is kept to the precision of a double, give or take rounding
                _ => match (a.parse::<f64>(), b.parse::<f64>()) {
                    (Ok(x), Ok(y)) => x == y || (x - y).abs() <= 1e-12 * x.abs(),
                    _ => false,
                },
            },
            (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (J::Obj(a), J::Obj(_)) => {
                let keys = |m: &J| match m {
                    J::Obj(v) => v.iter().map(|(k, _)| k.clone()).collect::<std::collections::BTreeSet<_>>(),
                    _ => Default::default(),
                };
                keys(self) == keys(o)
                    && a.iter().all(|(k, _)| matches!((self.get(k), o.get(k)), (Some(x), Some(y)) if x.same(y)))
            }
            _ => false,
        }
    }
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
    /// a string held something that is questionable (bytes that are not UTF-8, half of a surrogate pair)
    grey: bool,
}

/// The value and whether it holds strings that are questionable.
pub fn parse(b: &[u8]) -> Option<(J, bool)> {
    let mut p = P { b, i: 0, grey: false };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    (p.i == b.len()).then_some((v, p.grey))
}

impl P<'_> {
    fn ws(&mut self) {
        while matches!(self.b.get(self.i), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.i += 1;
        }
    }
    fn eat(&mut self, s: &str) -> Option<()> {
        self.b[self.i..].starts_with(s.as_bytes()).then(|| self.i += s.len())
    }
    fn value(&mut self, d: usize) -> Option<J> {
        if d > 5000 {
            return None;
        }
        match self.b.get(self.i)? {
            b'n' => self.eat("null").map(|_| J::Null),
            b't' => self.eat("true").map(|_| J::Bool(true)),
            b'f' => self.eat("false").map(|_| J::Bool(false)),
            b'"' => self.string().map(J::Str),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.eat("]").is_some() {
                    return Some(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value(d + 1)?);
                    self.ws();
                    if self.eat("]").is_some() {
                        return Some(J::Arr(v));
                    }
                    self.eat(",")?;
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.eat("}").is_some() {
                    return Some(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(":")?;
                    self.ws();
                    v.push((k, self.value(d + 1)?));
                    self.ws();
                    if self.eat("}").is_some() {
                        return Some(J::Obj(v));
                    }
                    self.eat(",")?;
                }
            }
            _ => self.number(),
        }
    }
    fn digits(&mut self) -> Option<usize> {
        let s = self.i;
        while self.b.get(self.i).is_some_and(u8::is_ascii_digit) {
            self.i += 1;
        }
        (self.i > s).then_some(self.i - s)
    }
    fn number(&mut self) -> Option<J> {
        let s = self.i;
        let _ = self.eat("-");
        let first = self.i;
        let n = self.digits()?;
        if n > 1 && self.b[first] == b'0' {
            return None;
        }
        if self.eat(".").is_some() {
            self.digits()?;
        }
        if self.eat("e").or_else(|| self.eat("E")).is_some() {
            let _ = self.eat("+").or_else(|| self.eat("-"));
            self.digits()?;
        }
        Some(J::Num(String::from_utf8_lossy(&self.b[s..self.i]).into()))
    }
    fn hex4(&mut self) -> Option<u32> {
        let h = self.b.get(self.i..self.i + 4)?;
        if !h.iter().all(u8::is_ascii_hexdigit) {
            return None;
        }
        self.i += 4;
        u32::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok()
    }
    fn string(&mut self) -> Option<String> {
        self.eat("\"")?;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = *self.b.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => break,
                0..=0x1f => return None,
                b'\\' => {
                    let e = *self.b.get(self.i)?;
                    self.i += 1;
                    let c = match e {
                        b'"' | b'\\' | b'/' => e as char,
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let u = self.hex4()?;
                            if (0xd800..0xdc00).contains(&u) && self.b[self.i..].starts_with(b"\\u") {
                                self.i += 2;
                                let l = self.hex4()?;
                                let joined = (0xdc00..0xe000)
                                    .contains(&l)
                                    .then(|| char::from_u32(0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00)))
                                    .flatten();
                                self.grey |= joined.is_none();
                                joined.unwrap_or('?')
                            } else {
                                let c = char::from_u32(u);
                                self.grey |= c.is_none();
                                c.unwrap_or('?')
                            }
                        }
                        _ => return None,
                    };
                    out.extend(c.to_string().as_bytes());
                }
                c => out.push(c),
            }
        }
        Some(String::from_utf8(out).unwrap_or_else(|e| {
            self.grey = true;
            String::from_utf8_lossy(e.as_bytes()).into()
        }))
    }
}
