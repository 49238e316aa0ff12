//! A strict JSON parser (RFC 8259).

#[derive(Debug, Clone, PartialEq)]
pub enum J { Null, Bool(bool), Num(String), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }
impl J {
	pub fn get(&self, k: &str) -> Option<&J> { if let J::Obj(v) = self { v.iter().find(|x| x.0 == k).map(|x| &x.1) } else { None } }
	pub fn str(&self) -> Option<&str> { if let J::Str(s) = self { Some(s) } else { None } }
	pub fn u64(&self) -> Option<u64> { if let J::Num(s) = self { s.parse().ok() } else { None } }
	pub fn arr(&self) -> Option<&[J]> { if let J::Arr(s) = self { Some(s) } else { None } }
	pub fn bytes(&self) -> Option<Vec<u8>> {
		self.arr()?.iter().map(|x| x.u64().filter(|v| *v < 256).map(|v| v as u8)).collect()
	}
}
struct P<'a> { s: &'a [u8], i: usize }
pub fn parse(s: &str) -> Result<J, String> {
	let mut p = P { s: s.as_bytes(), i: 0 };
	p.ws();
	let v = p.value(0)?;
	p.ws();
	if p.i != p.s.len() { return Err(format!("trailing text at {}", p.i)); }
	Ok(v)
}
impl<'a> P<'a> {
	fn ws(&mut self) { while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') { self.i += 1; } }
	fn peek(&self) -> u8 { self.s.get(self.i).copied().unwrap_or(0) }
	fn err<T>(&self, m: &str) -> Result<T, String> { Err(format!("{} at byte {}", m, self.i)) }
	fn lit(&mut self, l: &str, v: J) -> Result<J, String> {
		if self.s[self.i..].starts_with(l.as_bytes()) { self.i += l.len(); Ok(v) } else { self.err("bad literal") }
	}
	fn value(&mut self, depth: usize) -> Result<J, String> {
		if depth > 50 { return self.err("too deep"); }
		match self.peek() {
			b'n' => self.lit("null", J::Null), b't' => self.lit("true", J::Bool(true)), b'f' => self.lit("false", J::Bool(false)),
			b'"' => Ok(J::Str(self.string()?)),
			b'[' => {
				self.i += 1; self.ws();
				let mut v = Vec::new();
				if self.peek() == b']' { self.i += 1; return Ok(J::Arr(v)); }
				loop {
					self.ws(); v.push(self.value(depth + 1)?); self.ws();
					match self.peek() { b',' => self.i += 1, b']' => { self.i += 1; return Ok(J::Arr(v)); }, _ => return self.err("expected , or ]") }
				}
			},
			b'{' => {
				self.i += 1; self.ws();
				let mut v: Vec<(String, J)> = Vec::new();
				if self.peek() == b'}' { self.i += 1; return Ok(J::Obj(v)); }
				loop {
					self.ws();
					if self.peek() != b'"' { return self.err("expected key"); }
					let k = self.string()?;
					if v.iter().any(|x| x.0 == k) { return self.err("duplicate key"); }
					self.ws();
					if self.peek() != b':' { return self.err("expected :"); }
					self.i += 1; self.ws();
					let x = self.value(depth + 1)?;
					v.push((k, x));
					self.ws();
					match self.peek() { b',' => self.i += 1, b'}' => { self.i += 1; return Ok(J::Obj(v)); }, _ => return self.err("expected , or }") }
				}
			},
			b'-' | b'0'..=b'9' => {
				let st = self.i;
				if self.peek() == b'-' { self.i += 1; }
				if self.peek() == b'0' { self.i += 1; } else if self.peek().is_ascii_digit() { while self.peek().is_ascii_digit() { self.i += 1; } } else { return self.err("number"); }
				if self.peek() == b'.' { self.i += 1; if !self.peek().is_ascii_digit() { return self.err("number"); } while self.peek().is_ascii_digit() { self.i += 1; } }
				if matches!(self.peek(), b'e' | b'E') {
					self.i += 1;
					if matches!(self.peek(), b'+' | b'-') { self.i += 1; }
					if !self.peek().is_ascii_digit() { return self.err("number"); }
					while self.peek().is_ascii_digit() { self.i += 1; }
				}
				Ok(J::Num(String::from_utf8(self.s[st..self.i].to_vec()).unwrap()))
			},
			_ => self.err("unexpected character"),
		}
	}
	fn hex4(&mut self) -> Result<u32, String> {
		if self.i + 4 > self.s.len() { return self.err("short \\u"); }
		let t = std::str::from_utf8(&self.s[self.i..self.i + 4]).map_err(|_| "bad \\u")?;
		if !t.bytes().all(|c| c.is_ascii_hexdigit()) { return self.err("bad \\u"); }
		self.i += 4;
		Ok(u32::from_str_radix(t, 16).unwrap())
	}
	fn string(&mut self) -> Result<String, String> {
		self.i += 1;
		let mut o: Vec<u8> = Vec::new();
		loop {
			if self.i >= self.s.len() { return self.err("unterminated string"); }
			let c = self.s[self.i];
			self.i += 1;
			match c {
				b'"' => return String::from_utf8(o).map_err(|_| "string is not UTF-8".to_string()),
				b'\\' => {
					let e = self.peek();
					self.i += 1;
					let ch = match e {
						b'"' => '"', b'\\' => '\\', b'/' => '/', b'b' => '\u{8}', b'f' => '\u{c}', b'n' => '\n', b'r' => '\r', b't' => '\t',
						b'u' => {
							let mut u = self.hex4()?;
							if (0xd800..0xdc00).contains(&u) {
								if self.peek() != b'\\' { return self.err("lone surrogate"); }
								self.i += 1;
								if self.peek() != b'u' { return self.err("lone surrogate"); }
								self.i += 1;
								let l = self.hex4()?;
								if !(0xdc00..0xe000).contains(&l) { return self.err("lone surrogate"); }
								u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
							}
							match char::from_u32(u) { Some(c) => c, None => return self.err("lone surrogate") }
						},
						_ => return self.err("bad escape"),
					};
					let mut b = [0; 4];
					o.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
				},
				0..=0x1f => return self.err("control character in string"),
				c => o.push(c),
			}
		}
	}
}
