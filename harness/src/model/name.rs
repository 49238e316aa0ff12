//! Domain names as label lists (RFC 1035, RFC 4034 section 6).

use std::cmp::Ordering;

/// Labels, leftmost first, without the root label. Always lower case.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct MName(pub Vec<Vec<u8>>);

impl MName {
	pub fn root() -> MName { MName(Vec::new()) }
	/// From a simple textual name in which no label contains a dot.
	pub fn of(s: &str) -> MName {
		if s == "." { return MName::root(); }
		assert!(s.ends_with('.'), "{}", s);
		MName(s[..s.len() - 1].split('.').map(|l| l.to_ascii_lowercase().into_bytes()).collect())
	}
	pub fn text(&self) -> String {
		if self.0.is_empty() { return ".".into(); }
		let mut s = String::new();
		for l in &self.0 { s += &String::from_utf8_lossy(l); s.push('.'); }
		s
	}
	pub fn labels(&self) -> usize { self.0.len() }
	/// The length of the wire form.
	pub fn wire_len(&self) -> usize { 1 + self.0.iter().map(|l| l.len() + 1).sum::<usize>() }
	/// Whether the crate's documented name limit (255 textual bytes) and RFC 1035's (255 wire bytes) both allow this name.
	pub fn fits(&self) -> bool { self.wire_len() <= 255 }
	pub fn wire(&self) -> Vec<u8> {
		let mut o = Vec::new();
		for l in &self.0 { o.push(l.len() as u8); o.extend(l.iter().map(|b| b.to_ascii_lowercase())); }
		o.push(0);
		o
	}
	pub fn child(&self, label: &[u8]) -> MName {
		let mut v = vec![label.to_ascii_lowercase()];
		v.extend(self.0.iter().cloned());
		MName(v)
	}
	pub fn child_s(&self, label: &str) -> MName { self.child(label.as_bytes()) }
	pub fn join(&self, suffix: &MName) -> MName {
		let mut v = self.0.clone();
		v.extend(suffix.0.iter().cloned());
		MName(v)
	}
	pub fn parent(&self) -> Option<MName> { if self.0.is_empty() { None } else { Some(MName(self.0[1..].to_vec())) } }
	/// The name made of the last `n` labels.
	pub fn suffix(&self, n: usize) -> MName { MName(self.0[self.0.len() - n..].to_vec()) }
	/// Equal to or below `zone`, label-wise.
	pub fn is_in(&self, zone: &MName) -> bool {
		self.0.len() >= zone.0.len() && self.0[self.0.len() - zone.0.len()..] == zone.0[..]
	}
	pub fn is_below(&self, zone: &MName) -> bool { self.0.len() > zone.0.len() && self.is_in(zone) }
	pub fn wildcard(&self) -> MName { self.child(b"*") }
	pub fn is_wildcard(&self) -> bool { self.0.first().map_or(false, |l| l == b"*") }
	/// Canonical name order, RFC 4034 section 6.1.
	pub fn canon_cmp(&self, o: &MName) -> Ordering {
		let mut a = self.0.iter().rev();
		let mut b = o.0.iter().rev();
		loop {
			match (a.next(), b.next()) {
				(None, None) => return Ordering::Equal,
				(None, Some(_)) => return Ordering::Less,
				(Some(_), None) => return Ordering::Greater,
				(Some(x), Some(y)) => {
					let c = x.to_ascii_lowercase().cmp(&y.to_ascii_lowercase());
					if c != Ordering::Equal { return c; }
				},
			}
		}
	}
}
