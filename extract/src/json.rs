//! Minimal JSON writer, so that the extractor has no dependencies.
pub enum J {
	Null,
	B(bool),
	N(i64),
	S(String),
	A(Vec<J>),
	O(Vec<(&'static str, J)>),
}

pub fn s(v: impl Into<String>) -> J {
	J::S(v.into())
}

impl J {
	pub fn write(&self, out: &mut String) {
		match self {
			J::Null => out.push_str("null"),
			J::B(b) => out.push_str(if *b { "true" } else { "false" }),
			J::N(n) => out.push_str(&n.to_string()),
			J::S(v) => {
				out.push('"');
				for c in v.chars() {
					match c {
						'"' => out.push_str("\\\""),
						'\\' => out.push_str("\\\\"),
						'\n' => out.push_str("\\n"),
						'\r' => out.push_str("\\r"),
						'\t' => out.push_str("\\t"),
						c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
						c => out.push(c),
					}
				}
				out.push('"');
			}
			J::A(v) => {
				out.push('[');
				for (i, x) in v.iter().enumerate() {
					if i > 0 {
						out.push(',');
					}
					x.write(out);
				}
				out.push(']');
			}
			J::O(v) => {
				out.push('{');
				for (i, (k, x)) in v.iter().enumerate() {
					if i > 0 {
						out.push(',');
					}
					out.push('"');
					out.push_str(k);
					out.push_str("\":");
					x.write(out);
				}
				out.push('}');
			}
		}
	}
}
