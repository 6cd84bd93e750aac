//! Drives vorbis_bitpack as built for `#![no_std]`. Same protocol as `ovharness`, for
//! the commands `bitread` and `bitwrite`.

use std::{
	io::{BufRead, Write as _},
	panic::{AssertUnwindSafe, catch_unwind}
};

use acid_io::{Error, ErrorKind, Read, Result, Write};
use vorbis_bitpack::{BitpackReader, BitpackWriter, BitpackedIntegerWidth};

struct Chunked<'a>(&'a [u8], usize);
impl Read for Chunked<'_> {
	fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
		let n = buf.len().min(self.1).min(self.0.len());
		buf[..n].copy_from_slice(&self.0[..n]);
		self.0 = &self.0[n..];
		Ok(n)
	}
}

struct Sink {
	data: Vec<u8>,
	chunk: usize,
	fail_at: usize,
	zero_at: usize
}
impl Write for &mut Sink {
	fn write(&mut self, buf: &[u8]) -> Result<usize> {
		if self.data.len() >= self.fail_at && !buf.is_empty() {
			return Err(Error::from(ErrorKind::Other));
		}
		if self.data.len() >= self.zero_at {
			return Ok(0);
		}
		let limit = self.fail_at.min(self.zero_at) - self.data.len();
		let n = buf.len().min(self.chunk).min(limit);
		self.data.extend_from_slice(&buf[..n]);
		Ok(n)
	}
	fn flush(&mut self) -> Result<()> {
		Ok(())
	}
}

fn main() {
	std::panic::set_hook(Box::new(|_| ()));
	let stdin = std::io::stdin();
	for line in stdin.lock().lines() {
		let line = line.expect("stdin");
		let mut parts = line.split(' ');
		let id = parts.next().unwrap_or("");
		let Some(cmd) = parts.next() else { continue };
		let args: Vec<(&str, &str)> = parts.filter_map(|p| p.split_once('=')).collect();
		let get = |k: &str| args.iter().find(|a| a.0 == k).map_or("", |a| a.1);
		let mut out: Vec<String> = vec![];
		let tail;
		match cmd {
			"bitread" => {
				let h = get("in");
				let data: Vec<u8> = (0..h.len() / 2)
					.map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).expect("hex"))
					.collect();
				let mut source = Chunked(&data, get("chunk").parse().unwrap_or(usize::MAX));
				let mut reader = BitpackReader::new(&mut source);
				for op in get("ops").split(',').filter(|o| !o.is_empty()) {
					let w = BitpackedIntegerWidth::new(op[1..].parse().unwrap_or(0)).expect("width");
					let r = catch_unwind(AssertUnwindSafe(|| match &op[..1] {
						"u" => reader.read_unsigned_integer(w).map(|v| v.to_string()),
						"s" => reader.read_signed_integer(w).map(|v| v.to_string()),
						"g" => reader.read_flag().map(|v| (v as u8).to_string()),
						"f" => reader.read_float32().map(|v| format!("{:016x}", v.to_bits())),
						_ => panic!("bad op")
					}));
					match r {
						Ok(Ok(v)) => out.push(v),
						Ok(Err(e)) => out.push(format!("!{:?}", e.kind())),
						Err(_) => {
							out.push("!panic".into());
							break;
						}
					}
				}
				drop(reader);
				tail = format!("\"left\":{}", source.0.len());
			}
			"bitwrite" => {
				let mut sink = Sink {
					data: vec![],
					chunk: usize::MAX,
					fail_at: usize::MAX,
					zero_at: usize::MAX
				};
				for item in get("writer").split(',').filter(|i| !i.is_empty()) {
					let n = item[1..].parse().unwrap_or(0);
					match &item[..1] {
						"c" => sink.chunk = n,
						"f" => sink.fail_at = n,
						"z" => sink.zero_at = n,
						_ => ()
					}
				}
				{
					let mut writer = BitpackWriter::new(&mut sink);
					for op in get("ops").split(',').filter(|o| !o.is_empty()) {
						let (k, v) = op.split_once('=').unwrap_or((op, ""));
						let w = BitpackedIntegerWidth::new(k[1..].parse().unwrap_or(0)).expect("width");
						let r = catch_unwind(AssertUnwindSafe(|| match &k[..1] {
							"u" => writer.write_unsigned_integer(v.parse().unwrap(), w),
							"s" => writer.write_signed_integer(v.parse().unwrap(), w),
							"g" => writer.write_flag(v == "1"),
							"f" => writer.write_float32(f64::from_bits(u64::from_str_radix(v, 16).unwrap())),
							"z" => writer.finalize(),
							"y" => writer.flush(),
							_ => panic!("bad op")
						}));
						match r {
							Ok(Ok(())) => out.push("ok".into()),
							Ok(Err(e)) => out.push(format!("!{:?}", e.kind())),
							Err(_) => {
								out.push("!panic".into());
								break;
							}
						}
					}
				}
				tail = format!("\"out\":\"{}\"", sink.data.iter().map(|b| format!("{b:02x}")).collect::<String>());
			}
			_ => panic!("unknown command {cmd}")
		}
		let vals: Vec<String> = out.iter().map(|v| format!("\"{v}\"")).collect();
		let mut o = std::io::stdout().lock();
		writeln!(o, "{{\"id\":\"{id}\",\"vals\":[{}],{tail}}}", vals.join(",")).expect("stdout");
		o.flush().expect("stdout");
	}
}
