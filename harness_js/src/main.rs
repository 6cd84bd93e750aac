//! Drives the JavaScript bindings of the library, compiled for this machine. A request is a history of
//! calls of one binding object ("js"), or of one remuxer with default settings ("lib"):
//!   ID js|lib HEX,HEX,...
use std::{
	io::{self, BufRead, Cursor, Write},
	panic
};

// What the bindings expect to find in the crate they are a module of
#[allow(unused_imports)]
pub(crate) use optivorbis::*;
#[path = "/repo/packages/optivorbis/src/wasm_bindings.rs"]
#[allow(dead_code, unexpected_cfgs)]
mod wasm_bindings;

fn hex(b: &[u8]) -> String {
	b.iter().map(|b| format!("{b:02x}")).collect()
}

fn unhex(s: &str) -> Vec<u8> {
	(0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn record(r: Result<Result<Vec<u8>, (String, String)>, Box<dyn std::any::Any + Send>>) -> String {
	match r {
		Ok(Ok(out)) => format!("{{\"r\":\"ok\",\"out\":\"{}\"}}", hex(&out)),
		Ok(Err((text, dbg))) => format!("{{\"r\":\"err\",\"out\":\"\",\"text\":\"{}\",\"dbg\":\"{}\"}}", hex(text.as_bytes()), hex(dbg.as_bytes())),
		Err(_) => "{\"r\":\"panic\",\"out\":\"\"}".into()
	}
}

fn main() {
	panic::set_hook(Box::new(|_| {}));
	for line in io::stdin().lock().lines() {
		let line = line.unwrap();
		let mut w = line.splitn(3, ' ');
		let (id, kind, ins) = (w.next().unwrap(), w.next().unwrap(), w.next().unwrap_or(""));
		let ins: Vec<_> = ins.split(',').map(unhex).collect();
		let runs: Vec<_> = if kind == "js" {
			let b = wasm_bindings::OggToOgg::new_with_defaults();
			ins.iter()
				.map(|x| record(panic::catch_unwind(panic::AssertUnwindSafe(|| b.remux(x).map(|o| o.into_vec()).map_err(|t| (t, String::new()))))))
				.collect()
		} else {
			let l = optivorbis::OggToOgg::new_with_defaults();
			ins.iter()
				.map(|x| {
					record(panic::catch_unwind(panic::AssertUnwindSafe(|| {
						l.remux(Cursor::new(x), Vec::new()).map_err(|e| (e.to_string(), format!("{e:?}")))
					})))
				})
				.collect()
		};
		println!("{{\"id\":{id},\"runs\":[{}]}}", runs.join(","));
		io::stdout().flush().unwrap();
	}
}
