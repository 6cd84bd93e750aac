//! Drives the public API of optivorbis and vorbis_bitpack from a line protocol and
//! reports, as one JSON line per request, everything observable. It holds no oracle.
//!
//! Request: `<id> <command> key=value ...`; byte strings are hex.

use std::{
    fmt::Write as _,
    io::{self, BufRead, ErrorKind, Read, Seek, SeekFrom, Write},
    num::NonZeroU32,
    panic::{AssertUnwindSafe, catch_unwind},
    sync::Mutex,
};

use ogg::PacketWriteEndInfo;
use optivorbis::{
    OggToOgg, Remuxer, VorbisCommentFieldsAction, VorbisOptimizer, VorbisOptimizerSettings,
    VorbisVendorStringAction,
    remuxer::ogg_to_ogg::{
        OggVorbisStreamMangler, OggVorbisStreamPassthroughMangler, RemuxError, Settings,
    },
};
use vorbis_bitpack::{BitpackReader, BitpackWriter, BitpackedIntegerWidth};

static PANIC_MSG: Mutex<String> = Mutex::new(String::new());

fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let d = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        _ => panic!("bad hex"),
    };
    b.chunks(2).map(|c| d(c[0]) << 4 | d(c[1])).collect()
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut buf = [0u16; 2];
                for u in c.encode_utf16(&mut buf) {
                    let _ = write!(o, "\\u{:04x}", *u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args<'a>(Vec<(&'a str, &'a str)>);
impl<'a> Args<'a> {
    fn get(&self, k: &str) -> Option<&'a str> {
        self.0.iter().find(|(a, _)| *a == k).map(|(_, v)| *v)
    }
    fn num<T: std::str::FromStr>(&self, k: &str, d: T) -> T {
        match self.get(k) {
            Some(v) => v.parse().ok().expect("bad number"),
            None => d,
        }
    }
    fn bytes(&self, k: &str) -> Vec<u8> {
        match self.get(k) {
            Some(v) if v.starts_with('@') => std::fs::read(&v[1..]).expect("input file"),
            Some(v) => unhex(v),
            None => vec![],
        }
    }
}

fn optimizer_settings(a: &Args) -> VorbisOptimizerSettings {
    let mut s = VorbisOptimizerSettings::default();
    match a.get("vendor") {
        None => (),
        Some("copy") => s.vendor_string_action = VorbisVendorStringAction::Copy,
        Some("replace") => s.vendor_string_action = VorbisVendorStringAction::Replace,
        Some("appendTag") => s.vendor_string_action = VorbisVendorStringAction::AppendTag,
        Some("appendShortTag") => s.vendor_string_action = VorbisVendorStringAction::AppendShortTag,
        Some("empty") => s.vendor_string_action = VorbisVendorStringAction::Empty,
        _ => panic!("bad vendor action"),
    }
    match a.get("comments") {
        None => (),
        Some("copy") => s.comment_fields_action = VorbisCommentFieldsAction::Copy,
        Some("delete") => s.comment_fields_action = VorbisCommentFieldsAction::Delete,
        _ => panic!("bad comment action"),
    }
    s
}

fn err_json<E: std::error::Error>(e: &E) -> String {
    format!(
        "\"r\":\"err\",\"dbg\":{},\"msg\":{}",
        jstr(&format!("{e:?}")),
        jstr(&format!("{e}"))
    )
}

fn panic_json() -> String {
    format!(
        "\"r\":\"panic\",\"msg\":{}",
        jstr(&PANIC_MSG.lock().unwrap())
    )
}

fn bs_json(b: Option<u16>) -> String {
    b.map_or("-1".into(), |b| b.to_string())
}

/// One optimizer and the calls to make of it. ops: `N:hex;A:hex;O:hex;...`; stops after an error or a panic.
/// `A*n:hex` makes the call n times, and adds whether all of them answered the same.
struct Session<'a> {
    settings: &'a VorbisOptimizerSettings,
    ops: std::str::Split<'a, char>,
    cont: bool,
    optimizer: Option<VorbisOptimizer<'a>>,
    out: Vec<String>,
}

impl<'a> Session<'a> {
    fn new(a: &Args<'a>, settings: &'a VorbisOptimizerSettings) -> Self {
        Self {
            settings,
            ops: a.get("ops").unwrap_or("").split(';'),
            cont: a.get("cont").is_some(),
            optimizer: None,
            out: vec![],
        }
    }
    /// Makes the next call; whether there may be another
    fn step(&mut self) -> bool {
        let Some(op) = self.ops.next() else { return false };
        let settings = self.settings;
        let optimizer = &mut self.optimizer;
        let (kind, data) = op.split_once(':').expect("op");
        let data = unhex(data);
        let (kind, times) = kind.split_once('*').unwrap_or((kind, "1"));
        let times: usize = times.parse().expect("times");
        let result = catch_unwind(AssertUnwindSafe(|| {
            let mut same = true;
            if kind == "A" && times > 1 {
                let o = optimizer.as_mut().expect("no optimizer");
                let first = o.analyze_packet(&data).ok();
                for _ in 2..times {
                    same &= o.analyze_packet(&data).ok() == first;
                }
                if !same {
                    return "\"r\":\"ok\",\"bs\":-2".to_string();
                }
            }
            match kind {
                "N" => match VorbisOptimizer::new(settings, &data) {
                    Ok(o) => {
                        *optimizer = Some(o);
                        "\"r\":\"ok\"".to_string()
                    }
                    Err(e) => err_json(&e),
                },
                "A" => match optimizer
                    .as_mut()
                    .expect("no optimizer")
                    .analyze_packet(&data)
                {
                    Ok(b) => format!("\"r\":\"ok\",\"bs\":{}", bs_json(b)),
                    Err(e) => err_json(&e),
                },
                // O: owned packet; o: borrowed packet
                _ => {
                    let o = optimizer.as_mut().expect("no optimizer");
                    let result = if kind == "O" {
                        o.optimize_packet(data.clone())
                    } else {
                        o.optimize_packet(&data[..])
                    };
                    match result {
                        Ok(Some((p, b))) => {
                            format!(
                                "\"r\":\"pkt\",\"bs\":{},\"pkt\":\"{}\"",
                                bs_json(b),
                                hex(&p)
                            )
                        }
                        Ok(None) => "\"r\":\"none\"".to_string(),
                        Err(e) => err_json(&e),
                    }
                }
            }
        }));
        match result {
            Ok(s) => {
                let stop = s.starts_with("\"r\":\"err\"") && !self.cont;
                self.out.push(format!("{{{s}}}"));
                !stop
            }
            Err(_) => {
                self.out.push(format!("{{{}}}", panic_json()));
                false
            }
        }
    }
    fn answer(self) -> String {
        format!("\"ops\":[{}]", self.out.join(","))
    }
}

fn cmd_vorbis(a: &Args) -> String {
    let settings = optimizer_settings(a);
    let mut session = Session::new(a, &settings);
    while session.step() {}
    session.answer()
}

/// Several sessions, the calls of which take turns
fn cmd_mix(requests: &[&str]) -> String {
    let args: Vec<Args> = requests.iter().map(|r| parse(r).1).collect();
    log::set_max_level(log::LevelFilter::Off);
    let settings: Vec<_> = args.iter().map(optimizer_settings).collect();
    let mut sessions: Vec<_> = args.iter().zip(&settings).map(|(a, s)| Session::new(a, s)).collect();
    let mut live = vec![true; sessions.len()];
    while live.contains(&true) {
        for (s, l) in sessions.iter_mut().zip(&mut live) {
            *l = *l && s.step();
        }
    }
    all(sessions.into_iter().map(Session::answer))
}

/// Several requests, each in a thread of its own, at the same time
fn cmd_par(requests: &[&str]) -> String {
    let barrier = std::sync::Barrier::new(requests.len());
    all(std::thread::scope(|scope| {
        let threads: Vec<_> = requests
            .iter()
            .map(|r| {
                scope.spawn(|| {
                    let (cmd, args) = parse(r);
                    barrier.wait();
                    run(cmd, &args)
                })
            })
            .collect();
        threads.into_iter().map(|t| t.join().expect("thread")).collect::<Vec<_>>()
    })
    .into_iter())
}

fn all(answers: impl Iterator<Item = String>) -> String {
    let answers: Vec<_> = answers.map(|a| format!("{{{a}}}")).collect();
    format!("\"all\":[{}]", answers.join(","))
}

/// A source with scripted behaviour. Script items, comma separated:
/// `c<n>` at most n bytes per read; `i<k>` every k-th read is interrupted first;
/// `f<n>` the n-th read call (1-based) fails; `F<n>` the first read that would reach past
/// absolute byte n of the source in total over both passes fails; `s<n>` n-th seek fails; `p` position query fails
struct Source {
    data: io::Cursor<Vec<u8>>,
    chunk: usize,
    interrupt_every: usize,
    fail_read: usize,
    fail_seek: usize,
    fail_position: bool,
    reads: usize,
    seeks: usize,
    /// reads before the last seek
    mark: usize,
    interrupted: bool,
}

impl Source {
    fn new(data: Vec<u8>, start: u64, script: &str) -> Self {
        let mut s = Self {
            data: io::Cursor::new(data),
            chunk: usize::MAX,
            interrupt_every: 0,
            fail_read: 0,
            fail_seek: 0,
            fail_position: false,
            reads: 0,
            seeks: 0,
            mark: 0,
            interrupted: false,
        };
        s.data.set_position(start);
        for item in script.split(',').filter(|i| !i.is_empty()) {
            let n = item[1..].parse().unwrap_or(0);
            match &item[..1] {
                "c" => s.chunk = n,
                "i" => s.interrupt_every = n,
                "f" => s.fail_read = n,
                "s" => s.fail_seek = n,
                "p" => s.fail_position = true,
                _ => panic!("bad script"),
            }
        }
        s
    }
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.interrupt_every > 0
            && (self.reads + 1) % self.interrupt_every == 0
            && !self.interrupted
        {
            self.interrupted = true;
            return Err(ErrorKind::Interrupted.into());
        }
        self.interrupted = false;
        self.reads += 1;
        if self.reads == self.fail_read {
            return Err(io::Error::other("scripted read failure"));
        }
        let n = buf.len().min(self.chunk);
        self.data.read(&mut buf[..n])
    }
}

impl Seek for Source {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        if let SeekFrom::Current(0) = pos {
            if self.fail_position {
                return Err(io::Error::other("scripted position failure"));
            }
            return self.data.seek(pos);
        }
        self.seeks += 1;
        self.mark = self.reads;
        if self.seeks == self.fail_seek {
            return Err(io::Error::other("scripted seek failure"));
        }
        self.data.seek(pos)
    }
}

/// A sink with scripted behaviour: `c<n>` at most n bytes per write; `i<k>` as above;
/// `f<n>` fails once n bytes were taken; `z<n>` accepts nothing (returns 0) once n bytes were taken
struct Sink {
    data: Vec<u8>,
    chunk: usize,
    interrupt_every: usize,
    fail_at: usize,
    zero_at: usize,
    writes: usize,
    interrupted: bool,
}

impl Sink {
    fn new(script: &str) -> Self {
        let mut s = Self {
            data: vec![],
            chunk: usize::MAX,
            interrupt_every: 0,
            fail_at: usize::MAX,
            zero_at: usize::MAX,
            writes: 0,
            interrupted: false,
        };
        for item in script.split(',').filter(|i| !i.is_empty()) {
            let n = item[1..].parse().unwrap_or(0);
            match &item[..1] {
                "c" => s.chunk = n,
                "i" => s.interrupt_every = n,
                "f" => s.fail_at = n,
                "z" => s.zero_at = n,
                _ => panic!("bad script"),
            }
        }
        s
    }
}

impl Write for &mut Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.interrupt_every > 0
            && (self.writes + 1) % self.interrupt_every == 0
            && !self.interrupted
        {
            self.interrupted = true;
            return Err(ErrorKind::Interrupted.into());
        }
        self.interrupted = false;
        self.writes += 1;
        if self.data.len() >= self.fail_at && !buf.is_empty() {
            return Err(io::Error::other("scripted write failure"));
        }
        if self.data.len() >= self.zero_at {
            return Ok(0);
        }
        let limit = self.fail_at.min(self.zero_at) - self.data.len();
        let n = buf.len().min(self.chunk).min(limit);
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A mangler that logs every call and may change the values. Script items, comma separated:
/// `f=<u32>` sampling frequency; `b=<min>/<nom>/<max>` bitrates; `s+<n>` adds to serials;
/// `g+<n>` adds to granule positions; `e<n>` ends a page after every audio packet whose number is
/// a multiple of n
struct LogMangler {
    log: std::sync::Arc<Mutex<Vec<String>>>,
    freq: Option<u32>,
    rates: Option<Vec<Option<i32>>>,
    serial_add: u32,
    granule_add: i64,
    end_every: usize,
}

impl LogMangler {
    fn new(script: &str, log: std::sync::Arc<Mutex<Vec<String>>>) -> Self {
        let mut m = Self {
            log,
            freq: None,
            rates: None,
            serial_add: 0,
            granule_add: 0,
            end_every: 0,
        };
        for item in script.split(',').filter(|i| !i.is_empty() && *i != "log") {
            if let Some(v) = item.strip_prefix("f=") {
                m.freq = Some(v.parse().unwrap());
            } else if let Some(v) = item.strip_prefix("b=") {
                // "." leaves the rate as it is
                m.rates = Some(v.split('/').map(|x| (x != ".").then(|| x.parse().unwrap())).collect());
            } else if let Some(v) = item.strip_prefix("s+") {
                m.serial_add = v.parse().unwrap();
            } else if let Some(v) = item.strip_prefix("g+") {
                m.granule_add = v.parse().unwrap();
            } else if let Some(v) = item.strip_prefix("e") {
                m.end_every = v.parse().unwrap();
            } else {
                panic!("bad mangler script")
            }
        }
        m
    }
    fn put(&self, s: String) {
        self.log.lock().unwrap().push(s);
    }
}

fn end_code(e: &PacketWriteEndInfo) -> u8 {
    match e {
        PacketWriteEndInfo::NormalPacket => 0,
        PacketWriteEndInfo::EndPage => 1,
        PacketWriteEndInfo::EndStream => 2,
    }
}

impl OggVorbisStreamMangler for LogMangler {
    fn mangle_sampling_frequency(&mut self, f: NonZeroU32) -> NonZeroU32 {
        let r = self.freq.and_then(NonZeroU32::new).unwrap_or(f);
        self.put(format!("{{\"m\":\"freq\",\"in\":\"{f}\",\"out\":\"{r}\"}}"));
        r
    }
    fn mangle_bitrates(&mut self, min: i32, nom: i32, max: i32) -> (i32, i32, i32) {
        let r = match &self.rates {
            Some(v) => (v[0].unwrap_or(min), v[1].unwrap_or(nom), v[2].unwrap_or(max)),
            None => (min, nom, max),
        };
        self.put(format!(
            "{{\"m\":\"rates\",\"in\":\"{min}/{nom}/{max}\",\"out\":\"{}/{}/{}\"}}",
            r.0, r.1, r.2
        ));
        r
    }
    fn mangle_packet_stream_serial(&mut self, s: u32, n: usize, last: bool) -> u32 {
        let r = s.wrapping_add(self.serial_add);
        self.put(format!(
            "{{\"m\":\"serial\",\"n\":{n},\"last\":{last},\"in\":\"{s}\",\"out\":\"{r}\"}}"
        ));
        r
    }
    fn mangle_packet_page_end_info(
        &mut self,
        e: PacketWriteEndInfo,
        n: usize,
        last: bool,
    ) -> PacketWriteEndInfo {
        let code = end_code(&e);
        let r = if self.end_every > 0 && code == 0 && n >= 3 && n % self.end_every == 0 {
            PacketWriteEndInfo::EndPage
        } else {
            e
        };
        self.put(format!(
            "{{\"m\":\"end\",\"n\":{n},\"last\":{last},\"in\":\"{code}\",\"out\":\"{}\"}}",
            end_code(&r)
        ));
        r
    }
    fn mangle_granule_position(&mut self, g: i64, n: usize, header: bool, last: bool) -> i64 {
        let r = if header {
            g
        } else {
            g.wrapping_add(self.granule_add)
        };
        self.put(format!(
			"{{\"m\":\"granule\",\"n\":{n},\"last\":{last},\"header\":{header},\"in\":\"{g}\",\"out\":\"{r}\"}}"
		));
        r
    }
}

fn run_remux<M: OggVorbisStreamMangler>(
    a: &Args,
    mangler: M,
    log: Option<std::sync::Arc<Mutex<Vec<String>>>>,
    defaults: Option<OggToOgg<M>>,
) -> String {
    let mut settings = Settings {
        randomize_stream_serials: true,
        first_stream_serial_offset: 0,
        ignore_start_sample_offset: false,
        error_on_no_vorbis_streams: true,
        verify_ogg_page_checksums: true,
        vorbis_stream_mangler: mangler,
    };
    // Options that are not given keep the library's documented default
    let d = Settings::<OggVorbisStreamPassthroughMangler>::default();
    settings.randomize_stream_serials = a.num("rnd", d.randomize_stream_serials as u8) != 0;
    settings.first_stream_serial_offset = a.num("off", d.first_stream_serial_offset);
    settings.ignore_start_sample_offset = a.num("ign", d.ignore_start_sample_offset as u8) != 0;
    settings.error_on_no_vorbis_streams = a.num("errno", d.error_on_no_vorbis_streams as u8) != 0;
    settings.verify_ogg_page_checksums = a.num("crc", d.verify_ogg_page_checksums as u8) != 0;
    let remuxer = defaults.unwrap_or_else(|| OggToOgg::new(settings, optimizer_settings(a)));

    let reps: usize = a.num("reps", 1);
    let mut runs = vec![];
    for rep in 0..reps {
        // With several inputs, run i remuxes input i (in, in1, in2, ...)
        let key = if rep > 0 {
            format!("in{rep}")
        } else {
            "in".to_string()
        };
        let input = if a.get(&key).is_some() {
            a.bytes(&key)
        } else {
            a.bytes("in")
        };
        let mut source = Source::new(input, a.num("start", 0), a.get("reader").unwrap_or(""));
        let mut sink = Sink::new(a.get("writer").unwrap_or(""));
        let result = catch_unwind(AssertUnwindSafe(|| {
            let result: Result<_, RemuxError> = remuxer.remux(&mut source, &mut sink);
            match result {
                Ok(_) => "\"r\":\"ok\"".to_string(),
                Err(e) => err_json(&e),
            }
        }));
        let panicked = result.is_err();
        let result = result.unwrap_or_else(|_| panic_json());
        runs.push(format!(
            "{{{result},\"out\":\"{}\",\"reads\":{},\"seeks\":{},\"mark\":{},\"writes\":{}}}",
            hex(&sink.data),
            source.reads,
            source.seeks,
            source.mark,
            sink.writes
        ));
        if panicked {
            break;
        }
    }
    let log = log.map_or(String::new(), |l| {
        format!(",\"log\":[{}]", l.lock().unwrap().join(","))
    });
    format!("\"runs\":[{}]{log}", runs.join(","))
}

fn cmd_remux(a: &Args) -> String {
    match a.get("mangle") {
        // Without any option, as most users would
        None if ["rnd", "off", "ign", "errno", "crc", "vendor", "comments"].iter().all(|k| a.get(k).is_none()) => {
            let defaults = OggToOgg::new_with_defaults();
            run_remux(a, OggVorbisStreamPassthroughMangler, None, Some(defaults))
        }
        None => run_remux(a, OggVorbisStreamPassthroughMangler, None, None),
        Some(script) => {
            let log = std::sync::Arc::new(Mutex::new(vec![]));
            run_remux(a, LogMangler::new(script, log.clone()), Some(log), None)
        }
    }
}

/// A byte source for the bit reader: at most `chunk` bytes at a time
struct Chunked<'a>(&'a [u8], usize);
impl Read for Chunked<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(self.1).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// ops: `u<w>` `s<w>` `g` `f` separated by `,`
fn cmd_bitread(a: &Args) -> String {
    let data = a.bytes("in");
    let mut source = Chunked(&data, a.num("chunk", usize::MAX));
    let mut out = vec![];
    let mut reader = BitpackReader::new(&mut source);
    for op in a
        .get("ops")
        .unwrap_or("")
        .split(',')
        .filter(|o| !o.is_empty())
    {
        let w = BitpackedIntegerWidth::new(op[1..].parse().unwrap_or(0)).expect("width");
        let r = catch_unwind(AssertUnwindSafe(|| match &op[..1] {
            "u" => reader.read_unsigned_integer(w).map(|v| v.to_string()),
            "s" => reader.read_signed_integer(w).map(|v| v.to_string()),
            "g" => reader.read_flag().map(|v| (v as u8).to_string()),
            "f" => reader
                .read_float32()
                .map(|v| format!("{:016x}", v.to_bits())),
            _ => panic!("bad op"),
        }));
        match r {
            Ok(Ok(v)) => out.push(jstr(&v)),
            Ok(Err(e)) => out.push(jstr(&format!("!{:?}", e.kind()))),
            Err(_) => {
                out.push("\"!panic\"".into());
                break;
            }
        }
    }
    drop(reader);
    format!("\"vals\":[{}],\"left\":{}", out.join(","), source.0.len())
}

/// ops: `u<w>=<v>` `s<w>=<v>` `g=<0|1>` `f=<f64 bits hex>` `z` (finalize) `y` (flush)
fn cmd_bitwrite(a: &Args) -> String {
    let mut sink = Sink::new(a.get("writer").unwrap_or(""));
    let mut out = vec![];
    {
        let mut writer = BitpackWriter::new(&mut sink);
        for op in a
            .get("ops")
            .unwrap_or("")
            .split(',')
            .filter(|o| !o.is_empty())
        {
            let (k, v) = op.split_once('=').unwrap_or((op, ""));
            let w = BitpackedIntegerWidth::new(k[1..].parse().unwrap_or(0)).expect("width");
            let r = catch_unwind(AssertUnwindSafe(|| match &k[..1] {
                "u" => writer.write_unsigned_integer(v.parse().unwrap(), w),
                "s" => writer.write_signed_integer(v.parse().unwrap(), w),
                "g" => writer.write_flag(v == "1"),
                "f" => writer.write_float32(f64::from_bits(u64::from_str_radix(v, 16).unwrap())),
                "z" => writer.finalize(),
                "y" => writer.flush(),
                _ => panic!("bad op"),
            }));
            match r {
                Ok(Ok(())) => out.push("\"ok\"".to_string()),
                Ok(Err(e)) => out.push(jstr(&format!("!{:?}", e.kind()))),
                Err(_) => {
                    out.push("\"!panic\"".into());
                    break;
                }
            }
        }
    }
    format!(
        "\"vals\":[{}],\"out\":\"{}\"",
        out.join(","),
        hex(&sink.data)
    )
}

fn cmd_info() -> String {
    format!(
        "\"tag\":{},\"short\":{},\"w32\":{},\"w33\":{}",
        jstr(optivorbis::OPTIVORBIS_VERSION_TAG),
        jstr(optivorbis::OPTIVORBIS_SHORT_VERSION_TAG),
        BitpackedIntegerWidth::new(32).is_some(),
        BitpackedIntegerWidth::new(33).is_some()
    )
}

fn parse(request: &str) -> (&str, Args<'_>) {
    let mut parts = request.split(' ');
    let cmd = parts.next().unwrap_or("");
    (cmd, Args(parts.filter_map(|p| p.split_once('=')).collect()))
}

/// Formats every message, as programs that log do
struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        write!(io::sink(), "{}", record.args()).expect("sink");
    }
    fn flush(&self) {}
}

fn run(cmd: &str, args: &Args) -> String {
    log::set_max_level(match args.get("log") {
        Some(_) => log::LevelFilter::Trace,
        None => log::LevelFilter::Off,
    });
    match cmd {
        "vorbis" => cmd_vorbis(args),
        "remux" => cmd_remux(args),
        "bitread" => cmd_bitread(args),
        "bitwrite" => cmd_bitwrite(args),
        "info" => cmd_info(),
        _ => panic!("unknown command {cmd}"),
    }
}

fn main() {
    log::set_logger(&Logger).expect("logger");
    std::panic::set_hook(Box::new(|info| {
        *PANIC_MSG.lock().unwrap() = format!("{info}");
    }));
    // Deep recursion is bounded in the code under test; the default stack is what users get
    let stdin = io::stdin();
    let stdout = io::stdout();
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        let (id, request) = line.split_once(' ').unwrap_or((&line, ""));
        if request.is_empty() {
            continue;
        }
        let parts: Vec<&str> = request.split('\x1e').collect();
        let body = match parts[0] {
            "mix" => cmd_mix(&parts[1..]),
            "par" => cmd_par(&parts[1..]),
            _ => {
                let (cmd, args) = parse(request);
                run(cmd, &args)
            }
        };
        let mut out = stdout.lock();
        writeln!(out, "{{\"id\":{},{body}}}", jstr(id)).expect("stdout");
        out.flush().expect("stdout");
    }
}
