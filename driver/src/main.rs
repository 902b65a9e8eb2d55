//! Runs a small program of calls to the public API of papyri-lang, read from standard input, and reports
//! everything each call returned.  Everything it talks to (files, streams, threads' turns, clock) is
//! simulated underneath; see sim/simos.c.
//!
//! Input lines, each an operation of the thread named first ("0 str a.papyri 7b7d"):
//!   new LEVEL OUTDIR|-        a fresh Context
//!   str NAME HEXSRC           Context::compile_synthetic (after reset)
//!   load PATH                 Context::load_uncached (after reset)
//!   cached PATH               Context::load_cached (after reset)
//!   render html|text WRAP SCRIPT..   renders the last result and requested files, each to a fresh scripted writer
//!   cstr HEXSRC               papyri_lang::compile_str
//! Scripted writers: aN accept at most N bytes, i interrupted, z accept nothing, eKIND fail, fN accept all until N
//! bytes were taken in total and then fail, c start over; when the script is used up everything is accepted.

use papyri_lang::compiler::{Context, HTML};
use papyri_lang::errors::ReportingLevel;
use std::io::{self, Read, Write};

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b { s.push_str(&format!("{x:02x}")); }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn kind(s: &str) -> io::ErrorKind {
    match s {
        "pipe" => io::ErrorKind::BrokenPipe,
        "would" => io::ErrorKind::WouldBlock,
        "time" => io::ErrorKind::TimedOut,
        "zero" => io::ErrorKind::WriteZero,
        "eof" => io::ErrorKind::UnexpectedEof,
        "perm" => io::ErrorKind::PermissionDenied,
        "inval" => io::ErrorKind::InvalidData,
        "mem" => io::ErrorKind::OutOfMemory,
        "reset" => io::ErrorKind::ConnectionReset,
        "unsup" => io::ErrorKind::Unsupported,
        _ => io::ErrorKind::Other,
    }
}

struct Scripted<'a> {
    script: &'a [String],
    pos: usize,
    got: Vec<u8>,
    failed: bool,
    calls: u64,
    after: u64,
    flush_fails: bool,
}

impl <'a> Scripted<'a> {
    fn new(script: &'a [String]) -> Scripted<'a> {
        Scripted {script, pos: 0, got: Vec::new(), failed: false, calls: 0, after: 0, flush_fails: false}
    }
    fn fail(&mut self, k: &str) -> io::Error {
        self.failed = true;
        match k.strip_prefix("os") {
            Some(n) => io::Error::from_raw_os_error(n.parse().unwrap()),
            None => io::Error::new(kind(k), format!("scripted failure {k}")),
        }
    }
}

impl <'a> Write for Scripted<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.failed { self.after += 1; }
        if buf.is_empty() { return Ok(0); }
        loop {
            let Some(t) = self.script.get(self.pos) else {
                self.got.extend_from_slice(buf);
                return Ok(buf.len());
            };
            let (c, rest) = t.split_at(1);
            if c == "c" { self.pos = 0; continue; }
            if c == "f" {
                let n: usize = rest.parse().unwrap();
                if self.got.len() >= n {
                    self.pos += 1;
                    return Err(self.fail("other"));
                }
                let k = buf.len().min(n - self.got.len());
                self.got.extend_from_slice(&buf[..k]);
                return Ok(k);
            }
            if c == "k" && self.calls < rest.parse().unwrap() {
                self.got.extend_from_slice(buf);
                return Ok(buf.len());
            }
            self.pos += 1;
            match c {
                "k" => return Err(self.fail("other")),
                "a" => {
                    let k = buf.len().min(rest.parse().unwrap());
                    self.got.extend_from_slice(&buf[..k]);
                    return Ok(k);
                },
                "i" => return Err(io::Error::from(io::ErrorKind::Interrupted)),
                "z" => { self.failed = true; return Ok(0) },
                "e" => return Err(self.fail(rest)),
                "x" => { self.flush_fails = true; },
                _ => panic!("script {t}"),
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.flush_fails { self.failed = true; return Err(io::Error::new(io::ErrorKind::Other, "scripted failure flush")); }
        Ok(())
    }
}

fn res(r: io::Result<()>) -> String {
    match r {
        Ok(()) => "ok".to_string(),
        Err(e) => format!("err {:?} {}", e.kind(), hex(e.to_string().as_bytes())),
    }
}

fn render(ctx: &Context, html: &HTML, as_html: bool, wrap: &str, script: &[String]) -> String {
    let mut full = Vec::new();
    let r0 = ctx.render(html, as_html, &mut full);
    let mut w = Scripted::new(script);
    let r = match wrap {
        "plain" => ctx.render(html, as_html, &mut w),
        "dyn" => {
            let mut d: &mut dyn Write = &mut w;
            ctx.render(html, as_html, &mut d)
        },
        "line" => {
            let mut l = io::LineWriter::new(&mut w);
            let r = ctx.render(html, as_html, &mut l).and_then(|_| l.flush());
            let _ = l.into_parts_();
            r
        },
        _ => {
            let n: usize = wrap.strip_prefix("buf").unwrap().parse().unwrap();
            let mut l = io::BufWriter::with_capacity(n, &mut w);
            let r = ctx.render(html, as_html, &mut l).and_then(|_| l.flush());
            let _ = l.into_parts();
            r
        },
    };
    format!("{} | {} | {} | {} | {} {} {}", res(r0), hex(&full), res(r), hex(&w.got), w.calls, w.after, w.failed as u8)
}

trait IntoParts { fn into_parts_(self); }
impl <W: Write> IntoParts for io::LineWriter<W> {
    // a LineWriter cannot be taken apart without writing; leaking it keeps it from writing again when dropped
    fn into_parts_(self) { std::mem::forget(self); }
}

struct Thread {
    ctx: Option<Context>,
    last: Vec<(String, HTML)>,
    out: Vec<String>,
}

impl Thread {
    fn diags(&self) -> String {
        let c = self.ctx.as_ref().unwrap();
        let v = std::cell::RefCell::new(Vec::new());
        c.diagnostics.has_any(|m| { v.borrow_mut().push(hex(m.to_string().as_bytes())); false });
        format!("{} {} [{}]", c.diagnostics.num_errors, c.diagnostics.num_warnings, v.borrow().join(","))
    }
    fn take(&mut self, main: HTML) {
        self.last.clear();
        self.last.push((String::new(), main));
        if let Some(o) = self.ctx.as_mut().unwrap().out_files.as_mut() {
            for (p, h) in o.take_iter() { self.last.push((p.to_string_lossy().to_string(), h)); }
        }
    }
    fn op(&mut self, t: &[String]) {
        let s = match t[0].as_str() {
            "new" => {
                let l = match t[1].as_str() { "all" => ReportingLevel::All, "warning" => ReportingLevel::Warning, "error" => ReportingLevel::Error, _ => ReportingLevel::IgnoreAll };
                let o = if t[2] == "-" { None } else { Some(std::path::Path::new(&t[2])) };
                self.last.clear();
                self.ctx = Some(Context::new(l, o, None));
                "new".to_string()
            },
            "str" => {
                let src = String::from_utf8(unhex(t.get(2).map_or("", |s| s.as_str()))).unwrap();
                let c = self.ctx.as_mut().unwrap();
                c.reset();
                let r = c.compile_synthetic(&t[1], &src);
                self.take(r.out);
                format!("compiled {} {}", self.diags(), self.last.len())
            },
            "load" => {
                let c = self.ctx.as_mut().unwrap();
                c.reset();
                match c.load_uncached(std::path::Path::new(&t[1])) {
                    Ok(r) => { self.take(r.out); format!("loaded {} {}", self.diags(), self.last.len()) },
                    Err(e) => { self.take(HTML::Empty); format!("notloaded {} {}", hex(e.to_string().as_bytes()), self.diags()) },
                }
            },
            "cached" => {
                let c = self.ctx.as_mut().unwrap();
                c.reset();
                match c.load_cached(std::path::PathBuf::from(&t[1])) {
                    Ok((h, _)) => { self.take(h); format!("cached {} {}", self.diags(), self.last.len()) },
                    Err(e) => { self.take(HTML::Empty); format!("notcached {} {}", hex(e.to_string().as_bytes()), self.diags()) },
                }
            },
            "render" => {
                let c = self.ctx.as_ref().unwrap();
                let v: Vec<_> = self.last.iter().map(|(p, h)| format!("{} | {}", hex(p.as_bytes()), render(c, h, t[1] == "html", &t[2], &t[3..]))).collect();
                format!("rendered {}", v.join(" ; "))
            },
            "cstr" => {
                let src = String::from_utf8(unhex(t.get(1).map_or("", |s| s.as_str()))).unwrap();
                match papyri_lang::compile_str(&src) {
                    Ok(s) => format!("cstr ok {}", hex(s.as_bytes())),
                    Err(d) => {
                        let v = std::cell::RefCell::new(Vec::new());
                        d.has_any(|m| { v.borrow_mut().push(hex(m.to_string().as_bytes())); false });
                        format!("cstr err {} {} [{}]", d.num_errors, d.num_warnings, v.borrow().join(","))
                    },
                }
            },
            x => panic!("operation {x}"),
        };
        self.out.push(s);
    }
}

fn run(ops: Vec<Vec<String>>) -> Vec<String> {
    let mut t = Thread {ctx: None, last: Vec::new(), out: Vec::new()};
    for o in &ops { t.op(o); }
    t.out
}

fn main() {
    let mut s = String::new();
    io::stdin().read_to_string(&mut s).unwrap();
    let mut threads: Vec<Vec<Vec<String>>> = Vec::new();
    for l in s.lines() {
        let t: Vec<String> = l.split(' ').map(|x| x.replace('\u{1}', " ")).collect();
        let k: usize = t[0].parse().unwrap();
        while threads.len() <= k { threads.push(Vec::new()); }
        threads[k].push(t[1..].to_vec());
    }
    let mut out = String::new();
    if threads.len() == 1 {
        for l in run(threads.pop().unwrap()) { out.push_str(&format!("0 {l}\n")); }
    } else {
        let hs: Vec<_> = threads.into_iter().map(|o| std::thread::spawn(move || run(o))).collect();
        for (k, h) in hs.into_iter().enumerate() {
            match h.join() {
                Ok(v) => for l in v { out.push_str(&format!("{k} {l}\n")); },
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    out.push_str(&format!("{k} panic {}\n", hex(m.as_bytes())));
                },
            }
        }
    }
    io::stdout().write_all(out.as_bytes()).unwrap();
    io::stdout().flush().unwrap();
}
