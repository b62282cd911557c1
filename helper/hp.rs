// A scriptable program for generated pa2 networks.
//
// If argv[0]'s file name starts with "rec" it records argv, environment, directory and stdin to "<argv0>.rec"
// (appending, so that a second start shows) and exits. Otherwise each argument is one operation, see `run`.
use std::ffi::OsString;
use std::fs::{File, OpenOptions};
use std::io::{Read, Write};
use std::mem::ManuallyDrop;
use std::os::fd::FromRawFd;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::time::Duration;

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
}

fn fd(n: i32) -> ManuallyDrop<File> { ManuallyDrop::new(unsafe { File::from_raw_fd(n) }) }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn sleep_us(n: u64) { if n > 0 { std::thread::sleep(Duration::from_micros(n)) } }

struct St { epipe_file: Option<String>, progress: Option<File>, total: u64, epipe_exit: i32 }

impl St {
    fn out(&mut self, f: i32, b: &[u8]) {
        let mut off = 0;
        while off < b.len() {
            match fd(f).write(&b[off..]) {
                Ok(n) => { off += n; self.total += n as u64; }
                Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => {
                    if let Some(p) = &self.epipe_file {
                        std::fs::write(p, format!("{:?} {}", e.kind(), self.total)).ok();
                    }
                    std::process::exit(self.epipe_exit);
                }
            }
            if let Some(p) = &self.progress {
                use std::os::unix::fs::FileExt;
                p.write_all_at(&self.total.to_le_bytes(), 0).ok();
            }
        }
    }
}

fn read_some(buf: &mut [u8]) -> usize {
    loop {
        match fd(0).read(buf) {
            Ok(n) => return n,
            Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(_) => return 0,
        }
    }
}

fn wait_for(p: &str, longest: u64) {
    let mut ms = 1;
    let mut total = 0;
    while !std::path::Path::new(p).exists() {
        if total > 60000 { std::process::exit(98); }
        sleep_us(ms * 1000);
        total += ms;
        ms = (ms + 1).min(longest);
    }
}

// One line including its end; byte by byte so that nothing of what follows is taken. Empty at the end of input.
fn read_line() -> Vec<u8> {
    let mut v = vec![];
    let mut b = [0u8; 1];
    while read_some(&mut b) == 1 {
        v.push(b[0]);
        if b[0] == b'\n' { break; }
    }
    v
}

struct Lines { buf: Vec<u8>, eof: bool }
impl Lines {
    fn next(&mut self) -> Option<Vec<u8>> {
        loop {
            if let Some(p) = self.buf.iter().position(|x| *x == b'\n') {
                let rest = self.buf.split_off(p + 1);
                return Some(std::mem::replace(&mut self.buf, rest));
            }
            if self.eof {
                if self.buf.is_empty() { return None; }
                return Some(std::mem::take(&mut self.buf));
            }
            let mut b = [0u8; 4096];
            let n = read_some(&mut b);
            if n == 0 { self.eof = true; }
            self.buf.extend_from_slice(&b[..n]);
        }
    }
}

fn sizes(s: &str) -> Vec<usize> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() }

fn main() {
    let args: Vec<OsString> = std::env::args_os().collect();
    let argv0 = args[0].clone();
    let base = std::path::Path::new(&argv0).file_name().map(|x| x.as_bytes().to_vec()).unwrap_or_default();
    if base.starts_with(b"rec") {
        let mut s = String::from("START\n");
        for a in &args { s += &format!("arg {}\n", hex(a.as_bytes())); }
        for (k, v) in std::env::vars_os() { s += &format!("env {} {}\n", hex(k.as_bytes()), hex(v.as_bytes())); }
        s += &format!("cwd {}\n", hex(std::env::current_dir().unwrap().as_os_str().as_bytes()));
        let mut inp = vec![];
        fd(0).read_to_end(&mut inp).ok();
        s += &format!("stdin {}\n", hex(&inp));
        let mut p = argv0.as_bytes().to_vec();
        p.extend_from_slice(b".rec");
        let mut f = OpenOptions::new().append(true).create(true).open(OsString::from_vec(p)).unwrap();
        f.write_all(s.as_bytes()).unwrap();
        return;
    }
    let mut st = St { epipe_file: None, progress: None, total: 0, epipe_exit: 32 };
    let mut ln = Lines { buf: vec![], eof: false };
    for a in args.iter().skip(1) {
        let a = a.to_str().unwrap();
        let mut it = a.splitn(2, ':');
        let op = it.next().unwrap();
        run(op, it.next().unwrap_or(""), &mut st, &mut ln);
    }
}

fn run(op: &str, p: &str, st: &mut St, ln: &mut Lines) {
    let parts: Vec<&str> = p.split(':').collect();
    match op {
        // write these bytes to stdout / stderr
        "o" => st.out(1, &unhex(p)),
        "e" => st.out(2, &unhex(p)),
        // write the file PATH to stdout / stderr in chunks of the sizes given, cyclic, pausing US in between
        "of" | "ef" => {
            let data = std::fs::read(parts[0]).unwrap();
            let cs = sizes(parts[1]);
            let us: u64 = parts[2].parse().unwrap();
            let (mut off, mut i) = (0, 0);
            while off < data.len() {
                let n = if cs.is_empty() { data.len() } else { cs[i % cs.len()].max(1) };
                let end = (off + n).min(data.len());
                st.out(if op == "of" { 1 } else { 2 }, &data[off..end]);
                off = end;
                i += 1;
                sleep_us(us);
            }
        }
        // both files to stdout and stderr alternating: OUT:ERR:sizes:us
        "bf" => {
            let d = [std::fs::read(parts[0]).unwrap(), std::fs::read(parts[1]).unwrap()];
            let cs = sizes(parts[2]);
            let us: u64 = parts[3].parse().unwrap();
            let mut off = [0usize; 2];
            let mut i = 0;
            while off[0] < d[0].len() || off[1] < d[1].len() {
                for k in 0..2 {
                    let n = if cs.is_empty() { 1000 } else { cs[i % cs.len()].max(1) };
                    let end = (off[k] + n).min(d[k].len());
                    if end > off[k] { st.out(k as i32 + 1, &d[k][off[k]..end]); }
                    off[k] = end;
                    i += 1;
                }
                sleep_us(us);
            }
        }
        // copy stdin to stdout / stderr / both in pieces of the sizes given
        "cat" | "cate" | "catb" => {
            let cs = sizes(parts[0]);
            let us: u64 = parts[1].parse().unwrap();
            let mut i = 0;
            loop {
                let n = if cs.is_empty() { 65536 } else { cs[i % cs.len()].max(1) };
                i += 1;
                let mut b = vec![0u8; n];
                let r = read_some(&mut b);
                if r == 0 { break; }
                if op != "cate" { st.out(1, &b[..r]); }
                if op != "cat" { st.out(2, &b[..r]); }
                sleep_us(us);
            }
        }
        // read everything, then write it
        "tac" => {
            let mut v = vec![];
            fd(0).read_to_end(&mut v).ok();
            st.out(1, &v);
        }
        "dis" => { let mut b = vec![0u8; 65536]; while read_some(&mut b) > 0 {} }
        "rn" => { let n: usize = p.parse().unwrap(); let mut b = [0u8; 1]; for _ in 0..n { if read_some(&mut b) == 0 { break; } } }
        "rl" => { for _ in 0..p.parse::<usize>().unwrap() { if read_line().is_empty() { break; } } }
        "cl" => { for _ in 0..p.parse::<usize>().unwrap() { let l = read_line(); if l.is_empty() { break; } st.out(1, &l); } }
        // read all of stdin into a file
        "rec" => { let mut v = vec![]; fd(0).read_to_end(&mut v).ok(); std::fs::write(p, &v).unwrap(); }
        // copy stdin to a file as it arrives, US between lines
        "slow" => {
            let us: u64 = parts[1].parse().unwrap();
            let mut f = OpenOptions::new().append(true).create(true).open(parts[0]).unwrap();
            while let Some(l) = ln.next() { f.write_all(&l).unwrap(); sleep_us(us); }
        }
        "ci" => unsafe { close(0); },
        "co" => unsafe { close(1); },
        "ce" => unsafe { close(2); },
        "sl" => sleep_us(p.parse::<u64>().unwrap() * 1000),
        "x" => std::process::exit(p.parse().unwrap()),
        "k" => unsafe {
            let s: i32 = p.parse().unwrap();
            signal(s, 0);
            kill(std::process::id() as i32, s);
            std::thread::sleep(Duration::from_secs(5));
        },
        "wf" => { std::fs::write(parts[0], unhex(parts.get(1).unwrap_or(&""))).unwrap(); }
        "af" => {
            let mut f = OpenOptions::new().append(true).create(true).open(parts[0]).unwrap();
            f.write_all(&unhex(parts.get(1).unwrap_or(&""))).unwrap();
        }
        // until the file exists; gives up after a minute
        "wait" => wait_for(p, 30),
        // N lines "TAG.0000i rr.." of W, each as soon as the file PREFIX<i> exists: PREFIX:TAG:N:W
        "gs" => {
            let (n, w): (usize, usize) = (parts[2].parse().unwrap(), parts[3].parse().unwrap());
            let tail = "r".repeat(w);
            for i in 0..n {
                wait_for(&format!("{}{}", parts[0], i), 8);
                st.out(1, format!("{}.{:05} {}\n", parts[1], i, tail).as_bytes());
            }
        }
        // copy N times B bytes, each time as soon as the file PREFIX<i> exists: PREFIX:N:B
        "cs" => {
            let mut b = vec![0u8; parts[2].parse().unwrap()];
            for i in 0..parts[1].parse::<usize>().unwrap() {
                wait_for(&format!("{}{}", parts[0], i), 8);
                if fd(0).read_exact(&mut b).is_err() { break; }
                st.out(1, &b);
            }
        }
        // does this exist now? "0" or "1" to DST
        "see" => { std::fs::write(parts[1], if std::path::Path::new(parts[0]).exists() { "1" } else { "0" }).unwrap(); }
        "ep" => st.epipe_file = Some(p.to_string()),
        "epx" => st.epipe_exit = p.parse().unwrap(),
        "pf" => st.progress = Some(File::create(p).unwrap()),
        // Loop member: lines "<count> rest": count > 0 goes to stdout with count - 1, else to stderr; exits after N left.
        "loop" => {
            let n: usize = parts[0].parse().unwrap();
            let us: u64 = parts[1].parse().unwrap();
            let mut left = 0;
            while left < n {
                let l = match ln.next() { Some(l) => l, None => break };
                let s = l.iter().position(|x| *x == b' ').unwrap_or(0);
                let c: i64 = std::str::from_utf8(&l[..s]).ok().and_then(|x| x.parse().ok()).unwrap_or(0);
                if c > 0 {
                    let mut o = format!("{}", c - 1).into_bytes();
                    o.extend_from_slice(&l[s..]);
                    st.out(1, &o);
                } else {
                    st.out(2, &l);
                    left += 1;
                }
                sleep_us(us);
            }
        }
        // A source of lines "<ID.SEQ.>": ID:ID2:US:EXTRA:LIMIT_MS:RECORD:FILE,FILE.. ID2 (or -1) to stderr. Writes until told, or, if there
        // are FILEs, until all exist, and then EXTRA lines; or until LIMIT. RECORD gets how many of each were written and why it ended.
        "src" => {
            let id: i64 = parts[0].parse().unwrap();
            let id2: i64 = parts[1].parse().unwrap();
            let us: u64 = parts[2].parse().unwrap();
            let extra: u64 = parts[3].parse().unwrap();
            let limit = Duration::from_millis(parts[4].parse().unwrap());
            let mut files: Vec<&str> = parts[6].split(',').filter(|x| !x.is_empty()).collect();
            let forever = parts[6] == "";
            let began = std::time::Instant::now();
            let mut n = [0u64; 2];
            let mut left: Option<u64> = None;
            let mut why = "end";
            'all: loop {
                files.retain(|f| !std::path::Path::new(f).exists());
                if left.is_none() && !forever && files.is_empty() { left = Some(extra); }
                if left.is_none() && began.elapsed() > limit { why = "limit"; left = Some(extra); }
                if left == Some(0) { break; }
                left = left.map(|x| x - 1);
                for (k, i) in [(1, id2), (0, id)] {
                    if i < 0 { continue; }
                    let l = format!("<{}.{}.>\n", i, n[k]).into_bytes();
                    let mut off = 0;
                    while off < l.len() {
                        match fd(k as i32 + 1).write(&l[off..]) {
                            Ok(w) => off += w,
                            Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                            Err(e) => { why = if e.kind() == std::io::ErrorKind::BrokenPipe { "told" } else { "error" }; break 'all; }
                        }
                    }
                    n[k] += 1;
                }
                if left.is_none() { sleep_us(us); }
            }
            let tmp = format!("{}.tmp", parts[5]);
            std::fs::write(&tmp, format!("{} {} {}", n[0], n[1], why)).unwrap();
            std::fs::rename(&tmp, parts[5]).unwrap();
            if why == "told" { std::process::exit(st.epipe_exit); }
        }
        // Lines "<path> rest": 'o' first in the path goes to stdout, 'e' to stderr, without it; '-' stays. Exits after N lines.
        "route" => {
            let n: usize = parts[0].parse().unwrap();
            let us: u64 = parts[1].parse().unwrap();
            for _ in 0..n {
                match ln.next() {
                    Some(l) => match l.first() {
                        Some(b'o') => st.out(1, &l[1..]),
                        Some(b'e') => st.out(2, &l[1..]),
                        _ => {}
                    },
                    None => break,
                }
                sleep_us(us);
            }
        }
        // prefix every line
        "pre" => {
            let pre = unhex(parts[0]);
            while let Some(l) = ln.next() { let mut o = pre.clone(); o.extend_from_slice(&l); st.out(1, &o); }
        }
        _ => { eprintln!("unknown op {}", op); std::process::exit(99); }
    }
}
