//! The server program as a process, and a small HTTP client for it.

use std::io::{Read, Write};
use std::net::{Ipv4Addr, SocketAddr, TcpStream};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};

use crate::engine::Fail;
use crate::http::{ReqSpec, Resp};

static NEXT: AtomicU32 = AtomicU32::new(0);

/// a loopback address that nobody else uses
pub fn fresh_addr() -> SocketAddr {
    let pid = std::process::id();
    let n = NEXT.fetch_add(1, Ordering::Relaxed);
    let ip = Ipv4Addr::new(127, 1 + (pid >> 8 & 127) as u8, (pid & 255) as u8, 2 + (n % 250) as u8);
    SocketAddr::from((ip, 10000 + (n / 250 % 20000) as u16))
}

pub fn exe() -> Result<PathBuf, Fail> {
    let p = std::env::current_exe().map_err(|e| Fail::Harness(e.to_string()))?.with_file_name("s3d");
    if p.exists() {
        Ok(p)
    } else {
        Err(Fail::Harness("the server program was not built".into()))
    }
}

pub struct Daemon {
    pub child: Child,
    pub addr: SocketAddr,
}

pub enum Started {
    Up(Daemon),
    /// ended on its own
    Exited { code: Option<i32>, stderr: String },
}

pub fn spawn(args: &[String], cwd: &Path) -> Result<Child, Fail> {
    let mut c = Command::new(exe()?);
    c.args(args).current_dir(cwd).env_clear().env("PATH", "/usr/bin:/bin").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c.spawn().map_err(|e| Fail::Harness(format!("spawn: {e}")))
}

pub fn start(args: &[String], cwd: &Path, addr: SocketAddr) -> Result<Started, Fail> {
    let mut child = spawn(args, cwd)?;
    let t = Instant::now();
    loop {
        if let Some(st) = child.try_wait().map_err(|e| Fail::Harness(e.to_string()))? {
            let mut stderr = String::new();
            if let Some(mut e) = child.stderr.take() {
                let _ = e.read_to_string(&mut stderr);
            }
            return Ok(Started::Exited { code: st.code(), stderr });
        }
        if TcpStream::connect_timeout(&addr, Duration::from_secs(5)).is_ok() {
            return Ok(Started::Up(Daemon { child, addr }));
        }
        if t.elapsed() > Duration::from_secs(60) {
            let _ = child.kill();
            let _ = child.wait();
            return Err(Fail::Violation { sig: "no-server".into(), msg: format!("the program runs with {args:?} but accepts no connection at {addr}") });
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

impl Daemon {
    pub fn kill(mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Drop for Daemon {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// the bytes of a request
pub fn encode(r: &ReqSpec, addr: &SocketAddr, chunked: bool) -> Vec<u8> {
    let mut o = format!("{} {} HTTP/1.1\r\n", r.method, r.target).into_bytes();
    if r.get("host").is_none() {
        o.extend(format!("host: {addr}\r\n").as_bytes());
    }
    for (n, v) in &r.headers {
        if chunked && n.eq_ignore_ascii_case("content-length") {
            continue;
        }
        o.extend(n.as_bytes());
        o.extend(b": ");
        o.extend(v.as_bytes());
        o.extend(b"\r\n");
    }
    if chunked {
        o.extend(b"transfer-encoding: chunked\r\n\r\n");
        for f in r.frag.cut(&r.body).into_iter().filter(|f| !f.is_empty()) {
            o.extend(format!("{:x}\r\n", f.len()).as_bytes());
            o.extend(f);
            o.extend(b"\r\n");
        }
        o.extend(b"0\r\n\r\n");
    } else {
        if r.get("content-length").is_none() && (!r.body.is_empty() || matches!(r.method.as_str(), "PUT" | "POST")) {
            o.extend(format!("content-length: {}\r\n", r.body.len()).as_bytes());
        }
        o.extend(b"\r\n");
        o.extend(&r.body);
    }
    o
}

/// reads one response; Err = the connection ended before it was complete
pub fn read_response(s: &mut impl Read, head: bool) -> Result<Resp, String> {
    read_next(s, head, &mut vec![])
}

/// the same; what comes after it stays in `carry`
pub fn read_next(s: &mut impl Read, head: bool, carry: &mut Vec<u8>) -> Result<Resp, String> {
    let mut buf = std::mem::take(carry);
    let mut tmp = [0_u8; 16384];
    let end = loop {
        if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            let text = String::from_utf8_lossy(&buf[..p]).into_owned();
            if text.starts_with("HTTP/1.1 100") {
                buf.drain(..p + 4);
                continue;
            }
            break p;
        }
        match s.read(&mut tmp) {
            Ok(0) => return Err(format!("connection closed after {} bytes of the response", buf.len())),
            Ok(n) => buf.extend_from_slice(&tmp[..n]),
            Err(e) => return Err(e.to_string()),
        }
    };
    let text: String = buf[..end].iter().map(|b| *b as char).collect();
    let mut lines = text.split("\r\n");
    let status: u16 = lines.next().and_then(|l| l.split(' ').nth(1)).and_then(|s| s.parse().ok()).ok_or("status line")?;
    let headers: Vec<(String, String)> = lines.filter_map(|l| l.split_once(':')).map(|(n, v)| (n.to_ascii_lowercase(), v.trim().to_owned())).collect();
    let mut rest = buf.split_off(end + 4);
    let get = |n: &str| headers.iter().find(|h| h.0 == n).map(|h| h.1.clone());
    let mut body_err = None;
    let body;
    if head || status == 204 || status == 304 {
        body = vec![];
        *carry = rest;
    } else if get("transfer-encoding").map_or(false, |t| t.contains("chunked")) {
        let mut out = vec![];
        let mut pos = 0;
        'chunks: loop {
            let eol = loop {
                if let Some(p) = rest[pos..].windows(2).position(|w| w == b"\r\n") {
                    break pos + p;
                }
                match s.read(&mut tmp) {
                    Ok(n) if n > 0 => rest.extend_from_slice(&tmp[..n]),
                    _ => {
                        body_err = Some("body ended early".into());
                        break 'chunks;
                    }
                }
            };
            let line = String::from_utf8_lossy(&rest[pos..eol]).into_owned();
            let n = usize::from_str_radix(line.split(';').next().unwrap_or("").trim(), 16).map_err(|_| "chunk size")?;
            while rest.len() < eol + 2 + n + 2 {
                match s.read(&mut tmp) {
                    Ok(n) if n > 0 => rest.extend_from_slice(&tmp[..n]),
                    _ => {
                        body_err = Some("body ended early".into());
                        break 'chunks;
                    }
                }
            }
            out.extend_from_slice(&rest[eol + 2..eol + 2 + n]);
            pos = eol + 2 + n + 2;
            if n == 0 {
                break;
            }
        }
        *carry = rest.split_off(pos.min(rest.len()));
        body = out;
    } else {
        let want = get("content-length").and_then(|l| l.parse::<usize>().ok());
        while want.map_or(true, |w| rest.len() < w) {
            match s.read(&mut tmp) {
                Ok(n) if n > 0 => rest.extend_from_slice(&tmp[..n]),
                Ok(_) => {
                    if want.is_some() {
                        body_err = Some("body ended early".into());
                    }
                    break;
                }
                Err(e) => {
                    body_err = Some(e.to_string());
                    break;
                }
            }
        }
        if let Some(w) = want {
            *carry = rest.split_off(w.min(rest.len()));
        }
        body = rest;
    }
    Ok(Resp { status, headers, body, body_err })
}

pub fn connect(addr: &SocketAddr) -> Result<TcpStream, String> {
    let s = TcpStream::connect_timeout(addr, Duration::from_secs(30)).map_err(|e| format!("connect: {e}"))?;
    let _ = s.set_read_timeout(Some(Duration::from_secs(120)));
    let _ = s.set_nodelay(true);
    Ok(s)
}

/// a connection that is used again and again
pub struct Conn {
    s: TcpStream,
    carry: Vec<u8>,
}

impl Conn {
    pub fn open(addr: &SocketAddr) -> Result<Conn, String> {
        Ok(Conn { s: connect(addr)?, carry: vec![] })
    }
    /// several requests written at once, then their answers
    pub fn send(&mut self, addr: &SocketAddr, rs: &[(&ReqSpec, bool)]) -> Result<Vec<Resp>, String> {
        let bytes: Vec<u8> = rs.iter().flat_map(|(r, chunked)| encode(r, addr, *chunked)).collect();
        let wrote = self.s.write_all(&bytes);
        let mut out = vec![];
        for (r, _) in rs {
            out.push(read_next(&mut self.s, r.method == "HEAD", &mut self.carry).map_err(|e| format!("{e} (sending: {wrote:?}, answers so far: {})", out.len()))?);
        }
        Ok(out)
    }
    /// the body only when the server asks for it
    pub fn send_expecting(&mut self, addr: &SocketAddr, r: &ReqSpec) -> Result<Resp, String> {
        let r = r.clone().header("expect", "100-continue");
        let bytes = encode(&r, addr, false);
        let head = bytes.len() - r.body.len();
        self.s.write_all(&bytes[..head]).map_err(|e| e.to_string())?;
        let mut tmp = [0_u8; 4096];
        while !self.carry.windows(4).any(|w| w == b"\r\n\r\n") {
            match self.s.read(&mut tmp) {
                Ok(n) if n > 0 => self.carry.extend_from_slice(&tmp[..n]),
                x => return Err(format!("no answer to the request head: {x:?}")),
            }
        }
        if self.carry.starts_with(b"HTTP/1.1 100") {
            self.s.write_all(&bytes[head..]).map_err(|e| e.to_string())?;
        }
        read_next(&mut self.s, r.method == "HEAD", &mut self.carry)
    }
}

/// one request on a connection of its own
pub fn send(addr: &SocketAddr, r: &ReqSpec, chunked: bool) -> Result<Resp, String> {
    let mut s = connect(addr)?;
    let bytes = encode(r, addr, chunked);
    // a server may answer without reading the body
    let wrote = s.write_all(&bytes);
    match read_response(&mut s, r.method == "HEAD") {
        Ok(x) => Ok(x),
        Err(e) => Err(format!("{e} (sending: {wrote:?})")),
    }
}
