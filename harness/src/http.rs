//! A small HTTP/1.1 server on the loopback interface that serves one byte string, by ranges, and
//! misbehaves when told.

use std::collections::VecDeque;
use std::io::{BufRead, BufReader, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Default)]
pub struct State {
    pub data: Arc<Vec<u8>>,
    /// Where the data begin.
    pub base: u64,
    /// What to do with the next requests; "206" once empty.
    pub modes: VecDeque<String>,
    /// Requests that were made to fail.
    pub bad: usize,
    pub requests: usize,
}

pub struct Server {
    pub addr: SocketAddr,
    pub st: Arc<Mutex<State>>,
}

pub fn server() -> &'static Server {
    static S: OnceLock<Server> = OnceLock::new();
    S.get_or_init(|| {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let addr = l.local_addr().unwrap();
        let st = Arc::new(Mutex::new(State::default()));
        let s2 = st.clone();
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                let st = s2.clone();
                std::thread::spawn(move || serve(c, st));
            }
        });
        Server { addr, st }
    })
}

fn serve(c: TcpStream, st: Arc<Mutex<State>>) -> Option<()> {
    c.set_nodelay(true).ok();
    let mut out = c.try_clone().ok()?;
    let mut inp = BufReader::new(c);
    loop {
        let mut first = String::new();
        if inp.read_line(&mut first).ok()? == 0 {
            return None;
        }
        let path = first.split(' ').nth(1)?.to_string();
        let mut range = None;
        loop {
            let mut h = String::new();
            inp.read_line(&mut h).ok()?;
            if h.trim().is_empty() {
                break;
            }
            let (k, v) = h.split_once(':')?;
            if k.eq_ignore_ascii_case("range") {
                range = parse(v.trim());
            }
        }
        let (data, base, mode) = {
            let mut s = st.lock().unwrap();
            s.requests += 1;
            let mode = if path == "/moved" {
                "206".into()
            } else {
                s.modes.pop_front().unwrap_or("206".into())
            };
            if !matches!(mode.as_str(), "206" | "200" | "203" | "200-chunked" | "200-close" | "chunked" | "close" | "redirect" | "slow") {
                s.bad += 1;
            }
            (s.data.clone(), s.base, mode)
        };
        let n = data.len() as u64;
        let part = match range {
            Some((a, _)) if a < base || a - base >= n => None,
            Some((a, b)) => Some((a - base, (b - base).min(n - 1) + 1)),
            None => Some((0, n)),
        };
        let status = |code: u16| format!("HTTP/1.1 {code} X\r\n");
        match mode.as_str() {
            "200" | "203" => {
                write!(out, "{}Content-Length: {n}\r\n\r\n", status(mode.parse().unwrap())).ok()?;
                out.write_all(&data).ok()?;
            }
            "200-chunked" => {
                write!(out, "{}Transfer-Encoding: chunked\r\n\r\n", status(200)).ok()?;
                for c in data.chunks(50) {
                    write!(out, "{:x}\r\n", c.len()).ok()?;
                    out.write_all(c).ok()?;
                    out.write_all(b"\r\n").ok()?;
                }
                out.write_all(b"0\r\n\r\n").ok()?;
            }
            "200-close" => {
                write!(out, "{}Connection: close\r\n\r\n", status(200)).ok()?;
                out.write_all(&data).ok()?;
                return None;
            }
            "redirect" => {
                write!(out, "{}Location: /moved\r\nContent-Length: 0\r\n\r\n", status(302)).ok()?;
            }
            m if m.parse::<u16>().is_ok_and(|c| c >= 400) => {
                // an error page that is longer than most files
                let page = "<html>something went wrong</html>".repeat(20);
                write!(out, "{}Content-Length: {}\r\n\r\n{page}", status(m.parse().unwrap()), page.len()).ok()?;
            }
            "hangup" => return None,
            _ => {
                let Some((a, b)) = part else {
                    write!(out, "{}Content-Length: 0\r\n\r\n", status(416)).ok()?;
                    continue;
                };
                let body = &data[a as usize..b as usize];
                let code = if range.is_some() { 206 } else { 200 };
                let head = format!("{}Content-Range: bytes {}-{}/{}\r\n", status(code), base + a, base + b - 1, base + n);
                match mode.as_str() {
                    "cut" => {
                        write!(out, "{head}Content-Length: {}\r\n\r\n", body.len() + 5).ok()?;
                        out.write_all(body).ok()?;
                        return None;
                    }
                    "cut-early" => {
                        write!(out, "{head}Content-Length: {}\r\n\r\n", body.len()).ok()?;
                        out.write_all(&body[..body.len() / 2]).ok()?;
                        return None;
                    }
                    "chunked" => {
                        write!(out, "{head}Transfer-Encoding: chunked\r\n\r\n").ok()?;
                        for c in body.chunks(3) {
                            write!(out, "{:x}\r\n", c.len()).ok()?;
                            out.write_all(c).ok()?;
                            out.write_all(b"\r\n").ok()?;
                        }
                        out.write_all(b"0\r\n\r\n").ok()?;
                    }
                    "close" => {
                        write!(out, "{head}Connection: close\r\nContent-Length: {}\r\n\r\n", body.len()).ok()?;
                        out.write_all(body).ok()?;
                        return None;
                    }
                    m => {
                        write!(out, "{head}Content-Length: {}\r\n\r\n", body.len()).ok()?;
                        if m == "slow" {
                            std::thread::sleep(std::time::Duration::from_millis(3));
                        }
                        out.write_all(body).ok()?;
                    }
                }
            }
        }
    }
}

/// `bytes=a-b`; anything else is ignored, as servers do.
fn parse(v: &str) -> Option<(u64, u64)> {
    let (a, b) = v.strip_prefix("bytes=")?.split_once('-')?;
    let (a, b) = (a.parse().ok()?, b.parse().ok()?);
    (a <= b).then_some((a, b))
}
