//! The harness built without the `comment` feature, as a process to compare with.

use crate::ev::*;
use crate::props::typed::Any;
use crate::schema::*;
use std::fmt::{self, Write as _};
use std::io::{self, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use yam_core::prelude::*;

/// What a build makes of a text, but for comments: events and errors, trees, and a typed value.
const PARTS: [&str; 3] = ["events", "trees", "serde"];

fn part(k: usize, text: &str, p: &Parsed, out: &mut dyn fmt::Write) -> fmt::Result {
    match k {
        0 => {
            // How far reading comes before an error is left open, and so is the error.
            if p.err.is_some() {
                return out.write_str("error");
            }
            for (e, s) in p.evs.iter().zip(&p.spans) {
                if !matches!(e, Ev::Comment(_)) {
                    // The span of a bracket or comma goes on over what is passed over behind it,
                    // and may be that of what is not there.
                    let end = match e {
                        Ev::Scalar { style, value, .. } => *style != Style::Plain || !value.is_empty(),
                        e => matches!(e, Ev::Alias(_)),
                    };
                    let end = end.then_some(s.end);
                    writeln!(out, "{e:?} {:?} {end:?}", s.start)?;
                }
            }
            Ok(())
        }
        1 => match Yaml::load_from(text) {
            Ok(v) => v.iter().try_for_each(|y| writeln!(out, "{:?}", of_yaml(y))),
            Err(_) => out.write_str("error"),
        },
        _ => match yam_serde::from_str::<Any>(text) {
            Ok(Any(t)) => write!(out, "{t:?}"),
            Err(_) => out.write_str("error"),
        },
    }
}

struct Fnv(u64);

impl fmt::Write for Fnv {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3);
        }
        Ok(())
    }
}

/// 0 for what has no answer: that is the matter of another property.
fn digest(k: usize, text: &str, p: &Parsed, loads: bool) -> u64 {
    if k > 0 && !loads {
        return 0;
    }
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    match guarded(text.len() * 2, || part(k, text, p, &mut h)) {
        Ok(_) => h.0.max(1),
        Err(_) => 0,
    }
}

fn digests(text: &str, p: &Parsed) -> [u64; 3] {
    // Aliases may make a tree of any size out of a small text.
    let loads = compose(&p.evs, 20_000).is_some();
    [0, 1, 2].map(|k| digest(k, text, p, loads))
}

fn whole(k: usize, text: &str) -> String {
    let mut s = String::new();
    match parse(text) {
        Ok(p) => _ = guarded(text.len() * 2, || part(k, text, &p, &mut s)),
        Err(e) => s = e,
    }
    s
}

/// Answers requests until they end.
pub fn serve() {
    let mut i = io::stdin().lock();
    let mut o = io::stdout().lock();
    loop {
        let mut head = [0; 5];
        if i.read_exact(&mut head).is_err() {
            return;
        }
        crate::runner::arm();
        let mut text = vec![0; u32::from_le_bytes(head[1..].try_into().unwrap()) as usize];
        i.read_exact(&mut text).unwrap();
        let text = String::from_utf8(text).unwrap();
        let answer = if head[0] == 9 {
            parse(&text).map_or([0; 3], |p| digests(&text, &p)).iter().flat_map(|d| d.to_le_bytes()).collect::<Vec<u8>>()
        } else {
            let s = whole(usize::from(head[0]), &text).chars().take(3000).collect::<String>();
            let mut b = (s.len() as u32).to_le_bytes().to_vec();
            b.extend(s.bytes());
            b
        };
        o.write_all(&answer).unwrap();
        o.flush().unwrap();
    }
}

struct Peer {
    child: Child,
    to: ChildStdin,
    from: ChildStdout,
}

impl Peer {
    fn new() -> Peer {
        let me = std::env::current_exe().unwrap();
        let target = me.parent().and_then(|p| p.parent()).and_then(|p| p.parent()).unwrap();
        let mut child = Command::new(target.join("release/harness"))
            .arg("serve")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("the harness without the feature stands next to this one");
        let (to, from) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
        Peer { child, to, from }
    }

    fn send(&mut self, what: u8, text: &str) -> io::Result<()> {
        let mut b = vec![what];
        b.extend((text.len() as u32).to_le_bytes());
        b.extend(text.bytes());
        self.to.write_all(&b)
    }

    fn digests(&mut self, text: &str) -> io::Result<[u64; 3]> {
        self.send(9, text)?;
        let mut b = [0; 24];
        self.from.read_exact(&mut b)?;
        Ok([0, 8, 16].map(|k| u64::from_le_bytes(b[k..k + 8].try_into().unwrap())))
    }

    fn whole(&mut self, k: u8, text: &str) -> io::Result<String> {
        self.send(k, text)?;
        let mut b = [0; 4];
        self.from.read_exact(&mut b)?;
        let mut b = vec![0; u32::from_le_bytes(b) as usize];
        self.from.read_exact(&mut b)?;
        Ok(String::from_utf8_lossy(&b).to_string())
    }
}

impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static PEER: std::cell::RefCell<Option<Peer>> = const { std::cell::RefCell::new(None) };
}

/// Compares what both builds make of a text: whether they could, and the difference.
pub fn compare(text: &str, p: &Parsed) -> Result<bool, String> {
    let mine = digests(text, p);
    PEER.with_borrow_mut(|peer| {
        let other = peer.get_or_insert_with(Peer::new).digests(text);
        let Ok(theirs) = other else {
            // A crash without the feature is the matter of another property.
            *peer = None;
            return Ok(false);
        };
        if theirs[0] == 0 {
            return Ok(false);
        }
        for k in 0..3 {
            if theirs[k] == 0 || mine[k] == theirs[k] {
                continue;
            }
            let theirs = peer.as_mut().unwrap().whole(k as u8, text).unwrap_or_default();
            let mine = whole(k, text);
            let at = mine.lines().zip(theirs.lines()).take_while(|(a, b)| a == b).count();
            let line = |s: &str| s.lines().nth(at).unwrap_or("(nothing)").chars().take(600).collect::<String>();
            return Err(format!("differs-{}: {} instead of {}", PARTS[k], line(&mine), line(&theirs)));
        }
        Ok(true)
    })
}
