//! C19: the cost of reading a text stays in proportion to its length.

use super::text_case;
use crate::engine::*;
use crate::ev::*;
use crate::runner::Prop;
use crate::text::TOKENS;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ALLOCATED: Cell<u64> = const { Cell::new(0) };
    static BLOCKS: Cell<u64> = const { Cell::new(0) };
}

/// Counts what each thread allocates.
pub struct Counting;

fn count(n: usize) {
    let _ = ALLOCATED.try_with(|a| a.set(a.get() + n as u64));
    let _ = BLOCKS.try_with(|a| a.set(a.get() + 1));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // A block that grows may have to be copied.
        count(n);
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}

fn cpu_ns() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Cost {
    pub steps: u64,
    pub bytes: u64,
    pub blocks: u64,
    pub ns: u64,
    pub events: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Events,
    Peeks,
    Tree,
    Serde,
    Written,
}

fn run(text: &str, way: Way) -> Result<Cost, String> {
    use yam_core::parsing::Parser;
    use yam_core::prelude::*;
    let (a, b) = (ALLOCATED.get(), BLOCKS.get());
    let t = cpu_ns();
    let events = guarded(text.len(), || {
        let mut p = Parser::new(StrSource::new(text));
        let mut n = 0;
        match way {
            Way::Events => {
                while let Some(Ok(e)) = p.next() {
                    std::hint::black_box(&e);
                    n += 1;
                }
            }
            Way::Peeks => {
                while let Some(Ok(e)) = p.peek() {
                    std::hint::black_box(&e);
                    if p.next().is_none() {
                        break;
                    }
                    n += 1;
                }
            }
            Way::Tree => {
                let r = Yaml::load_from(text);
                std::hint::black_box(&r);
            }
            Way::Written => {
                let r = yam_serde::to_pretty_string(&text, yam_serde::ser::PrettyFormatter::pretty());
                std::hint::black_box(&r.is_ok());
            }
            Way::Serde => {
                let r = yam_serde::from_str::<serde::de::IgnoredAny>(text);
                std::hint::black_box(&r.is_ok());
            }
        }
        n
    })?;
    Ok(Cost { ns: cpu_ns() - t, steps: steps(), bytes: ALLOCATED.get() - a, blocks: BLOCKS.get() - b, events })
}

/// A text of about `n` bytes made by repeating a piece.
fn repeat(pre: &str, unit: &str, mid: &str, close: &str, post: &str, indent: usize, n: usize) -> String {
    let mut s = String::from(pre);
    let mut k = 0;
    let own = unit.len() + close.len();
    while s.len() + k * close.len() < n {
        if indent > 0 {
            // Each repetition goes deeper.
            s.push('\n');
            s.extend(std::iter::repeat_n(' ', k * indent));
        }
        s.push_str(&unit.replace('\u{1}', &k.to_string()));
        k += 1;
        if own == 0 {
            break;
        }
    }
    s.push_str(mid);
    for _ in 0..k {
        s.push_str(close);
    }
    s.push_str(post);
    s
}

const UNITS: &[(&str, &str)] = &[
    ("[", "]"), ("{a: ", "}"), ("[a, ", "]"), ("{? ", "}"), ("[? ", "]"), ("{[", "]: b}"), ("[[", "], a]"), ("{\"a\": [", "]}"), ("[{", "}]"), ("[a: ", "]"),
    ("- ", ""), ("? ", ""), ("- - ", ""), ("- ? ", ""), ("a", ""), ("a b\n  ", ""), ("\n", ""), (" ", ""), ("\t", ""), ("\r", ""), ("\r\n", ""), ("# c\n", ""), ("#", ""),
    ("a: b\n", ""), ("- a\n", ""), ("k\u{1}: v\n", ""), ("a:\n", ""), ("? a\n: b\n", ""), ("- |\n a\n", ""), ("- >\n a\n\n  b\n", ""), ("---\n", ""), ("--- a\n", ""), ("...\n", ""), ("a\n...\n", ""),
    ("---\na: b\n...\n", ""), ("%YAML 1.2\n---\n", ""), ("%TAG !e\u{1}! x:\n", ""), ("%FOO x\n", ""), ("- &a\u{1} x\n", ""), ("- &a x\n", ""), ("- *a\n", ""), ("- &a\u{1} x\n- *a\u{1}\n", ""), ("- !t x\n", ""), ("- !!str x\n", ""), ("- !e!x y\n", ""),
    ("&a ", ""), ("!t ", ""), ("'a' ", ""), ("''", ""), ("\\n", ""), ("\\\n  ", ""), ("\\x41", ""), ("a, ", ""), ("a: b, ", ""), ("\"a\": b, ", ""), ("? a, ", ""), ("[a], ", ""), (", ", ""), ("{}, ", ""), ("[]: x, ", ""), ("%41", ""), ("é", ""), ("日本 ", ""), (":", ""), ("-", ""), ("a:b", ""), ("a#", ""), ("\n\n a\n", ""), ("  x\n\n", ""), ("x\n", ""), ("\\", ""), ("\"", ""), ("'", ""), ("*a ", ""), ("<", ""), ("12 ", ""), ("1", ""), ("0x", ""), ("- 1.5\n", ""), ("- true\n", ""), ("'a': 'b\n  c'\n", ""), ("\"a\": \"b\\n\n  c\"\n", ""), ("[a, b]: [c]\n", ""), ("- [a, {b: c}]\n", ""), ("? |\n  a\n: >\n  b\n", ""), ("- # c\n  a\n", ""), ("a: # c\n  b\n", ""), ("[\n]\n", ""), ("- a: b\n  c: d\n", ""), ("-\n  - a\n", ""), ("? - a\n: - b\n", ""),
];

const PRES: &[&str] = &["", "", "", "- ", "a: ", "[", "{", "'", "\"", "|\n ", ">\n ", "- |\n  ", "a: >-\n  ", "- [", "? ", "&a ", "!t ", "!", "!<", "# ", "--- ", "---\n", "%TAG ! ", "%", "&", "*", "[[", "{a: ", "[a, ", "- &a x\n", "%TAG !e! x:\n---\n", "a:\n  ", "- - - ", "!!", "|1\n ", "|+\n", ">+\n", "k: \"", "k: '", "'a\n\n", "a", "a: b\n", "\u{feff}"];
const POSTS: &[&str] = &["", "", "", "'", "\"", "]", "}", ": x", "\n", "x", "\n---\na\n", "]: x\n", "\": x", "': x", "\n  x", "\nx", ": ", "\n...\n", "> a", " a", "#"];

fn piece(g: &mut G) -> (String, String) {
    let mut s = String::new();
    let mut e = String::new();
    for _ in 0..1 + g.weighted(&[6, 2, 1]) {
        let (a, b) = if g.chance(1, 6) { (*g.pick(TOKENS), "") } else { *g.pick(UNITS) };
        s.push_str(a);
        e = format!("{b}{e}");
    }
    (s, e)
}

/// Bounds per byte, far above what sensible texts need.
const STEPS: u64 = 40;
const BYTES: u64 = 1500;
const BLOCKS_PER_BYTE: u64 = 6;
const NS: u64 = 6000;

/// Whether 16 times the text takes more than 64 times the time.
pub fn grows(text: &dyn Fn(usize) -> String) -> bool {
    let ns = |n: usize| (0..3).map(|_| run(&text(n), Way::Events).map_or(u64::MAX, |c| c.ns)).min().unwrap();
    ns(200_000) > 64 * ns(12_500)
}

fn c19(g: &mut G) -> Case {
    let n = *g.pick(&[6_000, 6_000, 6_000, 6_000, 20_000, 20_000, 200_000]);
    let pre = *g.pick(PRES);
    let (unit, close) = piece(g);
    let mid = *g.pick(&["", "", "a", "'b'", "\"c\"", "~", "x: y"]);
    let post = *g.pick(POSTS);
    let close = if g.chance(1, 4) { String::new() } else { close };
    let indent = if g.chance(1, 8) { g.range(1, 2) } else { 0 };
    // Known finding.
    let n = if close.contains(':') { n.min(20_000) } else { n };
    let way = *g.pick(&[Way::Events, Way::Peeks, Way::Tree, Way::Serde, Way::Written]);
    // Shorter texts first: what takes too long may take hours on a long one.
    let mut c = Case::default();
    for n in [6_000, 20_000, 200_000].into_iter().filter(|k| *k <= n) {
        let text = repeat(pre, &unit, mid, &close, post, indent, n);
        c = text_case(&text);
        c.desc = format!("{way:?}: {pre:?} + {unit:?} times {} + {mid:?} + {close:?} as often + {post:?}, indented by {indent} more each time", text.len() / (unit.len() + close.len()).max(1));
        c.key = mix(&[c.key, way as u64]);
        if n > 100_000 {
            c.label("200-kb");
        }
        if indent > 0 {
            c.label("ever-deeper");
        }
        // Trees repeat what aliases name, and deep ones overflow the stack.
        let deep = text.bytes().filter(|b| matches!(b, b'[' | b'{')).count() > 500 || unit.starts_with(['-', '?']) || indent > 0;
        let way = if matches!(way, Way::Tree | Way::Serde) && (deep || text.contains('*')) { Way::Peeks } else { way };
        c.label(match way {
            Way::Events => "events",
            Way::Peeks => "peeks",
            Way::Tree => "tree",
            Way::Serde => "serde",
            Way::Written => "written",
        });
        measure(&mut c, &text, way);
        if c.fail.is_some() {
            break;
        }
    }
    c
}

/// Reads or writes `text` that way, and whether that stays within the bounds.
fn measure(c: &mut Case, text: &str, way: Way) {
    let mut best = Cost::default();
    let len = text.len() as u64 + 64;
    // A stolen processor makes times longer, never shorter.
    for k in 0..4 {
        let r = match run(text, way) {
            Err(e) => {
                c.fail = Some(e);
                return;
            }
            Ok(r) => r,
        };
        if k == 0 {
            best = r;
        }
        best.ns = best.ns.min(r.ns);
        if best.ns <= NS * len {
            break;
        }
    }
    if matches!(way, Way::Events | Way::Peeks) {
        c.nontrivial = best.events > 4 || best.steps > text.len() as u64 / 4;
        if best.events > len / 20 {
            c.label("many-events");
        }
    } else {
        c.nontrivial = true;
    }
    if std::env::var_os("HARNESS_COST").is_some() {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open("/tmp/cost.log").unwrap();
        let l = format!("{}\t{}\t{}\t{}\t{}\t{}\n", best.steps * 10 / len, best.bytes * 10 / len, best.blocks * 100 / len, best.ns * 10 / len, len, c.desc);
        let _ = f.write_all(l.as_bytes());
    }
    for (what, got, bound) in [("steps", best.steps, STEPS), ("bytes allocated", best.bytes, BYTES), ("allocations", best.blocks, BLOCKS_PER_BYTE), ("ns of CPU time", best.ns, NS)] {
        if got > bound * len {
            c.fail(&format!("cost-{}", what.split(' ').next().unwrap_or("")), format!("{got} {what} on {} bytes: more than {bound} per byte", text.len()));
        }
    }
}

pub const C19: Prop = Prop {
    id: "C19",
    rule: "a text of 6, 20 or 200 KB made by repeating a piece of one to three tokens or snippets (out of some hundred), perhaps each time deeper, with something in front, in the middle, as many closing pieces and something behind; read as events, with peeks, as a tree or by serde; looks at the input, bytes and blocks allocated and CPU time must stay below a bound per byte that is 4 to 10 times what any text takes (40 looks, 1500 bytes, 6 blocks, 6 microseconds); non-trivial: five events and more, or looks at a quarter of the bytes; distinct by text and way",
    assumptions: &["CPU time is the least of up to four runs", "nested flow collections as keys are at most 20 KB (known finding: they take quadratic time)", "trees of aliases are left out: they grow exponentially by design"],
    quick: 6_000,
    thorough: 400_000,
    run: c19,
    fixed: super::none,
};
