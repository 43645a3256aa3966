//! Drives generated parsers with generated inputs and watches them.
use crate::alloc;
use crate::interp::{Er, It, Rng, Root};
use crate::spec::{self, Body, Def, Defs};
use crate::val::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub type CallFn = fn(m: u8, ek: u8, a: &[i64], i: &[u8]) -> Out;

pub struct Prog {
    pub name: &'static str,
    /// `(ty T)` or `(call NAME)`
    pub root: &'static str,
    /// ranges of the extra integer arguments
    pub args: &'static [(i64, i64)],
    pub call: CallFn,
    /// number of error types the function can be instantiated with
    pub errs: u8,
    /// programs of one group have the same meaning
    pub group: &'static str,
    /// space separated facts: complete (never Incomplete), suffix (extension-stable)
    pub flags: &'static str,
}

struct Opts {
    seed: u64,
    bases: u64,
    secs: f64,
    out: String,
    only: Option<String>,
    replay: Option<(u8, u8, Vec<i64>, Vec<u8>)>,
    mons: HashSet<String>,
    noalloc: bool,
    threads: usize,
    trace: Option<String>,
    cap: usize,
    max_inputs: usize,
    dump: Option<String>,
    cases: Option<String>,
}

pub fn unhex(s: &str) -> Vec<u8> {
    let d = |c: u8| if c >= b'a' { c - b'a' + 10 } else { c - b'0' };
    s.as_bytes().chunks(2).map(|c| d(c[0]) << 4 | d(c[1])).collect()
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Tally {
    evals: u64,
    inconclusive: u64,
    events: u64,
    sigs: HashSet<u64>,
    past: HashSet<(&'static str, u8, String)>,
    grids: HashSet<&'static str>,
    classes: BTreeMap<String, u64>,
    cov: HashMap<&'static str, u64>,
    mons: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    viols: Vec<String>,
    nviol: u64,
    viol_by_prog: HashMap<&'static str, u32>,
    peak_max: i64,
    biggest_max: i64,
    max_len: usize,
}
/// when to stop: at the time limit, or soon when there is a violation to report
static LIMIT: OnceLock<(Instant, f64)> = OnceLock::new();
impl Tally {
    fn over(&self) -> bool {
        let (t0, secs) = LIMIT.get().unwrap();
        let t = t0.elapsed().as_secs_f64();
        t > *secs || self.nviol > 0 && t > 40.0
    }
    fn merge(&mut self, o: Tally) {
        self.evals += o.evals;
        self.inconclusive += o.inconclusive;
        self.events += o.events;
        self.sigs.extend(o.sigs);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.cov {
            *self.cov.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.mons {
            *self.mons.entry(k).or_insert(0) += v;
        }
        self.samples.extend(o.samples);
        self.samples.truncate(6);
        self.viols.extend(o.viols);
        self.nviol += o.nviol;
        self.peak_max = self.peak_max.max(o.peak_max);
        self.biggest_max = self.biggest_max.max(o.biggest_max);
        self.max_len = self.max_len.max(o.max_len);
    }
    fn mon(&mut self, k: &'static str) {
        *self.mons.entry(k).or_insert(0) += 1;
    }
}

// the case being executed, for the watchdog
static CASE_NO: AtomicU64 = AtomicU64::new(0);
static CURRENT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

struct Case<'a> {
    p: &'a Prog,
    m: u8,
    ek: u8,
    args: &'a [i64],
    input: &'a [u8],
}
impl Case<'_> {
    fn json(&self, class: &str, note: &str, pred: &str, real: &str) -> String {
        format!(
            "{{\"class\":{},\"prog\":{},\"method\":{},\"errtype\":{},\"args\":{:?},\"input\":\"{}\",\"note\":{},\"predicted\":{},\"observed\":{}}}",
            js(class),
            js(self.p.name),
            self.m,
            self.ek,
            self.args,
            hex(self.input),
            js(note),
            js(pred),
            js(real)
        )
    }
    fn line(&self) -> String {
        format!("{} {} {} {:?} {}", self.p.name, self.m, self.ek, self.args, hex(self.input))
    }
}

// ---- what parsers print: file descriptor 1 is a file while they run
extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}
static STDOUT: OnceLock<std::sync::Mutex<std::fs::File>> = OnceLock::new();
fn capture_stdout(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    let _ = std::fs::remove_file(path);
    assert_eq!(unsafe { dup2(f.as_raw_fd(), 1) }, 1);
    let _ = STDOUT.set(std::sync::Mutex::new(f));
}
/// empties the file and returns its content
fn printed() -> Option<String> {
    use std::io::{Read, Seek};
    let mut f = STDOUT.get()?.lock().unwrap();
    std::io::stdout().flush().unwrap();
    let mut s = vec![];
    f.seek(std::io::SeekFrom::Start(0)).unwrap();
    f.read_to_end(&mut s).unwrap();
    f.set_len(0).unwrap();
    f.seek(std::io::SeekFrom::Start(0)).unwrap();
    Some(String::from_utf8_lossy(&s).into_owned())
}
/// the dump in nom's format: eight bytes in a row, their offset before and their text after them
fn hex_dump(b: &[u8]) -> String {
    let mut v = Vec::with_capacity(b.len() * 4 + 16);
    for (k, row) in b.chunks(8).enumerate() {
        v.extend_from_slice(format!("{:08x}\t", 8 * k).as_bytes());
        for x in row {
            v.extend_from_slice(format!("{:02x} ", x).as_bytes());
        }
        v.resize(v.len() + 3 * (8 - row.len()), b' ');
        v.push(b'\t');
        v.extend(row.iter().map(|x| if matches!(x, 32..=126 | 128..=255) { *x } else { b'.' }));
        v.push(b'\n');
    }
    String::from_utf8_lossy(&v).into_owned()
}
/// the text has to consist of the predicted reports
fn reports_differ(text: &str, want: &[(String, usize, Er)], input: &[u8], ek: u8) -> Option<(String, String)> {
    let mut at = 0;
    for (field, off, e) in want {
        let (prefix, full) = match e {
            Er::Err(k, o) => ("Error(", k.filter(|_| ek == 0).map(|k| format!("Error(Error {{ input: {:?}, code: {:?} }})", &input[*o..], k))),
            Er::Fail(k, o) => ("Failure(", Some(format!("Failure(Error {{ input: {:?}, code: {:?} }})", &input[*o..], k)).filter(|_| ek == 0)),
            Er::Inc(n) => (
                "Incomplete(",
                match n {
                    Need::Size(n) => Some(format!("Incomplete(Size({}))", n)),
                    Need::Unknown => Some("Incomplete(Unknown)".to_string()),
                    Need::Any => None,
                },
            ),
            Er::Stop => continue,
        };
        let head = format!("{}: Error({}", field, full.as_deref().unwrap_or(prefix));
        let tail = format!(") at:\n{}\n", hex_dump(&input[*off..]));
        let rest = &text[at..];
        let end = rest.find(") at:\n").unwrap_or(0);
        let ok = rest.starts_with(&head) && rest[end..].starts_with(&tail) && (full.is_none() || end == head.len());
        if !ok {
            return Some((format!("...{}...{}", head, tail), rest.chars().take(300).collect()));
        }
        at += end + tail.len();
    }
    (at != text.len()).then(|| (format!("{} reports", want.len()), format!("and then {}", text[at..].chars().take(300).collect::<String>())))
}

/// Place the input in memory, run, and check the buffer afterwards.
fn observe(c: &Case, place: Place, o: &Opts) -> (Out, Vec<Ev>, alloc::Stats) {
    if let Some(t) = &o.trace {
        let mut f = std::fs::File::create(t).unwrap();
        f.write_all(c.line().as_bytes()).unwrap();
    }
    let (mut buf, off) = match place {
        Place::Exact => (c.input.to_vec(), 0),
        Place::Inside { before, after, fill } => {
            let mut b = vec![];
            let mut r = Rng(fill);
            b.extend((0..before).map(|_| r.next() as u8));
            b.extend_from_slice(c.input);
            b.extend((0..after).map(|_| r.next() as u8));
            (b, before)
        }
    };
    buf.shrink_to_fit();
    let boxed: Box<[u8]> = buf.into_boxed_slice();
    let slice = &boxed[off..off + c.input.len()];
    set_base(slice.as_ptr() as usize);
    CALLS.with(|n| n.set(0));
    let _ = take_events();
    let _ = printed();
    CASE_NO.fetch_add(1, Ordering::Relaxed);
    alloc::start();
    let out = (c.p.call)(c.m, c.ek, c.args, slice);
    alloc::stop();
    let st = alloc::stats();
    let ev = take_events();
    if slice != c.input {
        return (Out::AlienRem("input buffer was modified".into()), ev, st);
    }
    (out, ev, st)
}

#[derive(Clone, Copy)]
enum Place {
    Exact,
    Inside { before: usize, after: usize, fill: u64 },
}

fn events_str(e: &[Ev]) -> String {
    let mut s = String::new();
    for x in e.iter().take(60) {
        if x.0 >= 1000 {
            let _ = write!(s, " probe{}(m={},off={})", x.0 - 1000, x.1 >> 40, (x.1 << 24) >> 24);
        } else {
            let _ = write!(s, " ev{}({})", x.0, x.1);
        }
    }
    if e.len() > 60 {
        let _ = write!(s, " ...{} in all", e.len());
    }
    s
}

struct Pred {
    out: Out,
    ev: Vec<Ev>,
    hash: u64,
    elem_calls: u64,
    reserve: u64,
    elem_size: u64,
    #[allow(dead_code)]
    steps: u64,
    dumps: Vec<(String, usize, Er)>,
}
fn predict(defs: &Defs, root: &Root, m: u8, args: &[i64], input: &[u8], noalloc: bool, cov: Option<&mut HashMap<&'static str, u64>>) -> Pred {
    // the interpreter borrows the coverage map for its own lifetime
    let mut local: HashMap<&'static str, u64> = HashMap::new();
    let mut it = It::new(defs, input.to_vec());
    it.no_alloc = noalloc;
    let want = cov.is_some();
    if want {
        it.cov = Some(unsafe { &mut *(&mut local as *mut _) });
    }
    let out = it.root(root, m, args);
    let p = Pred { out, ev: std::mem::take(&mut it.ev), hash: it.hash, elem_calls: it.elem_calls, reserve: it.reserve.values().map(|s| 65536 * s).sum(), elem_size: it.reserve.values().copied().max().unwrap_or(0), steps: it.steps, dumps: std::mem::take(&mut it.dumps) };
    drop(it);
    if let Some(c) = cov {
        for (k, v) in local {
            *c.entry(k).or_insert(0) += v;
        }
    }
    p
}

fn report(t: &mut Tally, c: &Case, class: &str, note: &str, pred: &str, real: &str) {
    t.nviol += 1;
    let n = t.viol_by_prog.entry(c.p.name).or_insert(0);
    *n += 1;
    if *n <= 2 && t.viols.len() < 40 {
        t.viols.push(c.json(class, note, pred, real));
    }
}

fn has(p: &Prog, f: &str) -> bool {
    p.flags.split(' ').any(|x| x == f)
}

/// one input, one method: the core monitor
fn check(t: &mut Tally, c: &Case, root: &Root, defs: &Defs, o: &Opts, rng: &mut Rng) -> (Pred, Out) {
    let pred = predict(defs, root, c.m, c.args, c.input, o.noalloc, Some(&mut t.cov));
    t.evals += 1;
    t.max_len = t.max_len.max(c.input.len());
    if let Out::Skip = pred.out {
        // the reference gave up: do not run something that may take unbounded time
        t.inconclusive += 1;
        return (pred, Out::Skip);
    }
    let place = if rng.p(25) { Place::Inside { before: rng.below(9) as usize, after: rng.below(9) as usize, fill: rng.next() } } else { Place::Exact };
    if o.mons.contains("watch") {
        *CURRENT.lock().unwrap() = c.line();
    }
    let (real, ev, st) = observe(c, place, o);
    t.events += ev.len() as u64;
    *t.classes.entry(real.class()).or_insert(0) += 1;
    let mut h = pred.hash ^ (c.m as u64) << 3;
    for b in c.p.name.bytes().chain(real.class().bytes()) {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    if !c.input.is_empty() {
        t.sigs.insert(h);
    }
    if !agrees(&pred.out, &real) {
        let class = match real {
            Out::Panic(_) => "panic",
            Out::AlienRem(_) => "provenance",
            _ => "outcome",
        };
        report(t, c, class, "", &format!("{:?}", pred.out), &format!("{:?}", real));
    } else if pred.ev != ev {
        report(t, c, "events", "", &events_str(&pred.ev), &events_str(&ev));
    } else if let Some(s) = printed() {
        t.mon(if pred.dumps.is_empty() { "no report" } else { "reports of a failure" });
        *t.mons.entry("reports read").or_insert(0) += pred.dumps.len() as u64;
        if let Some((a, b)) = reports_differ(&s, &pred.dumps, c.input, c.ek) {
            report(t, c, "reports", "", &a, &b);
        }
    }
    if t.samples.len() < 6 && rng.below(if t.samples.is_empty() { 3 } else { 400 }) == 0 {
        t.samples.push(format!(
            "{{\"prog\":{},\"method\":{},\"args\":{:?},\"input\":\"{}\",\"observed\":{},\"events\":{}}}",
            js(c.p.name),
            c.m,
            c.args,
            hex(&c.input[..c.input.len().min(64)]),
            js(&format!("{:?}", real).chars().take(300).collect::<String>()),
            js(&events_str(&ev))
        ));
    }
    t.peak_max = t.peak_max.max(st.peak);
    t.biggest_max = t.biggest_max.max(st.biggest);
    if o.mons.contains("mem") {
        t.mon("mem");
        // constant: pre-allocation of repetition combinators is capped at 64 KiB worth of elements
        // (nom's length_count: at 65536 elements)
        let bound = 6 * 1024 * 1024 + pred.reserve as i64 + (400 + 4 * pred.elem_size as i64) * c.input.len() as i64;
        if st.peak > bound {
            report(t, c, "memory", "peak allocation", &format!("<= {}", bound), &format!("{}", st.peak));
        }
        let calls = CALLS.with(|n| n.get());
        let max_calls = 4 * (c.input.len() as u64 + 16) + 4 * pred.elem_calls;
        if calls > max_calls {
            report(t, c, "work", "element parser calls", &format!("<= {}", max_calls), &format!("{}", calls));
        }
    }
    (pred, real)
}

fn mutate(rng: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..1 + rng.below(3) {
        if v.is_empty() {
            v.push(rng.next() as u8);
            continue;
        }
        let k = rng.below(v.len() as u64) as usize;
        match rng.below(8) {
            0 => v[k] ^= 1 << rng.below(8),
            1 => v[k] = 0xff,
            2 => v[k] = 0,
            3 => v[k] = v[k].wrapping_add(1),
            4 => {
                v.insert(k, rng.next() as u8);
            }
            5 => {
                v.remove(k);
            }
            6 => v[k] = [0xEE, 0xDD, 0xCC, 0x80, 0x7f][rng.below(5) as usize],
            _ => v[k] = rng.next() as u8,
        }
    }
    v
}

fn gen_args(rng: &mut Rng, p: &Prog) -> Vec<i64> {
    p.args
        .iter()
        .map(|&(lo, hi)| {
            let r = match rng.below(10) {
                0 => lo,
                1 => hi,
                2..=6 => lo.max(0).saturating_add(rng.below(8) as i64),
                7 => lo.max(0).saturating_add(rng.below(40) as i64),
                _ => {
                    let span = (hi as i128 - lo as i128 + 1) as u128;
                    (lo as i128 + (rng.next() as u128 % span) as i128) as i64
                }
            };
            r.clamp(lo, hi)
        })
        .collect()
}

fn gen_base(rng: &mut Rng, defs: &Defs, root: &Root, m: u8, args: &[i64], o: &Opts) -> Vec<u8> {
    let mut it = It::new(defs, vec![]);
    it.no_alloc = o.noalloc;
    it.limit = 60_000;
    it.gen = Some(crate::interp::Gen { rng: Rng(rng.next()), frozen: false, cap: if !cfg!(miri) && o.cap >= 300 && rng.below(12) == 0 { 6000 } else { o.cap } });
    let _ = it.root(root, m, args);
    it.buf
}

fn inputs_for(rng: &mut Rng, base: &[u8], o: &Opts) -> Vec<Vec<u8>> {
    let mut v = vec![base.to_vec()];
    // trailing bytes
    let mut x = base.to_vec();
    for _ in 0..1 + rng.below(12) {
        x.push(rng.next() as u8);
    }
    v.push(x);
    if !cfg!(miri) && rng.below(3) == 0 {
        // a long tail
        let mut x = base.to_vec();
        let n = 66 + rng.below(700);
        let b = rng.below(4);
        let c = rng.next() as u8;
        for _ in 0..n {
            x.push(match b {
                0 => 0,
                1 => c % 8,
                2 => c,
                _ => rng.next() as u8,
            });
        }
        v.push(x);
    }
    if !cfg!(miri) && rng.below(24) == 0 {
        // more unread bytes than any fixed window
        let n = [4096, 4200, 9000, 65_536, 70_000][rng.below(5) as usize];
        let c = [0, rng.next() as u8][rng.below(2) as usize];
        let mut x = base.to_vec();
        x.resize(base.len() + n, c);
        v.push(x);
    }
    // truncations: all of them when short
    if base.len() <= o.max_inputs {
        for k in 0..base.len() {
            v.push(base[..k].to_vec());
        }
    } else {
        for _ in 0..o.max_inputs {
            v.push(base[..rng.below(base.len() as u64) as usize].to_vec());
        }
    }
    for _ in 0..6 {
        v.push(mutate(rng, base));
    }
    let n = rng.below(40) as usize;
    v.push((0..n).map(|_| rng.next() as u8).collect());
    v.push(vec![0xff; rng.below(24) as usize]);
    v.push(vec![0; rng.below(24) as usize]);
    v
}

/// observe, unless the reference finds the case too long to run
fn guarded(c: &Case, root: &Root, defs: &Defs, o: &Opts) -> Option<Out> {
    let p = predict(defs, root, c.m, c.args, c.input, o.noalloc, None);
    if matches!(p.out, Out::Skip) {
        return None;
    }
    Some(observe(c, Place::Exact, o).0)
}

/// feed bytes as a streaming caller would: grow the input by the reported need until the answer is not Incomplete
fn feed(t: &mut Tally, p: &Prog, m: u8, args: &[i64], full: &[u8], o: &Opts, rng: &mut Rng, root: &Root, defs: &Defs) {
    let mut n = rng.below(full.len() as u64 + 1) as usize / 2;
    let whole = Case { p, m, ek: 0, args, input: full };
    let Some(fin) = guarded(&whole, root, defs, o) else { return };
    let mut rounds = 0;
    loop {
        let c = Case { p, m, ek: 0, args, input: &full[..n] };
        let Some(r) = guarded(&c, root, defs, o) else { return };
        t.mon("feed-step");
        rounds += 1;
        match r {
            Out::Inc(Need::Size(k)) => {
                if n == full.len() {
                    return;
                }
                // the amount must be honest: with fewer bytes the parser is still blocked
                if k > 1 && n.saturating_add(k - 1) <= full.len() {
                    let c2 = Case { p, m, ek: 0, args, input: &full[..n + k - 1] };
                    let Some(r2) = guarded(&c2, root, defs, o) else { return };
                    t.mon("feed-honest");
                    // a mismatch that becomes visible early is the final answer, not a dishonest amount
                    let early = matches!(r2, Out::Err { .. }) && r2 == fin;
                    if !matches!(r2, Out::Inc(_)) && !early {
                        report(t, &c2, "feed", "reported need was not minimal", "Incomplete", &format!("{:?}", r2));
                        return;
                    }
                }
                n = n.saturating_add(k).min(full.len());
            }
            Out::Inc(_) => {
                if n == full.len() {
                    return;
                }
                n += 1;
            }
            r => {
                // finished early: must be what the one-shot call says, up to what is left over
                let same = match (&r, &fin) {
                    (Out::Ok { val: a, off: o1, .. }, Out::Ok { val: b, off: o2, .. }) => a == b && o1 == o2,
                    (a, b) => a == b,
                };
                t.mon("feed-end");
                if !same {
                    report(t, &c, "feed", "incremental result differs from one-shot result", &format!("{:?}", fin), &format!("{:?}", r));
                }
                return;
            }
        }
        if rounds > 10_000 || t.over() {
            t.inconclusive += 1;
            return;
        }
    }
}

/// a recorded call, to be made again after others
struct Past {
    p: &'static Prog,
    m: u8,
    ek: u8,
    args: Vec<i64>,
    input: Vec<u8>,
    out: Out,
    ev: Vec<Ev>,
}

/// the same calls again: many times in a row, and in another order
fn run_history(t: &mut Tally, past: &mut Vec<Past>, o: &Opts, rng: &mut Rng) {
    let again = |t: &mut Tally, x: &Past, what: &str| {
        let c = Case { p: x.p, m: x.m, ek: x.ek, args: &x.args, input: &x.input };
        let (out, ev, _) = observe(&c, Place::Exact, o);
        if out != x.out || ev != x.ev {
            report(t, &c, "history", what, &format!("{:?}{}", x.out, events_str(&x.ev)), &format!("{:?}{}", out, events_str(&ev)));
            return false;
        }
        true
    };
    for x in past.iter() {
        let n = if x.input.len() > 200 || x.ev.len() > 50 { 5 } else { 150 };
        for k in 0..n {
            if t.over() {
                return;
            }
            t.mon("repeated");
            if !again(t, x, &format!("call {} in a row differs from the first", k + 2)) {
                break;
            }
        }
    }
    for k in (1..past.len()).rev() {
        past.swap(k, rng.below(k as u64 + 1) as usize);
    }
    for x in past.iter() {
        t.mon("reordered");
        again(t, x, "the call gives something else after other calls");
    }
}

fn fieldless_of<'d>(p: &Prog, defs: &'d Defs) -> Option<&'d Def> {
    let d = match root_of(p) {
        Root::Ty(spec::Ty::Def(n, _)) => defs.0.get(&n)?,
        _ => return None,
    };
    matches!(d.body, Body::Fieldless(..)).then_some(d)
}

fn run_prog(t: &mut Tally, past: &mut Vec<Past>, p: &'static Prog, root: &Root, defs: &Defs, o: &Opts, rng: &mut Rng) {
    let all_errs = o.mons.contains("errs");
    let args = gen_args(rng, p);
    let gm = 1 + rng.below(2) as u8;
    let base = gen_base(rng, defs, root, gm, &args, o);
    let mut ins = inputs_for(rng, &base, o);
    if let Some(d) = fieldless_of(p, defs) {
        if t.grids.insert(p.name) {
            // every discriminant and its neighbours, in both byte orders
            let Body::Fieldless(w, _, discs) = &d.body else { unreachable!() };
            for v in discs.iter().flat_map(|v| [*v, v.wrapping_sub(1), v.wrapping_add(1)]) {
                let le = v.to_le_bytes()[..*w].to_vec();
                let be: Vec<u8> = le.iter().rev().copied().collect();
                ins.push(be);
                ins.push(le);
            }
        }
    }
    if o.mons.contains("feed") && has(p, "feed") {
        for m in 1..3 {
            feed(t, p, m, &args, &base, o, rng, root, defs);
            feed(t, p, m, &args, &ins[1], o, rng, root, defs);
        }
    }
    if !cfg!(miri) && o.mons.contains("history") {
        // inputs which differ from the one before in a single byte, by one
        let at = if rng.p(40) { 0 } else { rng.below(16) as usize };
        let mut x = base.clone();
        x.truncate(600);
        let tail = [rng.next() as u8, 0][rng.below(2) as usize];
        x.resize((x.len() + 300).max(at + 1), tail);
        for m in 0..3u8 {
            for b in [254, 255, 254, 0, 1, 0, 128, 127, 2] {
                if t.over() {
                    return;
                }
                x[at] = b;
                t.mon("neighbour-sequence");
                check(t, &Case { p, m, ek: 0, args: &args, input: &x }, root, defs, o, rng);
            }
        }
    }
    for (k, i) in ins.iter().enumerate() {
        for m in 0..3u8 {
            if k > 8 && m == 0 && !rng.p(20) {
                continue;
            }
            let c = Case { p, m, ek: 0, args: &args, input: i };
            if t.over() {
                return;
            }
            let (pred, real) = check(t, &c, root, defs, o, rng);
            if o.mons.contains("history") && agrees(&pred.out, &real) && !matches!(real, Out::Skip) && t.past.insert((p.name, m, real.class())) {
                past.push(Past { p, m, ek: 0, args: args.clone(), input: i.clone(), out: real.clone(), ev: pred.ev.clone() });
            }
            if has(p, "complete") {
                t.mon("never-incomplete");
                if matches!(real, Out::Inc(_)) {
                    report(t, &c, "complete", "Incomplete although everything is Complete", "not Incomplete", &format!("{:?}", real));
                }
            }
            if has(p, "suffix") {
                if let Out::Ok { val, off, .. } = &real {
                    let mut x = i.clone();
                    for _ in 0..1 + rng.below(9) {
                        x.push(rng.next() as u8);
                    }
                    let c2 = Case { p, m, ek: 0, args: &args, input: &x };
                    let Some(r2) = guarded(&c2, root, defs, o) else { continue };
                    t.mon("suffix-stable");
                    match &r2 {
                        Out::Ok { val: v2, off: o2, .. } if v2 == val && o2 == off => (),
                        r2 => report(t, &c2, "suffix", "extending the input changed the result", &format!("{:?}", real), &format!("{:?}", r2)),
                    }
                }
            }
            if o.mons.contains("place") && !matches!(real, Out::Skip) {
                for _ in 0..3 {
                    let (r2, e2, _) = observe(&c, Place::Inside { before: rng.below(17) as usize, after: rng.below(17) as usize, fill: rng.next() }, o);
                    t.mon("placement");
                    if !matches!(real, Out::Skip) && r2 != real {
                        report(t, &c, "placement", "outcome depends on buffer placement or history", &format!("{:?}", real), &format!("{:?}", r2));
                    }
                    let _ = e2;
                }
            }
            if p.errs > 1 && (all_errs || rng.p(10)) {
                for ek in 1..p.errs {
                    let c2 = Case { p, m, ek, args: &args, input: i };
                    let _ = check(t, &c2, root, defs, o, rng);
                    t.mon("error-type");
                }
            }
        }
    }
}

/// programs of one group must behave identically
fn run_group(t: &mut Tally, g: &[&Prog], roots: &HashMap<&str, Root>, defs: &Defs, o: &Opts, rng: &mut Rng) {
    let args = gen_args(rng, g[0]);
    let gm = 1 + rng.below(2) as u8;
    let base = gen_base(rng, defs, &roots[g[0].name], gm, &args, o);
    for i in inputs_for(rng, &base, o) {
        for m in 0..3u8 {
            if t.over() {
                return;
            }
            let c0 = Case { p: g[0], m, ek: 0, args: &args, input: &i };
            let (_, r0) = check(t, &c0, &roots[g[0].name], defs, o, rng);
            if matches!(r0, Out::Skip) {
                continue;
            }
            let (r0b, e0, _) = observe(&c0, Place::Exact, o);
            let _ = r0b;
            for p in &g[1..] {
                let c = Case { p, m, ek: 0, args: &args, input: &i };
                let (r, e, _) = observe(&c, Place::Exact, o);
                t.evals += 1;
                t.mon("equivalence");
                if r != r0 {
                    report(t, &c, "equivalence", &format!("spelling {} and {} disagree", g[0].name, p.name), &format!("{:?}", r0), &format!("{:?}", r));
                } else if e != e0 {
                    report(t, &c, "equivalence-events", &format!("spelling {} and {} disagree", g[0].name, p.name), &events_str(&e0), &events_str(&e));
                }
            }
        }
    }
}

struct Rec {
    p: usize,
    m: u8,
    args: Vec<i64>,
    input: Vec<u8>,
    out: Out,
    ev: Vec<Ev>,
}

/// every program alone, called from all threads at the same time with different inputs
fn hammer(t: &mut Tally, progs: &[&Prog], recs: &[Rec], threads: usize, calls: u64, rng: &mut Rng) {
    let mut groups: BTreeMap<usize, Vec<&Rec>> = BTreeMap::new();
    for r in recs {
        groups.entry(r.p).or_default().push(r);
    }
    let groups: Vec<Vec<&Rec>> = groups.into_values().collect();
    let shared: Vec<Vec<Vec<u8>>> = groups.iter().map(|g| g.iter().map(|r| r.input.clone()).collect()).collect();
    let barrier = std::sync::Barrier::new(threads);
    let inside = AtomicU64::new(0);
    let results: Vec<Tally> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (groups, shared, barrier, inside) = (&groups, &shared, &barrier, &inside);
                let seed = rng.next();
                let body = move || {
                    let mut t = Tally::default();
                    let mut rng = Rng(seed);
                    let mut overlaps = 0;
                    for (g, inputs) in groups.iter().zip(shared) {
                        barrier.wait();
                        for _ in 0..calls {
                            let k = rng.below(g.len() as u64) as usize;
                            let r = g[k];
                            set_base(inputs[k].as_ptr() as usize);
                            CALLS.with(|n| n.set(0));
                            let _ = take_events();
                            overlaps += (inside.fetch_add(1, Ordering::Relaxed) > 0) as u64;
                            let out = (progs[r.p].call)(r.m, 0, &r.args, &inputs[k]);
                            inside.fetch_sub(1, Ordering::Relaxed);
                            let ev = take_events();
                            t.evals += 1;
                            t.mon("concurrent-same-program");
                            t.events += ev.len() as u64;
                            if out != r.out || ev != r.ev {
                                let c = Case { p: progs[r.p], m: r.m, ek: 0, args: &r.args, input: &r.input };
                                report(&mut t, &c, "concurrent", "differs from the same call made alone", &format!("{:?} {}", r.out, events_str(&r.ev)), &format!("{:?} {}", out, events_str(&ev)));
                                break;
                            }
                        }
                    }
                    *t.mons.entry("overlapping-calls-observed").or_insert(0) += overlaps;
                    t
                };
                std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, body).expect("harness: thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for r in results {
        t.merge(r);
    }
}

/// the same cases from several threads at once must give what they gave alone
fn run_threads(t: &mut Tally, progs: &[&Prog], roots: &HashMap<&str, Root>, defs: &Defs, o: &Opts, rng: &mut Rng) {
    let mut recs = vec![];
    for (k, p) in progs.iter().enumerate() {
        for _ in 0..2 {
            let args = gen_args(rng, p);
            let base = gen_base(rng, defs, &roots[p.name], 1, &args, o);
            for (n, i) in inputs_for(rng, &base, o).into_iter().enumerate() {
                if n > 10 {
                    break;
                }
                let m = rng.below(3) as u8;
                let c = Case { p, m, ek: 0, args: &args, input: &i };
                let pr = predict(defs, &roots[p.name], m, &args, &i, o.noalloc, None);
                if matches!(pr.out, Out::Skip) {
                    continue;
                }
                let (out, ev, _) = observe(&c, Place::Exact, o);
                recs.push(Rec { p: k, m, args: args.clone(), input: i, out, ev });
            }
        }
    }
    hammer(t, progs, &recs, o.threads, 600, rng);
    let shared: Vec<Vec<u8>> = recs.iter().map(|r| r.input.clone()).collect();
    let switches = AtomicU64::new(0);
    let last = AtomicU64::new(u64::MAX);
    let results: Vec<Tally> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..o.threads)
            .map(|th| {
                let (recs, shared, switches, last) = (&recs, &shared, &switches, &last);
                let seed = rng.next();
                let body = move || {
                    let mut t = Tally::default();
                    let mut rng = Rng(seed);
                    let n = recs.len();
                    for _ in 0..n * 3 {
                        if t.over() {
                            break;
                        }
                        let k = rng.below(n as u64) as usize;
                        let r = &recs[k];
                        if last.swap(th as u64, Ordering::Relaxed) != th as u64 {
                            switches.fetch_add(1, Ordering::Relaxed);
                        }
                        let p = progs[r.p];
                        // all threads read the same buffer
                        set_base(shared[k].as_ptr() as usize);
                        CALLS.with(|n| n.set(0));
                        let _ = take_events();
                        let out = (p.call)(r.m, 0, &r.args, &shared[k]);
                        let ev = take_events();
                        if rng.p(5) {
                            std::thread::yield_now();
                        }
                        t.evals += 1;
                        t.mon("concurrent-call");
                        t.events += ev.len() as u64;
                        if out != r.out || ev != r.ev {
                            let c = Case { p, m: r.m, ek: 0, args: &r.args, input: &r.input };
                            report(&mut t, &c, "concurrent", "differs from the same call made alone", &format!("{:?} {}", r.out, events_str(&r.ev)), &format!("{:?} {}", out, events_str(&ev)));
                        }
                    }
                    t
                };
                std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, body).expect("harness: thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for r in results {
        t.merge(r);
    }
    *t.mons.entry("thread-switches-observed").or_insert(0) += switches.load(Ordering::Relaxed);
}

fn root_of(p: &Prog) -> Root {
    let s = &spec::parse_all(p.root)[0];
    match s.head() {
        "ty" => Root::Ty(spec::ty(&s.l()[1])),
        "call" => Root::Call(s.l()[1].a().to_string()),
        h => panic!("root {}", h),
    }
}

fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0)
}

/// events, and the value if there is one
fn print_of(out: &Out, ev: &[Ev]) -> u64 {
    let s = if matches!(out, Out::Ok { .. }) { format!("{:?} {}", out, events_str(ev)) } else { events_str(ev) };
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// execute recorded cases without the reference (used under Miri, where it would be too slow)
fn run_cases(progs: &'static [Prog], path: &str, o: &Opts) {
    let text = std::fs::read_to_string(path).unwrap();
    let by: HashMap<&str, &Prog> = progs.iter().map(|p| (p.name, p)).collect();
    let (mut n, mut bad, mut events) = (0u64, vec![], 0u64);
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    if o.threads > 0 {
        // concurrent calls under an interpreter which switches threads at random points and looks for data races
        let all: Vec<&Prog> = progs.iter().collect();
        let idx: HashMap<&str, usize> = progs.iter().enumerate().map(|(k, p)| (p.name, k)).collect();
        let mut recs = vec![];
        for l in text.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            let p = idx[f[0]];
            let args: Vec<i64> = if f[2] == "-" { vec![] } else { f[2].split(',').map(|x| x.parse().unwrap()).collect() };
            let input = if f[3] == "-" { vec![] } else { unhex(f[3]) };
            let c = Case { p: all[p], m: f[1].parse().unwrap(), ek: 0, args: &args, input: &input };
            let (out, ev, _) = observe(&c, Place::Exact, o);
            recs.push(Rec { p, m: c.m, args: args.clone(), input: input.clone(), out, ev });
        }
        eprintln!("CASE - {} recorded cases, {} threads", recs.len(), o.threads);
        let mut t = Tally::default();
        hammer(&mut t, &all, &recs, o.threads, o.bases as u64, &mut Rng(o.seed));
        let mons: Vec<String> = t.mons.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let s = format!("{{\"evaluations\":{},\"events\":{},\"monitors\":{{{}}},\"violations\":{},\"records\":[{}]}}", t.evals, t.events, mons.join(","), t.nviol, t.viols.join(","));
        std::fs::write(&o.out, s).unwrap();
        eprintln!("CASES DONE");
        return;
    }
    for l in text.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        let p = by[f[0]];
        let args: Vec<i64> = if f[2] == "-" { vec![] } else { f[2].split(',').map(|x| x.parse().unwrap()).collect() };
        let input = if f[3] == "-" { vec![] } else { unhex(f[3]) };
        let c = Case { p, m: f[1].parse().unwrap(), ek: 0, args: &args, input: &input };
        // the last line printed names the case being executed when the interpreter stops
        eprintln!("CASE {}", l);
        let place = if n % 3 == 0 { Place::Inside { before: 3, after: 2, fill: n } } else { Place::Exact };
        let (out, ev, _) = observe(&c, place, o);
        n += 1;
        events += ev.len() as u64;
        *classes.entry(out.class()).or_insert(0) += 1;
        let (seen, want) = (out.class(), f[4]);
        // a kind the reference leaves open, an unspecified number of missing bytes
        let open = want.strip_suffix('?').map(|p| seen.starts_with(p)).unwrap_or(false);
        let same = f[5].parse() == Ok(print_of(&out, &ev));
        if seen == want && !same {
            bad.push(c.json("outcome", "value or events", f[4], &format!("{:?} {}", out, events_str(&ev))));
        } else if seen != want && !open && !(seen.starts_with("Incomplete") && want.starts_with("Incomplete")) {
            bad.push(c.json(if matches!(out, Out::Panic(_)) { "panic" } else { "outcome" }, "", f[4], &format!("{:?}", out)));
        }
    }
    let cl: Vec<String> = classes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let s = format!("{{\"evaluations\":{},\"events\":{},\"classes\":{{{}}},\"violations\":{},\"records\":[{}]}}", n, events, cl.join(","), bad.len(), bad.join(","));
    std::fs::write(&o.out, s).unwrap();
    eprintln!("CASES DONE");
}

pub fn main(progs: &'static [Prog], defs_src: &str) {
    let mut o = Opts {
        seed: 1,
        bases: 4,
        secs: 1e9,
        out: "/dev/stdout".into(),
        only: None,
        replay: None,
        mons: HashSet::new(),
        noalloc: false,
        threads: 0,
        trace: None,
        cap: 300,
        max_inputs: 24,
        dump: None,
        cases: None,
    };
    let av: Vec<String> = std::env::args().collect();
    let mut k = 1;
    while k < av.len() {
        let v = av.get(k + 1).cloned().unwrap_or_default();
        match av[k].as_str() {
            "--seed" => o.seed = v.parse().unwrap(),
            "--bases" => o.bases = v.parse().unwrap(),
            "--secs" => o.secs = v.parse().unwrap(),
            "--out" => o.out = v,
            "--only" => o.only = Some(v),
            "--mons" => o.mons = v.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
            "--big-host" => crate::interp::BIG_HOST.store(v == "1", Ordering::Relaxed),
            "--noalloc" => o.noalloc = v == "1",
            "--threads" => o.threads = v.parse().unwrap(),
            "--trace" => o.trace = Some(v),
            "--cap" => o.cap = v.parse().unwrap(),
            "--max-inputs" => o.max_inputs = v.parse().unwrap(),
            "--dump" => o.dump = Some(v),
            "--cases" => o.cases = Some(v),
            "--replay" => {
                // method:errtype:args:hex
                let f: Vec<&str> = v.split(':').collect();
                o.replay = Some((f[0].parse().unwrap(), f[1].parse().unwrap(), f[2].split(',').filter(|s| !s.is_empty()).map(|x| x.parse().unwrap()).collect(), unhex(f[3])));
            }
            a => panic!("argument {}", a),
        }
        k += 2;
    }
    std::panic::set_hook(Box::new(|i| {
        crate::alloc::stop();
        let s = format!("{}", i).replace('\n', " ");
        if !IN_CALL.with(|c| c.get()) {
            eprintln!("harness panic: {}", s);
        }
        PANIC_MSG.with(|m| *m.borrow_mut() = s);
    }));
    if let Some(path) = &o.cases {
        return run_cases(progs, path, &o);
    }
    if o.mons.contains("reports") {
        capture_stdout(&format!("{}.stdout", if o.out == "/dev/stdout" { std::env::temp_dir().join(format!("rt-{}", std::process::id())).display().to_string() } else { o.out.clone() }));
    }
    let defs = spec::defs(defs_src);
    let roots: HashMap<&str, Root> = progs.iter().map(|p| (p.name, root_of(p))).collect();
    if let Some((m, ek, args, input)) = &o.replay {
        let p = progs.iter().find(|p| Some(p.name) == o.only.as_deref()).expect("no such program");
        let c = Case { p, m: *m, ek: *ek, args, input };
        let pr = predict(&defs, &roots[p.name], *m, args, input, o.noalloc, None);
        let (mut out, mut ev, mut st) = observe(&c, Place::Exact, &o);
        for _ in 0..200 {
            // a call may differ only after others like it
            if agrees(&pr.out, &out) && pr.ev == ev {
                (out, ev, st) = observe(&c, Place::Exact, &o);
            }
        }
        eprintln!("predicted {:?}\n  events{}\nobserved  {:?}\n  events{}\n  peak bytes {}", pr.out, events_str(&pr.ev), out, events_str(&ev), st.peak);
        let mut same = agrees(&pr.out, &out) && pr.ev == ev;
        if let Some(s) = printed() {
            if let Some((a, b)) = reports_differ(&s, &pr.dumps, input, *ek) {
                eprintln!("reports predicted {}\nreports observed {}", a, b);
                same = false;
            }
        }
        std::process::exit(if same { 0 } else { 1 });
    }
    if let Some(path) = &o.dump {
        // record inputs and predictions, for executions outside this process (Miri)
        let mut rng = Rng(o.seed);
        let mut s = String::new();
        for p in progs {
            for _ in 0..o.bases {
                let args = gen_args(&mut rng, p);
                let base = gen_base(&mut rng, &defs, &roots[p.name], 1, &args, &o);
                let ins = inputs_for(&mut rng, &base, &o);
                for i in ins.iter().take(o.max_inputs) {
                    let m = rng.below(3) as u8;
                    let pr = predict(&defs, &roots[p.name], m, &args, i, o.noalloc, None);
                    // an interpreter runs them: no long loops
                    if matches!(pr.out, Out::Skip) || pr.steps > 250 || i.len() > 80 {
                        continue;
                    }
                    let a: Vec<String> = args.iter().map(|x| x.to_string()).collect();
                    let _ = writeln!(s, "{} {} {} {} {} {}", p.name, m, if a.is_empty() { "-".into() } else { a.join(",") }, if i.is_empty() { "-".into() } else { hex(i) }, pr.out.class(), print_of(&pr.out, &pr.ev));
                }
            }
        }
        std::fs::write(path, s).unwrap();
        return;
    }
    let _ = LIMIT.set((Instant::now(), o.secs));
    let mut t = Tally::default();
    if o.mons.contains("watch") {
        let outp = o.out.clone();
        std::thread::spawn(move || {
            let mut seen = u64::MAX;
            let mut since = cpu_ticks();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let n = CASE_NO.load(Ordering::Relaxed);
                let cpu = cpu_ticks();
                if n != seen {
                    seen = n;
                    since = cpu;
                } else if cpu.saturating_sub(since) > 2000 {
                    // 20 s of CPU on a call whose reference took < 600k steps
                    let line = CURRENT.lock().unwrap().clone();
                    let _ = std::fs::write(format!("{}.hang", outp), line);
                    std::process::exit(77);
                }
            }
        });
    }
    let sel: Vec<&'static Prog> = progs.iter().filter(|p| o.only.as_deref().map(|n| n == p.name).unwrap_or(true)).collect();
    let mut executed: HashSet<&str> = HashSet::new();
    if o.threads > 0 {
        let mut rng = Rng(o.seed);
        for _ in 0..o.bases {
            run_threads(&mut t, &sel, &roots, &defs, &o, &mut rng);
            if t.over() {
                break;
            }
        }
        executed.extend(sel.iter().map(|p| p.name));
    } else if o.mons.contains("equiv") {
        let mut groups: BTreeMap<&str, Vec<&Prog>> = BTreeMap::new();
        for p in &sel {
            groups.entry(p.group).or_default().push(p);
        }
        'a: for round in 0..o.bases {
            for (k, g) in groups.values().enumerate() {
                let mut rng = Rng(o.seed ^ (k as u64) << 20 ^ round << 44);
                run_group(&mut t, g, &roots, &defs, &o, &mut rng);
                executed.extend(g.iter().map(|p| p.name));
                if t.over() {
                    break 'a;
                }
            }
        }
    } else {
        let mut past = vec![];
        'b: for round in 0..o.bases {
            for (k, p) in sel.iter().enumerate() {
                let mut rng = Rng(o.seed ^ (k as u64) << 20 ^ round << 44);
                run_prog(&mut t, &mut past, p, &roots[p.name], &defs, &o, &mut rng);
                executed.insert(p.name);
                if t.over() {
                    break 'b;
                }
            }
        }
        run_history(&mut t, &mut past, &o, &mut Rng(o.seed ^ 0x7157));
    }
    let mut s = String::new();
    let kv = |m: Vec<(String, u64)>| {
        let mut m = m;
        m.sort();
        m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
    };
    let _ = write!(
        s,
        "{{\"programs\":{},\"evaluations\":{},\"inconclusive\":{},\"events\":{},\"distinct\":{},\"classes\":{{{}}},\"coverage\":{{{}}},\"monitors\":{{{}}},\"peak_bytes\":{},\"biggest_alloc\":{},\"longest_input\":{},\"violations\":{},\"samples\":[{}],\"records\":[{}]}}",
        executed.len(),
        t.evals,
        t.inconclusive,
        t.events,
        t.sigs.len(),
        kv(t.classes.iter().map(|(k, v)| (k.clone(), *v)).collect()),
        kv(t.cov.iter().map(|(k, v)| (k.to_string(), *v)).collect()),
        kv(t.mons.iter().map(|(k, v)| (k.to_string(), *v)).collect()),
        t.peak_max,
        t.biggest_max,
        t.max_len,
        t.nviol,
        t.samples.join(","),
        t.viols.join(",")
    );
    std::fs::write(&o.out, s).unwrap();
}
