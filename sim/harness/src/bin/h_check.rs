//! The bottom-up checker: from the types of the endpoints to communicating automata, and from the external
//! tool's answers to a verdict, on simulated files, with a simulated tool, under arbitrary hash seeds.
#![allow(warnings)]
use simrt::engine::me;
use simrt::fs;
use simrt::worker::{main as wmain, Prop};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// What the checker returned, with plain graphs.
pub type Raw = Result<(HashMap<String, Vec<(usize, usize, String)>>, Option<i32>), String>;
macro_rules! raw {
    ($e: expr) => {
        $e.map_err(|e| e.to_string()).map(|(g, k)| {
            (g.into_iter().map(|(r, g)| (r, g.raw_edges().iter().map(|e| (e.source().index(), e.target().index(), e.weight.clone())).collect())).collect(), k)
        })
    };
}
use raw;
include!("../gen/check.rs");

fn d(n: u64) -> u64 {
    simrt::draw(n)
}

// ------------------------------------------------------------------ protocols

type Msg = (usize, usize, usize); // from, to, type
#[derive(Clone, Debug)]
struct Body {
    msgs: Vec<Msg>,
    next: Option<usize>,
}
#[derive(Clone, Debug)]
struct Proto {
    file: String,
    roles: Vec<String>,
    start: Body,
    /// Chooser and branches.
    states: Vec<(usize, Vec<(String, Body)>)>,
    either: bool,
    /// The order in which the endpoints and the choices are listed.
    order: Vec<usize>,
    /// Real types, through the macros.
    compiled: Option<fn(&str) -> Raw>,
}

/// How the compiler prints a payload's type, and the label it stands for.
const TYPES: &[(&str, &str)] = &[
    ("i32", "i32"), ("()", "()"), ("alloc::string::String", "String"), ("app::messages::Ping", "Ping"), ("app::messages::Pong", "Pong"), ("bool", "bool"),
    ("core::option::Option<app::messages::Ping>", "Option<Ping>"), ("alloc::vec::Vec<alloc::vec::Vec<u8>>", "Vec<Vec<u8>>"), ("app::Ack", "Ack"),
    ("core::result::Result<app::Done, alloc::boxed::Box<app::Failure>>", "Result<Done,Box<Failure>>"),
];
const ODD: &[(&str, &str)] = &[
    ("(i32, alloc::string::String)", "(i32,String)"), ("(app::Ack, u8)", "(Ack,u8)"), ("[app::Ack; 4]", "[Ack;4]"), ("alloc::vec::Vec<(u64, app::Ack)>", "Vec<(u64,Ack)>"),
    ("app::UserName", "UserName"), ("app::SendMe", "SendMe"), ("app::EndOf", "EndOf"), ("app::RoleModel", "RoleModel"),
];
fn ty(i: usize) -> (&'static str, &'static str) {
    if i >= 1000 { ("", COMPILED[i - 1000]) } else if i < TYPES.len() { TYPES[i] } else { ODD[i - TYPES.len()] }
}
const NAMES: &[&str] = &["A", "B", "C", "D", "Alice", "Bob", "Client", "Server", "Zed", "AB", "Aa", "Proxy"];
const LABELS: &[&str] = &["End", "Video", "Close", "Again", "L", "Done", "More", "Zero"];

fn protocol(k: usize) -> Proto {
    if d(5) == 4 {
        let i = d(PROTOS.len() as u64) as usize;
        simrt::probe("compiled-types");
        return PROTOS[i](format!("compiled{}", k));
    }
    let n = if simrt::draw_p(60_000, 2) == 1 { 5 + d(8) as usize } else { 2 + d(3) as usize };
    let mut names: Vec<&str> = NAMES.to_vec();
    let mut roles = vec![];
    if d(3) > 0 {
        roles = names[..n].iter().map(|s| s.to_string()).collect();
    } else {
        for _ in 0..n {
            roles.push(names.remove(d(names.len() as u64) as usize).to_string());
        }
    }
    roles.sort();
    let either = d(4) == 3;
    let mut p = Proto { file: format!("{}{}", ["proto", "check_it", "x"][d(3) as usize], k), roles, start: Body { msgs: vec![], next: None }, states: vec![], either, order: (0..n).collect(), compiled: None };
    let max = 1 + d(3) as usize;
    let m = msgs(n, 5);
    let next = if d(8) == 7 { None } else { Some(state(&mut p, max, &mut vec![])) };
    p.start = Body { msgs: m, next };
    if d(2) == 1 {
        for i in (1..n).rev() {
            p.order.swap(i, d(i as u64 + 1) as usize);
        }
    }
    p
}
fn msgs(n: usize, max: u64) -> Vec<Msg> {
    (0..d(max)).map(|_| {
        let a = d(n as u64) as usize;
        let b = (a + 1 + d(n as u64 - 1) as usize) % n;
        let t = if d(6) == 5 { TYPES.len() + d(ODD.len() as u64) as usize } else { d(TYPES.len() as u64) as usize };
        (a, b, t)
    }).collect()
}
fn state(p: &mut Proto, max: usize, anc: &mut Vec<usize>) -> usize {
    let n = p.roles.len();
    let i = p.states.len();
    p.states.push((0, vec![]));
    let chooser = d(n as u64) as usize;
    let k = if p.either { 2 } else { 1 + d(4) as usize };
    let mut labels: Vec<&str> = LABELS.to_vec();
    let mut br = vec![];
    anc.push(i);
    for _ in 0..k {
        let l = labels.remove(d(labels.len() as u64) as usize).to_string();
        let msgs = msgs(n, 4);
        let next = match d(5) {
            0 | 1 => None,
            2 if !p.either => Some(anc[anc.len() - 1]),
            3 if !p.either => Some(anc[d(anc.len() as u64) as usize]),
            4 if p.states.len() < max => Some(state(p, max, anc)),
            _ => None,
        };
        br.push((l, Body { msgs, next }));
    }
    anc.pop();
    p.states[i] = (chooser, br);
    i
}

// ------------------------------------------------------------------ their types, as the compiler prints them

const B: &str = "mpstthree::binary::struct_trait::";
impl Proto {
    fn role(&self, q: usize) -> String {
        let r = &self.roles[q];
        match r.as_str() {
            "A" | "B" | "C" => format!("mpstthree::role::{}::Role{}", r.to_lowercase(), r),
            _ => format!("app::Role{}", r),
        }
    }
    fn name(&self, q: usize) -> String {
        let r = &self.roles[q];
        match r.as_str() {
            "A" | "B" | "C" => format!("mpstthree::name::{}::Name{}", r.to_lowercase(), r),
            _ => format!("app::Name{}", r),
        }
    }
    fn choice(&self, i: usize, q: usize) -> String {
        format!("Branching{}from{}to{}", i, self.roles[self.states[i].0], self.roles[q])
    }
    fn session(&self, b: &Body, r: usize, q: usize) -> String {
        let mut t = match b.next {
            None => format!("{}end::End", B),
            Some(i) => {
                let c = self.states[i].0;
                let dir = if c == r { "send::Send" } else { "recv::Recv" };
                let to = if c == r { q } else { r };
                if c != r && c != q {
                    format!("{}end::End", B)
                } else if self.either {
                    format!("{}{}<either::Either<{}, {}>, {}end::End>", B, dir, self.endpoint(&self.states[i].1[0].1, to), self.endpoint(&self.states[i].1[1].1, to), B)
                } else {
                    format!("{}{}<app::{}, {}end::End>", B, dir, self.choice(i, to), B)
                }
            }
        };
        for &(x, y, k) in b.msgs.iter().rev() {
            if (x, y) == (r, q) {
                t = format!("{}send::Send<{}, {}>", B, ty(k).0, t);
            } else if (x, y) == (q, r) {
                t = format!("{}recv::Recv<{}, {}>", B, ty(k).0, t);
            }
        }
        t
    }
    fn stack(&self, b: &Body, r: usize) -> String {
        let e = "mpstthree::role::end::RoleEnd";
        let mut t = match b.next {
            None => e.to_string(),
            Some(i) if self.either => {
                let (c, br) = &self.states[i];
                if *c == r { format!("app::Role{}toAll<{}, {}>", self.roles[r], self.stack(&br[0].1, r), self.stack(&br[1].1, r)) } else { format!("app::RoleAllto{}<{}, {}>", self.roles[*c], e, e) }
            }
            Some(i) => {
                let c = self.states[i].0;
                if c == r { "mpstthree::role::broadcast::RoleBroadcast".to_string() } else { format!("{}<{}>", self.role(c), e) }
            }
        };
        for &(x, y, _) in b.msgs.iter().rev() {
            if x == r {
                t = format!("{}<{}>", self.role(y), t);
            } else if y == r {
                t = format!("{}<{}>", self.role(x), t);
            }
        }
        t
    }
    fn endpoint(&self, b: &Body, r: usize) -> String {
        let s: Vec<String> = (0..self.roles.len()).filter(|&q| q != r).map(|q| self.session(b, r, q)).collect();
        format!("mpstthree::meshedchannels::MeshedChannels<{}, {}, {}>", s.join(", "), self.stack(b, r), self.name(r))
    }
}

// ------------------------------------------------------------------ automata

#[derive(Default, Debug, Clone)]
struct Nfa {
    /// Transitions of every state; an empty label is a silent step.
    t: Vec<Vec<(String, usize)>>,
}
impl Nfa {
    fn add(&mut self) -> usize {
        self.t.push(vec![]);
        self.t.len() - 1
    }
    fn closure(&self, s: BTreeSet<usize>) -> BTreeSet<usize> {
        let mut todo: Vec<usize> = s.iter().copied().collect();
        let mut s = s;
        while let Some(x) = todo.pop() {
            for (l, y) in &self.t[x] {
                if l.is_empty() && s.insert(*y) {
                    todo.push(*y);
                }
            }
        }
        s
    }
    fn steps(&self, s: &BTreeSet<usize>) -> BTreeMap<String, BTreeSet<usize>> {
        let mut m: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
        for x in s {
            for (l, y) in &self.t[*x] {
                if !l.is_empty() {
                    m.entry(l.clone()).or_default().insert(*y);
                }
            }
        }
        m.into_iter().map(|(l, s)| (l, self.closure(s))).collect()
    }
}
/// A trace that only one of the two has.
fn differ(a: &Nfa, b: &Nfa) -> Option<String> {
    let start = (a.closure([0].into()), b.closure([0].into()));
    let mut seen = BTreeSet::from([start.clone()]);
    let mut todo = std::collections::VecDeque::from([(start, vec![])]);
    while let Some(((x, y), trace)) = todo.pop_front() {
        let (p, q) = (a.steps(&x), b.steps(&y));
        for l in p.keys().chain(q.keys()) {
            let mut tr: Vec<String> = trace.clone();
            tr.push(l.clone());
            match (p.get(l), q.get(l)) {
                (Some(u), Some(v)) => {
                    if seen.insert((u.clone(), v.clone())) {
                        todo.push_back(((u.clone(), v.clone()), tr));
                    }
                }
                (u, _) => return Some(format!("[{}] {}", tr.join(", "), if u.is_some() { "is possible in the protocol only" } else { "is not possible in the protocol" })),
            }
        }
    }
    None
}

impl Proto {
    /// What role `r` does.
    fn local(&self, r: usize, ends: bool) -> Nfa {
        let mut m = Nfa::default();
        m.add();
        let nodes: Vec<usize> = self.states.iter().map(|_| m.add()).collect();
        let end = m.add();
        let mut body = |m: &mut Nfa, from: usize, b: &Body| {
            let mut at = from;
            for &(x, y, k) in &b.msgs {
                let l = if x == r { format!("!{} {}", y, ty(k).1) } else if y == r { format!("?{} {}", x, ty(k).1) } else { continue };
                let to = m.add();
                m.t[at].push((l, to));
                at = to;
            }
            match b.next {
                Some(i) => m.t[at].push((String::new(), nodes[i])),
                None if ends => m.t[at].push(("0".into(), end)),
                None => {}
            }
        };
        body(&mut m, 0, &self.start);
        for (i, (_, br)) in self.states.iter().enumerate() {
            for (_, b) in br {
                body(&mut m, nodes[i], b);
            }
        }
        m
    }
    fn index(&self, role: &str) -> Option<usize> {
        self.roles.iter().position(|r| format!("Role{}", r) == role)
    }
    /// The automata of the file handed to the tool: in the order of the roles, one after the other.
    fn read(&self, text: &str) -> Result<Vec<Nfa>, String> {
        let mut v: Vec<Nfa> = vec![];
        let mut cur: Option<(usize, Nfa, bool)> = None;
        let mut graph = false;
        for l in text.lines() {
            match (l, cur.is_some()) {
                ("", false) => {}
                (".outputs", false) => {
                    let mut m = Nfa::default();
                    m.add();
                    graph = false;
                    cur = Some((v.len(), m, false));
                }
                (".state graph", true) if !graph => graph = true,
                (".end", true) => {
                    let (_, m, marked) = cur.take().unwrap();
                    if !marked {
                        return Err("an automaton has no initial state".into());
                    }
                    v.push(m);
                }
                (l, true) if graph => {
                    let (k, m, marked) = cur.as_mut().unwrap();
                    let role = self.roles.get(*k).ok_or("too many automata")?;
                    let prefix = format!("Role{}", role);
                    let st = |s: &str| s.strip_prefix(&prefix).and_then(|x| x.parse::<usize>().ok()).ok_or_else(|| format!("{:?} is not a state of {}", s, role));
                    if let Some(s) = l.strip_prefix(".marking ") {
                        if st(s)? != 0 || *marked {
                            return Err(format!("{:?} is not the initial state", s));
                        }
                        *marked = true;
                        continue;
                    }
                    let w: Vec<&str> = l.split(' ').collect();
                    if w.len() != 5 || (w[2] != "!" && w[2] != "?") || *marked {
                        return Err(format!("line {:?}", l));
                    }
                    let (x, y) = (st(w[0])?, st(w[4])?);
                    while m.t.len() <= x.max(y) {
                        m.add();
                    }
                    m.t[x].push((format!("{}{} {}", w[2], w[1], w[3]), y));
                }
                _ => return Err(format!("line {:?}", l)),
            }
        }
        if cur.is_some() || v.len() != self.roles.len() {
            return Err(format!("{} complete automata for {} participants", v.len(), self.roles.len()));
        }
        Ok(v)
    }
    fn judge_file(&self, text: &[u8]) -> Result<(), String> {
        let v = self.read(std::str::from_utf8(text).map_err(|e| e.to_string())?)?;
        for (r, m) in v.iter().enumerate() {
            if let Some(x) = differ(&self.local(r, false), m) {
                return Err(format!("automaton of {}: {}", self.roles[r], x));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ the tool

#[derive(Clone, Copy, PartialEq, Debug)]
enum Answer {
    Yes,
    No,
    /// The tool fails: its exit status (negative: killed by a signal), and how much it had printed.
    Fails(i32, u8),
}
struct Case {
    p: Proto,
    /// Answers for k = 1, 2, ...; the last one holds for all larger k.
    answers: Vec<Answer>,
    /// Which lines of the tool's output say no, when it says no.
    no_lines: u8,
    asked: Vec<usize>,
    seen: Vec<u8>,
    graphs: Option<Vec<(String, Vec<(usize, usize, String)>)>>,
}
static mut CASES: Vec<Case> = vec![];
fn cases() -> &'static mut Vec<Case> {
    unsafe { &mut *std::ptr::addr_of_mut!(CASES) }
}
fn tool(args: &[String]) -> (Vec<u8>, Vec<u8>, i32) {
    let c = cases().iter_mut().find(|c| args.get(1).map(|a| a.ends_with(&format!("cfsm/{}.txt", c.p.file))).unwrap_or(false));
    let k = args.get(2).and_then(|k| k.parse::<usize>().ok());
    let (Some(c), Some(k)) = (c, k) else {
        simrt::violate("wrong-command", format!("{:?}", args));
        return (vec![], vec![], 1);
    };
    let text = fs::get(&args[1]);
    if args[0] != "KMC" || args.len() != 4 || args[3] != "--fsm" || k == 0 {
        simrt::violate("wrong-command", format!("{:?}", args));
    }
    c.asked.push(k);
    fs::make_dir("outputs");
    match &text {
        None => simrt::violate("no-file", format!("the tool is run on {}, which does not exist", args[1])),
        Some(t) => {
            if c.seen == *t {
                // judged before
            } else if let Err(e) = c.p.judge_file(t) {
                simrt::note(|| String::from_utf8_lossy(t).into_owned());
                simrt::violate("wrong-automata", e);
            }
            if c.seen.is_empty() {
                c.seen = t.clone();
            } else if c.seen != *t {
                simrt::violate("up-to-chance", format!("the automata of {} differ from one time to the next", c.p.file));
            }
        }
    }
    // No answer is no as soon as one of its lines says so.
    let bits = c.no_lines;
    let full = |b: bool| {
        let w = |i: u8| if b || bits & (1 << i) == 0 { "True" } else { "False" };
        format!("CSA: {}\nBasic: {}\nreduced {}-exhaustive: {}\nreduced {}-safe: {}\n", w(0), w(1), k, w(2), k, w(3))
    };
    let a = c.answers[(k - 1).min(c.answers.len() - 1)];
    simrt::note(|| format!("k = {}: {:?}", k, a));
    match a {
        Answer::Yes => (full(true).into_bytes(), vec![], 0),
        Answer::No => (full(false).into_bytes(), vec![], 0),
        Answer::Fails(st, n) => {
            simrt::fault("tool-fails");
            let out = full(true);
            (out.as_bytes()[..out.len() * n as usize / 8].to_vec(), b"KMC: failed\n".to_vec(), st)
        }
    }
}

// ------------------------------------------------------------------ one check

fn run_checker(p: &Proto, file: &str) -> Result<Raw, String> {
    if let Some(f) = p.compiled {
        return std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(file))).map_err(|e| simrt::panic_text(&*e));
    }
    let n = p.roles.len();
    let sessions: Vec<String> = p.order.iter().map(|&r| p.endpoint(&p.start, r)).collect();
    let mut receivers: HashMap<String, HashMap<String, String>> = HashMap::new();
    let mut branching: HashMap<String, String> = HashMap::new();
    let mut groups: HashMap<String, i32> = HashMap::new();
    if !p.either {
        let mut g = 0;
        for (i, (c, br)) in p.states.iter().enumerate() {
            for (l, b) in br {
                for q in (0..n).filter(|q| q != c) {
                    receivers.entry(p.choice(i, q)).or_default().insert(l.clone(), p.endpoint(b, q));
                    branching.insert(format!("{}::{}", p.choice(i, q), l), p.endpoint(b, *c));
                    groups.insert(format!("{}::{}", p.choice(i, q), l), g);
                }
                g += 1;
            }
        }
    }
    let file = file.to_string();
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        raw!(mpstthree::checking::checker(&file, sessions, receivers, branching, groups))
    }))
    .map_err(|e| simrt::panic_text(&*e))
}

fn judge_graphs(p: &Proto, g: &HashMap<String, Vec<(usize, usize, String)>>) -> Result<(), String> {
    if g.len() != p.roles.len() {
        return Err(format!("{} graphs for {} participants", g.len(), p.roles.len()));
    }
    for (r, name) in p.roles.iter().enumerate() {
        let e = g.get(&format!("Role{}", name)).ok_or_else(|| format!("no graph for {}", name))?;
        let mut m = Nfa::default();
        m.add();
        for (x, y, l) in e {
            while m.t.len() <= *x.max(y) {
                m.add();
            }
            let l = match l.as_str() {
                "0" => "0".to_string(),
                "µ" => String::new(),
                l => {
                    let f = || format!("edge {:?}", l);
                    let (act, ty) = l.split_once(": ").ok_or_else(f)?;
                    let sep = if act.contains('!') { '!' } else { '?' };
                    let (me, other) = act.split_once(sep).ok_or_else(f)?;
                    if p.index(me) != Some(r) {
                        return Err(f());
                    }
                    format!("{}{} {}", sep, p.index(other).ok_or_else(f)?, ty)
                }
            };
            m.t[*x].push((l, *y));
        }
        if let Some(x) = differ(&p.local(r, true), &m) {
            return Err(format!("graph of {}: {} {:?}", name, x, e));
        }
    }
    Ok(())
}

#[derive(PartialEq, Clone, Copy)]
enum Mode {
    Automata,
    Verdict,
}

fn attempt(i: usize) {
    let t = me();
    let before = fs::failures(t);
    let c = &mut cases()[i];
    c.asked.clear();
    let p = c.p.clone();
    simrt::ev("check", i as i64, 0, 0);
    let r = run_checker(&p, &p.file);
    let failed = fs::failures(t) > before;
    let crashed = fs::crashed(t);
    if crashed {
        return;
    }
    let c = &cases()[i];
    simrt::note(|| format!("{}: {:?}", p.file, r.as_ref().map(|r| r.as_ref().map(|x| x.1))));
    if p.file.is_empty() && !fs::list().is_empty() {
        simrt::violate("stray-file", format!("{:?} although no file was asked for", fs::list()));
    }
    let decisive = (1..=50).find(|k| c.answers[(k - 1).min(c.answers.len() - 1)] != Answer::No);
    let answer = decisive.map(|k| c.answers[(k - 1).min(c.answers.len() - 1)]);
    let trouble = failed || matches!(answer, Some(Answer::Fails(..)));
    match &r {
        Err(e) if !trouble => simrt::violate("panic", format!("{}: {}", p.file, e)),
        Ok(Err(e)) if !trouble => simrt::violate("no-answer", format!("{}: {}", p.file, e)),
        Ok(Ok((g, k))) => {
            match (k, answer) {
                (None, _) if p.file.is_empty() && fs::list().is_empty() => simrt::probe("graphs-only"),
                (Some(k), Some(Answer::Yes)) if Some(*k as usize) == decisive => simrt::probe("accepted"),
                (None, None) => simrt::probe("refused"),
                (k, _) => simrt::violate("wrong-verdict", format!("{}: {:?}, but the tool's first answer other than no is {:?} for k = {:?}; asked {:?}", p.file, k, answer, decisive, c.asked)),
            }
            if let Some(k) = k {
                if c.asked != (1..=*k as usize).collect::<Vec<_>>() {
                    simrt::violate("wrong-verdict", format!("{}: Some({}) after asking the tool about {:?}", p.file, k, c.asked));
                }
                if fs::get(&format!("outputs/{}_{}_kmc.txt", p.file, k)).map(|t| !String::from_utf8_lossy(&t).contains(&format!("reduced {}-safe: True", k))).unwrap_or(true) {
                    simrt::violate("no-record", format!("{}: the tool's output for k = {} is not in outputs/", p.file, k));
                }
            }
            if let Err(e) = judge_graphs(&p, g) {
                simrt::violate("wrong-automata", e);
            }
            let mut g: Vec<_> = g.clone().into_iter().collect();
            g.sort();
            let c = &mut cases()[i];
            if c.graphs.as_ref().is_some_and(|x| *x != g) {
                simrt::violate("up-to-chance", format!("the graphs of {} differ from one time to the next", c.p.file));
            }
            c.graphs = Some(g);
        }
        _ => simrt::probe("reported-failure"),
    }
}

fn answers(mode: Mode) -> Vec<Answer> {
    let k = match d(8) {
        0..=3 => 1,
        4 | 5 => 1 + d(4),
        6 => 48 + d(4),
        _ => 60,
    };
    if mode == Mode::Automata {
        return vec![Answer::Yes];
    }
    let mut v = vec![Answer::No; k as usize - 1];
    v.push(match d(3) {
        0 | 1 => Answer::Yes,
        _ => Answer::Fails([1, 2, -9, -11, 127][d(5) as usize], d(9) as u8),
    });
    v
}

fn go(mode: Mode) {
    cases().clear();
    fs::cfg().child = Some(tool);
    let n = if mode == Mode::Automata { 1 } else { 1 + d(3) as usize };
    for i in 0..n {
        let mut p = protocol(i);
        if mode == Mode::Automata && d(6) == 5 {
            p.file = String::new(); // only the graphs
        }
        if mode == Mode::Verdict && d(3) == 2 {
            // what an earlier check left behind
            fs::put(&format!("cfsm/{}.txt", p.file), "RoleA0 1 ! i32 RoleA1\n".repeat(1 + d(400) as usize).as_bytes());
            fs::put(&format!("outputs/{}_1_kmc.txt", p.file), b"reduced 1-safe: True\n");
        }
        let text = format!("{:?}", (&p.file, &p.roles, &p.order, p.either, &p.start, &p.states));
        simrt::note(|| text.clone());
        simrt::ev("protocol", i as i64, text.bytes().fold(7i64, |h, b| h.wrapping_mul(131).wrapping_add(b as i64)), 0);
        cases().push(Case { p, answers: answers(mode), no_lines: 1 + d(15) as u8, asked: vec![], seen: vec![], graphs: None });
    }
    if mode == Mode::Verdict {
        let c = fs::cfg();
        if d(2) == 1 {
            c.short_ppm = 100_000;
            c.eintr_ppm = 30_000;
        }
        match d(9) {
            0 => c.open_ppm = 300_000,
            1 => c.write_ppm = [3_000, 20_000, 200_000][d(3) as usize],
            2 => c.unlink_ppm = 500_000,
            3 => c.spawn_ppm = 400_000,
            4 => c.room = Some(d(3000)),
            _ => {}
        }
    }
    let hs: Vec<_> = (0..n).map(|i| std::thread::spawn(move || {
        let crash = mode == Mode::Verdict && d(5) == 4;
        if crash {
            fs::crash_in(me(), 1 + d(60));
        }
        attempt(i);
        fs::revive(me());
    })).collect();
    for h in hs {
        if let Err(e) = h.join() {
            simrt::violate("harness", simrt::panic_text(&*e));
        }
    }
    // the faults stop: everything can be checked, whatever was left behind
    let child = fs::cfg().child;
    *fs::cfg() = fs::FsCfg { child, ..Default::default() };
    for i in 0..n {
        attempt(i);
    }
    simrt::probe("checks");
    if fs::open_handles() > 0 {
        simrt::violate("leak", format!("{} files are still open", fs::open_handles()));
    }
}

fn automata() { go(Mode::Automata) }
fn verdict() { go(Mode::Verdict) }

fn main() {
    simrt::interpose::install();
    wmain(&[Prop { id: "automata", f: automata, cap: 200_000 }, Prop { id: "verdict", f: verdict, cap: 200_000 }])
}
