//! The generator of Rust programs from timed global protocols, on simulated files, with a simulated
//! checker process, under arbitrary hash seeds.
#![allow(warnings)]
use simrt::engine::me;
use simrt::fs;
use simrt::worker::{main as wmain, Prop};
use std::collections::{BTreeMap, BTreeSet, HashMap};

// ------------------------------------------------------------------ protocols

#[derive(Clone, Debug, PartialEq)]
struct Msg {
    label: &'static str,
    payload: &'static str,
    from: String,
    to: String,
    l: u32,
    li: bool,
    r: u32,
    ri: bool,
    clock: char,
    reset: Option<char>,
}
#[derive(Clone, Debug)]
struct Spec {
    name: String,
    roles: Vec<String>,
    pre: Vec<Msg>,
    /// Nested recursions, outermost first: name and the messages before the next one.
    loops: Vec<(&'static str, Vec<Msg>)>,
    /// Chooser and branches: messages, and the loop that is continued.
    choice: Option<(String, Vec<(Vec<Msg>, Option<usize>)>)>,
    /// Must be refused, and why.
    ill: Option<&'static str>,
    /// What the external checker thinks of it.
    accepted: bool,
    check: bool,
    /// Where its program goes; two generations may read the same protocol at the same time.
    out: &'static str,
    text: String,
    regular: String,
}

// Every label has its payload ("": none); the struct of a label is its name in camel case.
const LABELS: &[(&str, &str, &str)] = &[
    ("Hello", "", "Hello"), ("Data1", "payload", "Data1"), ("ask", "int", "Ask"), ("ok", "int", "Ok"), ("get_state", "", "GetState"), ("Data2", "string", "Data2"),
    ("element_1", "int", "Element1"), ("Quit", "", "Quit"), ("WebFontLoaded", "payload", "WebFontLoaded"), ("bye", "", "Bye"),
];
// Two labels that only differ in their case share a struct: which of the two payloads it gets must not be up to chance.
const TWINS: &[(&str, &str, &str)] = &[("ack", "int", "Ack"), ("Ack", "string", "Ack")];
static mut WITH_TWINS: bool = false;
/// One name is part of the other in some pairs.
const LOOPS: &[[&str; 2]] = &[["Loop", "Inner"], ["Loop1", "Loop"], ["Loop", "Loop1"], ["X", "MaXim"]];
const ROLES: &[&str] = &["A", "B", "C", "D", "Client", "Server", "Zed", "Proxy1", "E", "Mid", "F", "P2", "P10", "Q"];

fn d(n: u64) -> u64 {
    simrt::draw(n)
}
fn two(roles: &[String]) -> (String, String) {
    let i = d(roles.len() as u64) as usize;
    let j = (i + 1 + d(roles.len() as u64 - 1) as usize) % roles.len();
    (roles[i].clone(), roles[j].clone())
}
fn msg(roles: &[String], big: u64) -> Msg {
    let (from, to) = two(roles);
    let n = LABELS.len() as u64 + if unsafe { WITH_TWINS } { 6 } else { 0 };
    let k = d(n) as usize;
    let (label, payload, _) = if k < LABELS.len() { LABELS[k] } else { TWINS[k % 2] };
    let l = d(big) as u32;
    let r = l + d(4).min(1) as u32 * (1 + d(big) as u32);
    let clock = ['a', 'b', 'c'][d(3) as usize];
    let reset = match d(3) {
        0 => None,
        1 => Some(clock),
        _ => [None, Some('a'), Some('b')][d(3) as usize],
    };
    // the window of a single instant includes it
    Msg { label, payload, from, to, l, li: l == r || d(2) == 0, r, ri: l == r || d(2) == 0, clock, reset }
}
type Floors = BTreeMap<(String, char), u32>;
/// Makes the window of every message reachable after the windows before it.
fn lift(v: &mut [Msg], floors: &mut Floors) {
    for m in v.iter_mut() {
        let f = [&m.from, &m.to].iter().map(|r| floors.get(&(r.to_string(), m.clock)).copied().unwrap_or(0)).max().unwrap();
        if m.r <= f {
            m.r = f + 1 + d(3) as u32;
        }
        pass(m, floors);
    }
}
fn pass(m: &Msg, floors: &mut Floors) {
    for r in [&m.from, &m.to] {
        floors.insert((r.clone(), m.clock), m.r);
        if let Some(c) = m.reset {
            floors.remove(&(r.clone(), c));
        }
    }
}
fn reachable(v: &[Msg], floors: &mut Floors) -> bool {
    for m in v {
        for r in [&m.from, &m.to] {
            if floors.get(&(r.clone(), m.clock)).is_some_and(|f| m.r <= *f) {
                return false;
            }
        }
        pass(m, floors);
    }
    true
}

fn spec(name: String, ill_ppm: u64) -> Spec {
    let n = if simrt::draw_p(60_000, 2) == 1 { 5 + d(8) as usize } else { 2 + d(3) as usize };
    let mut roles: Vec<String> = vec![];
    let mut at = d(ROLES.len() as u64) as usize;
    while roles.len() < n {
        roles.push(ROLES[at].to_string());
        at = (at + 1 + d(2) as usize) % ROLES.len();
        while roles.iter().any(|r| r == ROLES[at]) {
            at = (at + 1) % ROLES.len();
        }
    }
    let big = [3, 12, 1500][d(3) as usize];
    let msgs = |k: u64| -> Vec<Msg> { (0..k).map(|_| msg(&roles, big)).collect() };
    let mut floors = Floors::new();
    let mut pre = msgs(d(4));
    lift(&mut pre, &mut floors);
    let mut loops: Vec<(&'static str, Vec<Msg>)> = vec![];
    let mut choice = None;
    if d(2) == 1 {
        let names = LOOPS[d(LOOPS.len() as u64) as usize];
        for i in 0..[0, 1, 1, 0, 2, 1, 0, 2][d(8) as usize] {
            let mut v = msgs(d(3));
            lift(&mut v, &mut floors);
            loops.push((names[i], v));
        }
        let mut brs = vec![];
        for i in 0..1 + d(3) {
            let mut f = floors.clone();
            let mut v = msgs(d(4));
            lift(&mut v, &mut f);
            let mut cont = None;
            if !loops.is_empty() && d(2) == 1 {
                let k = d(loops.len() as u64) as usize;
                if loops[k..].iter().all(|l| reachable(&l.1, &mut f)) {
                    cont = Some(k);
                }
            }
            brs.push((v, cont));
        }
        choice = Some((roles[d(n as u64) as usize].clone(), brs));
    } else if pre.is_empty() {
        pre = msgs(1);
    }
    let mut s = Spec { name, roles, pre, loops, choice, ill: None, accepted: true, check: false, out: "/out/", text: String::new(), regular: String::new() };
    let how = simrt::draw_p(ill_ppm, 8);
    let mut cut = None;
    if how > 0 {
        let mut all: Vec<&mut Msg> = s.pre.iter_mut().collect();
        if let Some((_, b)) = &mut s.choice {
            all.extend(b.iter_mut().flat_map(|b| b.0.iter_mut()));
        }
        let k = if all.is_empty() { 0 } else { d(all.len() as u64) as usize };
        match how {
            1 if !all.is_empty() => {
                let m = &mut all[k];
                // the window is empty; at least one bracket excludes its bound
                m.l = m.r + 1 + d(big) as u32;
                s.ill = Some("empty window");
            }
            2 if !all.is_empty() => {
                all[k].from = "Nobody".into();
                s.ill = Some("unknown sender");
            }
            3 if !all.is_empty() => {
                all[k].to = all[k].from.clone();
                s.ill = Some("message to oneself");
            }
            4 => {
                cut = Some(4);
                s.ill = Some("brackets do not match");
            }
            5 => {
                cut = Some(5);
                s.ill = Some("not a timed protocol");
            }
            6 if s.loops.is_empty() => {
                if let Some((_, b)) = &mut s.choice {
                    b[0].1 = Some(0);
                    s.ill = Some("continue without a loop");
                }
            }
            7 => {
                // two more messages, the second of which can only come too late
                let mut m = msg(&s.roles.clone(), big);
                m.l += 3;
                m.r += 3;
                let f = [&m.from, &m.to].iter().map(|r| floors.get(&(r.to_string(), m.clock)).copied().unwrap_or(0)).max().unwrap();
                m.r = m.r.max(f + 1);
                m.l = m.l.max(f);
                m.r = m.r.max(m.l + 1);
                m.reset = None;
                let mut late = m.clone();
                late.r = m.l - 1 - d((m.l - 2) as u64) as u32;
                late.l = late.r - 1 + d(2) as u32;
                late.li = true;
                late.ri = true;
                if s.loops.is_empty() && s.choice.is_none() {
                    s.pre.push(m);
                    s.pre.push(late);
                    s.ill = Some("the next window is already over");
                }
            }
            _ => {}
        }
    }
    write_text(&mut s, cut);
    s
}

fn sp() -> &'static str {
    ["", " "][d(2) as usize]
}
fn write_text(s: &mut Spec, cut: Option<u32>) {
    let mut t: Vec<(String, String)> = vec![];
    let head: Vec<String> = s.roles.iter().map(|r| format!("role {}", r)).collect();
    t.push((
        format!("{}global protocol {}({}) {{", if cut == Some(5) { "" } else { "timed " }, s.name, head.join(", ")),
        format!("global protocol {}({}) {{", s.name, head.join(", ")),
    ));
    let put = |t: &mut Vec<(String, String)>, x: &str| t.push((x.to_string(), x.to_string()));
    let msgs = |t: &mut Vec<(String, String)>, v: &[Msg], ind: usize| {
        for m in v {
            let i = "    ".repeat(ind);
            t.push((
                format!(
                    "{}{}({}) from {} to {} within {}{}{};{}{}{} using {} and resetting ({});",
                    i, m.label, m.payload, m.from, m.to, if m.li { '[' } else { ']' }, m.l, sp(), sp(), m.r, if m.ri { ']' } else { '[' }, m.clock, m.reset.map_or(String::new(), |c| c.to_string())
                ),
                format!("{}{}({}) from {} to {};", i, m.label, m.payload, m.from, m.to),
            ));
        }
    };
    msgs(&mut t, &s.pre, 1);
    if d(4) == 1 {
        put(&mut t, "");
    }
    let mut ind = 1;
    for (n, v) in &s.loops {
        put(&mut t, &format!("{}rec {} {{", "    ".repeat(ind), n));
        ind += 1;
        msgs(&mut t, v, ind);
    }
    if let Some((at, brs)) = &s.choice {
        let i = "    ".repeat(ind);
        if d(2) == 1 {
            put(&mut t, &format!("{}choice at {} {{", i, at));
        } else {
            put(&mut t, &format!("{}choice at {}", i, at));
            put(&mut t, &format!("{}{{", i));
        }
        for (k, (v, cont)) in brs.iter().enumerate() {
            if k > 0 {
                put(&mut t, &format!("{}}} or {{", i));
            }
            msgs(&mut t, v, ind + 1);
            if let Some(k) = cont {
                put(&mut t, &format!("{}    continue {};", i, s.loops.get(*k).map_or("Loop", |l| l.0)));
            }
        }
        put(&mut t, &format!("{}}}", i));
    }
    for k in (0..s.loops.len()).rev() {
        put(&mut t, &format!("{}}}", "    ".repeat(k + 1)));
    }
    if cut != Some(4) {
        put(&mut t, "}");
    }
    s.text = t.iter().map(|x| x.0.clone() + "\n").collect();
    s.regular = t.iter().map(|x| x.1.clone() + "\n").collect();
}

// ------------------------------------------------------------------ generated programs

#[derive(Clone, Debug, PartialEq)]
enum Ty {
    App(String, Vec<Ty>),
}
fn split(s: &str) -> Vec<String> {
    let (mut depth, mut cur, mut v) = (0, String::new(), vec![]);
    for c in s.chars() {
        match c {
            '<' | '(' => depth += 1,
            '>' | ')' => depth -= 1,
            ',' if depth == 0 => {
                v.push(cur.trim().to_string());
                cur = String::new();
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    if !cur.trim().is_empty() {
        v.push(cur.trim().to_string());
    }
    v
}
fn ty(s: &str) -> Ty {
    let s = s.trim();
    match s.find('<') {
        Some(i) if s.ends_with('>') => Ty::App(s[..i].trim().to_string(), split(&s[i + 1..s.len() - 1]).iter().map(|x| ty(x)).collect()),
        _ => Ty::App(s.to_string(), vec![]),
    }
}
#[derive(Default)]
struct Prog {
    roles: Vec<String>,
    structs: BTreeMap<String, Option<String>>,
    types: BTreeMap<String, Ty>,
    enums: BTreeMap<String, Vec<(String, String)>>,
    fns: BTreeMap<String, (String, BTreeSet<String>)>,
    main: String,
}
fn parse(text: &str) -> Result<Prog, String> {
    let mut p = Prog::default();
    let mut lines = text.lines().map(|l| l.trim()).filter(|l| !l.is_empty() && !l.starts_with("//"));
    fn add<T>(m: &mut BTreeMap<String, T>, k: String, v: T) -> Result<(), String> {
        match m.insert(k.clone(), v) {
            Some(_) => Err(format!("{} is defined twice", k)),
            None => Ok(()),
        }
    }
    while let Some(l) = lines.next() {
        if let Some(x) = l.strip_prefix("type ") {
            let (a, b) = x.trim_end_matches(';').split_once('=').ok_or(format!("cannot read: {}", l))?;
            if !l.ends_with(';') {
                return Err(format!("unfinished line: {}", l));
            }
            add(&mut p.types, a.trim().to_string(), ty(b))?;
        } else if let Some(x) = l.strip_prefix("struct ") {
            match x.split_once('{') {
                Some((a, b)) => {
                    let b = b.trim().trim_end_matches('}').trim();
                    let b = b.strip_prefix("payload:").ok_or(format!("cannot read: {}", l))?;
                    add(&mut p.structs, a.trim().to_string(), Some(b.trim().to_string()))?
                }
                None => add(&mut p.structs, x.trim_end_matches(';').trim().to_string(), None)?,
            }
        } else if let Some(x) = l.strip_prefix("enum ") {
            let name = x.trim_end_matches('{').trim().to_string();
            let mut v = vec![];
            loop {
                match lines.next() {
                    None => return Err("unfinished enum".into()),
                    Some("}") => break,
                    Some(b) => {
                        let (a, t) = b.trim_end_matches(',').split_once('(').ok_or(format!("cannot read: {}", b))?;
                        v.push((a.trim().to_string(), t.trim_end_matches(')').trim().to_string()));
                    }
                }
            }
            add(&mut p.enums, name, v)?;
        } else if l.starts_with("fn main") {
            let mut depth = 1;
            for b in lines.by_ref() {
                if b == "}" {
                    depth = 0;
                    break;
                }
                p.main.push_str(b);
                p.main.push('\n');
            }
            if depth > 0 {
                return Err("unfinished main".into());
            }
        } else if let Some(x) = l.strip_prefix("fn ") {
            let (name, rest) = x.split_once('(').ok_or(format!("cannot read: {}", l))?;
            let t = rest.split(',').next().unwrap().trim().strip_prefix("s:").ok_or(format!("cannot read: {}", l))?.trim().to_string();
            let mut clocks = BTreeSet::new();
            let mut ended = false;
            for b in lines.by_ref() {
                if b == "}" {
                    ended = true;
                    break;
                }
                if let Some(c) = b.strip_prefix("all_clocks.insert('") {
                    clocks.insert(c.chars().take_while(|c| *c != '\'').collect());
                }
            }
            if !ended {
                return Err("unfinished function".into());
            }
            add(&mut p.fns, name.trim().to_string(), (t, clocks))?;
        } else if let Some(x) = l.strip_prefix("generate_atmp!(") {
            p.roles = split(x.trim_end_matches(");")).into_iter().skip(1).collect();
        } else if l.starts_with("use ") || l.starts_with("#![") {
        } else {
            return Err(format!("cannot read: {}", l));
        }
    }
    Ok(p)
}

fn camel(s: &str) -> String {
    s.split('_').map(|w| w[..1].to_uppercase() + &w[1..]).collect()
}
fn num(t: &Ty) -> String {
    let Ty::App(n, _) = t;
    n.clone()
}
/// Compares a session type with what one participant does with another.
fn session(p: &Prog, start: &Ty, me: &str, other: &str, seq: &[&Msg], tail: &Option<(String, String)>) -> Result<(), String> {
    let mut t = start.clone();
    let resolve = |t: &Ty| -> Result<Ty, String> {
        let mut t = t.clone();
        for _ in 0..200 {
            let Ty::App(n, a) = &t;
            if ["End", "SendTimed", "RecvTimed"].contains(&n.as_str()) {
                return Ok(t);
            }
            t = p.types.get(n).ok_or(format!("{} is not defined", n))?.clone();
        }
        Err("cyclic type".into())
    };
    for m in seq {
        let Ty::App(n, a) = resolve(&t)?;
        let want = if m.from == me { "SendTimed" } else { "RecvTimed" };
        if n != want || a.len() != 8 {
            return Err(format!("{} with {}: {:?} should be {} of {}", me, other, n, want, m.label));
        }
        let got: Vec<String> = a[..7].iter().map(num).collect();
        let exp = [camel(m.label), format!("'{}'", m.clock), m.l.to_string(), m.li.to_string(), m.r.to_string(), m.ri.to_string(), format!("'{}'", m.reset.unwrap_or(' '))];
        if got != exp {
            return Err(format!("{} with {}: {:?} instead of {:?}", me, other, got, exp));
        }
        t = a[7].clone();
    }
    let Ty::App(n, a) = resolve(&t)?;
    match tail {
        Some((by, prefix)) if by == me || by == other => {
            let want = if by == me { "SendTimed" } else { "RecvTimed" };
            let e = format!("{}_From{}To{}", prefix, by, if by == me { other } else { me });
            if n != want || a.len() != 8 || num(&a[0]) != e || resolve(&a[7])? != ty("End") || num(&a[2]) != "-2" || num(&a[4]) != "-1" {
                return Err(format!("{} with {}: {:?} {:?} instead of the choice {}", me, other, n, a, e));
            }
            Ok(())
        }
        _ if n == "End" => Ok(()),
        _ => Err(format!("{} with {}: {} {:?} instead of the end", me, other, n, a)),
    }
}
fn endpoint(p: &Prog, name: &str, me: &str, roles: &[String], seq: &[&Msg], tail: &Option<(String, String)>) -> Result<(), String> {
    let Some(Ty::App(n, a)) = p.types.get(name) else {
        return Err(format!("{} is not defined", name));
    };
    if n != "MeshedChannels" || a.len() != roles.len() + 1 {
        return Err(format!("{} has {} parts", name, a.len()));
    }
    for (k, other) in roles.iter().filter(|r| *r != me).enumerate() {
        let s: Vec<&Msg> = seq.iter().filter(|m| (m.from == me && m.to == *other) || (m.from == *other && m.to == me)).copied().collect();
        session(p, &a[k], me, other, &s, tail)?;
    }
    // the order of its actions
    let mut t = a[roles.len() - 1].clone();
    let mut got = vec![];
    for _ in 0..500 {
        let Ty::App(n, a) = &t;
        if n == "RoleEnd" || n == "RoleBroadcast" {
            got.push(n.clone());
            break;
        }
        if let Some(x) = p.types.get(n) {
            t = x.clone();
            continue;
        }
        if a.len() != 1 {
            return Err(format!("{} is not defined", n));
        }
        got.push(n.clone());
        t = a[0].clone();
    }
    let mut want: Vec<String> = seq.iter().filter(|m| m.from == me || m.to == me).map(|m| format!("Role{}", if m.from == me { &m.to } else { &m.from })).collect();
    match tail {
        Some((by, _)) if by == me => want.push("RoleBroadcast".into()),
        Some((by, _)) => want.extend([format!("Role{}", by), "RoleEnd".into()]),
        None => want.push("RoleEnd".into()),
    }
    if got != want {
        return Err(format!("{}: order {:?} instead of {:?}", name, got, want));
    }
    if num(&a[roles.len()]) != format!("Name{}", me) {
        return Err(format!("{}: name {:?}", name, a[roles.len()]));
    }
    Ok(())
}
/// Whether the program is the projection of the protocol onto its participants.
fn projection(s: &Spec, text: &str) -> Result<(), String> {
    let p = parse(text)?;
    let mut roles = s.roles.clone();
    roles.sort();
    if p.roles != roles {
        return Err(format!("participants {:?} instead of {:?}", p.roles, roles));
    }
    let first: Vec<&Msg> = s.pre.iter().chain(s.loops.iter().flat_map(|l| l.1.iter())).collect();
    let tail = s.choice.as_ref().map(|(by, _)| (by.clone(), "Choice_0".to_string()));
    for r in &roles {
        endpoint(&p, &format!("Endpoint_0_For{}", r), r, &roles, &first, &tail)?;
        let f = format!("endpoint_{}_0_v_0", r.to_lowercase());
        match p.fns.get(&f) {
            Some((t, _)) if *t == format!("Endpoint_0_For{}", r) => {}
            x => return Err(format!("function {}: {:?}", f, x)),
        }
    }
    let mut all: Vec<&Msg> = first.clone();
    if let Some((by, brs)) = &s.choice {
        for r in roles.iter() {
            for (k, (v, cont)) in brs.iter().enumerate() {
                let mut seq: Vec<&Msg> = v.iter().collect();
                if let Some(c) = cont {
                    seq.extend(s.loops[*c..].iter().flat_map(|l| l.1.iter()));
                }
                endpoint(&p, &format!("Endpoint_0_{}_For{}", k, r), r, &roles, &seq, if cont.is_some() { &tail } else { &None })?;
            }
            if r != by {
                let e = format!("Choice_0_From{}To{}", by, r);
                let want: Vec<(String, String)> = (0..brs.len()).map(|k| (format!("Branching{}", k), format!("Endpoint_0_{}_For{}", k, r))).collect();
                if p.enums.get(&e) != Some(&want) {
                    return Err(format!("enum {}: {:?} instead of {:?}", e, p.enums.get(&e), want));
                }
            }
        }
        all.extend(brs.iter().flat_map(|b| b.0.iter()));
    } else if !p.enums.is_empty() {
        return Err("there is no choice".into());
    }
    for (f, (t, clocks)) in &p.fns {
        if !p.types.contains_key(t) {
            return Err(format!("function {}: {} is not defined", f, t));
        }
        let r = roles.iter().find(|r| f.starts_with(&format!("endpoint_{}_", r.to_lowercase()))).ok_or(format!("function {}", f))?;
        for m in all.iter().filter(|m| m.from == *r || m.to == *r) {
            if !clocks.contains(&m.clock.to_string()) {
                return Err(format!("function {} lacks clock {}", f, m.clock));
            }
        }
    }
    for m in all.iter().filter(|m| camel(m.label) != "Ack") {
        let want = if m.payload.is_empty() { None } else { Some(camel(m.payload)) };
        if p.structs.get(&camel(m.label)) != Some(&want) {
            return Err(format!("struct of {}: {:?} instead of {:?}", m.label, p.structs.get(&camel(m.label)), want));
        }
        if let Some(w) = want {
            if !p.structs.contains_key(&w) {
                return Err(format!("struct {} is missing", w));
            }
        }
    }
    let fork: Vec<String> = roles.iter().map(|r| format!("endpoint_{}_0_v_0", r.to_lowercase())).collect();
    let i = p.main.find("fork_mpst(").ok_or("main forks nothing")? + 10;
    let args: Vec<String> = split(p.main[i..].split(");").next().unwrap());
    if args != fork {
        return Err(format!("main forks {:?} instead of {:?}", args, fork));
    }
    for r in &roles {
        if !p.main.contains(&format!("thread_{}.join()", r.to_lowercase())) {
            return Err(format!("main does not join {}", r));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ the checker process

static mut SPECS: Vec<Spec> = vec![];
static mut ACCEPTED: BTreeMap<String, u64> = BTreeMap::new();
#[allow(static_mut_refs)]
fn specs() -> &'static mut Vec<Spec> {
    unsafe { &mut SPECS }
}
#[allow(static_mut_refs)]
fn accepted() -> &'static mut BTreeMap<String, u64> {
    unsafe { &mut ACCEPTED }
}
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn checker(args: &[String]) -> (Vec<u8>, Vec<u8>, i32) {
    let words: Vec<String> = if args.iter().any(|a| a == "-c") { args.last().unwrap().split_whitespace().map(|w| w.trim_matches(|c| c == '\'' || c == '"').to_string()).collect() } else { args.to_vec() };
    let bad = |m: &str| {
        simrt::note(|| format!("checker: {}", m));
        (vec![], m.as_bytes().to_vec(), 1)
    };
    if words.first().map(|w| w.rsplit('/').next().unwrap()) != Some("nuscr") {
        return bad("command not found");
    }
    let mut name = None;
    let mut file = None;
    let mut it = words.iter().skip(1);
    while let Some(w) = it.next() {
        if let Some(x) = w.strip_prefix("--generate-sexp") {
            name = match x.strip_prefix('=') {
                Some(x) => Some(x.to_string()),
                None => it.next().cloned(),
            };
        } else if !w.starts_with('-') {
            file = Some(w.clone());
        }
    }
    let Some(content) = file.and_then(|f| fs::get(&f)) else {
        return bad("no such file");
    };
    let content = squeeze(&String::from_utf8_lossy(&content));
    let name = name.unwrap_or_default();
    for s in specs().iter() {
        if s.name == name {
            if content != squeeze(&s.regular) {
                return bad("this is another protocol");
            }
            if !s.accepted {
                simrt::fault("checker-refuses");
                return bad("not a sound protocol");
            }
            *accepted().entry(name.clone()).or_default() += 1;
            return (format!("({})\n", name).into_bytes(), vec![], 0);
        }
    }
    bad("protocol not found")
}

// ------------------------------------------------------------------ workloads

fn lines(t: &[u8]) -> Vec<String> {
    let mut v: Vec<String> = String::from_utf8_lossy(t).lines().map(|l| l.trim().to_string()).collect();
    v.sort();
    v
}
fn input(s: &Spec) -> String {
    format!("/in/{}.nuscr", s.name)
}
fn output(s: &Spec) -> String {
    format!("{}{}.rs", s.out, s.name)
}

enum Res {
    Done,
    Refused(String),
    Panicked(String),
    Crashed,
}
/// One generation in its own "process"; what it promises is checked when it returns.
fn attempt(s: &Spec, first: &mut Option<Vec<String>>, exact: bool) -> Res {
    let t = me();
    let before = fs::failures(t);
    let acc = accepted().get(&s.name).copied().unwrap_or(0);
    simrt::note(|| format!("generating {}{}{}", s.name, if s.check { " after checking it" } else { "" }, s.ill.map_or(String::new(), |i| format!(" (ill-formed: {})", i))));
    let r = std::panic::catch_unwind(|| mpstthree::top_down_nuscr::generator::generator(&input(s), s.out, s.check).map_err(|e| e.to_string()));
    let failed = fs::failures(t) > before;
    if fs::crashed(t) {
        return Res::Crashed;
    }
    let res = match r {
        Ok(Ok(())) => Res::Done,
        Ok(Err(e)) => Res::Refused(e),
        Err(e) => Res::Panicked(simrt::panic_text(&*e)),
    };
    simrt::ev("generated", matches!(res, Res::Done) as i64, failed as i64, 0);
    match &res {
        Res::Done => {
            simrt::note(|| format!("{}: done", s.name));
            simrt::probe("generated");
            if let Some(i) = s.ill {
                simrt::violate("accepted-ill-formed", format!("{} was generated although it is ill-formed: {}", s.name, i));
            }
            if s.check && accepted().get(&s.name).copied().unwrap_or(0) == acc {
                simrt::violate("unchecked", format!("{} was generated although the checker did not accept it", s.name));
            }
            match fs::get(&output(s)) {
                None => simrt::violate("incomplete", format!("{}: success without output", s.name)),
                Some(t) => {
                    if s.ill.is_none() {
                        if let Err(e) = projection(s, &String::from_utf8_lossy(&t)) {
                            simrt::violate(if failed { "incomplete" } else { "wrong-program" }, format!("{}: {}", s.name, e));
                        }
                    }
                    let l = lines(&t);
                    if let Some(f) = first {
                        if *f != l {
                            let a: Vec<&String> = l.iter().filter(|x| !f.contains(x)).collect();
                            simrt::violate("chance", format!("{}: another program than before: {:?}", s.name, a));
                        }
                    } else {
                        *first = Some(l);
                    }
                }
            }
        }
        Res::Refused(e) | Res::Panicked(e) => {
            simrt::note(|| format!("{}: {}", s.name, e));
            simrt::probe("refused");
            let ok = s.ill.is_some() || failed || (s.check && !s.accepted);
            if !ok {
                simrt::violate("spurious-failure", format!("{} was refused: {}", s.name, e));
            }
            if exact && matches!(res, Res::Panicked(_)) {
                simrt::violate("panic", format!("{}: {}", s.name, e));
            }
        }
        Res::Crashed => {}
    }
    res
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Chance,
    Failures,
    Projection,
}

fn work(i: usize, mode: Mode) {
    let s = specs()[i].clone();
    let mut first = None;
    if simrt::draw(3) == 1 {
        // an older, longer program is in the way
        let mut old = String::new();
        for k in 0..400 {
            old.push_str(&format!("type Old_{} = End;\n", k));
        }
        fs::put(&output(&s), old.as_bytes());
    }
    let leftovers = |what: &str, allowed: bool| {
        let extra: Vec<String> = fs::list().into_iter().filter(|f| !f.starts_with("/in/") && !f.starts_with("/out/")).collect();
        if !allowed && !extra.is_empty() && specs().len() == 1 {
            simrt::violate("leftover", format!("{} left {:?}", what, extra));
        }
    };
    let n = 1 + simrt::draw(2);
    for k in 0..n {
        if mode == Mode::Failures {
            if simrt::draw(4) == 1 {
                fs::crash_in(me(), 1 + simrt::draw(120));
            }
        }
        let r = attempt(&s, &mut first, mode == Mode::Projection);
        match r {
            Res::Crashed => {
                simrt::probe("regenerated-after-crash");
                for f in fs::list() {
                    if !f.starts_with("/in/") && !f.starts_with("/out/") && specs().len() == 1 {
                        fs::remove(&f);
                    }
                }
            }
            Res::Panicked(_) => {
                if specs().len() == 1 {
                    for f in fs::list() {
                        if !f.starts_with("/in/") && !f.starts_with("/out/") {
                            fs::remove(&f);
                        }
                    }
                }
            }
            _ => leftovers("generation", unlink_failed()),
        }
        fs::revive(me());
    }
}
fn unlink_failed() -> bool {
    simrt::engine::sim().faults.contains_key("unlink-fails")
}

fn go(mode: Mode) {
    let n = 1 + simrt::draw(3) as usize;
    specs().clear();
    accepted().clear();
    fs::cfg().child = Some(checker);
    fs::make_dir("/out");
    unsafe { WITH_TWINS = mode != Mode::Projection && simrt::draw(4) == 1 };
    for i in 0..n {
        let mut s = spec(format!("Proto{}{}", i, ["", "X", "Timed"][simrt::draw(3) as usize]), if mode == Mode::Projection { 250_000 } else { 60_000 });
        s.check = simrt::draw(2) == 1;
        s.accepted = simrt::draw_p(150_000, 2) == 0;
        fs::put(&input(&s), s.text.as_bytes());
        simrt::note(|| format!("{}", s.text));
        let twin = i + 1 < 3 && simrt::draw(4) == 1;
        specs().push(s.clone());
        if twin {
            simrt::probe("same-protocol-twice-at-once");
            specs().push(Spec { out: "/out/twin_", check: s.check || simrt::draw(2) == 1, ..s });
        }
    }
    let n = specs().len();
    if simrt::draw(2) == 1 {
        fs::cfg().short_ppm = 100_000;
        fs::cfg().eintr_ppm = 30_000;
    }
    if mode == Mode::Failures {
        let c = fs::cfg();
        let p = [5_000, 20_000, 200_000][simrt::draw(3) as usize];
        match simrt::draw(7) {
            0 => c.open_ppm = 300_000,
            1 => c.read_ppm = p * 10,
            2 => c.write_ppm = p,
            3 => c.unlink_ppm = 500_000,
            4 => c.spawn_ppm = 500_000,
            5 => c.room = Some(simrt::draw(6000)),
            _ => {}
        }
    }
    let hs: Vec<_> = (0..n).map(|i| std::thread::spawn(move || work(i, mode))).collect();
    for h in hs {
        if let Err(e) = h.join() {
            simrt::violate("harness", simrt::panic_text(&*e));
        }
    }
    // the faults stop: everything can be generated, whatever was left behind
    let child = fs::cfg().child;
    *fs::cfg() = fs::FsCfg { child, ..Default::default() };
    if mode != Mode::Projection {
        for s in specs().iter() {
            let mut first = None;
            for _ in 0..2 {
                attempt(s, &mut first, false);
            }
        }
    }
    simrt::probe("checks");
    if fs::open_handles() > 0 {
        simrt::violate("leak", format!("{} files are still open", fs::open_handles()));
    }
}

fn chance() { go(Mode::Chance) }
fn failures() { go(Mode::Failures) }
fn projected() { go(Mode::Projection) }

fn main() {
    // The regular expressions are compiled once per process: before the first run.
    simrt::interpose::install();
    simrt::engine::run(1, None, 200_000, false, 60, chance);
    wmain(&[Prop { id: "chance", f: chance, cap: 200_000 }, Prop { id: "failures", f: failures, cap: 200_000 }, Prop { id: "projection", f: projected, cap: 200_000 }])
}
