//! Selecting among many binary sessions: clients stream items to one server that selects.
#![allow(static_mut_refs)]
use harness::pay::*;
use harness::{catch, checked, mix, R};
use mpstthree::binary::close::close;
use mpstthree::binary::fork::fork_with_thread_id;
use mpstthree::binary::recv::recv;
use mpstthree::binary::select::{select, select_mut};
use mpstthree::binary::send::send;
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use simrt::worker::{main as wmain, Prop};
use std::time::Duration;

type Cont = Send<Tok, End>;
type Stream = Recv<Item, Cont>;
struct Item {
    tok: Tok,
    who: usize,
    no: usize,
    next: Option<Stream>,
}

#[derive(Default, Clone)]
struct Client {
    /// Items it wants to send.
    n: usize,
    crash_at: Option<usize>,
    /// Crash after the reply of that item was requested.
    drop_kind: u64,
    sending: usize,
    sent: usize,
    got: usize,
    replied: usize,
    dead: bool,
    /// Its endpoint no longer exists.
    gone: bool,
    finished: bool,
    error_seen: bool,
    slow: bool,
}
struct Run {
    c: Vec<Client>,
}
static mut RUN: Option<Run> = None;
fn run() -> &'static mut Run {
    unsafe { RUN.as_mut().unwrap() }
}

fn key(i: usize, k: usize) -> u64 {
    mix(0xabc + i as u64, k as u64)
}

fn nap(slow: bool) {
    if slow && simrt::draw(2) == 1 {
        std::thread::sleep(Duration::from_nanos([1u64, 1_000_000, 3_600_000_000_000][simrt::draw(3) as usize]));
    }
}

fn client(me: usize, mut s: <Stream as Session>::Dual) -> R {
    let st = || &mut run().c[me];
    let mut k = 0;
    loop {
        nap(st().slow);
        if st().crash_at == Some(k) {
            st().dead = true;
            simrt::note(|| format!("FAULT: client {} stops before item {} ({})", me, k, st().drop_kind));
            match st().drop_kind {
                0 => {
                    simrt::fault("participant-panic");
                    harness::blow_up()
                }
                1 => {
                    simrt::fault("participant-error-return");
                    return Err(harness::failure());
                }
                _ => {
                    simrt::fault("participant-cancel");
                    drop(s);
                    st().gone = true;
                    std::thread::sleep(Duration::from_secs(100));
                    return Ok(());
                }
            }
        }
        let more = k + 1 < st().n;
        let (there, here) = Stream::new();
        let (next, here) = if more { (Some(there), Some(here)) } else { (None, None) };
        st().sending = k + 1;
        simrt::note(|| format!("client {} sends item {}", me, k));
        let c = send(Item { tok: Tok::make(key(me, k)), who: me, no: k, next }, s);
        st().sent = k + 1;
        // the reply, now or after the next items
        let (r, e) = recv(c)?;
        checked();
        if r.key() != Ok(key(me, k) ^ 1) {
            simrt::violate("wrong-message", format!("client {} got a reply {:?} to item {}", me, r.key(), k));
        }
        st().replied = k + 1;
        close(e)?;
        k += 1;
        match here {
            Some(h) => s = h,
            None => {
                st().finished = true;
                return Ok(());
            }
        }
    }
}

fn server(mut v: Vec<Stream>) {
    let mut left: usize = v.len();
    loop {
        let before = v.len();
        if before != left {
            simrt::violate("session-lost", format!("{} sessions in the list, {} expected", before, left));
            return;
        }
        simrt::note(|| format!("server selects among {}", before));
        // some session of the list certainly has a message, or lost its peer
        let ready = run().c.iter().position(|c| c.sent > c.got || (c.gone && !c.error_seen));
        let from = simrt::now();
        let r = if simrt::draw(2) == 0 {
            select_mut(&mut v)
        } else {
            let (r, w) = select(v);
            v = w;
            r
        };
        checked();
        if let (Some(i), true) = (ready, simrt::now() > from) {
            simrt::violate("needless-wait", format!("selecting waited for {} ns although the session of client {} was ready", simrt::now() - from, i));
            return;
        }
        if ready.is_some() {
            simrt::probe("ready-at-once");
        }
        if before == 0 {
            if r.is_ok() {
                simrt::violate("empty-select", "selecting among no sessions succeeded".into());
            }
            return;
        }
        if v.len() + 1 != before {
            simrt::violate("session-lost", format!("selecting among {} sessions left {}", before, v.len()));
            return;
        }
        left -= 1;
        match r {
            Ok((item, c)) => {
                simrt::ev("item", item.who as i64, item.no as i64, before as i64);
                simrt::note(|| format!("server got item {} of client {}", item.no, item.who));
                let i = item.who;
                let st = &mut run().c[i];
                if item.tok.key() != Ok(key(i, item.no)) {
                    simrt::violate("corrupt-message", format!("item {} of client {} arrived as {:?}", item.no, i, item.tok.key()));
                }
                if item.no != st.got {
                    simrt::violate("wrong-message", format!("item {} of client {} arrived where {} was expected", item.no, i, st.got));
                }
                if st.sending <= item.no {
                    simrt::violate("wrong-message", format!("item {} of client {} was not sent", item.no, i));
                }
                st.got += 1;
                if let Some(n) = item.next {
                    v.insert(simrt::draw(v.len() as u64 + 1) as usize, n);
                    left += 1;
                }
                nap(simrt::draw(4) == 3);
                let e = send(Tok::make(key(i, item.no) ^ 1), c);
                let r = close(e);
                checked();
                if r.is_err() && !run().c[i].dead {
                    simrt::violate("wrong-session", format!("closing the continuation of item {} of client {} failed: {:?}", item.no, i, r.err().map(|e| e.to_string())));
                }
            }
            Err(e) => {
                simrt::ev("select-error", before as i64, 0, 0);
                simrt::note(|| format!("select failed: {}", e));
                // some client is gone, everything it sent was received, and it is not yet accounted for
                match run().c.iter_mut().find(|c| c.dead && !c.finished && !c.error_seen && c.got == c.sent) {
                    Some(c) => {
                        c.error_seen = true;
                        simrt::probe("dead-session-reported");
                    }
                    None => {
                        simrt::violate("spurious-failure", format!("selecting among {} sessions failed ({}) although no session's peer is gone with its messages received", before, e));
                        return;
                    }
                }
            }
        }
    }
}

fn scenario(crash: u64) {
    let n = if simrt::draw_p(30_000, 2) == 1 { 7 + simrt::draw(34) as usize } else { 1 + simrt::draw(6) as usize };
    let slow = simrt::draw(3);
    let c: Vec<Client> = (0..n)
        .map(|_| {
            let items = 1 + simrt::draw(4) as usize;
            let crash_at = (crash > 0 && simrt::draw_p(crash, 2) == 1).then(|| simrt::draw(items as u64) as usize);
            Client { n: items, crash_at, drop_kind: simrt::draw(3), slow: slow == 2 || (slow == 1 && simrt::draw(2) == 1), ..Client::default() }
        })
        .collect();
    simrt::probe(["", "select/1", "select/2", "select/3", "select/4", "select/5", "select/6", "select/7-40"][n.min(7)]);
    unsafe { RUN = Some(Run { c }) }
    let mut v = vec![];
    let mut js = vec![];
    for i in 0..n {
        let (j, s) = fork_with_thread_id(move |s: <Stream as Session>::Dual| {
            let r = catch(|| client(i, s));
            run().c[i].gone |= run().c[i].dead;
            match r {
                Ok(x) => x,
                Err(p) => std::panic::resume_unwind(p),
            }
        });
        v.push(s);
        js.push(j);
    }
    server(v);
    for j in js {
        let _ = j.join();
    }
    for (i, c) in run().c.iter().enumerate() {
        checked();
        if simrt::violated() {
            break;
        }
        if c.got != c.sent {
            simrt::violate("lost-message", format!("client {} sent {} items, {} were received", i, c.sent, c.got));
        }
        if c.crash_at.is_none() && !c.finished {
            simrt::violate("spurious-failure", format!("client {} was not served: {} of {} items", i, c.replied, c.n));
        }
        if c.crash_at.is_some() && !c.error_seen {
            simrt::violate("missed-failure", format!("client {} stopped but selecting never reported it", i));
        }
        simrt::probe(if c.finished { "client-served" } else { "client-died" });
    }
}

fn selects() { scenario(0) }
fn select_crashes() { scenario(400_000) }

fn main() {
    wmain(&[
        Prop { id: "selects", f: selects, cap: 200_000 },
        Prop { id: "select_crashes", f: select_crashes, cap: 200_000 },
    ])
}
