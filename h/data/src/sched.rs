//! C04/C05: the task scheduler. Scripted tasks with uniquely numbered messages run on the
//! real scheduler; every poll is logged (what the task was resumed with, what it asked for)
//! and an independent channel/timer/task model replays the log and judges each entry.
use logicaffeine_runtime::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;
use vkit::serde_json::json;
use vkit::{Case, Report, Rng};

#[derive(Clone, Debug, PartialEq)]
enum Cmd {
    Yield,
    Recv(usize),
    Send(usize),
    TrySend(usize),
    TryRecv(usize),
    Select(Vec<Arm>),
    Sleep(u64),
    Spawn(usize),
    Await(usize),
    Abort(usize),
    AbortSelf,
    Close(usize),
}
#[derive(Clone, Debug, PartialEq)]
enum Arm {
    Recv(usize),
    Timeout(u64),
}

/// A program: script 0 is the main task, which first creates the channels.
#[derive(Clone, Debug)]
struct Prog {
    caps: Vec<Option<usize>>,
    scripts: Vec<Vec<Cmd>>,
    prio: Vec<u8>,
}

fn gen(rng: &mut Rng, allow_abort: bool) -> Prog {
    let nch = 1 + rng.below(3);
    let nt = 2 + rng.below(6);
    let caps = (0..nch).map(|_| *rng.pick(&[Some(0), Some(0), Some(1), Some(2), Some(3), None])).collect::<Vec<_>>();
    // Each channel may be closed only by its designated closer, as that task's last channel use.
    let closer: Vec<Option<usize>> = (0..nch).map(|_| if rng.chance(1, 3) { Some(rng.below(nt)) } else { None }).collect();
    let mut scripts = vec![];
    // roles: biased to balanced senders/receivers so that runs go deep
    for t in 0..nt {
        let mut s = vec![];
        let len = 1 + rng.below(9);
        let role = rng.below(3);
        for _ in 0..len {
            let ch = rng.below(nch);
            let sendable = closer[ch].is_none() || closer[ch] == Some(t);
            let k = rng.below(20);
            let cmd = match (role, k) {
                (0, 0..=9) if sendable => Cmd::Send(ch),
                (1, 0..=9) => Cmd::Recv(ch),
                (_, 0..=3) if sendable => Cmd::Send(ch),
                (_, 4..=7) => Cmd::Recv(ch),
                (_, 8) if sendable => Cmd::TrySend(ch),
                (_, 9) => Cmd::TryRecv(ch),
                (_, 10..=13) => {
                    let n = 1 + rng.below(3);
                    let mut arms: Vec<Arm> = (0..n).map(|_| Arm::Recv(rng.below(nch))).collect();
                    if rng.chance(2, 3) {
                        arms.push(Arm::Timeout(rng.below(4) as u64 * 5));
                    }
                    Cmd::Select(arms)
                }
                (_, 14 | 15) => Cmd::Sleep(rng.below(4) as u64 * 5),
                (_, 16) => Cmd::Await(rng.below(nt)),
                (_, 17) if allow_abort => {
                    if rng.chance(1, 8) {
                        Cmd::AbortSelf
                    } else {
                        Cmd::Abort(rng.below(nt))
                    }
                }
                _ => Cmd::Yield,
            };
            s.push(cmd);
        }
        for (ch, c) in closer.iter().enumerate() {
            if *c == Some(t) {
                s.push(Cmd::Close(ch));
            }
        }
        scripts.push(s);
    }
    // spawn tree: every task 1.. is spawned once by an earlier script
    for t in 1..nt {
        let p = rng.below(t);
        let at = if p == 0 || rng.chance(2, 3) { 0 } else { rng.below(scripts[p].len() + 1) };
        // main spawns early so that most programs really run concurrently
        let at = at.min(scripts[p].len());
        scripts[p].insert(at, Cmd::Spawn(t));
    }
    let prio = (0..nt).map(|_| rng.below(3) as u8).collect();
    Prog { caps, scripts, prio }
}

#[derive(Clone, Debug, PartialEq)]
enum Asked {
    NewChan(Option<usize>),
    Cmd(Cmd),
    Send(usize, i64),
    TrySend(usize, i64),
    Exit(i64),
}
#[derive(Clone, Debug)]
struct Ev {
    script: usize,
    resumed: RtPayload,
    arm: Option<usize>,
    chan: Option<ChanId>,
    spawned: Option<TaskId>,
    asked: Asked,
    /// for Await/Abort: the task id actually named (None: not known, turned into a yield)
    target: Option<TaskId>,
}

/// Shared knowledge a scripted task needs: ids of channels and of spawned scripts.
struct Shared {
    chans: Vec<ChanId>,
    tids: HashMap<usize, TaskId>,
    log: Vec<Ev>,
    uid: i64,
}

struct Scripted {
    prog: Rc<Prog>,
    sh: Rc<RefCell<Shared>>,
    me: usize,
    pc: usize,
    made: usize,
    pending_spawn: Option<usize>,
}

impl Task<'static> for Scripted {
    fn poll(&mut self, ctx: &mut TaskCtx) -> TaskStep<'static> {
        let mut ev = Ev {
            script: self.me,
            resumed: std::mem::replace(&mut ctx.resumed_with, RtPayload::Nothing),
            arm: ctx.selected_arm,
            chan: ctx.new_chan,
            spawned: ctx.spawned,
            asked: Asked::Exit(0),
            target: None,
        };
        let mut sh = self.sh.borrow_mut();
        if let Some(c) = ev.chan {
            sh.chans.push(c);
        }
        if let (Some(s), Some(t)) = (self.pending_spawn.take(), ev.spawned) {
            sh.tids.insert(s, t);
        }
        let prog = self.prog.clone();
        let step = if self.me == 0 && self.made < prog.caps.len() {
            let cap = prog.caps[self.made];
            self.made += 1;
            ev.asked = Asked::NewChan(cap);
            TaskStep::NewChan(cap)
        } else if self.pc >= prog.scripts[self.me].len() {
            let v = 1000 + self.me as i64;
            ev.asked = Asked::Exit(v);
            TaskStep::Exit(RtPayload::Int(v))
        } else {
            let cmd = prog.scripts[self.me][self.pc].clone();
            self.pc += 1;
            ev.asked = Asked::Cmd(cmd.clone());
            let ch = |i: usize| sh.chans[i];
            match cmd {
                Cmd::Yield => TaskStep::Yield,
                Cmd::Recv(c) => TaskStep::Recv(ch(c)),
                Cmd::Send(c) | Cmd::TrySend(c) => {
                    let id = ch(c);
                    sh.uid += 1;
                    let uid = sh.uid;
                    if matches!(ev.asked, Asked::Cmd(Cmd::Send(_))) {
                        ev.asked = Asked::Send(c, uid);
                        TaskStep::Send(id, RtPayload::Int(uid))
                    } else {
                        ev.asked = Asked::TrySend(c, uid);
                        TaskStep::TrySend(id, RtPayload::Int(uid))
                    }
                }
                Cmd::TryRecv(c) => TaskStep::TryRecv(ch(c)),
                Cmd::Select(arms) => TaskStep::Select(
                    arms.iter()
                        .map(|a| match a {
                            Arm::Recv(c) => SelectArm::Recv(ch(*c)),
                            Arm::Timeout(d) => SelectArm::Timeout(*d),
                        })
                        .collect(),
                ),
                Cmd::Sleep(d) => TaskStep::Sleep(d),
                Cmd::Spawn(s) => {
                    self.pending_spawn = Some(s);
                    TaskStep::Spawn(Box::new(Scripted { prog: self.prog.clone(), sh: self.sh.clone(), me: s, pc: 0, made: 0, pending_spawn: None }))
                }
                Cmd::Await(s) => match sh.tids.get(&s) {
                    Some(t) if s != self.me => {
                        ev.target = Some(*t);
                        TaskStep::Await(*t)
                    }
                    _ => TaskStep::Yield,
                },
                Cmd::Abort(s) => match sh.tids.get(&s) {
                    Some(t) if s != self.me => {
                        ev.target = Some(*t);
                        TaskStep::Abort(*t)
                    }
                    _ => TaskStep::Yield,
                },
                Cmd::AbortSelf => match sh.tids.get(&self.me) {
                    Some(t) => {
                        ev.target = Some(*t);
                        TaskStep::Abort(*t)
                    }
                    None => TaskStep::Yield,
                },
                Cmd::Close(c) => TaskStep::Close(ch(c)),
            }
        };
        sh.log.push(ev);
        step
    }
    fn priority(&self) -> u8 {
        self.prog.prio[self.me]
    }
}

// ── the reference model ──────────────────────────────────────────────────────

#[derive(Clone, Debug, PartialEq)]
enum St {
    Ready { since: u64, resume: RtPayload, arm: Option<usize>, spawned: Option<usize>, chan: bool },
    Recv(usize),
    Send(usize),
    Select(Vec<Arm>, u64),
    Timer(u64),
    Await(TaskId),
    Done,
}

#[derive(Default, Debug)]
struct MChan {
    cap: Option<usize>,
    q: VecDeque<i64>,
    senders: VecDeque<(usize, i64)>,
    receivers: VecDeque<usize>,
    closed: bool,
}

struct Model<'a> {
    prog: &'a Prog,
    st: Vec<Option<St>>, // by script
    tid: HashMap<TaskId, usize>,
    ch: Vec<MChan>,
    clock: u64,
    step: u64,
    results: HashMap<usize, RtPayload>,
    sent: BTreeMap<i64, usize>,
    received: BTreeSet<i64>,
    default_cap: usize,
}

fn int(v: i64) -> RtPayload {
    RtPayload::Int(v)
}

impl<'a> Model<'a> {
    fn new(prog: &'a Prog, main: TaskId, default_cap: usize) -> Self {
        let mut st = vec![None; prog.scripts.len()];
        st[0] = Some(St::Ready { since: 0, resume: RtPayload::Nothing, arm: None, spawned: None, chan: false });
        Model {
            prog,
            st,
            tid: HashMap::from([(main, 0)]),
            ch: vec![],
            clock: 0,
            step: 0,
            results: HashMap::new(),
            sent: BTreeMap::new(),
            received: BTreeSet::new(),
            default_cap,
        }
    }
    fn ready(&mut self, s: usize, resume: RtPayload, arm: Option<usize>) {
        let since = self.step;
        self.st[s] = Some(St::Ready { since, resume, arm, spawned: None, chan: false });
    }
    fn room(&self, c: usize) -> bool {
        self.ch[c].cap.map_or(true, |k| self.ch[c].q.len() < k)
    }
    fn can_recv(&self, c: usize) -> bool {
        !self.ch[c].q.is_empty() || !self.ch[c].senders.is_empty() || self.ch[c].closed
    }
    fn unregister(&mut self, s: usize) {
        for c in &mut self.ch {
            c.receivers.retain(|x| *x != s);
        }
    }
    /// Hand `v` to the first waiting receiver of `c`, if any.
    fn hand(&mut self, c: usize, v: RtPayload) -> bool {
        if let Some(r) = self.ch[c].receivers.pop_front() {
            let arm = match &self.st[r] {
                Some(St::Select(arms, _)) => arms.iter().position(|a| *a == Arm::Recv(c)),
                _ => None,
            };
            self.unregister(r);
            self.ready(r, v, arm);
            true
        } else {
            false
        }
    }
    fn take(&mut self, c: usize) -> Option<i64> {
        if let Some(v) = self.ch[c].q.pop_front() {
            if self.room(c) {
                if let Some((s, u)) = self.ch[c].senders.pop_front() {
                    self.ch[c].q.push_back(u);
                    self.ready(s, RtPayload::Nothing, None);
                }
            }
            return Some(v);
        }
        if let Some((s, u)) = self.ch[c].senders.pop_front() {
            self.ready(s, RtPayload::Nothing, None);
            return Some(u);
        }
        None
    }
    fn finish(&mut self, s: usize, v: RtPayload) {
        self.st[s] = Some(St::Done);
        self.results.insert(s, v.clone());
        let waiting: Vec<usize> = (0..self.st.len())
            .filter(|w| matches!(&self.st[*w], Some(St::Await(t)) if self.tid.get(t) == Some(&s)))
            .collect();
        for w in waiting {
            self.ready(w, v.clone(), None);
        }
    }
    fn any_ready(&self) -> bool {
        self.st.iter().any(|s| matches!(s, Some(St::Ready { .. })))
    }
    fn next_timer(&self) -> Option<u64> {
        self.st
            .iter()
            .filter_map(|s| match s {
                Some(St::Timer(t)) => Some(*t),
                Some(St::Select(arms, at)) => arms.iter().filter_map(|a| if let Arm::Timeout(d) = a { Some(at + d) } else { None }).min(),
                _ => None,
            })
            .min()
    }
    /// Move virtual time to the next timer if nothing can run.
    fn settle(&mut self) {
        if self.any_ready() {
            return;
        }
        if let Some(t) = self.next_timer() {
            self.clock = t;
            for s in 0..self.st.len() {
                match self.st[s].clone() {
                    Some(St::Timer(x)) if x == t => self.ready(s, RtPayload::Nothing, None),
                    Some(St::Select(arms, at)) => {
                        if let Some(i) = arms.iter().position(|a| matches!(a, Arm::Timeout(d) if at + d == t)) {
                            self.unregister(s);
                            self.ready(s, RtPayload::Nothing, Some(i));
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    /// Judge one logged poll and apply its step. `next` = the same task's next poll.
    fn apply(&mut self, ev: &Ev, next: Option<&Ev>, policy: SchedulePolicy) -> Result<(), (String, String)> {
        self.settle();
        self.step += 1;
        let s = ev.script;
        let (since, resume, arm, spawned, chan) = match &self.st[s] {
            Some(St::Ready { since, resume, arm, spawned, chan }) => (*since, resume.clone(), *arm, *spawned, *chan),
            other => return Err(("polled-not-ready".into(), format!("task {s} was polled while {other:?}"))),
        };
        if ev.resumed != resume {
            return Err(("resume-value".into(), format!("task {s} resumed with {:?}, should be {:?}", ev.resumed, resume)));
        }
        if ev.arm != arm {
            return Err(("select-arm".into(), format!("task {s} resumed on arm {:?}, should be {:?}", ev.arm, arm)));
        }
        if ev.chan.is_some() != chan || ev.spawned.is_some() != spawned.is_some() {
            return Err(("resume-kind".into(), format!("task {s}: unexpected channel/spawn resume {ev:?}")));
        }
        if let Some(child) = spawned {
            let t = ev.spawned.unwrap();
            if self.tid.insert(t, child).is_some() {
                return Err(("task-id-reuse".into(), format!("{t:?} names two tasks")));
            }
        }
        if let RtPayload::Int(v) = ev.resumed {
            if v < 1000 || self.sent.contains_key(&v) {
                // a channel value
                if v < 900 {
                    if !self.sent.contains_key(&v) {
                        return Err(("phantom-value".into(), format!("task {s} received {v}, never sent")));
                    }
                    if !self.received.insert(v) {
                        return Err(("duplicate-delivery".into(), format!("value {v} delivered twice")));
                    }
                }
            }
        }
        // policy discipline
        let others: Vec<(usize, u64)> = (0..self.st.len())
            .filter_map(|o| match &self.st[o] {
                Some(St::Ready { since, .. }) if o != s => Some((o, *since)),
                _ => None,
            })
            .collect();
        match policy {
            SchedulePolicy::Fifo | SchedulePolicy::RoundRobin => {
                if let Some((o, at)) = others.iter().find(|(_, a)| *a < since) {
                    return Err(("fifo-order".into(), format!("task {s} (ready since {since}) ran before task {o} (ready since {at})")));
                }
            }
            SchedulePolicy::Lifo => {
                if let Some((o, at)) = others.iter().find(|(_, a)| *a > since) {
                    return Err(("lifo-order".into(), format!("task {s} (ready since {since}) ran before task {o} (ready since {at})")));
                }
            }
            SchedulePolicy::Priority => {
                let p = |x: usize| self.prog.prio[x];
                if let Some((o, at)) = others.iter().find(|(o, a)| p(*o) > p(s) || (p(*o) == p(s) && *a < since)) {
                    return Err(("priority-order".into(), format!("task {s} (priority {}, since {since}) ran before task {o} (priority {}, since {at})", p(s), p(*o))));
                }
            }
            SchedulePolicy::Random => {}
        }
        // apply the step
        match &ev.asked {
            Asked::NewChan(cap) => {
                self.ch.push(MChan { cap: Some(cap.unwrap_or(self.default_cap)), ..Default::default() });
                self.ready(s, RtPayload::Nothing, None);
                if let Some(St::Ready { chan, .. }) = &mut self.st[s] {
                    *chan = true;
                }
            }
            Asked::Exit(v) => self.finish(s, int(*v)),
            Asked::Send(c, u) => {
                self.sent.insert(*u, *c);
                if self.hand(*c, int(*u)) {
                    self.ready(s, RtPayload::Nothing, None);
                } else if self.room(*c) {
                    self.ch[*c].q.push_back(*u);
                    self.ready(s, RtPayload::Nothing, None);
                } else {
                    self.ch[*c].senders.push_back((s, *u));
                    self.st[s] = Some(St::Send(*c));
                }
            }
            Asked::TrySend(c, u) => {
                let ok = if self.hand(*c, int(*u)) {
                    true
                } else if self.room(*c) {
                    self.ch[*c].q.push_back(*u);
                    true
                } else {
                    false
                };
                if ok {
                    self.sent.insert(*u, *c);
                }
                self.ready(s, RtPayload::Bool(ok), None);
            }
            Asked::Cmd(cmd) => match cmd {
                Cmd::Yield => self.ready(s, RtPayload::Nothing, None),
                Cmd::Recv(c) => {
                    if let Some(v) = self.take(*c) {
                        self.ready(s, int(v), None);
                    } else if self.ch[*c].closed {
                        self.ready(s, RtPayload::Nothing, None);
                    } else {
                        self.ch[*c].receivers.push_back(s);
                        self.st[s] = Some(St::Recv(*c));
                    }
                }
                Cmd::TryRecv(c) => {
                    let v = self.take(*c).map(int).unwrap_or(RtPayload::Nothing);
                    self.ready(s, v, None);
                }
                Cmd::Select(arms) => {
                    let open: Vec<usize> = (0..arms.len()).filter(|i| matches!(&arms[*i], Arm::Recv(c) if self.can_recv(*c))).collect();
                    if !open.is_empty() {
                        let won = if open.len() == 1 {
                            open[0]
                        } else {
                            match next.and_then(|n| n.arm) {
                                Some(a) if open.contains(&a) => a,
                                Some(a) => return Err(("select-arm".into(), format!("task {s}: arm {a} won but only {open:?} were ready"))),
                                None => return Err(("!ambiguous".into(), String::new())),
                            }
                        };
                        let Arm::Recv(c) = arms[won] else { unreachable!() };
                        let v = self.take(c).map(int).unwrap_or(RtPayload::Nothing);
                        self.ready(s, v, Some(won));
                    } else {
                        for a in arms {
                            if let Arm::Recv(c) = a {
                                if !self.ch[*c].receivers.contains(&s) {
                                    self.ch[*c].receivers.push_back(s);
                                }
                            }
                        }
                        self.st[s] = Some(St::Select(arms.clone(), self.clock));
                    }
                }
                Cmd::Sleep(d) => self.st[s] = Some(St::Timer(self.clock + d)),
                Cmd::Spawn(child) => {
                    self.st[*child] = Some(St::Ready { since: self.step, resume: RtPayload::Nothing, arm: None, spawned: None, chan: false });
                    self.st[s] = Some(St::Ready { since: self.step, resume: RtPayload::Nothing, arm: None, spawned: Some(*child), chan: false });
                }
                Cmd::Await(_) => match ev.target {
                    None => self.ready(s, RtPayload::Nothing, None),
                    Some(t) => {
                        let child = self.tid.get(&t).copied();
                        match child.and_then(|x| self.results.get(&x).cloned()) {
                            Some(v) => self.ready(s, v, None),
                            None => self.st[s] = Some(St::Await(t)),
                        }
                    }
                },
                Cmd::Abort(_) | Cmd::AbortSelf => {
                    if let Some(t) = ev.target {
                        let x = self.tid[&t];
                        if !matches!(self.st[x], Some(St::Done)) {
                            self.unregister(x);
                            for c in &mut self.ch {
                                c.senders.retain(|(w, _)| *w != x);
                            }
                            self.finish(x, RtPayload::Nothing);
                        }
                        if x == s {
                            return Ok(());
                        }
                    }
                    self.ready(s, RtPayload::Nothing, None);
                }
                Cmd::Close(c) => {
                    self.ch[*c].closed = true;
                    while self.hand(*c, RtPayload::Nothing) {}
                    self.ready(s, RtPayload::Nothing, None);
                }
                Cmd::Send(_) | Cmd::TrySend(_) => unreachable!(),
            },
        }
        Ok(())
    }
}

struct Ran {
    log: Vec<Ev>,
    outcome: RunOutcome,
    trace: SchedTrace,
    snaps: Vec<SchedSnapshot>,
    main: TaskId,
    clock: u64,
}

enum Mode {
    Record(u64),
    Replay(SchedTrace),
}

fn run(prog: &Prog, cfg: SchedulerConfig, mode: Mode, slices: Option<&mut Rng>, snaps: bool) -> Ran {
    let chooser = match mode {
        Mode::Record(s) => Chooser::record(SchedSeed(s)),
        Mode::Replay(t) => Chooser::replay(t),
    };
    let sh = Rc::new(RefCell::new(Shared { chans: vec![], tids: HashMap::new(), log: vec![], uid: 0 }));
    let p = Rc::new(prog.clone());
    let mut sched: Scheduler<'static> = Scheduler::new(cfg, chooser);
    let main = sched.spawn_main(Box::new(Scripted { prog: p, sh: sh.clone(), me: 0, pc: 0, made: 0, pending_spawn: None }));
    sh.borrow_mut().tids.insert(0, main);
    let mut out = None;
    let mut sn = vec![];
    let mut polls = 0u64;
    if let Some(rng) = slices {
        while out.is_none() && polls < 100_000 {
            let k = rng.below(5);
            polls += k as u64 + 1;
            out = sched.run_slice(k);
        }
    } else if snaps {
        while out.is_none() && polls < 100_000 {
            let before = sh.borrow().log.len();
            out = sched.poll_once();
            polls += 1;
            if sh.borrow().log.len() > before {
                sn.push(sched.snapshot());
            }
        }
    } else {
        out = Some(sched.run());
    }
    let clock = sched.snapshot().clock;
    let trace = sched.into_trace();
    let log = std::mem::take(&mut sh.borrow_mut().log);
    Ran { log, outcome: out.unwrap_or(RunOutcome::WaitingForIo), trace, snaps: sn, main, clock }
}

fn cfg_of(rng: &mut Rng) -> (SchedulerConfig, SchedulePolicy) {
    let p = *rng.pick(&[SchedulePolicy::Fifo, SchedulePolicy::Random, SchedulePolicy::Random, SchedulePolicy::Lifo, SchedulePolicy::RoundRobin, SchedulePolicy::Priority]);
    (SchedulerConfig::default().with_policy(p).with_channel_capacity(1 + rng.below(4)), p)
}

fn fingerprint(l: &[Ev]) -> Vec<String> {
    l.iter().map(|e| format!("{e:?}")).collect()
}

/// C05: every poll of every task is what the channel/timer/task rules imply.
fn semantics(c: &mut Case) {
    let mut rng = c.rng.clone();
    let prog = gen(&mut rng, true);
    let (cfg, policy) = cfg_of(&mut rng);
    let seed = rng.u64();
    c.rng = rng;
    let r = run(&prog, cfg, Mode::Record(seed), None, false);
    let r2 = run(&prog, cfg, Mode::Record(seed), None, true);
    let data = || json!({"program": format!("{prog:?}"), "policy": format!("{policy:?}"), "seed": seed, "log": fingerprint(&r.log)});
    if fingerprint(&r.log) != fingerprint(&r2.log) || r.outcome != r2.outcome {
        c.fail_with("sched:stepping", "stepping the scheduler one poll at a time changed the run", data());
        return;
    }
    let mut m = Model::new(&prog, r.main, cfg.default_channel_capacity);
    let mut ambiguous = false;
    for i in 0..r.log.len() {
        let next = r.log[i + 1..].iter().find(|e| e.script == r.log[i].script);
        match m.apply(&r.log[i], next, policy) {
            Ok(()) => {}
            Err((k, _)) if k == "!ambiguous" => {
                ambiguous = true;
                break;
            }
            Err((k, d)) => {
                c.fail_with(&format!("sched:{k}"), format!("event {i}: {d}"), data());
                return;
            }
        }
        // the published snapshot agrees with the model, and buffers respect capacity
        if let Some(s) = r2.snaps.get(i) {
            for (k, v) in s.channels.iter().enumerate() {
                if let Some(cap) = v.capacity {
                    if v.depth > cap {
                        c.fail_with("sched:over-capacity", format!("event {i}: channel {k} of capacity {cap} holds {}", v.depth), data());
                        return;
                    }
                }
                let mc = &m.ch[k];
                if v.depth != mc.q.len() || v.closed != mc.closed || v.blocked_senders != mc.senders.len() || v.blocked_receivers < mc.receivers.len() || (mc.receivers.is_empty() && v.blocked_receivers > 0) {
                    c.fail_with("sched:snapshot", format!("event {i}: channel {k} snapshot {v:?}, model {mc:?}"), data());
                    return;
                }
            }
        }
    }
    c.eval();
    c.count("polls_judged", r.log.len() as u64);
    c.count("values_delivered", m.received.len() as u64);
    if ambiguous {
        c.count("runs_cut_at_ambiguous_select", 1);
        return;
    }
    m.settle();
    let all_done = m.st.iter().all(|s| matches!(s, None | Some(St::Done)));
    let want = if all_done { "Done" } else { "Deadlock" };
    if m.any_ready() {
        c.fail_with("sched:stopped-early", format!("run ended as {:?} while a task could still run", r.outcome), data());
        return;
    }
    match &r.outcome {
        RunOutcome::Done(v) => {
            c.count("outcome_done", 1);
            let mv = m.results.get(&0).cloned().unwrap_or(RtPayload::Nothing);
            if !all_done || *v != mv {
                c.fail_with("sched:outcome", format!("reported Done({v:?}), model says {want} with main result {mv:?}"), data());
            }
        }
        RunOutcome::Deadlock => {
            c.count("outcome_deadlock", 1);
            if all_done {
                c.fail_with("sched:outcome", "reported Deadlock but every task finished", data());
            }
        }
        RunOutcome::WaitingForIo => c.fail_with("sched:outcome", "waiting for I/O in a program without I/O", data()),
    }
    if r.clock != m.clock {
        c.fail_with("sched:clock", format!("virtual clock {} but timers imply {}", r.clock, m.clock), data());
    }
    if m.received.len() > 1 {
        c.nontrivial(&(format!("{prog:?}"), seed));
        c.seen("interleavings", &fingerprint(&r.log));
        c.seen("policies", &format!("{policy:?}"));
    }
    c.sample(data);
}

/// C04: determinism, slicing, replay, and multi-worker equivalence.
fn determinism(c: &mut Case) {
    let mut rng = c.rng.clone();
    let prog = gen(&mut rng, true);
    let (cfg, policy) = cfg_of(&mut rng);
    let seed = rng.u64();
    let data = || json!({"program": format!("{prog:?}"), "policy": format!("{policy:?}"), "seed": seed});
    let a = run(&prog, cfg, Mode::Record(seed), None, false);
    let b = run(&prog, cfg, Mode::Record(seed), None, false);
    let fa = fingerprint(&a.log);
    if fa != fingerprint(&b.log) || a.outcome != b.outcome || a.trace != b.trace {
        c.fail_with("det:same-seed", "two runs of one program under one seed differ", data());
        return;
    }
    let s = run(&prog, cfg, Mode::Record(seed), Some(&mut rng), false);
    if fa != fingerprint(&s.log) || a.outcome != s.outcome || a.trace != s.trace {
        c.fail_with("det:slices", "running in slices changed the run", data());
        return;
    }
    let rp = vkit::guard(|| run(&prog, cfg, Mode::Replay(a.trace.clone()), None, false));
    match rp {
        Ok(rp) => {
            if fa != fingerprint(&rp.log) || a.outcome != rp.outcome || rp.trace.choices != a.trace.choices {
                c.fail_with("det:replay", "replaying the recorded trace gave a different run", data());
                return;
            }
        }
        Err(p) => {
            c.fail_with("det:replay", format!("replay panicked: {}", p.message), data());
            return;
        }
    }
    // a corrupted trace is detected or at worst still a legal run; it is never silently the wrong shape
    if !a.trace.choices.is_empty() {
        let mut t = a.trace.clone();
        let k = rng.below(t.choices.len());
        t.choices[k].options += 1;
        if vkit::guard(|| run(&prog, cfg, Mode::Replay(t), None, false)).is_ok() {
            c.fail_with("det:divergence-unnoticed", "a trace whose decision shape does not match was replayed without complaint", data());
            return;
        }
        c.count("corrupted_traces_rejected", 1);
        c.count("choice_points", a.trace.choices.len() as u64);
    }
    c.eval();
    c.rng = rng;
    if a.trace.choices.len() >= 2 {
        c.nontrivial(&(format!("{prog:?}"), seed));
        c.seen("traces", &format!("{:?}", a.trace.choices));
    }
    c.sample(|| json!({"program": format!("{prog:?}"), "policy": format!("{policy:?}"), "choices": a.trace.choices.len(), "polls": a.log.len()}));
}

// ── work-stealing ────────────────────────────────────────────────────────────

struct WsTask<'p> {
    prog: &'p Prog,
    me: usize,
    pc: usize,
    made: usize,
    tids: HashMap<usize, TaskId>,
    pending: Option<usize>,
    out: Vec<String>,
    ws: bool,
    uid: i64,
    sink: Option<Rc<RefCell<Vec<String>>>>,
    spin: u64,
}

impl<'p> WsTask<'p> {
    fn new(prog: &'p Prog, me: usize, ws: bool, sink: Option<Rc<RefCell<Vec<String>>>>) -> Self {
        WsTask { prog, me, pc: 0, made: 0, tids: HashMap::new(), pending: None, out: vec![], ws, uid: 0, sink, spin: 0 }
    }
}

impl<'p> Task<'p> for WsTask<'p> {
    fn poll(&mut self, ctx: &mut TaskCtx) -> TaskStep<'p> {
        // jitter worker timing so report arrival order varies
        for i in 0..(self.me as u64 * 37 + self.pc as u64 * 101) % 900 {
            self.spin = self.spin.wrapping_mul(31).wrapping_add(i);
        }
        if self.ws && self.spin % 7 == 0 {
            std::thread::yield_now();
        }
        let line = format!("t{} pc{} <- {:?} arm {:?} chan {:?} spawned {:?}", self.me, self.pc, ctx.resumed_with, ctx.selected_arm, ctx.new_chan, ctx.spawned);
        match &self.sink {
            Some(s) => s.borrow_mut().push(line),
            None => self.out.push(line),
        }
        if let (Some(s), Some(t)) = (self.pending.take(), ctx.spawned) {
            self.tids.insert(s, t);
        }
        if self.me == 0 && self.made < self.prog.caps.len() {
            self.made += 1;
            return TaskStep::NewChan(self.prog.caps[self.made - 1]);
        }
        // main is task 0 and creates channels 1..; ids are assigned in creation order
        let ch = |i: usize| ChanId(1 + i as u64);
        let Some(cmd) = self.prog.scripts[self.me].get(self.pc).cloned() else {
            return TaskStep::Exit(RtPayload::Int(1000 + self.me as i64));
        };
        self.pc += 1;
        match cmd {
            Cmd::Yield | Cmd::AbortSelf => TaskStep::Yield,
            Cmd::Recv(c) => TaskStep::Recv(ch(c)),
            Cmd::Send(c) => {
                self.uid += 1;
                TaskStep::Send(ch(c), RtPayload::Int(self.me as i64 * 100 + self.uid))
            }
            Cmd::TrySend(c) => {
                self.uid += 1;
                TaskStep::TrySend(ch(c), RtPayload::Int(self.me as i64 * 100 + self.uid))
            }
            Cmd::TryRecv(c) => TaskStep::TryRecv(ch(c)),
            Cmd::Select(arms) => TaskStep::Select(
                arms.iter()
                    .map(|a| match a {
                        Arm::Recv(c) => SelectArm::Recv(ch(*c)),
                        Arm::Timeout(d) => SelectArm::Timeout(*d),
                    })
                    .collect(),
            ),
            Cmd::Sleep(d) => TaskStep::Sleep(d),
            Cmd::Spawn(s) => {
                self.pending = Some(s);
                if self.ws {
                    TaskStep::SpawnDesc { func: s as u16, args: vec![], want_handle: true }
                } else {
                    TaskStep::Spawn(Box::new(WsTask::new(self.prog, s, false, self.sink.clone())))
                }
            }
            Cmd::Await(s) => self.tids.get(&s).map_or(TaskStep::Yield, |t| TaskStep::Await(*t)),
            Cmd::Abort(s) => self.tids.get(&s).map_or(TaskStep::Yield, |t| TaskStep::Abort(*t)),
            Cmd::Close(c) => TaskStep::Close(ch(c)),
        }
    }
    fn take_output(&mut self) -> Vec<String> {
        std::mem::take(&mut self.out)
    }
}

fn workstealing(c: &mut Case) {
    let mut rng = c.rng.clone();
    let prog = gen(&mut rng, true);
    let seed = rng.u64();
    let workers = *rng.pick(&[1usize, 2, 3, 4, 8]);
    let policy = if rng.bool() { SchedulePolicy::Fifo } else { SchedulePolicy::RoundRobin };
    let cfg = SchedulerConfig::default().with_policy(policy).with_channel_capacity(2);
    let sink = Rc::new(RefCell::new(vec![]));
    let sk = sink.clone();
    let prog_ref = &prog;
    let (outcome, trace) = run_with_seed(cfg, SchedSeed(seed), move |s| {
        s.spawn_main(Box::new(WsTask::new(prog_ref, 0, false, Some(sk))));
    });
    let coop = sink.borrow().clone();
    let build = |d: SpawnDesc| -> Box<dyn Task<'_> + '_> { Box::new(WsTask::new(prog_ref, if d.is_main { 0 } else { d.func as usize }, true, None)) };
    let ws = run_workstealing_seeded(cfg.with_workers(workers), SchedSeed(seed), SpawnDesc { func: 0, args: vec![], priority: 0, is_main: true }, build);
    c.eval();
    c.count(&format!("workers_{workers}"), 1);
    let data = || json!({"program": format!("{prog:?}"), "workers": workers, "seed": seed, "cooperative": coop, "workstealing": ws.output});
    if ws.output != coop {
        let k = ws.output.iter().zip(&coop).position(|(a, b)| a != b).unwrap_or(ws.output.len().min(coop.len()));
        c.fail_with("ws:output", format!("{workers} workers: output diverges from the single-threaded run at line {k}: {:?} vs {:?}", ws.output.get(k), coop.get(k)), data());
        return;
    }
    if ws.outcome != outcome {
        c.fail_with("ws:outcome", format!("{workers} workers: {:?} vs single-threaded {:?}", ws.outcome, outcome), data());
        return;
    }
    if ws.trace.choices != trace.choices {
        c.fail_with("ws:trace", "scheduling decisions differ from the single-threaded run", data());
        return;
    }
    c.count("slices_compared", coop.len() as u64);
    if workers > 1 && coop.len() > 12 {
        c.nontrivial(&(format!("{prog:?}"), seed, workers));
    }
}

pub fn c04(rep: &Report) {
    rep.rule("random task programs (2-7 tasks, 1-3 channels, send/receive/select/sleep/await/abort/close) run twice, in random slices, replayed from the recorded trace, replayed from a corrupted trace, and on 1-8 worker threads; non-trivial = at least two scheduling decisions, or more than one worker and a dozen slices");
    rep.cases("determinism", vkit::scale(200_000, 3_000_000), determinism);
    rep.cases_with("workstealing", vkit::scale(6000, 100_000), 4, 120.0, workstealing);
    rep.require("choice_points", 10_000);
    rep.require("slices_compared", 10_000);
}

pub fn c05(rep: &Report) {
    rep.rule("random task programs under every policy with uniquely numbered messages; every poll's resume value, select arm, readiness and policy order, every channel snapshot, the outcome and the clock are judged by an independent model; non-trivial = at least two values delivered");
    rep.cases("semantics", vkit::scale(500_000, 6_000_000), semantics);
    rep.require("values_delivered", 10_000);
    rep.require("outcome_done", 1000);
    rep.require("outcome_deadlock", 1000);
}
