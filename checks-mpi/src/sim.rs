//! The MPI world of a case: real processes, and one coordinator that decides, from a seed, the
//! order of everything the MPI standard leaves open.
use engine::Gen;
use mpi_sys::wire::{self, Coll, Done, Kind, Mode, Op, Reply, Request, Until};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fs::File;
use std::io::{Read, Seek, SeekFrom};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::net::UnixStream;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const CPU_LIMIT_S: u64 = 30;
const STEP_LIMIT: u64 = 300_000;

pub struct World {
    pub program: PathBuf,
    pub args: Vec<String>,
    pub ranks: usize,
    /// decides the schedule
    pub schedule: u64,
    /// seeds the random choices of the program
    pub seed: u64,
}

#[derive(Default, Debug)]
pub struct RankOut {
    pub out: String,
}

#[derive(Default)]
pub struct Outcome {
    pub ranks: Vec<RankOut>,
    pub initialised: bool,
    pub steps: u64,
    pub messages: u64,
    /// messages that arrived before somebody wanted them
    pub unexpected: u64,
    /// moments with more than one possible continuation
    pub choices: u64,
    pub collectives: u64,
    /// standard sends that had to wait for their receiver
    pub rendezvous: u64,
}

/// no verdict possible
fn no_answer(why: &str) -> ! {
    println!("ERROR: {why}");
    std::process::exit(2)
}

fn memfd() -> File {
    let fd = unsafe { libc::memfd_create(c"out".as_ptr(), libc::MFD_CLOEXEC) };
    if fd < 0 {
        no_answer("cannot create a memory file");
    }
    unsafe { File::from_raw_fd(fd) }
}

struct Proc {
    child: Child,
    sock: UnixStream,
    out: File,
    err: File,
    phase: Phase,
    world: u8, // 0 before, 1 inside, 2 after
    weight: f64,
    /// comm 2 of this process
    spins: u32,
}

#[derive(Clone, Debug)]
enum Phase {
    /// computing
    Running,
    /// has called an MPI function that has not had an effect yet
    Holding(Request),
    Waiting(Until, Vec<u64>),
    WaitingInit,
    WaitingFinal,
    Gone,
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Clone)]
struct Message {
    src: usize, // rank in comm
    src_world: usize,
    tag: i32,
    sig: Vec<u8>,
    data: Vec<u8>,
    /// operation of the sender to complete at the match
    notify: Option<u64>,
    ready: bool,
}

struct Posted {
    rank: usize, // in world
    id: u64,
    source: i32,
    tag: i32,
    sig: Vec<u8>,
    cap: u64,
}

struct Entry {
    id: u64,
    rank: usize,
    kind: Kind,
    done: bool,
}

struct CollState {
    entries: Vec<Option<Entry>>,
    early: bool,
    rng: Gen,
    result: Option<Vec<Done>>,
}

#[derive(Default)]
struct Comm {
    members: Vec<usize>,
}

/// what a process waits for
#[derive(Clone)]
enum Wanted {
    Pending,
    Probe { comm: (u32, usize), source: i32, tag: i32, matched: bool },
    Ready(Box<Done>),
}

/// communicators that every process has of its own are told apart by the process
type CommKey = (u32, usize);

struct Sim {
    procs: Vec<Proc>,
    g: Gen,
    comms: HashMap<CommKey, Comm>,
    next_comm: u32,
    /// in flight, per (comm, source, destination), ranks in the world
    channels: BTreeMap<(CommKey, usize, usize), VecDeque<Message>>,
    channel_weight: HashMap<(CommKey, usize, usize), f64>,
    posted: HashMap<(CommKey, usize), Vec<Posted>>,
    unexpected: HashMap<(CommKey, usize), Vec<Message>>,
    matched: HashMap<u64, (Message, CommKey)>,
    next_match: u64,
    ops: HashMap<(usize, u64), Wanted>,
    colls: BTreeMap<(CommKey, u64), CollState>,
    seq: HashMap<(CommKey, usize), u64>,
    eager: f64,
    sync_final: bool,
    sync_init: bool,
    trace: Option<Vec<String>>,
    o: Outcome,
}

enum Action {
    Issue(usize),
    Deliver((CommKey, usize, usize)),
    Answer(usize),
}

fn tail(f: &mut File) -> String {
    let mut b = vec![];
    let _ = f.seek(SeekFrom::Start(0));
    let _ = f.read_to_end(&mut b);
    String::from_utf8_lossy(&b).into_owned()
}

fn cut(s: &str) -> String {
    let n = s.len().saturating_sub(600);
    let n = (n..s.len()).find(|&i| s.is_char_boundary(i)).unwrap_or(0);
    s[n..].to_string()
}

/// (state letter, CPU ticks) of all threads of a process
fn activity(pid: u32) -> Option<(bool, u64)> {
    let mut busy = false;
    let mut ticks = 0;
    for t in std::fs::read_dir(format!("/proc/{pid}/task")).ok()? {
        let s = std::fs::read_to_string(t.ok()?.path().join("stat")).ok()?;
        let rest: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect();
        busy |= rest.first()? == &"R" || rest.first()? == &"D";
        ticks += rest.get(11)?.parse::<u64>().ok()? + rest.get(12)?.parse::<u64>().ok()?;
    }
    Some((busy, ticks))
}

pub fn run(w: &World, verbose: bool) -> Result<Outcome, String> {
    let mut g = Gen::new(w.schedule);
    let eager = *g.pick(&[1.0, 1.0, 0.0, 0.0, 0.5]);
    let sync_final = g.bool();
    let sync_init = g.bool();
    let mut procs = vec![];
    for r in 0..w.ranks {
        let (mine, theirs) = UnixStream::pair().unwrap_or_else(|e| no_answer(&format!("socket: {e}")));
        let (out, err) = (memfd(), memfd());
        let mut c = Command::new(&w.program);
        c.args(&w.args)
            .env(wire::ENV_RANK, r.to_string())
            .env("VERIF_RAND_SEED", engine::gen::mix(w.seed ^ engine::gen::mix(r as u64 + 1)).to_string())
            .env("RAYON_NUM_THREADS", "2")
            .env_remove("RUST_BACKTRACE")
            .stdin(Stdio::from(OwnedFd::from(theirs)))
            .stdout(out.try_clone().unwrap())
            .stderr(err.try_clone().unwrap());
        let child = c.spawn().unwrap_or_else(|e| no_answer(&format!("cannot start {}: {e}", w.program.display())));
        for (what, cur, max) in [(libc::RLIMIT_CPU, CPU_LIMIT_S, CPU_LIMIT_S + 5), (libc::RLIMIT_CORE, 0, 0)] {
            let l = libc::rlimit { rlim_cur: cur, rlim_max: max };
            unsafe { libc::prlimit(child.id() as i32, what, &l, std::ptr::null_mut()) };
        }
        procs.push(Proc { child, sock: mine, out, err, phase: Phase::Running, world: 0, weight: 1.0, spins: 0 });
    }
    let n = w.ranks;
    let mut comms = HashMap::new();
    comms.insert((1, 0), Comm { members: (0..n).collect() });
    for r in 0..n {
        comms.insert((2, r), Comm { members: vec![r] });
    }
    let mut sim = Sim {
        procs,
        g,
        comms,
        next_comm: 3,
        channels: BTreeMap::new(),
        channel_weight: HashMap::new(),
        posted: HashMap::new(),
        unexpected: HashMap::new(),
        matched: HashMap::new(),
        next_match: 1,
        ops: HashMap::new(),
        colls: BTreeMap::new(),
        seq: HashMap::new(),
        eager,
        sync_final,
        sync_init,
        trace: verbose.then(Vec::new),
        o: Outcome::default(),
    };
    let r = sim.drive();
    if let (Err(_), Some(t)) = (&r, &sim.trace) {
        let skip = t.len().saturating_sub(60);
        for l in &t[skip..] {
            println!("    {l}");
        }
    }
    r?;
    let ranks = sim.procs.iter_mut().map(|p| RankOut { out: tail(&mut p.out) }).collect();
    let mut o = std::mem::take(&mut sim.o);
    o.ranks = ranks;
    Ok(o)
}

impl Sim {
    fn key(&self, comm: u32, rank: usize) -> CommKey {
        if comm == 2 {
            (2, rank)
        } else {
            (comm, 0)
        }
    }
    fn log(&mut self, s: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(s());
        }
    }

    /// Waits until process `r` calls an MPI function or ends.
    fn listen(&mut self, r: usize) -> Result<(), String> {
        let p = &mut self.procs[r];
        let start = Instant::now();
        let mut quiet: Option<(Instant, u64)> = None;
        loop {
            let mut fd = libc::pollfd { fd: p.sock.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            let k = unsafe { libc::poll(&mut fd, 1, 1000) };
            if k > 0 {
                break;
            }
            // nothing for a second: computing, blocked, or starved?
            match activity(p.child.id()) {
                Some((false, ticks)) => {
                    match quiet {
                        Some((since, t)) if t == ticks => {
                            if since.elapsed() > Duration::from_secs(30) {
                                return Err(format!(
                                    "process {r} does not go on: it neither computes nor communicates\n{}",
                                    cut(&tail(&mut p.err))
                                ));
                            }
                        }
                        _ => quiet = Some((Instant::now(), ticks)),
                    };
                }
                _ => quiet = None,
            }
            if start.elapsed() > Duration::from_secs(400) {
                no_answer("a process of an MPI program gets no processor time");
            }
        }
        match wire::recv(&p.sock).ok().and_then(|b| Request::decode(&b)) {
            Some(q) => p.phase = Phase::Holding(q),
            None => {
                let st = p.child.wait().unwrap();
                p.phase = Phase::Gone;
                let err = tail(&mut p.err);
                if st.signal() == Some(libc::SIGXCPU) {
                    return Err(format!("process {r} does not end: {CPU_LIMIT_S} s of processor time used"));
                }
                if let Some(s) = st.signal() {
                    if s == libc::SIGKILL {
                        no_answer("a process was killed from outside");
                    }
                    return Err(format!("process {r} died from signal {s}\n{}", cut(&err)));
                }
                if st.code() == Some(70) && err.contains("MPI simulator") {
                    no_answer("a process could not find its coordinator");
                }
                if st.code() != Some(0) {
                    return Err(format!("process {r} ended with status {:?}\n{}", st.code(), cut(&err)));
                }
                if p.world == 1 {
                    return Err(format!("process {r} ended without MPI_Finalize"));
                }
            }
        }
        Ok(())
    }

    fn reweigh(&mut self) {
        let n = self.procs.len();
        for r in 0..n {
            self.procs[r].weight = (self.g.f64() * 4.6).exp();
        }
        self.channel_weight.clear();
    }

    fn drive(&mut self) -> Result<(), String> {
        let every = *self.g.pick(&[4u64, 16, 64, 256, u64::MAX]);
        self.reweigh();
        loop {
            for r in 0..self.procs.len() {
                if matches!(self.procs[r].phase, Phase::Running) {
                    self.listen(r)?;
                }
            }
            let mut acts: Vec<(f64, Action)> = vec![];
            for r in 0..self.procs.len() {
                let spin = 0.5f64.powi(self.procs[r].spins.min(7) as i32);
                match &self.procs[r].phase {
                    Phase::Holding(_) => acts.push((self.procs[r].weight * spin, Action::Issue(r))),
                    Phase::Waiting(..) | Phase::WaitingInit | Phase::WaitingFinal if self.can_answer(r) => {
                        acts.push((self.procs[r].weight * spin, Action::Answer(r)))
                    }
                    _ => {}
                }
            }
            for (k, q) in &self.channels {
                if !q.is_empty() {
                    let g = &mut self.g;
                    let w = *self.channel_weight.entry(*k).or_insert_with(|| (g.f64() * 4.6).exp());
                    acts.push((w, Action::Deliver(*k)));
                }
            }
            if acts.is_empty() {
                if self.procs.iter().all(|p| matches!(p.phase, Phase::Gone)) {
                    return self.leftovers();
                }
                return Err(format!("deadlock\n{}", self.picture()));
            }
            if acts.len() > 1 {
                self.o.choices += 1;
            }
            self.o.steps += 1;
            if self.o.steps > STEP_LIMIT {
                return Err(format!("no end after {STEP_LIMIT} communication steps\n{}", self.picture()));
            }
            if self.o.steps % every == 0 {
                self.reweigh();
            }
            let total: f64 = acts.iter().map(|a| a.0).sum();
            let mut x = self.g.f64() * total;
            let mut i = 0;
            while i + 1 < acts.len() && x >= acts[i].0 {
                x -= acts[i].0;
                i += 1;
            }
            match acts.swap_remove(i).1 {
                Action::Issue(r) => self.issue(r)?,
                Action::Deliver(k) => self.deliver(k)?,
                Action::Answer(r) => self.answer(r)?,
            }
        }
    }

    fn picture(&self) -> String {
        let mut s = String::new();
        for (r, p) in self.procs.iter().enumerate() {
            let t = match &p.phase {
                Phase::Gone => "has ended".to_string(),
                Phase::WaitingInit => "waits in MPI_Init".to_string(),
                Phase::WaitingFinal => "waits in MPI_Finalize".to_string(),
                Phase::Waiting(u, ids) => {
                    let what: Vec<String> = ids.iter().map(|i| self.describe(r, *i)).collect();
                    format!("waits ({u:?}) for {}", what.join(", "))
                }
                x => format!("{x:?}"),
            };
            s += &format!("  process {r} {t}\n");
        }
        s
    }
    fn describe(&self, r: usize, id: u64) -> String {
        for p in self.posted.values().flatten() {
            if p.rank == r && p.id == id {
                return format!("a message from {} with tag {}", p.source, p.tag);
            }
        }
        for c in self.colls.values() {
            for e in c.entries.iter().flatten() {
                if e.rank == r && e.id == id {
                    if let Kind::Coll { coll, root, .. } = &e.kind {
                        return format!("{coll:?} with root {root}");
                    }
                }
            }
        }
        match self.ops.get(&(r, id)) {
            Some(Wanted::Probe { source, tag, .. }) => format!("a probe of a message from {source} with tag {tag}"),
            Some(Wanted::Ready(_)) => "something that has happened".into(),
            _ => "the reception of its message".into(),
        }
    }

    fn leftovers(&mut self) -> Result<(), String> {
        let worlds: Vec<u8> = self.procs.iter().map(|p| p.world).collect();
        if worlds.iter().any(|w| *w != worlds[0]) {
            return Err("only some of the processes used MPI_Init".to_string());
        }
        self.o.initialised = worlds[0] != 0;
        for ((_, r), u) in &self.unexpected {
            if let Some(m) = u.first() {
                return Err(format!(
                    "process {r} ended without receiving the message of process {} with tag {}",
                    m.src_world, m.tag
                ));
            }
        }
        if let Some(p) = self.posted.values().flatten().next() {
            return Err(format!("process {} ended with a pending receive from {} with tag {}", p.rank, p.source, p.tag));
        }
        for c in self.colls.values() {
            let missing: Vec<usize> = (0..c.entries.len()).filter(|i| c.entries[*i].is_none()).collect();
            if !missing.is_empty() {
                let what = c.entries.iter().flatten().next().map(|e| format!("{:?}", coll_of(&e.kind)));
                return Err(format!("processes {missing:?} never took part in {}", what.unwrap_or_default()));
            }
        }
        Ok(())
    }

    fn can_answer(&self, r: usize) -> bool {
        match &self.procs[r].phase {
            Phase::WaitingInit => !self.sync_init || self.procs.iter().all(|p| p.world != 0 || matches!(p.phase, Phase::WaitingInit)),
            Phase::WaitingFinal => {
                !self.sync_final || self.procs.iter().all(|p| p.world == 2 || matches!(p.phase, Phase::WaitingFinal))
            }
            Phase::Waiting(u, ids) => match u {
                Until::Nothing | Until::TestAll | Until::TestAny => true,
                Until::All => ids.iter().all(|i| self.complete(r, *i)),
                Until::Any => ids.iter().any(|i| self.complete(r, *i)),
            },
            _ => false,
        }
    }

    fn find(&self, comm: CommKey, r: usize, source: i32, tag: i32) -> Option<usize> {
        self.unexpected.get(&(comm, r))?.iter().position(|m| fits(m, source, tag))
    }

    fn complete(&self, r: usize, id: u64) -> bool {
        match self.ops.get(&(r, id)) {
            Some(Wanted::Ready(_)) => true,
            Some(Wanted::Probe { comm, source, tag, .. }) => self.find(*comm, r, *source, *tag).is_some(),
            _ => false,
        }
    }

    fn take(&mut self, r: usize, id: u64) -> Done {
        match self.ops.remove(&(r, id)) {
            Some(Wanted::Ready(d)) => *d,
            Some(Wanted::Probe { comm, source, tag, matched }) => {
                let i = self.find(comm, r, source, tag).unwrap();
                let u = self.unexpected.get_mut(&(comm, r)).unwrap();
                let mut d = Done { id, source: u[i].src as i32, tag: u[i].tag, bytes: u[i].data.len() as u64, ..Done::default() };
                if matched {
                    let m = u.remove(i);
                    d.value = self.next_match;
                    self.next_match += 1;
                    self.matched.insert(d.value, (m, comm));
                }
                d
            }
            _ => unreachable!(),
        }
    }

    fn reply(&mut self, r: usize, reply: Reply) {
        // the process may have been killed by a limit; then the next read says so
        let _ = wire::send(&self.procs[r].sock, &reply.encode());
        self.procs[r].phase = Phase::Running;
    }

    fn answer(&mut self, r: usize) -> Result<(), String> {
        match self.procs[r].phase.clone() {
            Phase::WaitingInit => {
                self.log(|| format!("{r}: MPI_Init"));
                self.procs[r].world = 1;
                let size = self.procs.len() as i32;
                self.reply(r, Reply::Init { rank: r as i32, size });
            }
            Phase::WaitingFinal => {
                self.log(|| format!("{r}: MPI_Finalize"));
                self.procs[r].world = 2;
                self.reply(r, Reply::Ok);
            }
            Phase::Waiting(u, ids) => {
                let ready: Vec<u64> = ids.iter().copied().filter(|i| self.complete(r, *i)).collect();
                let chosen: Vec<u64> = match u {
                    Until::Nothing => vec![],
                    Until::All => ids.clone(),
                    Until::TestAll if ready.len() == ids.len() => ids.clone(),
                    Until::TestAll => vec![],
                    Until::Any | Until::TestAny if ready.is_empty() => vec![],
                    Until::Any | Until::TestAny => vec![*self.g.pick(&ready)],
                };
                if matches!(u, Until::TestAll | Until::TestAny) && chosen.is_empty() {
                    self.procs[r].spins += 1;
                    // a probe that found nothing is over
                    for i in &ids {
                        if let Some(Wanted::Probe { .. }) = self.ops.get(&(r, *i)) {
                            self.ops.remove(&(r, *i));
                        }
                    }
                } else {
                    self.procs[r].spins = 0;
                }
                let done: Vec<Done> = chosen.iter().map(|i| self.take(r, *i)).collect();
                if u != Until::Nothing {
                    self.log(|| format!("{r}: goes on after {} operations", done.len()));
                }
                self.reply(r, Reply::Done(done));
            }
            _ => unreachable!(),
        }
        Ok(())
    }

    fn issue(&mut self, r: usize) -> Result<(), String> {
        let Phase::Holding(q) = self.procs[r].phase.clone() else { unreachable!() };
        match q {
            Request::Init { .. } => self.procs[r].phase = Phase::WaitingInit,
            Request::Finalize => self.procs[r].phase = Phase::WaitingFinal,
            Request::CommFree { .. } => self.reply(r, Reply::Ok),
            Request::Abort(c) => return Err(format!("process {r} called MPI_Abort with {c}\n{}", cut(&tail(&mut self.procs[r].err)))),
            Request::Misuse(s) => return Err(format!("process {r}: {s}\n{}", cut(&tail(&mut self.procs[r].err)))),
            Request::Unsupported(s) => no_answer(&format!("the MPI simulator does not know {s}")),
            Request::Call { ops, until, ids } => {
                for o in ops {
                    self.start(r, o)?;
                }
                self.procs[r].phase = Phase::Waiting(until, ids);
                // what is ready at once may be answered at once or later
                if until == Until::Nothing {
                    self.answer(r)?;
                }
            }
        }
        Ok(())
    }

    fn rank_in(&self, comm: CommKey, r: usize) -> Result<usize, String> {
        self.comms
            .get(&comm)
            .and_then(|c| c.members.iter().position(|m| *m == r))
            .ok_or_else(|| format!("process {r} uses a communicator it is no member of"))
    }

    fn ready(&mut self, r: usize, d: Done) {
        self.ops.insert((r, d.id), Wanted::Ready(Box::new(d)));
    }

    fn start(&mut self, r: usize, op: Op) -> Result<(), String> {
        let comm = self.key(op.comm, r);
        let id = op.id;
        let me = self.rank_in(comm, r)?;
        self.ops.insert((r, id), Wanted::Pending);
        match op.kind {
            Kind::Send { mode, dest, tag, sig, data } => {
                let done = Done { id, ..Done::default() };
                if dest == wire::PROC_NULL {
                    self.ready(r, done);
                    return Ok(());
                }
                let to = self.comms[&comm].members[dest as usize];
                self.log(|| format!("{r}: {mode:?} send to {to}, tag {tag}, {} bytes", data.len()));
                let eager = match mode {
                    Mode::Standard => {
                        let e = self.eager;
                        self.g.chance(e)
                    }
                    Mode::Sync => false,
                    Mode::Ready | Mode::Buffered => true,
                };
                self.o.rendezvous += (!eager && mode == Mode::Standard) as u64;
                self.o.messages += 1;
                let notify = if eager {
                    self.ready(r, done);
                    None
                } else {
                    Some(id)
                };
                let m = Message { src: me, src_world: r, tag, sig, data, notify, ready: mode == Mode::Ready };
                self.channels.entry((comm, r, to)).or_default().push_back(m);
            }
            Kind::Recv { source, tag, sig, cap } => {
                if source == wire::PROC_NULL {
                    self.ready(r, Done { id, source, tag: wire::ANY_TAG, ..Done::default() });
                    return Ok(());
                }
                self.log(|| format!("{r}: receive from {source}, tag {tag}"));
                let p = Posted { rank: r, id, source, tag, sig, cap };
                if let Some(i) = self.find(comm, r, source, tag) {
                    let m = self.unexpected.get_mut(&(comm, r)).unwrap().remove(i);
                    return self.matching(m, p);
                }
                self.posted.entry((comm, r)).or_default().push(p);
            }
            Kind::Probe { source, tag, matched } => {
                self.ops.insert((r, id), Wanted::Probe { comm, source, tag, matched });
            }
            Kind::MRecv { msg, sig, cap } => {
                let Some((m, _)) = self.matched.remove(&msg) else {
                    return Err(format!("process {r} receives a message it has not matched"));
                };
                let p = Posted { rank: r, id, source: wire::ANY_SOURCE, tag: wire::ANY_TAG, sig, cap };
                return self.matching(m, p);
            }
            kind @ Kind::Coll { .. } => return self.collective(comm, r, me, id, kind),
        }
        Ok(())
    }

    fn deliver(&mut self, k: (CommKey, usize, usize)) -> Result<(), String> {
        let m = self.channels.get_mut(&k).unwrap().pop_front().unwrap();
        let (comm, from, to) = k;
        for p in &mut self.procs {
            p.spins = 0;
        }
        self.log(|| format!("message {from} -> {to}, tag {} arrives", m.tag));
        let posted = self.posted.entry((comm, to)).or_default();
        match posted.iter().position(|p| fits(&m, p.source, p.tag)) {
            Some(i) => {
                let p = posted.remove(i);
                self.matching(m, p)
            }
            None => {
                if m.ready {
                    return Err(format!("ready-mode send of process {from} without a receive at process {to}"));
                }
                self.o.unexpected += 1;
                self.unexpected.entry((comm, to)).or_default().push(m);
                Ok(())
            }
        }
    }

    fn matching(&mut self, m: Message, p: Posted) -> Result<(), String> {
        if m.data.len() as u64 > p.cap {
            return Err(format!(
                "message of process {} with {} bytes for a receive of process {} with room for {} bytes (truncated)",
                m.src_world,
                m.data.len(),
                p.rank,
                p.cap
            ));
        }
        if !m.data.is_empty() && !wire::same_values(&m.sig, &p.sig) {
            return Err(format!(
                "message of process {} with values of type {:?} received by process {} as {:?}",
                m.src_world,
                String::from_utf8_lossy(&m.sig),
                p.rank,
                String::from_utf8_lossy(&p.sig)
            ));
        }
        if let Some(id) = m.notify {
            self.ready(m.src_world, Done { id, ..Done::default() });
        }
        let d = Done { id: p.id, source: m.src as i32, tag: m.tag, bytes: m.data.len() as u64, pieces: vec![m.data], ..Done::default() };
        self.ready(p.rank, d);
        Ok(())
    }

    fn collective(&mut self, comm: CommKey, r: usize, me: usize, id: u64, kind: Kind) -> Result<(), String> {
        let n = self.comms[&comm].members.len();
        let seq = self.seq.entry((comm, r)).or_default();
        *seq += 1;
        let at = (comm, *seq);
        self.log(|| format!("{r}: {:?}", coll_of(&kind)));
        if !self.colls.contains_key(&at) {
            self.o.collectives += 1;
            let early = self.g.bool();
            let rng = Gen::new(self.g.u64());
            self.colls.insert(at, CollState { entries: (0..n).map(|_| None).collect(), early, rng, result: None });
        }
        let st = self.colls.get_mut(&at).unwrap();
        if let Some(other) = st.entries.iter().flatten().next() {
            agree(&other.kind, &kind).map_err(|e| format!("processes {} and {r} do not agree about a collective operation: {e}", other.rank))?;
        }
        st.entries[me] = Some(Entry { id, rank: r, kind, done: false });
        self.advance(at)
    }

    /// completes what can be completed of a collective operation
    fn advance(&mut self, at: (CommKey, u64)) -> Result<(), String> {
        let mut new_comms = vec![];
        let st = self.colls.get_mut(&at).unwrap();
        let n = st.entries.len();
        let (coll, root) = st.entries.iter().flatten().map(|e| coll_of(&e.kind)).next().unwrap();
        let root = root as usize;
        let here: Vec<bool> = st.entries.iter().map(|e| e.is_some()).collect();
        let all = here.iter().all(|h| *h);
        let pieces = |st: &CollState, k: usize| match &st.entries[k].as_ref().unwrap().kind {
            Kind::Coll { pieces, .. } => pieces.clone(),
            _ => unreachable!(),
        };
        if all && st.result.is_none() {
            let mut ds = vec![Done::default(); n];
            match coll {
                Coll::CommDup => {
                    let members = self.comms[&at.0].members.clone();
                    let c = self.next_comm;
                    self.next_comm += 1;
                    for d in &mut ds {
                        d.value = c as u64;
                        d.members = members.iter().map(|m| *m as i32).collect();
                    }
                    new_comms.push((c, members));
                }
                Coll::CommSplit => {
                    let members = self.comms[&at.0].members.clone();
                    let want: Vec<(i32, i32)> = st
                        .entries
                        .iter()
                        .map(|e| match &e.as_ref().unwrap().kind {
                            Kind::Coll { extra, .. } => (extra[0], extra[1]),
                            _ => unreachable!(),
                        })
                        .collect();
                    let mut colors: Vec<i32> = want.iter().map(|w| w.0).filter(|c| *c != wire::UNDEFINED).collect();
                    colors.sort_unstable();
                    colors.dedup();
                    for color in colors {
                        let mut who: Vec<usize> = (0..n).filter(|i| want[*i].0 == color).collect();
                        who.sort_by_key(|i| (want[*i].1, *i));
                        let c = self.next_comm;
                        self.next_comm += 1;
                        let ms: Vec<usize> = who.iter().map(|i| members[*i]).collect();
                        for i in who {
                            ds[i].value = c as u64;
                            ds[i].members = ms.iter().map(|m| *m as i32).collect();
                        }
                        new_comms.push((c, ms));
                    }
                }
                _ => {}
            }
            st.result = Some(ds);
        }
        let mut finished: Vec<(usize, Done)> = vec![];
        for k in 0..n {
            let Some(e) = &st.entries[k] else { continue };
            if e.done {
                continue;
            }
            let (rank, id) = (e.rank, e.id);
            let mut d = Done { id, ..Done::default() };
            let may = match coll {
                Coll::Bcast | Coll::Scatter => {
                    let root_here = here[root];
                    if k == root {
                        all || st.early
                    } else {
                        root_here && (all || st.early)
                    }
                }
                Coll::Reduce | Coll::Gather => all || (k != root && st.early),
                Coll::Scan | Coll::Exscan => all || (st.early && here[..=k].iter().all(|h| *h)),
                _ => all,
            };
            if !may {
                continue;
            }
            match coll {
                Coll::Barrier => {}
                Coll::CommDup | Coll::CommSplit => {
                    d = st.result.as_ref().unwrap()[k].clone();
                    d.id = id;
                }
                Coll::Bcast => {
                    if k != root {
                        d.pieces = pieces(st, root);
                    }
                }
                Coll::Scatter => {
                    let p = pieces(st, root);
                    d.pieces = p.get(k).cloned().into_iter().collect();
                }
                Coll::Gather => {
                    if k == root {
                        d.pieces = (0..n).map(|i| pieces(st, i).into_iter().next().unwrap_or_default()).collect();
                    }
                }
                Coll::Allgather => {
                    d.pieces = (0..n).map(|i| pieces(st, i).into_iter().next().unwrap_or_default()).collect();
                }
                Coll::Alltoall => {
                    d.pieces = (0..n).map(|i| pieces(st, i).get(k).cloned().unwrap_or_default()).collect();
                }
                Coll::Reduce | Coll::Allreduce | Coll::ReduceScatter | Coll::Scan | Coll::Exscan => {
                    let last = match coll {
                        Coll::Scan => k + 1,
                        Coll::Exscan => k,
                        Coll::Reduce if k != root => 0,
                        _ => n,
                    };
                    d.pieces = (0..last).map(|i| pieces(st, i).into_iter().next().unwrap_or_default()).collect();
                    let ordered = match &st.entries[k].as_ref().unwrap().kind {
                        Kind::Coll { op, .. } => op == "ordered",
                        _ => unreachable!(),
                    };
                    // every process reduces in the same order, as good implementations do, but
                    // which operand is the left one may differ
                    let mut order = st.rng.clone();
                    let mut own = Gen::new(order.u64() ^ engine::gen::mix(k as u64));
                    (d.plan, d.result) = plan(last, ordered, &mut order, &mut own);
                }
            }
            st.entries[k].as_mut().unwrap().done = true;
            finished.push((rank, d));
        }
        for (c, members) in new_comms {
            self.comms.insert((c, 0), Comm { members });
        }
        for (rank, d) in finished {
            self.ready(rank, d);
        }
        Ok(())
    }
}

fn fits(m: &Message, source: i32, tag: i32) -> bool {
    (source == wire::ANY_SOURCE || source == m.src as i32) && (tag == wire::ANY_TAG || tag == m.tag)
}

fn coll_of(k: &Kind) -> (Coll, i32) {
    match k {
        Kind::Coll { coll, root, .. } => (*coll, *root),
        _ => unreachable!(),
    }
}

fn agree(a: &Kind, b: &Kind) -> Result<(), String> {
    let (
        Kind::Coll { coll: c1, root: r1, op: o1, sig: s1, bytes: b1, .. },
        Kind::Coll { coll: c2, root: r2, op: o2, sig: s2, bytes: b2, .. },
    ) = (a, b)
    else {
        unreachable!()
    };
    if c1 != c2 {
        return Err(format!("{c1:?} and {c2:?}"));
    }
    if r1 != r2 {
        return Err(format!("{c1:?} with root {r1} and with root {r2}"));
    }
    if o1 != o2 {
        return Err(format!("{c1:?} with operation {o1:?} and with {o2:?}"));
    }
    if b1 != b2 {
        return Err(format!("{c1:?} of {b1} bytes and of {b2} bytes"));
    }
    if !wire::same_values(s1, s2) {
        return Err(format!("{c1:?} of {:?} and of {:?}", String::from_utf8_lossy(s1), String::from_utf8_lossy(s2)));
    }
    Ok(())
}

/// A random way to reduce `n` values. Without commutativity the order of the values stays.
fn plan(n: usize, ordered: bool, order: &mut Gen, own: &mut Gen) -> (Vec<(u32, u32, bool)>, u32) {
    let mut left: Vec<u32> = (0..n as u32).collect();
    if !ordered {
        order.shuffle(&mut left);
    }
    let mut steps = vec![];
    while left.len() > 1 {
        let i = order.below(left.len() - 1);
        let (a, b) = (left[i], left[i + 1]);
        steps.push((a, b, !ordered && own.bool()));
        left.remove(i + 1);
    }
    (steps, left.first().copied().unwrap_or(0))
}
