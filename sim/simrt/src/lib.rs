//! A deterministic simulator for a whole multi-threaded process.
//!
//! Every thread of the process is a real pthread, but only the one that holds
//! the baton runs.  Who holds it, when it is taken away, what the clocks say,
//! what the random generator returns, whether a thread can be created and what
//! a file read returns is decided here, from one seed.  The seams are
//!  * libc symbols defined in this executable (futex via `syscall`,
//!    `pthread_create`, `pthread_join`, `sched_yield`, `nanosleep`,
//!    `clock_gettime`, `sched_getaffinity`, `getrandom`, `open64`, `read`, ...),
//!  * the compiler's sanitizer-coverage callbacks, compiled only into the crate
//!    under test: each basic block, load and store is a preemption point,
//!  * `rng_draw`, which the patched `fastrand` asks for every random value.
#![allow(static_mut_refs)]
#![allow(unknown_lints)]
#![allow(invalid_runtime_symbol_definitions)]
#![allow(clippy::missing_safety_doc)]

use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

// ------------------------------------------------------------------ config

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Policy {
    /// Switch only where a thread blocks, yields or ends.
    Coop,
    /// Random thread, geometric time slices with the given mean (in edges).
    Random { mean: u32 },
    /// Fixed slices, round robin.
    RoundRobin { slice: u32 },
    /// Random priorities with `changes` priority change points (PCT).
    Pct { changes: u32, horizon: u64 },
    /// Random, but one thread only runs when no other can.
    Starve { victim: u32, mean: u32 },
    /// Long slices with bursts of very short ones.
    Burst { long: u32, short: u32, burst: u32 },
    /// Preempt (with a coin) at a random subset of program locations.
    Location { salt: u64, bits: u32 },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum RngMode {
    /// Every draw is the same value, `c` in [0,1).
    Const { c: f64 },
    /// Uniform draws.
    Uniform,
    /// Uniform draws that keep clear (1e-4) of 0, 1/2 and 1.
    Margin,
    /// Mostly uniform, with the extreme values of the range mixed in (per mille).
    Extremes { permille: u32 },
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum At {
    /// Just before the n-th read of the wall clock.
    Read(u64),
    /// At the n-th random draw.
    Draw(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ClockCfg {
    /// Wall clock at the start of the run, ns since the epoch (may be negative).
    pub wall_base: i64,
    /// Clock resolution (0 = exact).
    pub granularity: u64,
    /// The wall clock never advances by itself.
    pub frozen: bool,
    /// Steps of the wall clock.
    pub jumps: Vec<(At, i64)>,
}

impl Default for ClockCfg {
    fn default() -> Self {
        ClockCfg { wall_base: 1_700_000_000_000_000_000, granularity: 0, frozen: false, jumps: vec![] }
    }
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum IoOp {
    Open,
    Read,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct IoFault {
    /// File name (suffix of the path).
    pub file: String,
    pub op: IoOp,
    /// 1-based ordinal of that operation on that file.
    pub nth: u32,
    /// How many operations in a row fail.
    pub count: u32,
    /// errno returned; 0 means premature end of file (reads only).
    pub errno: i32,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct SimCfg {
    pub seed: u64,
    pub cores: u32,
    pub policy: Policy,
    /// Explicit schedule (pick, quantum); missing entries are the default (0, 0).
    #[serde(default)]
    pub schedule: Option<Vec<(u32, u32)>>,
    pub rng: RngMode,
    pub clock: ClockCfg,
    /// Simulated nanoseconds per executed edge.
    pub edge_ns: u64,
    /// Spurious wake-ups of blocked threads, per mille of the waits.
    pub spurious: u32,
    /// Wake waiters of one futex in random instead of first-in order.
    pub wake_random: bool,
    /// Ordinals (1-based) of thread creations that fail with EAGAIN.
    pub spawn_fail: Vec<u32>,
    pub io: Vec<IoFault>,
    /// Reads return at most a random number of bytes up to this (0 = off).
    pub short_read: u32,
    /// Path prefix below which file operations are simulated.
    #[serde(default)]
    pub io_prefix: String,
    pub max_edges: u64,
    pub max_switches: u64,
    pub log_draws: bool,
}

impl Default for SimCfg {
    fn default() -> Self {
        SimCfg {
            seed: 1,
            cores: 2,
            policy: Policy::Coop,
            schedule: None,
            rng: RngMode::Uniform,
            clock: ClockCfg::default(),
            edge_ns: 100,
            spurious: 0,
            wake_random: false,
            spawn_fail: vec![],
            io: vec![],
            short_read: 0,
            io_prefix: String::new(),
            max_edges: 60_000_000,
            max_switches: 3_000_000,
            log_draws: false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Outcome {
    /// Nobody can ever run again.
    Deadlock,
    /// The step budget is used up.
    Stuck,
}

/// What a parked actor waits for.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Trig {
    Edge(u64),
    Draw(u64),
}

#[derive(Clone, Copy, Debug)]
pub struct Ev {
    pub kind: u16,
    pub tid: u16,
    pub edges: u64,
    pub draws: u64,
    pub mono: u64,
    pub wall: i64,
    pub a: i64,
    pub b: i64,
}

pub mod ev {
    pub const WALL_READ: u16 = 1;
    pub const MONO_READ: u16 = 2;
    pub const SPAWN: u16 = 3;
    pub const SPAWN_FAIL: u16 = 4;
    pub const THREAD_EXIT: u16 = 5;
    pub const CLOCK_JUMP: u16 = 6;
    pub const OPEN: u16 = 7;
    pub const OPEN_FAIL: u16 = 8;
    pub const READ_FAULT: u16 = 9;
    pub const CLOSE: u16 = 10;
    pub const TRIGGER: u16 = 11;
    pub const STALL: u16 = 12;
    pub const STALL_END: u16 = 13;
    pub const USER: u16 = 100;
}

// ------------------------------------------------------------------- state

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Runnable,
    Futex,
    Sleep,
    Join,
    Trigger,
    /// Held up until nobody else can run.
    Stalled,
    Idle,
    Done,
}

struct Th {
    st: St,
    word: AtomicU32,
    addr: usize,
    bitset: u32,
    deadline: u64,
    timed_out: bool,
    seq: u64,
    trig: Trig,
    fired: bool,
    prio: u64,
    native: libc::pthread_t,
    joined: bool,
    exempt: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum Why {
    Block,
    Yield,
    Preempt,
    Exit,
}

struct FdInfo {
    file: usize,
}

struct State {
    cfg: SimCfg,
    th: Vec<Box<Th>>,
    cur: usize,
    edges: u64,
    stop_at: u64,
    slice_start: u64,
    slice_end: u64,
    draws: u64,
    draw_stop: u64,
    /// Draws at which the thread that draws is held up.
    stalls: Vec<u64>,
    edge_stalls: Vec<u64>,
    stall_from: u64,
    stall_jumps: u64,
    jump: u64,
    wall_off: i64,
    jumps_done: Vec<bool>,
    wall_reads: u64,
    mono_reads: u64,
    switches: u64,
    real_switches: u64,
    preemptions: u64,
    yields: u64,
    seq: u64,
    sched_rng: u64,
    fault_rng: u64,
    loc_mask: u64,
    loc_salt: u64,
    force: usize,
    decisions: Vec<(u32, u32)>,
    replay_pos: usize,
    pct_points: Vec<u64>,
    burst_left: u32,
    spawns: u32,
    events: Vec<Ev>,
    draw_log: Vec<(u64, i64)>,
    draw_tids: Vec<u16>,
    hash: u64,
    sched_hash: u64,
    on_finish: fn(Outcome) -> !,
    fds: Vec<(i32, FdInfo)>,
    files: Vec<String>,
    file_ops: Vec<(u32, u32)>,
    pub counts: Counts,
}

/// What the faults actually did in this run.
#[derive(Serialize, Deserialize, Clone, Default, Debug)]
pub struct Counts {
    pub spurious_wakeups: u64,
    pub spawn_failures: u64,
    pub clock_jumps: u64,
    pub clock_reads: u64,
    pub io_errors: u64,
    pub io_eintr: u64,
    pub io_early_eof: u64,
    pub io_short_reads: u64,
    pub opens: u64,
    pub reads: u64,
    pub closes: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub random_wake_orders: u64,
    pub threads: u64,
    pub timer_jumps: u64,
    pub extreme_draws: u64,
    pub starved_slices: u64,
    #[serde(default)]
    pub stalls: u64,
}

static mut ON: bool = false;
static mut S: Option<Box<State>> = None;
static mut LAST_GUARD: u64 = 0;
static mut IN_BLOCK: u64 = 0;
static mut NGUARDS: u32 = 0;
static mut GUARD_HITS: [u8; 65536] = [0; 65536];

thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
}

#[inline(always)]
unsafe fn s() -> &'static mut State {
    S.as_deref_mut().unwrap_unchecked()
}

#[inline(always)]
fn sim_tid() -> i32 {
    unsafe {
        if !ON {
            return -1;
        }
    }
    TID.try_with(|t| t.get()).unwrap_or(-1)
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn next(r: &mut u64) -> u64 {
    *r = r.wrapping_add(0x9E37_79B9_7F4A_7C15);
    mix(*r)
}

fn hash_in(h: &mut u64, v: u64) {
    *h = (*h ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23) ^ (v >> 7);
}

// -------------------------------------------------------------- raw syscalls

#[cfg(target_arch = "x86_64")]
unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => ret, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}

unsafe fn ret_errno(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

unsafe fn park(word: &AtomicU32) {
    while word.load(Ordering::Acquire) == 0 {
        raw6(libc::SYS_futex, word as *const _ as usize, libc::FUTEX_WAIT as usize | 128, 0, 0, 0, 0);
    }
    word.store(0, Ordering::Relaxed);
}

unsafe fn unpark(word: &AtomicU32) {
    word.store(1, Ordering::Release);
    raw6(libc::SYS_futex, word as *const _ as usize, libc::FUTEX_WAKE as usize | 128, 1, 0, 0, 0);
}

// --------------------------------------------------------------------- clock

fn mono(st: &State) -> u64 {
    1_000_000_000 + st.edges * st.cfg.edge_ns + st.draws * 3 + st.jump
}

fn wall(st: &mut State) -> i64 {
    let reads = st.wall_reads;
    let draws = st.draws;
    for i in 0..st.cfg.clock.jumps.len() {
        if st.jumps_done[i] {
            continue;
        }
        let (at, delta) = st.cfg.clock.jumps[i];
        let due = match at {
            At::Read(n) => reads >= n,
            At::Draw(n) => draws >= n,
        };
        if due {
            st.jumps_done[i] = true;
            st.wall_off = st.wall_off.saturating_add(delta);
            st.counts.clock_jumps += 1;
            hash_in(&mut st.hash, 0x77);
        }
    }
    let run = if st.cfg.clock.frozen { 0 } else { mono(st) as i64 };
    let w = st.cfg.clock.wall_base.saturating_add(run).saturating_add(st.wall_off);
    floor_to(w, st.cfg.clock.granularity)
}

fn floor_to(w: i64, g: u64) -> i64 {
    if g > 1 {
        w.div_euclid(g as i64) * g as i64
    } else {
        w
    }
}

// ----------------------------------------------------------------- scheduler

unsafe fn finish(o: Outcome) -> ! {
    ON = false;
    (s().on_finish)(o)
}

unsafe fn recompute_stop() {
    let st = s();
    let mut e = st.slice_end.min(st.cfg.max_edges);
    let mut d = u64::MAX;
    for t in &st.th {
        if t.st == St::Trigger {
            match t.trig {
                Trig::Edge(n) => e = e.min(n),
                Trig::Draw(n) => d = d.min(n),
            }
        }
    }
    for n in &st.stalls {
        d = d.min(*n);
    }
    for n in &st.edge_stalls {
        e = e.min(*n);
    }
    st.stop_at = e;
    st.draw_stop = d;
}

/// Fires due triggers; true if an actor became runnable.
unsafe fn fire_triggers() -> bool {
    let st = s();
    let mut any = false;
    for i in 0..st.th.len() {
        let t = &mut st.th[i];
        if t.st == St::Trigger {
            let due = match t.trig {
                Trig::Edge(n) => st.edges >= n,
                Trig::Draw(n) => st.draws >= n,
            };
            if due {
                t.st = St::Runnable;
                t.fired = true;
                st.force = i;
                any = true;
                log(ev::TRIGGER, i as i64, 0);
            }
        }
    }
    any
}

unsafe fn choose(order: &mut Vec<usize>, me: usize, why: Why) -> (usize, u64) {
    let st = s();
    // Forced thread (an actor whose trigger fired) first.
    if st.force != usize::MAX {
        if let Some(p) = order.iter().position(|&x| x == st.force) {
            let f = order.remove(p);
            order.insert(0, f);
        }
        st.force = usize::MAX;
    }
    let n = order.len();
    if let Some(list) = &st.cfg.schedule {
        let (p, q) = list.get(st.replay_pos).copied().unwrap_or((0, 0));
        st.replay_pos += 1;
        let p = (p as usize).min(n - 1);
        return (p, if q == 0 { u64::MAX } else { q as u64 });
    }
    let r = next(&mut st.sched_rng);
    let forced_first = st.th[order[0]].fired && why == Why::Preempt;
    let mut pick = (r >> 11) as usize % n;
    if forced_first && r & 7 != 0 {
        pick = 0;
    }
    let r2 = next(&mut st.sched_rng);
    let geo = |mean: u32, r: u64| -> u64 {
        let u = ((r >> 11) as f64 + 1.0) / 9007199254740993.0;
        1 + (-(u.ln()) * mean as f64) as u64
    };
    match st.cfg.policy {
        Policy::Coop => (0, u64::MAX),
        Policy::Random { mean } => (pick, geo(mean, r2)),
        Policy::RoundRobin { slice } => (0, slice.max(1) as u64),
        Policy::Starve { victim, mean } => {
            if order[pick] == victim as usize && n > 1 {
                st.counts.starved_slices += 1;
                pick = (pick + 1) % n;
            }
            (pick, geo(mean, r2))
        }
        Policy::Burst { long, short, burst } => {
            if st.burst_left > 0 {
                st.burst_left -= 1;
                (pick, 1 + (r2 >> 13) % short.max(1) as u64)
            } else {
                if r2 & 3 == 0 {
                    st.burst_left = burst;
                }
                (pick, geo(long, mix(r2)))
            }
        }
        Policy::Location { .. } => (pick, u64::MAX),
        Policy::Pct { .. } => {
            if why == Why::Yield || why == Why::Preempt {
                st.seq += 1;
                st.th[me].prio = (1 << 61) - st.seq;
            }
            let best = (0..n).max_by_key(|&i| (st.th[order[i]].prio, n - i)).unwrap();
            let nextp = st.pct_points.iter().copied().filter(|&p| p > st.edges).min();
            (best, nextp.map_or(u64::MAX, |p| p - st.edges))
        }
    }
}

/// A long run is preempted ever so often only in its first part, so that its
/// length is bounded by the work it does.
fn calm(st: &State) -> bool {
    st.cfg.schedule.is_none() && st.switches > st.cfg.max_switches / 4
}

/// Give the baton to somebody (possibly ourselves).  The caller has set the
/// state of `me`.  Returns when `me` holds the baton again (never for Exit,
/// where it returns at once, without the baton).
unsafe fn resched(me: usize, why: Why) {
    let st = s();
    st.switches += 1;
    if st.switches > st.cfg.max_switches {
        finish(Outcome::Stuck);
    }
    let mut order: Vec<usize> = Vec::with_capacity(st.th.len());
    if st.switches - st.stall_from > STALL_SPIN && st.th.iter().any(|t| t.st == St::Stalled) {
        // somebody spins until the one that stands still goes on
        end_stall(1);
    }
    loop {
        let now = mono(st);
        for t in st.th.iter_mut() {
            if (t.st == St::Futex || t.st == St::Sleep) && t.deadline <= now {
                t.st = St::Runnable;
                t.timed_out = true;
            }
        }
        let n = st.th.len();
        for k in 1..=n {
            let i = (me + k) % n;
            if st.th[i].st == St::Runnable {
                order.push(i);
            }
        }
        if !order.is_empty() {
            break;
        }
        let dl = st.th.iter().filter(|t| t.st == St::Futex || t.st == St::Sleep).map(|t| t.deadline).min();
        if st.th.iter().any(|t| t.st == St::Stalled) {
            // timers first, as somebody may look again from time to time
            if dl.is_none_or(|d| d == u64::MAX) || st.stall_jumps >= 200 {
                end_stall(0);
                continue;
            }
            st.stall_jumps += 1;
        }
        match dl {
            Some(d) if d != u64::MAX => {
                st.counts.timer_jumps += 1;
                st.jump += d - now;
            }
            _ => {
                let mut woke = false;
                for t in st.th.iter_mut() {
                    if t.st == St::Idle {
                        t.st = St::Runnable;
                        woke = true;
                    }
                }
                if !woke {
                    finish(Outcome::Deadlock);
                }
            }
        }
    }
    let (pick, mut q) = choose(&mut order, me, why);
    if calm(st) {
        q = q.max(20_000);
    }
    let nx = order[pick];
    drop(order);
    let limit = if st.cfg.schedule.is_some() { st.replay_pos as u64 } else { st.decisions.len() as u64 };
    st.decisions.push((pick as u32, 0));
    st.slice_start = st.edges;
    st.slice_end = if q == u64::MAX { u64::MAX } else { st.edges + q };
    hash_in(&mut st.sched_hash, (nx as u64) << 48 | st.edges);
    hash_in(&mut st.hash, (nx as u64) << 48 ^ st.edges ^ (limit << 56));
    recompute_stop();
    if nx == me && why != Why::Exit {
        return;
    }
    st.real_switches += 1;
    st.cur = nx;
    let my_word: *const AtomicU32 = &st.th[me].word;
    unpark(&*(&st.th[nx].word as *const AtomicU32));
    if why != Why::Exit {
        park(&*my_word);
    }
}

/// Switches after which a thread that waits by spinning counts as stuck.
const STALL_SPIN: u64 = 200_000;

unsafe fn end_stall(spun: i64) {
    for t in s().th.iter_mut() {
        if t.st == St::Stalled {
            t.st = St::Runnable;
        }
    }
    log(ev::STALL_END, spun, 0);
}

unsafe fn preempt() {
    let st = s();
    let me = st.cur;
    if let Some(d) = st.decisions.last_mut() {
        d.1 = (st.edges - st.slice_start).min(u32::MAX as u64) as u32;
    }
    st.preemptions += 1;
    resched(me, Why::Preempt);
}

#[cold]
#[inline(never)]
unsafe fn slow(loc_hit: bool) {
    let st = s();
    if st.edges >= st.cfg.max_edges {
        finish(Outcome::Stuck);
    }
    let mut go = st.edges >= st.slice_end;
    if loc_hit && next(&mut st.sched_rng) & 1 == 0 && !calm(st) {
        go = true;
    }
    if st.edges >= st.stop_at && fire_triggers() {
        go = true;
    }
    let before = st.edge_stalls.len();
    if before > 0 {
        let n = st.edges;
        st.edge_stalls.retain(|&k| k > n);
        let me = st.cur;
        if st.edge_stalls.len() < before && !st.th[me].exempt {
            return stall(me);
        }
    }
    if go {
        preempt();
    } else {
        recompute_stop();
    }
}

#[inline(always)]
unsafe fn tick(loc: u64) {
    if !ON {
        return;
    }
    let st = s();
    st.edges += 1;
    let hit = st.loc_mask != 0 && mix(loc ^ st.loc_salt) & st.loc_mask == 0;
    if hit || st.edges >= st.stop_at {
        slow(hit);
    }
}

// --------------------------------------------------- sanitizer coverage seam

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    LAST_GUARD = *g as u64;
    IN_BLOCK = 0;
    GUARD_HITS[(*g & 0xffff) as usize] = 1;
    tick(LAST_GUARD << 8);
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    let mut p = a;
    while p < b {
        NGUARDS += 1;
        *p = NGUARDS;
        p = p.add(1);
    }
}

macro_rules! mem_cb {
    ($($n:ident)*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(_p: *const u8) {
        IN_BLOCK += 1;
        tick(LAST_GUARD << 8 | (IN_BLOCK & 0xff));
    })* }
}
mem_cb!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
        __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

// ------------------------------------------------------------------- random

fn const_bits(c: f64) -> u64 {
    let hi = (c * 4294967296.0) as u64 & 0xffff_ffff;
    hi << 32 | hi
}

pub enum Draw {
    Value(u64),
    /// The generator's own next value.
    Own,
}

/// Next random value.  `seeded`: for a generator whose seed the code chose.
pub fn rng_draw(seeded: bool) -> Draw {
    if sim_tid() < 0 {
        return Draw::Own;
    }
    unsafe {
        let st = s();
        st.draws += 1;
        let n = st.draws;
        let v = match st.cfg.rng {
            RngMode::Const { c } => const_bits(c),
            RngMode::Uniform => {
                let v = mix(st.cfg.seed ^ mix(n));
                v.clamp(1 << 20, !(1 << 20))
            }
            RngMode::Margin => {
                margin(mix(st.cfg.seed ^ mix(n)))
            }
            RngMode::Extremes { permille } => {
                let v = mix(st.cfg.seed ^ mix(n));
                let sel = mix(v ^ 0x5eed) % 1000;
                if sel < permille as u64 {
                    st.counts.extreme_draws += 1;
                    match v % 7 {
                        0 => 0,
                        // exactly one half
                        5 => 1 << 63,
                        1 => 2,
                        2 => 0xffff_ffff_ffff_f800,
                        3 => 0xffff_ffff_ffff_f000,
                        4 => 1 << 12,
                        _ => 0x7fff_ffff_ffff_f800,
                    }
                } else {
                    v.clamp(1 << 12, !(1 << 12))
                }
            }
        };
        if st.cfg.log_draws && st.draw_log.len() < 2_000_000 {
            let m = mono(st);
            let w = wall(st);
            st.draw_log.push((m, w));
            st.draw_tids.push(sim_tid() as u16);
        }
        if n >= st.draw_stop {
            let fired = fire_triggers();
            let me = sim_tid() as usize;
            let before = st.stalls.len();
            st.stalls.retain(|&k| k > n);
            if st.stalls.len() < before && !st.th[me].exempt {
                stall(me);
            } else if fired {
                preempt();
            } else {
                recompute_stop();
            }
        }
        if seeded && matches!(st.cfg.rng, RngMode::Uniform | RngMode::Margin) {
            return Draw::Own;
        }
        Draw::Value(v)
    }
}

/// Half h (0 or 1) and a position inside it, both kept off the edges.
fn margin(v: u64) -> u64 {
    let f = 1e-4 + ((v >> 11) as f64 / 9007199254740992.0) * (1.0 - 2e-4);
    let h = (v & 1) as f64;
    const_bits((h + f) * 0.5)
}

/// What the simulator lets pass of a generator's own value.
pub fn own_value(v: u64) -> u64 {
    if sim_tid() < 0 {
        return v;
    }
    match unsafe { &s().cfg.rng } {
        RngMode::Margin => margin(v),
        _ => v.clamp(1 << 20, !(1 << 20)),
    }
}

/// The calling thread stands still until nobody else can run.
unsafe fn stall(me: usize) {
    let st = s();
    st.counts.stalls += 1;
    st.stall_from = st.switches;
    st.stall_jumps = 0;
    log(ev::STALL, me as i64, 0);
    st.th[me].st = St::Stalled;
    resched(me, Why::Block);
}

// ------------------------------------------------------------- libc: threads

type StartFn = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, StartFn, *mut libc::c_void) -> i32;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;

static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;
static mut EXIT_KEY: libc::pthread_key_t = 0;
static mut KEY_MADE: bool = false;

unsafe fn real_create() -> CreateFn {
    if REAL_CREATE.is_none() {
        let p = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr());
        REAL_CREATE = Some(std::mem::transmute::<*mut libc::c_void, CreateFn>(p));
    }
    REAL_CREATE.unwrap()
}

unsafe fn real_join() -> JoinFn {
    if REAL_JOIN.is_none() {
        let p = libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr());
        REAL_JOIN = Some(std::mem::transmute::<*mut libc::c_void, JoinFn>(p));
    }
    REAL_JOIN.unwrap()
}

struct Boot {
    start: StartFn,
    arg: *mut libc::c_void,
    id: usize,
}

extern "C" fn tramp(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let b = Box::from_raw(p as *mut Boot);
        let word: *const AtomicU32 = &s().th[b.id].word;
        park(&*word);
        TID.with(|t| t.set(b.id as i32));
        // Value encodes id and the destructor round.
        libc::pthread_setspecific(EXIT_KEY, ((b.id << 4) | 1) as *const libc::c_void);
        let (start, arg) = (b.start, b.arg);
        drop(b);
        start(arg)
    }
}

/// Runs after the thread's Rust destructors: the thread leaves the simulation.
unsafe extern "C" fn on_thread_exit(v: *mut libc::c_void) {
    let v = v as usize;
    let (id, round) = (v >> 4, v & 15);
    if round < 3 {
        libc::pthread_setspecific(EXIT_KEY, ((id << 4) | (round + 1)) as *const libc::c_void);
        return;
    }
    if !ON {
        return;
    }
    let st = s();
    log(ev::THREAD_EXIT, id as i64, 0);
    st.th[id].st = St::Done;
    for t in st.th.iter_mut() {
        if t.st == St::Join && t.addr == id {
            t.st = St::Runnable;
        }
    }
    let _ = TID.try_with(|t| t.set(-1));
    resched(id, Why::Exit);
}

fn new_th(prio: u64) -> Box<Th> {
    Box::new(Th {
        st: St::Runnable,
        word: AtomicU32::new(0),
        addr: 0,
        bitset: 0,
        deadline: u64::MAX,
        timed_out: false,
        seq: 0,
        trig: Trig::Edge(u64::MAX),
        fired: false,
        prio,
        native: 0,
        joined: false,
        exempt: false,
    })
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(native: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, start: StartFn, arg: *mut libc::c_void) -> i32 {
    let me = sim_tid();
    if me < 0 {
        return real_create()(native, attr, start, arg);
    }
    let st = s();
    let exempt = st.th[me as usize].exempt;
    if !exempt {
        st.spawns += 1;
        // a final u32::MAX: none is granted any more from the first one in the list on
        let f = &st.cfg.spawn_fail;
        let ever = f.len() > 1 && f.last() == Some(&u32::MAX) && st.spawns >= f[0];
        if ever || f.contains(&st.spawns) {
            st.counts.spawn_failures += 1;
            log(ev::SPAWN_FAIL, st.spawns as i64, 0);
            return libc::EAGAIN;
        }
    }
    let id = st.th.len();
    let prio = mix(st.cfg.seed ^ 0xabc ^ (id as u64) << 3) >> 1 | 1 << 62;
    st.th.push(new_th(prio));
    st.counts.threads += 1;
    log(ev::SPAWN, id as i64, exempt as i64);
    let b = Box::into_raw(Box::new(Boot { start, arg, id }));
    let r = real_create()(native, attr, tramp, b as *mut libc::c_void);
    if r != 0 {
        st.th[id].st = St::Done;
        return r;
    }
    st.th[id].native = *native;
    if st.cfg.policy != Policy::Coop || st.cfg.schedule.is_some() {
        preempt();
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(native: libc::pthread_t, ret: *mut *mut libc::c_void) -> i32 {
    let me = sim_tid();
    if me < 0 {
        return real_join()(native, ret);
    }
    let st = s();
    if let Some(id) = (0..st.th.len()).rev().find(|&i| st.th[i].native == native && !st.th[i].joined) {
        while st.th[id].st != St::Done {
            st.th[me as usize].st = St::Join;
            st.th[me as usize].addr = id;
            resched(me as usize, Why::Block);
        }
        st.th[id].joined = true;
    }
    real_join()(native, ret)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    let me = sim_tid();
    if me < 0 {
        return ret_errno(raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32;
    }
    s().yields += 1;
    resched(me as usize, Why::Yield);
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: usize, set: *mut libc::cpu_set_t) -> i32 {
    if sim_tid() < 0 {
        let r = raw6(libc::SYS_sched_getaffinity, pid as usize, size, set as usize, 0, 0, 0);
        return if r >= 0 { 0 } else { ret_errno(r) as i32 };
    }
    std::ptr::write_bytes(set as *mut u8, 0, size);
    for i in 0..s().cfg.cores as usize {
        *(set as *mut u8).add(i / 8) |= 1 << (i % 8);
    }
    0
}

// --------------------------------------------------------------- libc: futex

#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    let me = sim_tid();
    if me < 0 {
        return ret_errno(raw6(n, a, b, c, d, e, f)) as libc::c_long;
    }
    if n == libc::SYS_futex {
        return ret_errno(futex(me as usize, a, b as i32, c as u32, d as *const libc::timespec, f as u32)) as libc::c_long;
    }
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut libc::c_void, b, c as u32) as libc::c_long;
    }
    ret_errno(raw6(n, a, b, c, d, e, f)) as libc::c_long
}

unsafe fn futex(me: usize, addr: usize, op: i32, val: u32, ts: *const libc::timespec, bits: u32) -> isize {
    let st = s();
    let cmd = op & 0x7f;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != val {
                return -(libc::EAGAIN as isize);
            }
            st.counts.futex_waits += 1;
            if st.cfg.spurious > 0 && next(&mut st.fault_rng) % 1000 < st.cfg.spurious as u64 {
                st.counts.spurious_wakeups += 1;
                hash_in(&mut st.hash, 0x51);
                resched(me, Why::Yield);
                return if next(&mut st.fault_rng) & 1 == 0 { 0 } else { -(libc::EINTR as isize) };
            }
            let mut dl = u64::MAX;
            if !ts.is_null() {
                let v = (*ts).tv_sec as i64 * 1_000_000_000 + (*ts).tv_nsec as i64;
                let now = mono(st);
                dl = if cmd == libc::FUTEX_WAIT {
                    now + v as u64
                } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                    now + (v - wall(st)).max(0) as u64
                } else {
                    v.max(0) as u64
                };
            }
            st.seq += 1;
            let t = &mut st.th[me];
            t.st = St::Futex;
            t.addr = addr;
            t.bitset = if cmd == libc::FUTEX_WAIT { !0 } else { bits };
            t.deadline = dl;
            t.timed_out = false;
            t.seq = st.seq;
            resched(me, Why::Block);
            let t = &mut s().th[me];
            t.deadline = u64::MAX;
            if t.timed_out {
                -(libc::ETIMEDOUT as isize)
            } else {
                0
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            st.counts.futex_wakes += 1;
            let mask = if cmd == libc::FUTEX_WAKE { !0 } else { bits };
            let mut w: Vec<usize> = (0..st.th.len())
                .filter(|&i| st.th[i].st == St::Futex && st.th[i].addr == addr && st.th[i].bitset & mask != 0)
                .collect();
            w.sort_by_key(|&i| st.th[i].seq);
            let mut woken = 0;
            while !w.is_empty() && woken < val as i32 as i64 {
                let k = if st.cfg.wake_random && w.len() > 1 {
                    st.counts.random_wake_orders += 1;
                    (next(&mut st.fault_rng) >> 7) as usize % w.len()
                } else {
                    0
                };
                let i = w.remove(k);
                st.th[i].st = St::Runnable;
                woken += 1;
            }
            woken as isize
        }
        _ => raw6(libc::SYS_futex, addr, op as usize, val as usize, ts as usize, 0, bits as usize),
    }
}

// --------------------------------------------------------------- libc: clock

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if sim_tid() < 0 {
        return ret_errno(raw6(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as i32;
    }
    let st = s();
    let v = if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        st.wall_reads += 1;
        st.counts.clock_reads += 1;
        let w = wall(st);
        log(ev::WALL_READ, w, 0);
        w
    } else {
        st.mono_reads += 1;
        st.counts.clock_reads += 1;
        let m = if st.cfg.clock.frozen { 1_000_000_000 } else { mono(st) };
        let m = floor_to(m as i64, st.cfg.clock.granularity);
        log(ev::MONO_READ, m, 0);
        m
    };
    (*ts).tv_sec = v.div_euclid(1_000_000_000);
    (*ts).tv_nsec = v.rem_euclid(1_000_000_000);
    0
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut libc::c_void) -> i32 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}

unsafe fn sim_sleep(me: usize, until: u64) {
    let st = s();
    let t = &mut st.th[me];
    t.st = St::Sleep;
    t.deadline = until;
    t.timed_out = false;
    resched(me, Why::Block);
    s().th[me].deadline = u64::MAX;
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    let me = sim_tid();
    if me < 0 {
        return ret_errno(raw6(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as i32;
    }
    let v = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    sim_sleep(me as usize, mono(s()).saturating_add(v));
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    let me = sim_tid();
    if me < 0 {
        return -(raw6(libc::SYS_clock_nanosleep, id as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32);
    }
    let st = s();
    let v = (*req).tv_sec as i64 * 1_000_000_000 + (*req).tv_nsec as i64;
    let now = mono(st);
    let until = if flags & libc::TIMER_ABSTIME == 0 {
        now.saturating_add(v.max(0) as u64)
    } else if id == libc::CLOCK_REALTIME {
        now + (v - wall(st)).max(0) as u64
    } else {
        v.max(0) as u64
    };
    sim_sleep(me as usize, until);
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: u32) -> isize {
    if sim_tid() < 0 {
        return ret_errno(raw6(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0));
    }
    for i in 0..len {
        *(buf as *mut u8).add(i) = mix(s().cfg.seed ^ 0x9e37 ^ i as u64) as u8;
    }
    len as isize
}

// ---------------------------------------------------------------- libc: files

unsafe fn io_fault(st: &mut State, file: usize, op: IoOp, nth: u32) -> Option<i32> {
    let name = &st.files[file];
    st.cfg
        .io
        .iter()
        .find(|f| f.op == op && name.ends_with(&f.file) && nth >= f.nth && nth - f.nth < f.count)
        .map(|f| f.errno)
}

unsafe fn do_open(dir: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    let me = sim_tid();
    if me >= 0 && !s().cfg.io_prefix.is_empty() {
        let st = s();
        let p = std::ffi::CStr::from_ptr(path).to_string_lossy().into_owned();
        if p.starts_with(&st.cfg.io_prefix) {
            let file = match st.files.iter().position(|f| *f == p) {
                Some(i) => i,
                None => {
                    st.files.push(p);
                    st.file_ops.push((0, 0));
                    st.files.len() - 1
                }
            };
            st.file_ops[file].0 += 1;
            let nth = st.file_ops[file].0;
            if let Some(e) = io_fault(st, file, IoOp::Open, nth) {
                if e == libc::EINTR {
                    st.counts.io_eintr += 1;
                } else {
                    st.counts.io_errors += 1;
                }
                log(ev::OPEN_FAIL, file as i64, e as i64);
                *libc::__errno_location() = e;
                return -1;
            }
            let fd = ret_errno(raw6(libc::SYS_openat, dir as isize as usize, path as usize, flags as usize, mode as usize, 0, 0)) as i32;
            if fd >= 0 {
                st.counts.opens += 1;
                st.fds.push((fd, FdInfo { file }));
                log(ev::OPEN, file as i64, 0);
            }
            return fd;
        }
    }
    ret_errno(raw6(libc::SYS_openat, dir as isize as usize, path as usize, flags as usize, mode as usize, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    do_open(libc::AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    do_open(libc::AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    do_open(dir, path, flags, mode)
}

unsafe fn do_read(fd: i32, len: usize, go: &mut dyn FnMut(usize) -> isize) -> isize {
    let me = sim_tid();
    if me >= 0 {
        let st = s();
        if let Some(k) = st.fds.iter().position(|x| x.0 == fd) {
            let file = st.fds[k].1.file;
            st.file_ops[file].1 += 1;
            st.counts.reads += 1;
            let nth = st.file_ops[file].1;
            if let Some(e) = io_fault(st, file, IoOp::Read, nth) {
                log(ev::READ_FAULT, file as i64, e as i64);
                if e == 0 {
                    st.counts.io_early_eof += 1;
                    return 0;
                }
                if e == libc::EINTR {
                    st.counts.io_eintr += 1;
                } else {
                    st.counts.io_errors += 1;
                }
                *libc::__errno_location() = e;
                return -1;
            }
            if st.cfg.short_read > 0 && len > 1 {
                let lim = 1 + (next(&mut st.fault_rng) >> 9) as usize % st.cfg.short_read as usize;
                if lim < len {
                    st.counts.io_short_reads += 1;
                    return go(lim);
                }
            }
        }
    }
    go(len)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut libc::c_void, len: usize) -> isize {
    do_read(fd, len, &mut |l| ret_errno(raw6(libc::SYS_read, fd as usize, buf as usize, l, 0, 0, 0)))
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut libc::c_void, len: usize, off: i64) -> isize {
    do_read(fd, len, &mut |l| ret_errno(raw6(libc::SYS_pread64, fd as usize, buf as usize, l, off as usize, 0, 0)))
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if sim_tid() >= 0 {
        let st = s();
        if let Some(k) = st.fds.iter().position(|x| x.0 == fd) {
            st.fds.remove(k);
            st.counts.closes += 1;
            log(ev::CLOSE, fd as i64 * 0, 0);
        }
    }
    ret_errno(raw6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as i32
}

// ---------------------------------------------------------------- public API

pub fn log(kind: u16, a: i64, b: i64) {
    unsafe {
        if S.is_none() {
            return;
        }
        let st = s();
        let mono = mono(st);
        let wall = wall(st);
        let tid = st.cur as u16;
        let e = Ev { kind, tid, edges: st.edges, draws: st.draws, mono, wall, a, b };
        hash_in(&mut st.hash, (kind as u64) << 48 ^ (tid as u64) << 32 ^ st.edges);
        hash_in(&mut st.hash, st.draws ^ (a as u64).rotate_left(17) ^ (b as u64).rotate_left(41));
        if st.events.len() < 1_000_000 {
            st.events.push(e);
        }
    }
}

/// Start simulating; the calling thread is thread 0 and holds the baton.
pub fn start(cfg: SimCfg, on_finish: fn(Outcome) -> !) {
    unsafe {
        real_create();
        real_join();
        if !KEY_MADE {
            libc::pthread_key_create(&mut EXIT_KEY, Some(on_thread_exit));
            KEY_MADE = true;
        }
        let seed = cfg.seed;
        let (loc_mask, loc_salt) = match cfg.policy {
            Policy::Location { salt, bits } if cfg.schedule.is_none() => ((1u64 << bits.min(32)) - 1, salt),
            _ => (0, 0),
        };
        let mut pct_points = vec![];
        if let Policy::Pct { changes, horizon } = cfg.policy {
            for i in 0..changes as u64 {
                pct_points.push(1 + mix(seed ^ 0x9c7 ^ i << 5) % horizon.max(1));
            }
        }
        let nj = cfg.clock.jumps.len();
        S = Some(Box::new(State {
            cfg,
            th: vec![new_th(mix(seed ^ 0xabc) >> 1 | 1 << 62)],
            cur: 0,
            edges: 0,
            stop_at: 0,
            slice_start: 0,
            slice_end: u64::MAX,
            draws: 0,
            draw_stop: u64::MAX,
            stalls: vec![],
            edge_stalls: vec![],
            stall_from: 0,
            stall_jumps: 0,
            jump: 0,
            wall_off: 0,
            jumps_done: vec![false; nj],
            wall_reads: 0,
            mono_reads: 0,
            switches: 0,
            real_switches: 0,
            preemptions: 0,
            yields: 0,
            seq: 0,
            sched_rng: mix(seed ^ 0x5c4ed),
            fault_rng: mix(seed ^ 0xfa17),
            loc_mask,
            loc_salt,
            force: usize::MAX,
            decisions: Vec::with_capacity(4096),
            replay_pos: 0,
            pct_points,
            burst_left: 0,
            spawns: 0,
            events: Vec::with_capacity(4096),
            draw_log: vec![],
            draw_tids: vec![],
            hash: 0xcbf2_9ce4_8422_2325,
            sched_hash: 0xcbf2_9ce4_8422_2325,
            on_finish,
            fds: vec![],
            files: vec![],
            file_ops: vec![],
            counts: Counts::default(),
        }));
        TID.with(|t| t.set(0));
        recompute_stop();
        ON = true;
    }
}

/// Stop simulating (call from thread 0 when the others are parked or gone).
pub fn stop() {
    unsafe {
        ON = false;
    }
}

pub fn is_on() -> bool {
    unsafe { ON }
}

/// Threads created by the calling thread are the harness's own: never failed.
pub fn exempt<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let me = sim_tid();
        if me < 0 {
            return f();
        }
        let old = s().th[me as usize].exempt;
        s().th[me as usize].exempt = true;
        let r = f();
        s().th[me as usize].exempt = old;
        r
    }
}

/// Park until the trigger fires (true) or `cancel_triggers` is called (false).
pub fn wait_trigger(t: Trig) -> bool {
    unsafe {
        let me = sim_tid() as usize;
        let st = s();
        let due = match t {
            Trig::Edge(n) => st.edges >= n,
            Trig::Draw(n) => st.draws >= n,
        };
        if due {
            return true;
        }
        st.th[me].trig = t;
        st.th[me].fired = false;
        st.th[me].st = St::Trigger;
        resched(me, Why::Block);
        let f = s().th[me].fired;
        s().th[me].fired = false;
        f
    }
}

pub fn cancel_triggers() {
    unsafe {
        for t in s().th.iter_mut() {
            if t.st == St::Trigger {
                t.st = St::Runnable;
                t.fired = false;
            }
        }
        recompute_stop();
    }
}

/// Park until nobody else can make progress (no runnable thread, no timer).
pub fn wait_idle() {
    unsafe {
        let me = sim_tid() as usize;
        s().th[me].st = St::Idle;
        resched(me, Why::Block);
    }
}

/// Voluntary switch.
pub fn yield_now() {
    unsafe {
        let me = sim_tid() as usize;
        resched(me, Why::Yield);
    }
}

pub struct Report {
    pub events: &'static [Ev],
    pub draw_log: &'static [(u64, i64)],
    /// Who made each draw.
    pub draw_tids: &'static [u16],
    pub decisions: &'static [(u32, u32)],
    pub edges: u64,
    pub draws: u64,
    pub switches: u64,
    pub real_switches: u64,
    pub preemptions: u64,
    pub yields: u64,
    pub sim_ns: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub counts: Counts,
    pub open_fds: usize,
}

pub fn report() -> Report {
    unsafe {
        let st = s();
        Report {
            events: &st.events,
            draw_log: &st.draw_log,
            draw_tids: &st.draw_tids,
            decisions: &st.decisions,
            edges: st.edges,
            draws: st.draws,
            switches: st.switches,
            real_switches: st.real_switches,
            preemptions: st.preemptions,
            yields: st.yields,
            sim_ns: mono(st) - 1_000_000_000,
            hash: st.hash,
            sched_hash: st.sched_hash,
            counts: st.counts.clone(),
            open_fds: st.fds.len(),
        }
    }
}

pub fn edges() -> u64 {
    unsafe { if S.is_some() { s().edges } else { 0 } }
}
pub fn draws() -> u64 {
    unsafe { if S.is_some() { s().draws } else { 0 } }
}
pub fn spawns() -> u32 {
    unsafe { s().spawns }
}
pub fn set_spawn_fail(v: Vec<u32>) {
    unsafe { s().cfg.spawn_fail = v }
}
/// Replace the file faults in the middle of a run (from a harness thread); ordinals start over.
pub fn set_io(v: Vec<IoFault>, short_read: u32) {
    unsafe {
        s().cfg.io = v;
        s().cfg.short_read = short_read;
        for f in s().file_ops.iter_mut() {
            *f = (0, 0);
        }
    }
}
/// Hold up whichever thread makes one of these draws (counted from the start of the run) until
/// nobody else can run (from a harness thread).
pub fn set_stalls(v: Vec<u64>) {
    unsafe {
        s().stalls = v;
        recompute_stop();
    }
}
/// The same for whichever thread of the code under test does one of these steps.
pub fn set_edge_stalls(v: Vec<u64>) {
    unsafe {
        s().edge_stalls = v;
        recompute_stop();
    }
}
/// Change the random mode in the middle of a run (from a harness thread).
pub fn set_rng(m: RngMode) {
    unsafe { s().cfg.rng = m }
}
/// Number of live threads that were not created by the harness.
/// Heap memory the simulator itself holds.
pub fn own_bytes() -> usize {
    use std::mem::size_of;
    unsafe {
        let st = s();
        st.th.capacity() * size_of::<Box<Th>>()
            + st.th.len() * size_of::<Th>()
            + st.decisions.capacity() * size_of::<(u32, u32)>()
            + st.events.capacity() * size_of::<Ev>()
            + st.draw_log.capacity() * size_of::<(u64, i64)>()
            + st.draw_tids.capacity() * size_of::<u16>()
            + st.fds.capacity() * size_of::<(i32, FdInfo)>()
            + st.files.iter().map(|f| f.capacity() + size_of::<String>()).sum::<usize>()
            + st.file_ops.capacity() * 8
    }
}
pub fn alive_workers() -> usize {
    unsafe {
        let st = s();
        let mut ex = vec![false; st.th.len()];
        ex[0] = true;
        for e in &st.events {
            if e.kind == ev::SPAWN && e.b == 1 {
                ex[e.a as usize] = true;
            }
        }
        (0..st.th.len()).filter(|&i| !ex[i] && st.th[i].st != St::Done).count()
    }
}
/// Program locations of the code under test reached so far in this process.
pub fn guards_hit() -> (u32, Vec<u16>) {
    unsafe {
        let mut v = vec![];
        for i in 0..65536usize {
            if GUARD_HITS[i] != 0 {
                v.push(i as u16);
            }
        }
        (NGUARDS, v)
    }
}
