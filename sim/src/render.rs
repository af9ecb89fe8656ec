//! Runs renders inside the simulation: one thread per render, its receiver and
//! the actors that abort it or drop the receiver, all on simulated threads.
use serde::{Deserialize, Serialize};
use simrt::Trig;
use solstrale::renderer::{RenderProgress, Renderer, Scene};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::thread::JoinHandle;
use std::time::Duration;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum AbortPlan {
    /// Sender kept, never used.
    Never,
    /// Sender dropped before the render starts.
    Dropped,
    /// Sender dropped at some point during the render.
    DropAt(Trig),
    /// Signal already in the channel.
    Before,
    /// Signal sent when the trigger fires (true or false are both "abort").
    At(Trig, bool),
    /// Signal sent by the consumer right after it has received n reports.
    AfterReport(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum RecvPlan {
    Drain,
    /// Reports are only read after the render has ended.
    Lazy,
    /// Receiver dropped after n reports (0 = before the start).
    DropAfter(u32),
    /// Receiver dropped when the trigger fires (nothing is read before).
    DropAt(Trig),
    /// Everything that is there is read when each trigger fires, in turn, then the rest.
    Peek(Vec<Trig>),
}

/// What an observer found: reports read so far, and the moments before and after it looked.
#[derive(Clone, Copy, Debug)]
pub struct Peek {
    pub before: Mark,
    pub after: Mark,
    pub reports: usize,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Img {
    pub w: u32,
    pub h: u32,
    pub px: Vec<u8>,
}

impl Img {
    pub fn at(&self, x: usize, y: usize) -> [u8; 3] {
        let i = (y * self.w as usize + x) * 3;
        [self.px[i], self.px[i + 1], self.px[i + 2]]
    }
}

#[derive(Clone, Debug)]
pub struct Rep {
    pub progress: f64,
    pub fps: Option<f64>,
    pub eta: Duration,
    pub img: Option<Img>,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Mark {
    pub draws: u64,
    pub edges: u64,
}

pub fn mark() -> Mark {
    Mark { draws: simrt::draws(), edges: simrt::edges() }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Err(String),
    Panic(String),
    Hung,
}

#[derive(Clone, Debug)]
pub struct RenderOut {
    pub reports: Vec<Rep>,
    pub peeks: Vec<Peek>,
    pub end: End,
    pub abort_sent: Option<Mark>,
    pub recv_dropped: Option<Mark>,
    pub ended: Option<Mark>,
    #[allow(dead_code)]
    pub started: Mark,
}

pub enum Target {
    Scene(Box<Scene>),
    Renderer(Arc<Renderer>),
}

pub struct Job {
    pub target: Target,
    pub abort: AbortPlan,
    pub recv: RecvPlan,
}

#[derive(Default)]
struct Shared {
    reports: Vec<Rep>,
    peeks: Vec<Peek>,
    end: Option<End>,
    abort_sent: Option<Mark>,
    recv_dropped: Option<Mark>,
    ended: Option<Mark>,
    started: Mark,
}

fn to_rep(p: RenderProgress) -> Rep {
    Rep {
        progress: p.progress,
        fps: p.fps,
        eta: p.estimated_time_left,
        img: p.render_image.map(|i| Img { w: i.width(), h: i.height(), px: i.into_raw() }),
    }
}

pub const EV_REPORT: u16 = simrt::ev::USER + 1;
pub const EV_ABORT: u16 = simrt::ev::USER + 2;
pub const EV_RECV_DROP: u16 = simrt::ev::USER + 3;
pub const EV_RENDER_END: u16 = simrt::ev::USER + 4;

fn spawn(name: &str, f: impl FnOnce() + Send + 'static) -> JoinHandle<()> {
    simrt::exempt(|| std::thread::Builder::new().name(name.into()).spawn(f).expect("harness thread"))
}

/// `Renderer` and `Scene` may or may not be Send in a changed tree; the
/// simulator only ever lets one thread run, so this is sound here.
struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}
impl<T> Carry<T> {
    fn get(self) -> T {
        self.0
    }
}

fn consume(sh: &Arc<Mutex<Shared>>, keep: &Arc<Mutex<Vec<Sender<bool>>>>, rx: Receiver<RenderProgress>, plan: &RecvPlan, job: i64, abort: Option<(u32, Sender<bool>)>) -> Option<Receiver<RenderProgress>> {
    let mut n = 0u32;
    let mut abort = abort;
    loop {
        if let RecvPlan::DropAfter(k) = plan {
            if n >= *k {
                drop(rx);
                sh.lock().unwrap().recv_dropped = Some(mark());
                simrt::log(EV_RECV_DROP, job, n as i64);
                keep.lock().unwrap().extend(abort.map(|x| x.1));
                return None;
            }
        }
        match rx.recv() {
            Ok(p) => {
                n += 1;
                simrt::log(EV_REPORT, job, n as i64);
                sh.lock().unwrap().reports.push(to_rep(p));
                if let Some((k, _)) = &abort {
                    if n >= *k {
                        let (_, tx) = abort.take().unwrap();
                        sh.lock().unwrap().abort_sent = Some(mark());
                        let _ = tx.send(true);
                        simrt::log(EV_ABORT, job, n as i64);
                        keep.lock().unwrap().push(tx);
                    }
                }
            }
            Err(_) => return Some(rx),
        }
    }
}

/// Runs all jobs concurrently until nothing moves any more.
pub fn run_jobs(jobs: Vec<Job>) -> Vec<RenderOut> {
    let mut shared = vec![];
    let mut handles: Vec<(usize, bool, JoinHandle<()>)> = vec![];
    let mut lazy = vec![];
    // Senders that must outlive the renders: their loss must not be what ends one.
    let keep: Arc<Mutex<Vec<Sender<bool>>>> = Default::default();
    for (ji, job) in jobs.into_iter().enumerate() {
        let sh: Arc<Mutex<Shared>> = Arc::new(Mutex::new(Shared::default()));
        shared.push(sh.clone());
        let (tx, rx) = channel::<RenderProgress>();
        let (atx, arx) = channel::<bool>();
        let mut consumer_abort = None;
        match job.abort.clone() {
            AbortPlan::Never => keep.lock().unwrap().push(atx),
            AbortPlan::Dropped => drop(atx),
            AbortPlan::Before => {
                sh.lock().unwrap().abort_sent = Some(mark());
                atx.send(true).unwrap();
                simrt::log(EV_ABORT, ji as i64, 0);
                keep.lock().unwrap().push(atx);
            }
            AbortPlan::At(t, val) => {
                let (sh, keep) = (sh.clone(), keep.clone());
                handles.push((
                    ji,
                    false,
                    spawn("aborter", move || {
                        if simrt::wait_trigger(t) {
                            let m = mark();
                            let r = atx.send(val);
                            if r.is_ok() {
                                sh.lock().unwrap().abort_sent = Some(m);
                                simrt::log(EV_ABORT, ji as i64, 0);
                            }
                        }
                        keep.lock().unwrap().push(atx);
                    }),
                ));
            }
            AbortPlan::DropAt(t) => handles.push((
                ji,
                false,
                spawn("abort-dropper", move || {
                    simrt::wait_trigger(t);
                    drop(atx);
                }),
            )),
            AbortPlan::AfterReport(k) => consumer_abort = Some((k, atx)),
        }
        match job.recv.clone() {
            RecvPlan::Lazy => lazy.push((ji, rx)),
            RecvPlan::DropAt(t) => {
                let (sh, keep) = (sh.clone(), keep.clone());
                handles.push((
                    ji,
                    false,
                    spawn("receiver", move || {
                        let fired = simrt::wait_trigger(t);
                        while let Ok(p) = rx.try_recv() {
                            let mut s = sh.lock().unwrap();
                            s.reports.push(to_rep(p));
                        }
                        drop(rx);
                        if fired {
                            sh.lock().unwrap().recv_dropped = Some(mark());
                            simrt::log(EV_RECV_DROP, ji as i64, 0);
                        }
                        if let Some((_, atx)) = consumer_abort {
                            keep.lock().unwrap().push(atx);
                        }
                    }),
                ));
            }
            RecvPlan::Peek(at) => {
                let (sh, keep) = (sh.clone(), keep.clone());
                handles.push((
                    ji,
                    false,
                    spawn("receiver", move || {
                        for t in at {
                            if !simrt::wait_trigger(t) {
                                break;
                            }
                            let before = mark();
                            while let Ok(p) = rx.try_recv() {
                                sh.lock().unwrap().reports.push(to_rep(p));
                            }
                            let mut s = sh.lock().unwrap();
                            let reports = s.reports.len();
                            s.peeks.push(Peek { before, after: mark(), reports });
                            simrt::log(EV_REPORT, ji as i64, reports as i64);
                        }
                        consume(&sh, &keep, rx, &RecvPlan::Drain, ji as i64, consumer_abort);
                    }),
                ));
            }
            RecvPlan::DropAfter(0) => {
                drop(rx);
                sh.lock().unwrap().recv_dropped = Some(mark());
                simrt::log(EV_RECV_DROP, ji as i64, 0);
                if let Some((_, atx)) = consumer_abort {
                    keep.lock().unwrap().push(atx);
                }
            }
            plan => {
                let (sh, keep) = (sh.clone(), keep.clone());
                handles.push((
                    ji,
                    false,
                    spawn("receiver", move || {
                        consume(&sh, &keep, rx, &plan, ji as i64, consumer_abort);
                    }),
                ));
            }
        }
        let sh = sh.clone();
        let target = Carry((job.target, tx, arx));
        handles.push((
            ji,
            true,
            spawn("render", move || {
                let (target, tx, arx) = target.get();
                sh.lock().unwrap().started = mark();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match target {
                    Target::Scene(s) => solstrale::ray_trace(*s, &tx, &arx).map_err(|e| e.to_string()),
                    Target::Renderer(r) => r.render(&tx, &arx).map_err(|e| e.to_string()),
                }));
                let end = match r {
                    Ok(Ok(())) => End::Ok,
                    Ok(Err(e)) => End::Err(e),
                    Err(_) => End::Panic(crate::core::take_panics().join(" | ")),
                };
                {
                    let mut s = sh.lock().unwrap();
                    s.end = Some(end);
                    s.ended = Some(mark());
                }
                simrt::log(EV_RENDER_END, ji as i64, 0);
                drop(tx);
            }),
        ));
    }
    simrt::wait_idle();
    simrt::cancel_triggers();
    simrt::wait_idle();
    for (ji, is_render, h) in handles {
        let _ = is_render;
        let done = shared[ji].lock().unwrap().end.is_some();
        if done {
            let _ = h.join();
        } else {
            std::mem::forget(h);
        }
    }
    for (ji, rx) in lazy {
        let mut s = shared[ji].lock().unwrap();
        while let Ok(p) = rx.try_recv() {
            s.reports.push(to_rep(p));
        }
    }
    // A render that never ended may still hold the other side.
    if shared.iter().any(|s| s.lock().unwrap().end.is_none()) {
        std::mem::forget(keep);
    }
    shared
        .into_iter()
        .map(|sh| {
            let mut s = sh.lock().unwrap();
            RenderOut {
                reports: std::mem::take(&mut s.reports),
                peeks: std::mem::take(&mut s.peeks),
                end: s.end.take().unwrap_or(End::Hung),
                abort_sent: s.abort_sent,
                recv_dropped: s.recv_dropped,
                ended: s.ended,
                started: s.started,
            }
        })
        .collect()
}

pub fn run_one(job: Job) -> RenderOut {
    run_jobs(vec![job]).remove(0)
}
