//! Threads that live for the whole process: starting one costs Miri far more than a scenario does.
//! Handing work over and joining order everything before against everything after, exactly as
//! spawning and joining a thread do.
use std::sync::{Arc, Condvar, Mutex};
use std::thread::Thread;

type Job = Box<dyn FnOnce() + Send>;
struct Worker {
    /// None: idle. Some(None): stop.
    job: Mutex<Option<Option<Job>>>,
    cv: Condvar,
}
static IDLE: Mutex<Vec<(Arc<Worker>, Thread)>> = Mutex::new(Vec::new());
static ALL: Mutex<Vec<std::thread::JoinHandle<()>>> = Mutex::new(Vec::new());

pub struct Handle<T>(Arc<(Mutex<Option<T>>, Condvar)>, Thread);
impl<T> Handle<T> {
    pub fn thread(&self) -> Thread {
        self.1.clone()
    }
    pub fn join(self) -> Option<T> {
        let mut g = self.0 .0.lock().unwrap();
        loop {
            if let Some(v) = g.take() {
                return Some(v);
            }
            g = self.0 .1.wait(g).unwrap();
        }
    }
}
impl Worker {
    fn give(&self, j: Option<Job>) {
        *self.job.lock().unwrap() = Some(j);
        self.cv.notify_one();
    }
}
pub fn spawn<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Handle<T> {
    crate::core::planned();
    let cell = Arc::new((Mutex::new(None), Condvar::new()));
    let c2 = cell.clone();
    let (w, th) = IDLE.lock().unwrap().pop().unwrap_or_else(|| {
        let w = Arc::new(Worker { job: Mutex::new(None), cv: Condvar::new() });
        let w2 = w.clone();
        let j = std::thread::spawn(move || loop {
            let mut g = w2.job.lock().unwrap();
            let job = loop {
                if let Some(j) = g.take() {
                    break j;
                }
                g = w2.cv.wait(g).unwrap();
            };
            drop(g);
            match job {
                Some(j) => j(),
                None => return,
            }
        });
        let th = j.thread().clone();
        ALL.lock().unwrap().push(j);
        (w, th)
    });
    let w2 = (w.clone(), th.clone());
    w.give(Some(Box::new(move || {
        let v = f();
        // Ready for the next job before anyone can know that this one is done.
        IDLE.lock().unwrap().push(w2);
        *c2.0.lock().unwrap() = Some(v);
        c2.1.notify_one();
    })));
    Handle(cell, th)
}
/// Ends every worker; all jobs have been joined.
pub fn stop() {
    for (w, _) in IDLE.lock().unwrap().drain(..) {
        w.give(None);
    }
    for j in ALL.lock().unwrap().drain(..) {
        j.join().unwrap();
    }
}
