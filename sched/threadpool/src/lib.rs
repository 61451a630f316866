//! A stand-in for the `threadpool` crate under a scheduler that the check controls: the jobs of a pool are run one at a
//! time, each in its own thread, when the pool is joined (or dropped), in the order given by VP_SCHED, a comma-separated
//! list of choices; a choice is the position of the next job among those that are left, 0 when the list is exhausted.
//! The number of alternatives at each choice is appended to the file VP_SCHED_LOG.
use std::cell::RefCell;
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};

type Job = Box<dyn FnOnce() + Send + 'static>;

static NEXT: AtomicUsize = AtomicUsize::new(0);

pub struct ThreadPool {
    jobs: RefCell<Vec<Job>>,
}

fn choose(alternatives: usize) -> usize {
    if alternatives < 2 {
        return 0;
    }
    let i = NEXT.fetch_add(1, Ordering::SeqCst);
    if let Ok(path) = std::env::var("VP_SCHED_LOG") {
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(path).unwrap();
        writeln!(f, "{}", alternatives).unwrap();
    }
    let schedule = std::env::var("VP_SCHED").unwrap_or_default();
    let choice = schedule.split(',').filter(|s| !s.is_empty()).nth(i).map_or(0, |s| s.parse::<usize>().unwrap());
    assert!(choice < alternatives);
    choice
}

impl ThreadPool {
    pub fn new(_num_threads: usize) -> ThreadPool {
        ThreadPool { jobs: RefCell::new(Vec::new()) }
    }
    pub fn with_name(_name: String, n: usize) -> ThreadPool {
        ThreadPool::new(n)
    }
    pub fn execute<F>(&self, job: F)
    where
        F: FnOnce() + Send + 'static,
    {
        self.jobs.borrow_mut().push(Box::new(job));
    }
    pub fn join(&self) {
        loop {
            let n = self.jobs.borrow().len();
            if n == 0 {
                break;
            }
            let job = self.jobs.borrow_mut().remove(choose(n));
            // a panic of a job does not end the program, as in the original
            let _ = std::thread::spawn(job).join();
        }
    }
    pub fn queued_count(&self) -> usize {
        self.jobs.borrow().len()
    }
    pub fn active_count(&self) -> usize {
        0
    }
    pub fn max_count(&self) -> usize {
        1
    }
    pub fn panic_count(&self) -> usize {
        0
    }
}

impl Drop for ThreadPool {
    fn drop(&mut self) {
        self.join();
    }
}
