//! C21 under Miri: small multi-threaded runs, for many schedules (Miri's seeds), with
//! synchronisation after every step, as usual, or now and then.
use std::{
    sync::{
        atomic::{AtomicUsize, Ordering::Relaxed},
        Arc,
    },
    thread,
    time::Duration,
};

use mbqc_scheduling::{interface, probabilistic::AcceptFunc, timer::Timer};
use vh::model::{self, Inst};

static EVERY: AtomicUsize = AtomicUsize::new(0);

#[cfg(mbqc_verif)]
fn hook(p: mbqc_scheduling::verif_hooks::Point) -> bool {
    // nothing in here orders the threads
    match p {
        mbqc_scheduling::verif_hooks::Point::Step { counter } => match EVERY.load(Relaxed) {
            0 => false,
            n => counter % n == 0,
        },
        _ => false,
    }
}

fn judge(inst: &Inst, paths: &[interface::Path], complete: bool) {
    for p in paths {
        model::check_pattern(inst, &p.steps).expect("a valid pattern");
        assert_eq!((p.time, p.space), (p.steps.len(), model::space(&inst.adj, &p.steps)), "costs");
    }
    if complete {
        let got: Vec<_> = paths.iter().map(|p| (p.time, p.space)).collect();
        assert_eq!(Some(got), model::front(inst, 1 << 20), "the front");
    }
}

fn main() {
    #[cfg(mbqc_verif)]
    mbqc_scheduling::verif_hooks::install(hook);
    let line = |n: usize| -> Vec<Vec<usize>> {
        (0..n).map(|i| [i.wrapping_sub(1), i + 1].into_iter().filter(|&x| x < n).collect()).collect()
    };
    let insts = [
        Inst {
            adj: vec![vec![1, 2], vec![0, 3], vec![0, 3], vec![1, 2]],
            order: vec![vec![(0, vec![])], vec![(3, vec![0]), (1, vec![0])], vec![(2, vec![3])]],
        },
        Inst { adj: line(3), order: vec![(0..3).map(|i| (i, vec![])).collect()] },
        Inst {
            adj: line(5),
            order: vec![vec![(4, vec![]), (1, vec![])], vec![(0, vec![1]), (3, vec![4])], vec![(2, vec![0])]],
        },
    ];
    let few = std::env::var("VH_FEW").is_ok();
    let mut k = 0;
    for (i, inst) in insts.iter().enumerate() {
        for every in [1, 0, 3] {
            if few && (i == 2 || (i == 1 && every != 1)) {
                continue;
            }
            EVERY.store(every, Relaxed);
            k += 1;
            let threads = 2 + (k % 2) as u16;
            let bound = [None, Some(1), Some(0)][k % 3];
            let timeout = [None, Some(Duration::from_secs(3600))][k % 2];
            let r = interface::run(&inst.adj, &inst.order, true, timeout, threads, bound, None);
            judge(inst, &r, true);
            if i == 0 {
                let r = interface::run(
                    &inst.adj, &inst.order, true, Some(Duration::from_micros(50 * k as u64)), threads, bound, None,
                );
                judge(inst, &r, false);
                let calls = Arc::new(AtomicUsize::new(0));
                let c = calls.clone();
                let f = AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| {
                    c.fetch_add(1, Relaxed);
                    0.6
                }));
                let r = interface::run(&inst.adj, &inst.order, true, timeout, threads, bound, Some((f, Some(k as u64))));
                judge(inst, &r, false);
            }
        }
    }
    let i = &insts[0];
    judge(i, &interface::run(&i.adj, &i.order, true, Some(Duration::from_micros(20)), 1, None, None), false);
    // the timer alone
    for us in [0u64, 30, 3_600_000_000] {
        let mut t = Timer::new();
        t.start(Duration::from_micros(us));
        let tr = &t;
        thread::scope(|s| {
            for _ in 0..2 {
                s.spawn(move || {
                    for _ in 0..if us > 1000 { 3 } else { 1_000_000 } {
                        if tr.finished() {
                            break;
                        }
                        thread::yield_now();
                    }
                });
            }
        });
        assert_eq!(t.finished(), us < 1000);
        drop(t);
    }
    println!("VH_OK {k}");
}
