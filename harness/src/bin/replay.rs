//! Replays one recorded model against the real code.
//! usage: replay ENTRY PARAMS CHOICES HEXBYTES   (comma-separated lists, `-` for none)
//! Prints `outcome=<ok|fail:ID|known:ID|assume|panic:..>` and `obs=..`.
use jjh::rt;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::Ordering;

struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        rt::ALLOCS.fetch_add(1, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        rt::ALLOCS.fetch_add(1, Ordering::Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        rt::ALLOCS.fetch_add(1, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

fn list<T: std::str::FromStr>(s: &str) -> Vec<T> {
    if s == "-" || s.is_empty() {
        return vec![];
    }
    s.split(',').map(|x| x.parse().ok().expect("number")).collect()
}

fn one(a: &[String]) -> (String, Vec<u64>) {
    let f = jjh::ENTRIES.iter().chain(jjh::FEAT_ENTRIES).find(|x| x.0 == a[0]).expect("entry").1;
    let hex = if a[3] == "-" { "" } else { &a[3] };
    let bytes = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    rt::CTX.with(|c| {
        *c.borrow_mut() = rt::Ctx { bytes, bpos: 0, choices: list(&a[2]), cpos: 0, params: list(&a[1]), obs: vec![], expect_panic: false }
    });
    let r = std::panic::catch_unwind(f);
    let out = match r {
        Ok(()) => "ok".to_string(),
        Err(e) => match e.downcast_ref::<rt::Outcome>() {
            Some(rt::Outcome::Fail(i)) => format!("fail:{i}"),
            Some(rt::Outcome::Known(i)) => format!("known:{i}"),
            Some(rt::Outcome::Assume) => "assume".to_string(),
            None if rt::CTX.with(|c| c.borrow().expect_panic) => "ok".to_string(),
            None => {
                let m = if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "?".to_string()
                };
                format!("panic:{}", m.replace(['\n', '\t'], " "))
            }
        },
    };
    let obs = rt::CTX.with(|c| c.borrow().obs.clone());
    (out, obs)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    // deep inputs are part of what is replayed
    let t = std::thread::Builder::new().stack_size(1 << 28).spawn(move || {
        if a.len() == 1 {
            // a file with one model per line
            for l in std::fs::read_to_string(&a[0]).unwrap().lines() {
                let p: Vec<String> = l.split_whitespace().map(String::from).collect();
                let (o, v) = one(&p);
                println!("outcome={o}\tobs={}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
            }
        } else {
            rt::STEPPING.store(true, Ordering::Relaxed);
            let (o, v) = one(&a);
            println!("outcome={o}\tobs={}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        }
    });
    t.unwrap().join().unwrap();
}
