//! Native replay: implements the symx_* interface from a recorded vector.
//! Input (stdin), one replay per line: entry|p0,p1|hexbytes|c0,c1,...
//! Output per replay: OBS lines "O tag v,v,..", then "END kind message".
use std::cell::RefCell;
use std::io::{BufRead, Write};

#[derive(Default)]
struct S {
    bytes: Vec<u8>,
    bi: usize,
    choices: Vec<u32>,
    ci: usize,
    params: Vec<u64>,
    out: String,
    loc: String,
}
thread_local!(static ST: RefCell<S> = RefCell::new(S::default()));
enum Stop {
    Assume,
    Assert(String),
    Exhausted(&'static str),
}
fn s(p: *const u8, n: usize) -> String {
    unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() }
}
#[no_mangle]
extern "C-unwind" fn symx_bytes(p: *mut u8, n: usize) {
    ST.with(|st| {
        let mut st = st.borrow_mut();
        for k in 0..n {
            let b = st.bytes.get(st.bi).cloned().unwrap_or(0);
            st.bi += 1;
            unsafe { *p.add(k) = b }
        }
    })
}
#[no_mangle]
extern "C-unwind" fn symx_choose(_n: u32) -> u32 {
    let r = ST.with(|st| {
        let mut st = st.borrow_mut();
        let i = st.ci;
        st.ci += 1;
        st.choices.get(i).cloned()
    });
    match r {
        Some(v) => v,
        None => std::panic::resume_unwind(Box::new(Stop::Exhausted("choices"))),
    }
}
#[no_mangle]
extern "C-unwind" fn symx_assume(c: bool) {
    if !c {
        std::panic::resume_unwind(Box::new(Stop::Assume));
    }
}
#[no_mangle]
extern "C-unwind" fn symx_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        std::panic::resume_unwind(Box::new(Stop::Assert(s(p, n))));
    }
}
#[no_mangle]
extern "C-unwind" fn symx_fail(p: *const u8, n: usize) -> ! {
    std::panic::resume_unwind(Box::new(Stop::Assert(s(p, n))));
}
#[no_mangle]
extern "C-unwind" fn symx_obs(tag: u32, v: u64) {
    ST.with(|st| st.borrow_mut().out.push_str(&format!("O {} {}\n", tag, v)))
}
#[no_mangle]
extern "C-unwind" fn symx_obs_bytes(tag: u32, p: *const u8, n: usize) {
    let v: Vec<String> = unsafe { std::slice::from_raw_parts(p, n) }.iter().map(|x| x.to_string()).collect();
    ST.with(|st| st.borrow_mut().out.push_str(&format!("O {} {}\n", tag, v.join(","))))
}
#[no_mangle]
extern "C-unwind" fn symx_reach(_p: *const u8, _n: usize) {}
#[no_mangle]
extern "C-unwind" fn symx_expect(_p: *const u8, _n: usize) {}
#[no_mangle]
extern "C-unwind" fn symx_param(i: u32) -> u64 {
    ST.with(|st| st.borrow().params.get(i as usize).cloned().unwrap_or(0))
}
#[no_mangle]
extern "C-unwind" fn symx_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C-unwind" fn symx_prune(_p: *const u8, _n: usize) {}

pub fn run(entries: &[(&'static str, fn())]) {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        ST.with(|st| {
            if let Ok(mut s) = st.try_borrow_mut() {
                s.loc = l;
            }
        });
    }));
    let entries: Vec<(&'static str, fn())> = entries.to_vec();
    let h = std::thread::Builder::new()
        .stack_size(1 << 28)
        .spawn(move || {
            for l in std::io::stdin().lock().lines() {
                let l = l.unwrap();
                let p: Vec<&str> = l.split('|').collect();
                if p.len() < 4 {
                    continue;
                }
                let f = match entries.iter().find(|e| e.0 == p[0]) {
                    Some(e) => e.1,
                    None => {
                        println!("END noentry {}", p[0]);
                        continue;
                    }
                };
                let nums = |x: &str| -> Vec<u64> { x.split(',').filter(|y| !y.is_empty()).map(|y| y.parse().unwrap()).collect() };
                ST.with(|st| {
                    *st.borrow_mut() = S {
                        params: nums(p[1]),
                        bytes: (0..p[2].len() / 2).map(|i| u8::from_str_radix(&p[2][2 * i..2 * i + 2], 16).unwrap()).collect(),
                        choices: nums(p[3]).iter().map(|x| *x as u32).collect(),
                        ..S::default()
                    }
                });
                let r = std::panic::catch_unwind(f);
                let out = ST.with(|st| std::mem::take(&mut st.borrow_mut().out));
                let loc = ST.with(|st| std::mem::take(&mut st.borrow_mut().loc));
                print!("{}", out);
                match r {
                    Ok(()) => println!("END ok"),
                    Err(e) => match e.downcast_ref::<Stop>() {
                        Some(Stop::Assume) => println!("END assume"),
                        Some(Stop::Assert(m)) => println!("END assert {}", m),
                        Some(Stop::Exhausted(m)) => println!("END exhausted {}", m),
                        None => {
                            let m = e
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                                .unwrap_or_default();
                            println!("END panic {} at {}", m.replace('\n', " "), loc)
                        }
                    },
                }
                std::io::stdout().flush().unwrap();
            }
        })
        .unwrap();
    h.join().unwrap();
}
