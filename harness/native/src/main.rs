//! Native reading of the contract harnesses: seeded search and replay.
//!   hn sweep <prop> <seed> <seconds> [harness | -h1,h2..]  search; exit 1 on the first failing harness run
//!   hn replay <prop> <harness> seed <n>            replay one generated run
//!   hn replay <prop> <harness> draws <hex,hex,..>  replay recorded choices
mod alloc;
use hk::nd::{CheckFail, Reject, Source, DRAWS, SRC};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Checking = alloc::Checking;

static CUR_NAME: AtomicUsize = AtomicUsize::new(0);
static CUR_LEN: AtomicUsize = AtomicUsize::new(0);
static CUR_SEED: AtomicU64 = AtomicU64::new(0);

extern "C" {
	fn signal(n: i32, h: usize) -> usize;
	fn write(fd: i32, p: *const u8, n: usize) -> isize;
	fn _exit(c: i32) -> !;
	fn sigaltstack(ss: *const Stack, old: *mut Stack) -> i32;
	fn sigaction(n: i32, a: *const Action, old: *mut Action) -> i32;
}
#[repr(C)]
struct Stack {
	sp: *mut u8,
	flags: i32,
	size: usize,
}
#[repr(C)]
struct Action {
	handler: usize,
	mask: [u64; 16],
	flags: i32,
	restorer: usize,
}

extern "C" fn crash(n: i32, info: *const i32, _: *const u8) {
	unsafe {
		// Access to one of the addresses given out for requests no memory could satisfy (they are no
		// addresses of the machine's): nothing is said of such a run
		let apart = n == 11 && *info.add(2) == 128 && alloc::FAKES.load(Relaxed) > 0;
		let mut b = [0u8; 256];
		let mut k = 0;
		let mut put = |s: &[u8]| {
			for &c in s {
				if k < b.len() {
					b[k] = c;
					k += 1;
				}
			}
		};
		put(if apart { b"\nAPART harness=" as &[u8] } else { b"\nFAIL harness=" });
		put(std::slice::from_raw_parts(CUR_NAME.load(Relaxed) as *const u8, CUR_LEN.load(Relaxed)));
		put(b" seed=");
		let mut d = [0u8; 20];
		let mut x = CUR_SEED.load(Relaxed);
		let mut i = 20;
		loop {
			i -= 1;
			d[i] = b'0' + (x % 10) as u8;
			x /= 10;
			if x == 0 {
				break;
			}
		}
		put(&d[i..]);
		put(b" draws=- what=killed by signal ");
		put(&[b'0' + (n / 10) as u8, b'0' + (n % 10) as u8]);
		put(b"\n");
		write(1, b.as_ptr(), k);
		_exit(if apart { 3 } else { 1 })
	}
}

fn handlers() {
	unsafe {
		let stack = Box::leak(vec![0u8; 1 << 16].into_boxed_slice());
		sigaltstack(&Stack { sp: stack.as_mut_ptr(), flags: 0, size: 1 << 16 }, std::ptr::null_mut());
		for n in [11, 7, 6, 4, 8] {
			let a = Action { handler: crash as usize, mask: [0; 16], flags: 0x0800_0004, restorer: 0 };
			sigaction(n, &a, std::ptr::null_mut());
		}
		let _ = signal as usize;
	}
}

fn splitmix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9E3779B97F4A7C15);
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
	z ^ (z >> 31)
}

enum Out {
	Ok,
	Rejected,
	Fail(String),
}

fn run(name: &'static str, f: fn(), src: Source, seed: u64) -> Out {
	CUR_NAME.store(name.as_ptr() as usize, Relaxed);
	CUR_LEN.store(name.len(), Relaxed);
	CUR_SEED.store(seed, Relaxed);
	SRC.with(|s| *s.borrow_mut() = src);
	DRAWS.with(|d| {
		let mut d = d.borrow_mut();
		d.clear();
		d.reserve(4096);
	});
	alloc::reseed(splitmix(seed));
	alloc::ERR.store(0, Relaxed);
	alloc::FAKES.store(0, Relaxed);
	let live = alloc::LIVE.load(Relaxed);
	alloc::ON.store(true, Relaxed);
	let r = catch_unwind(AssertUnwindSafe(f));
	alloc::ON.store(false, Relaxed);
	let e = alloc::ERR.load(Relaxed);
	match r {
		Ok(()) => {
			if e != 0 {
				Out::Fail(alloc::ERRS[e].to_string())
			} else if !name.starts_with("p_") && alloc::LIVE.load(Relaxed) != live {
				Out::Fail(format!("{} allocations were not released", alloc::LIVE.load(Relaxed) - live))
			} else {
				Out::Ok
			}
		}
		Err(p) => {
			if p.is::<Reject>() {
				if e != 0 {
					return Out::Fail(alloc::ERRS[e].to_string());
				}
				Out::Rejected
			} else if let Some(c) = p.downcast_ref::<CheckFail>() {
				Out::Fail(c.0.to_string())
			} else {
				let m = p
					.downcast_ref::<&str>()
					.map(|s| s.to_string())
					.or_else(|| p.downcast_ref::<String>().cloned())
					.unwrap_or_default();
				Out::Fail(format!("unexpected panic: {}", m.replace('\n', " ")))
			}
		}
	}
}

fn draws() -> String {
	DRAWS.with(|d| {
		let d = d.borrow();
		let v: Vec<String> =
			d.iter().map(|(n, b)| b[..*n].iter().map(|x| format!("{:02x}", x)).collect::<String>()).collect();
		if v.is_empty() {
			"-".into()
		} else {
			v.join(",")
		}
	})
}

fn main() {
	std::panic::set_hook(Box::new(|_| {}));
	handlers();
	let _ = catch_unwind(|| std::panic::panic_any(Reject));
	let a: Vec<String> = std::env::args().collect();
	let reg = hk::registry(&a[2]);
	match a[1].as_str() {
		"sweep" => {
			let seed: u64 = a[3].parse().unwrap();
			let secs: f64 = a[4].parse().unwrap();
			// one harness, or all but some: `-a,b`
			let only = a.get(5);
			let reg: Vec<_> = reg
				.into_iter()
				.filter(|h| {
					only.map_or(true, |o| match o.strip_prefix('-') {
						Some(x) => x.split(',').all(|x| x != h.0),
						None => o == h.0,
					})
				})
				.collect();
			let share = Duration::from_secs_f64(secs / reg.len().max(1) as f64);
			let mut bad = false;
			for (k, &(name, f)) in reg.iter().enumerate() {
				let t = Instant::now();
				let (mut ok, mut rej, mut i) = (0u64, 0u64, 0u64);
				while t.elapsed() < share && i < 2_000_000 {
					let s = splitmix(splitmix(seed) ^ splitmix((k as u64) << 40 | i));
					i += 1;
					match run(name, f, Source::Seed(s), s) {
						Out::Ok => ok += 1,
						Out::Rejected => rej += 1,
						Out::Fail(w) => {
							println!("FAIL harness={} seed={} draws={} what={}", name, s, draws(), w);
							bad = true;
							break;
						}
					}
				}
				println!("RAN harness={} ok={} rejected={}", name, ok, rej);
			}
			std::process::exit(bad as i32);
		}
		"list" => {
			for (n, _) in reg {
				println!("{}", n);
			}
		}
		"replay" => {
			let &(name, f) = reg.iter().find(|h| h.0 == a[3]).expect("no such harness");
			let (src, seed) = match a[4].as_str() {
				"seed" => {
					let s: u64 = a[5].parse().unwrap();
					(Source::Seed(s), s)
				}
				_ => {
					let v = a[5]
						.split(',')
						.filter(|s| *s != "-" && !s.is_empty())
						.map(|s| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect())
						.collect();
					(Source::Replay(v, 0), 1)
				}
			};
			match run(name, f, src, seed) {
				Out::Ok => println!("PASS"),
				Out::Rejected => println!("REJECTED"),
				Out::Fail(w) => {
					println!("FAIL harness={} seed={} draws={} what={}", name, seed, draws(), w);
					std::process::exit(1)
				}
			}
		}
		_ => panic!("usage"),
	}
}
