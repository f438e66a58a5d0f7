use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Deterministic generator (splitmix64).
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
		z ^ (z >> 31)
	}
	pub fn below(&mut self, n: usize) -> usize {
		(self.next() % (n.max(1) as u64)) as usize
	}
	pub fn chance(&mut self, num: usize, den: usize) -> bool {
		self.below(den) < num
	}
	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
		&v[self.below(v.len())]
	}
}

struct Watch {
	started: Instant,
	desc: String,
}

pub struct Ctx {
	pub id: String,
	pub thorough: bool,
	pub rng: Rng,
	pub evals: u64,
	pub distinct: HashSet<u64>,
	pub samples: Vec<String>,
	pub scopes: Vec<String>,
	pub start: Instant,
	budget: Duration,
	out: String,
	watch: Arc<Mutex<Option<Watch>>>,
	/// When set (after a crash), the case about to run is written there.
	case_log: Option<String>,
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
	e.downcast_ref::<String>()
		.cloned()
		.or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
		.unwrap_or_default()
}

pub type Check = Result<(), String>;

fn esc(s: &str) -> String {
	let mut r = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => r.push_str("\\\""),
			'\\' => r.push_str("\\\\"),
			'\n' => r.push_str("\\n"),
			c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
			c => r.push(c),
		}
	}
	r.push('"');
	r
}

fn write_violation(out: &str, id: &str, input: &str, what: &str, evals: u64, wall: f64) -> ! {
	let s = format!(
		"{{\"property\":{},\"violation\":{{\"input\":{},\"what\":{}}},\"evaluations\":{},\"wall_s\":{:.3}}}\n",
		esc(id),
		esc(input),
		esc(what),
		evals,
		wall
	);
	let _ = std::fs::write(out, s);
	println!("FAILING INPUT [{id}]: {input}\n  {what}");
	std::process::exit(1)
}

impl Ctx {
	pub fn new(id: &str, thorough: bool, seed: u64, out: &str) -> Self {
		if std::env::var("DRV_TRACE").is_err() { std::panic::set_hook(Box::new(|_| {})); }
		let watch: Arc<Mutex<Option<Watch>>> = Arc::new(Mutex::new(None));
		let w = watch.clone();
		let (o, i) = (out.to_owned(), id.to_owned());
		let start = Instant::now();
		std::thread::spawn(move || loop {
			std::thread::sleep(Duration::from_millis(500));
			let g = w.lock().unwrap();
			if let Some(x) = &*g {
				if x.started.elapsed() > Duration::from_secs(25) {
					write_violation(
						&o,
						&i,
						&x.desc,
						"the operation did not terminate within 25 s on this input",
						0,
						start.elapsed().as_secs_f64(),
					);
				}
			}
		});
		Self {
			id: id.to_owned(),
			thorough,
			rng: Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0xABCDEF),
			evals: 0,
			distinct: HashSet::new(),
			samples: Vec::new(),
			scopes: Vec::new(),
			start,
			budget: Duration::from_secs(if thorough { 240 } else { 45 }),
			out: out.to_owned(),
			watch,
			case_log: std::env::var("DRV_CASE_LOG").ok(),
		}
	}

	fn log(&self, desc: &str) {
		if let Some(p) = &self.case_log {
			let _ = std::fs::write(p, desc);
		}
	}

	/// Number of random cases to run: `q` in quick, `t` in thorough mode.
	pub fn n(&self, q: usize, t: usize) -> usize {
		if self.thorough {
			t
		} else {
			q
		}
	}

	pub fn out_of_time(&self) -> bool {
		self.start.elapsed() > self.budget
	}

	pub fn scope(&mut self, s: impl Into<String>) {
		self.scopes.push(s.into());
	}

	/// Runs one case. A panic or an `Err` is a violation on `desc`.
	pub fn try_case(&mut self, desc: &dyn Fn() -> String, f: impl FnOnce() -> Check) -> Check {
		self.evals += 1;
		if self.case_log.is_some() {
			self.log(&desc());
		}
		{
			*self.watch.lock().unwrap() = Some(Watch {
				started: Instant::now(),
				desc: desc(),
			});
		}
		match catch_unwind(AssertUnwindSafe(f)) {
			Ok(r) => r,
			Err(e) => Err(format!("panicked: {}", panic_text(&e))),
		}
	}

	/// Marks the case about to run so that the watchdog can name it.
	pub fn begin(&mut self, desc: String) {
		self.log(&desc);
		*self.watch.lock().unwrap() = Some(Watch {
			started: Instant::now(),
			desc,
		});
	}

	pub fn case(&mut self, key: impl Hash, desc: &dyn Fn() -> String, f: impl FnOnce() -> Check) {
		self.note(key);
		if self.samples.len() < 8 && self.evals % 997 == 0 {
			self.samples.push(desc());
		}
		if let Err(what) = self.try_case(desc, f) {
			self.violation(&desc(), &what)
		}
	}

	pub fn note(&mut self, key: impl Hash) {
		if self.distinct.len() < 2_000_000 {
			let mut h = std::collections::hash_map::DefaultHasher::new();
			key.hash(&mut h);
			self.distinct.insert(h.finish());
		}
	}

	pub fn violation(&self, input: &str, what: &str) -> ! {
		write_violation(
			&self.out,
			&self.id,
			input,
			what,
			self.evals,
			self.start.elapsed().as_secs_f64(),
		)
	}

	pub fn finish(&mut self) {
		let list = |v: &[String]| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
		let s = format!(
			"{{\"property\":{},\"violation\":null,\"evaluations\":{},\"distinct\":{},\"samples\":[{}],\"scopes\":[{}],\"wall_s\":{:.3}}}\n",
			esc(&self.id),
			self.evals,
			self.distinct.len(),
			list(&self.samples),
			list(&self.scopes),
			self.start.elapsed().as_secs_f64()
		);
		std::fs::write(&self.out, s).unwrap();
		std::process::exit(0)
	}
}

#[macro_export]
macro_rules! ensure {
	($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

#[macro_export]
macro_rules! ensure_eq {
	($a:expr, $b:expr, $($t:tt)*) => {{
		let (a, b) = (&$a, &$b);
		if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
	}};
}
