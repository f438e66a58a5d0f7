//! Small-scope and randomised search for concrete inputs violating a property, on
//! the real crate, against independent oracles. It plays two roles: it turns a
//! failed proof obligation into a replayable input, and it tests the contracts
//! assumed of dependencies (slab, raw-btree, std collections, fmt, iref) on the
//! compositions the proofs rely on. It never counts as proof.
#[path = "../../shared/canon.rs"]
mod canon;
#[path = "../../shared/palg.rs"]
mod palg;
mod ctx;
mod iso;
mod patterns;
mod stores;
mod stores_run;
mod terms;
mod thin;

use ctx::Ctx;

fn main() {
	let args: Vec<String> = std::env::args().collect();
	if args.len() < 5 {
		eprintln!("usage: driver <property> <quick|thorough> <seed> <out.json>");
		std::process::exit(2);
	}
	let mut c = Ctx::new(&args[1], args[2] == "thorough", args[3].parse().unwrap_or(1), &args[4]);
	match args[1].as_str() {
		"C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" => {
			if args[1] == "C10" {
				thin::run(&mut c);
			}
			stores_run::run(&mut c)
		}
		"C11" => patterns::c11(&mut c),
		"C12" => patterns::c12(&mut c),
		"C13" => patterns::c13(&mut c),
		"C14" => patterns::c14(&mut c),
		"C15" => terms::c15(&mut c),
		"C16" => terms::c16(&mut c),
		"C17" => terms::c17(&mut c),
		"C18" => terms::c18(&mut c),
		"C19" => terms::c19(&mut c),
		"C20" => iso::c20(&mut c),
		"C21" => iso::c21(&mut c),
		"C22" => terms::c22(&mut c),
		other => {
			eprintln!("unknown property {other}");
			std::process::exit(2)
		}
	}
	c.finish();
}
