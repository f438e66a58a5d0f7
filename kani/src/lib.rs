//! Loop-free harnesses over the public API of the real crate, every input symbolic
//! over its full domain: each is a complete proof of its assertions (unwinding
//! assertions on). The postconditions of C11 to C13 are the shared text of
//! `../shared/palg.rs`; the driver executes the same text.
#![cfg(kani)]
#[path = "../../shared/canon.rs"]
mod canon;
#[path = "../../shared/palg.rs"]
mod palg;
#[path = "../../shared/stmt.rs"]
mod stmt;

struct Sym;
impl canon::Choose<u8> for Sym {
	fn pick(&mut self, n: u8) -> u8 {
		let x: u8 = kani::any();
		kani::assume(x < n);
		x
	}
	fn res(&mut self) -> u8 {
		kani::any()
	}
}

macro_rules! harness {
	($($m:ident::$f:ident)*) => { $(
		#[kani::proof]
		#[kani::unwind(8)]
		fn $f() {
			$m::$f(&mut Sym);
		}
	)* };
}
harness! {
	palg::c11_triple_pattern palg::c11_triple_renaming palg::c11_quad_pattern palg::c11_quad_renaming
	palg::c11_partial palg::c11_full
	palg::c12_triple palg::c12_role palg::c12_quad_read palg::c12_quad_map
	palg::c13_subject palg::c13_predicate palg::c13_object
	stmt::c17_triple stmt::c17_quad stmt::c17_hash
	stmt::c19_triple stmt::c19_quad
}
