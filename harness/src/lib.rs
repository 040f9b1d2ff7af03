#![allow(dead_code, unused_imports, unused_variables, unused_unsafe, unused_mut, unknown_lints)]
#![allow(static_mut_refs, non_camel_case_types, clippy::all)]
//! Contract harnesses over the real `ser_raw` crates.  See /verif/DESIGN.md.

#[macro_use]
pub mod nd;
#[macro_use]
pub mod macros;
pub mod amodel;
pub mod base;
#[cfg(any(feature = "c01", feature = "c02", feature = "c03", feature = "c04", feature = "c05", feature = "c15", feature = "c08", feature = "c09", feature = "c12", feature = "c13", feature = "c14", feature = "c16", feature = "c17", feature = "c18", feature = "c19"))]
#[macro_use]
pub mod shapes;
#[cfg(any(feature = "c01", feature = "c02", feature = "c03", feature = "c04", feature = "c05", feature = "c15", feature = "c08", feature = "c09", feature = "c12", feature = "c13", feature = "c14", feature = "c16", feature = "c17", feature = "c18", feature = "c19"))]
pub mod abs;
#[cfg(any(feature = "c01", feature = "c02", feature = "c03", feature = "c04", feature = "c05", feature = "c15", feature = "c08", feature = "c09", feature = "c12", feature = "c13", feature = "c14", feature = "c16", feature = "c17", feature = "c18", feature = "c19"))]
pub mod mv;
#[cfg(any(feature = "c01", feature = "c02", feature = "c03", feature = "c04", feature = "c05", feature = "c15", feature = "c08", feature = "c09", feature = "c12", feature = "c13", feature = "c14", feature = "c16", feature = "c17", feature = "c18", feature = "c19"))]
pub mod ind;
#[cfg(all(kani, any(feature = "c01", feature = "c09", feature = "c13", feature = "c16")))]
pub mod rec;
#[cfg(any(feature = "c03", feature = "c12"))]
pub mod order;
#[cfg(feature = "c03")]
pub mod c03;

#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c15")]
pub mod c15;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c18")]
pub mod c18;

#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(feature = "c19")]
pub mod c19;
/// The native registry of a property's harnesses
#[cfg(not(kani))]
pub fn registry(prop: &str) -> Vec<(&'static str, fn())> {
	match prop {
		#[cfg(feature = "c03")]
		"C03" => c03::REG.to_vec(),
		#[cfg(feature = "c04")]
		"C04" => c04::REG.to_vec(),
		#[cfg(feature = "c05")]
		"C05" => c05::REG.to_vec(),
		#[cfg(feature = "c06")]
		"C06" => c06::REG.to_vec(),
		#[cfg(feature = "c07")]
		"C07" => c07::REG.to_vec(),
		#[cfg(feature = "c10")]
		"C10" => c10::REG.to_vec(),
		#[cfg(feature = "c15")]
		"C15" => c15::REG.to_vec(),
		#[cfg(feature = "c16")]
		"C16" => c16::REG.to_vec(),
		#[cfg(feature = "c18")]
		"C18" => c18::REG.to_vec(),
		#[cfg(feature = "c01")]
		"C01" => c01::REG.to_vec(),
		#[cfg(feature = "c02")]
		"C02" => c02::REG.to_vec(),
		#[cfg(feature = "c08")]
		"C08" => c08::REG.to_vec(),
		#[cfg(feature = "c09")]
		"C09" => c09::REG.to_vec(),
		#[cfg(feature = "c12")]
		"C12" => c12::REG.to_vec(),
		#[cfg(feature = "c13")]
		"C13" => c13::REG.to_vec(),
		#[cfg(feature = "c14")]
		"C14" => c14::REG.to_vec(),
		#[cfg(feature = "c17")]
		"C17" => c17::REG.to_vec(),
		#[cfg(feature = "c19")]
		"C19" => c19::REG.to_vec(),
		_ => panic!("no such property"),
	}
}
