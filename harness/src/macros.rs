/// Registers contract harnesses.
///  plain: run on Kani's memory model.  Name: `h_*`
///  abs:   allocator replaced by the recording contract stubs of `amodel`.  Name: `a_*`
///  panics: every path must panic, also with debug assertions compiled out.  Name: `p_*`
///          (Kani builds these without debug assertions, with the stubs of `amodel`.)
///  kani:  only run symbolically (speaks of private representation).
///  loops: by the loop rule, looking at an iteration (`step`) and at what follows (`exit`).  Name: `l_*`
///  native: only run natively.  Name: `n_*`
#[macro_export]
macro_rules! harnesses {
	($($kind:ident $name:ident [$u:literal] = $e:expr;)*) => {
		$( $crate::harness_one!{ $kind $name $u $e } )*
		#[cfg(not(kani))]
		pub const REG: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
	}
}

#[macro_export]
macro_rules! harness_one {
	(plain $name:ident $u:literal $e:expr) => {
		#[cfg(any(not(kani), not(feature = "panics")))]
		#[cfg_attr(kani, kani::proof)]
		#[cfg_attr(kani, kani::unwind($u))]
		pub fn $name() {
			$e;
			$crate::reached!();
		}
	};
	(thorough $name:ident $u:literal $e:expr) => {
		#[cfg(any(not(kani), all(feature = "thorough", not(feature = "panics"))))]
		#[cfg_attr(kani, kani::proof)]
		#[cfg_attr(kani, kani::unwind($u))]
		pub fn $name() {
			$e;
			$crate::reached!();
		}
	};
	(loops $name:ident $u:literal $e:expr) => {
		#[cfg(all(kani, not(feature = "panics")))]
		pub mod $name {
			#[allow(unused_imports)]
			use super::*;
			#[kani::proof]
			#[kani::unwind($u)]
			pub fn step() {
				$crate::ind::look_at($crate::ind::View::Step);
				$e;
			}
			#[kani::proof]
			#[kani::unwind($u)]
			pub fn exit() {
				$crate::ind::look_at($crate::ind::View::Exit);
				$e;
				$crate::reached!();
			}
		}
		#[cfg(not(kani))]
		pub fn $name() {
			$e;
		}
	};
	(loops_thorough $name:ident $u:literal $e:expr) => {
		#[cfg(any(not(kani), feature = "thorough"))]
		$crate::harness_one!{ loops $name $u $e }
	};
	(abs $name:ident $u:literal $e:expr) => {
		#[cfg(any(not(kani), not(feature = "panics")))]
		#[cfg_attr(kani, kani::proof)]
		#[cfg_attr(kani, kani::unwind($u))]
		#[cfg_attr(kani, kani::stub(std::alloc::alloc, crate::amodel::alloc))]
		#[cfg_attr(kani, kani::stub(std::alloc::alloc_zeroed, crate::amodel::alloc))]
		#[cfg_attr(kani, kani::stub(std::alloc::realloc, crate::amodel::realloc))]
		#[cfg_attr(kani, kani::stub(std::alloc::dealloc, crate::amodel::dealloc))]
		pub fn $name() {
			$crate::amodel::start();
			$e;
			$crate::amodel::end();
			$crate::reached!();
		}
	};
	(panics $name:ident $u:literal $e:expr) => {
		#[cfg(any(not(kani), feature = "panics"))]
		#[cfg_attr(kani, kani::proof)]
		#[cfg_attr(kani, kani::unwind($u))]
		#[cfg_attr(kani, kani::stub(std::alloc::alloc, crate::amodel::alloc))]
		#[cfg_attr(kani, kani::stub(std::alloc::alloc_zeroed, crate::amodel::alloc))]
		#[cfg_attr(kani, kani::stub(std::alloc::realloc, crate::amodel::realloc))]
		#[cfg_attr(kani, kani::stub(std::alloc::dealloc, crate::amodel::dealloc))]
		pub fn $name() {
			$crate::amodel::start();
			$e;
		}
	};
	(kani $name:ident $u:literal $e:expr) => {
		#[cfg(all(kani, not(feature = "panics")))]
		#[kani::proof]
		#[kani::unwind($u)]
		pub fn $name() {
			$e;
		}
		#[cfg(not(kani))]
		pub fn $name() {
			$crate::nd::assume(false)
		}
	};
	(native $name:ident $u:literal $e:expr) => {
		#[cfg(not(kani))]
		pub fn $name() {
			$e;
		}
	};
}
