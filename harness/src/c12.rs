//! C12: the derived implementation serializes every field exactly once, in declaration order.
use crate::abs::*;
use crate::ind::*;
use crate::nd::*;
use crate::order::*;
use crate::shapes::*;
use ser_raw::*;
use std::mem::{align_of, size_of};

/// A foreign type and its proxies
struct Foreign<const I: usize>(u16);
struct ProxyA;
struct ProxyB;
impl<S: Serializer, const I: usize> SerializeWith<Foreign<I>, S> for ProxyA {
	fn serialize_data_with(v: &Foreign<I>, _: &mut S) {
		note(100 + I, v as *const _ as usize);
	}
}
impl<S: Serializer, const I: usize> SerializeWith<Foreign<I>, S> for ProxyB {
	fn serialize_data_with(v: &Foreign<I>, _: &mut S) {
		note(200 + I, v as *const _ as usize);
	}
}
impl<S: Serializer, const I: usize, T> SerializeWith<F<I, T>, S> for ProxyA {
	fn serialize_data_with(v: &F<I, T>, _: &mut S) {
		note(100 + I, v as *const _ as usize);
	}
}
impl<S: Serializer, const I: usize, T> SerializeWith<F<I, T>, S> for ProxyB {
	fn serialize_data_with(v: &F<I, T>, _: &mut S) {
		note(200 + I, v as *const _ as usize);
	}
}
mod proxies {
	pub struct Deep;
}
impl<S: Serializer, const I: usize> SerializeWith<Foreign<I>, S> for proxies::Deep {
	fn serialize_data_with(v: &Foreign<I>, _: &mut S) {
		note(300 + I, v as *const _ as usize);
	}
}

#[derive(Serialize)]
struct Five {
	e: F<1, u8>,
	d: F<2, u64>,
	c: F<3, u16>,
	b: F<4, u32>,
	a: F<5, u8>,
}
#[derive(Serialize)]
struct One(F<1, u32>);
#[derive(Serialize)]
struct Four(F<1, u8>, F<2, u64>, F<3, u8>, F<4, u16>);
#[derive(Serialize)]
struct Nothing;
#[derive(Serialize)]
struct NoFields {}
#[derive(Serialize)]
struct Gen<'a, const N: usize> {
	x: F<1, &'a u8>,
	y: [F<2, u16>; N],
	z: Option<F<3, u8>>,
}
#[derive(Serialize)]
struct Proxied {
	a: F<1, u8>,
	#[ser_with(ProxyA)]
	b: Foreign<2>,
	c: F<3, u8>,
	#[ser_with(ProxyB)]
	d: Foreign<4>,
	/// a field with an implementation of its own, serialized by proxy nevertheless
	#[ser_with(ProxyA)]
	e: F<5, u8>,
	#[ser_with(proxies::Deep)]
	f: Foreign<6>,
}
#[derive(Serialize)]
struct ProxiedT(F<1, u8>, #[ser_with(ProxyB)] Foreign<2>, F<3, u8>);
#[derive(Serialize)]
struct ProxiedU(#[ser_with(ProxyA)] F<1, u8>, F<2, u8>, #[ser_with(ProxyA)] F<3, u8>, F<4, u8>, F<5, u8>, #[ser_with(ProxyB)] F<6, u8>);
#[derive(Serialize)]
struct Outer {
	inner: Four,
	last: F<9, u8>,
}
#[derive(Serialize)]
enum E {
	U,
	T1(F<1, u8>),
	T3(F<2, u8>, F<3, u64>, F<4, u8>),
	N1 { only: F<5, u16> },
	N3 { z: F<6, u8>, y: F<7, u64>, x: F<8, u16> },
	Empty(),
	NoneN {},
	Same(F<9, u8>, F<9, u8>),
}
#[derive(Serialize)]
enum AllData {
	A(F<1, u8>, F<2, u8>),
	B { serializer: F<3, u8>, val: F<4, u8> },
}
#[derive(Serialize)]
enum Units {
	A,
	B,
}
#[derive(Serialize)]
enum Single {
	Only { a: F<1, u8>, b: F<2, u64> },
}

#[derive(Serialize)]
struct Wide {
	w_z: F<0, u8>,
	w_y: F<1, u16>,
	w_x: F<2, i128>,
	w_w: F<3, u64>,
	w_v: F<4, u32>,
	w_u: F<5, u64>,
	w_t: F<6, u32>,
	w_s: F<7, u8>,
	w_r: F<8, u16>,
	w_q: F<9, i128>,
	w_p: F<10, u16>,
	w_o: F<11, i128>,
	w_n: F<12, u64>,
	w_m: F<13, u32>,
	w_l: F<14, u8>,
	w_k: F<15, u32>,
	w_j: F<16, u8>,
	w_i: F<17, u16>,
	w_h: F<18, i128>,
	w_g: F<19, u64>,
	w_f: F<20, i128>,
	w_e: F<21, u64>,
	w_d: F<22, u32>,
	w_c: F<23, u8>,
	w_b: F<24, u16>,
	w_a: F<25, u8>,
}
#[derive(Serialize)]
struct WideT(F<0, u8>, F<1, u16>, F<2, i128>, F<3, u64>, F<4, u32>, F<5, u64>, F<6, u32>, F<7, u8>, F<8, u16>, F<9, i128>, F<10, u16>, F<11, i128>, F<12, u64>, F<13, u32>, F<14, u8>, F<15, u32>, F<16, u8>, F<17, u16>, F<18, i128>, F<19, u64>, F<20, i128>);
#[derive(Serialize)]
enum WideE {
	U,
	T(F<0, u8>, F<1, u16>, F<2, i128>, F<3, u64>, F<4, u32>, F<5, u64>, F<6, u32>, F<7, u8>, F<8, u16>, F<9, i128>, F<10, u16>, F<11, i128>, F<12, u64>),
	N {
		n_z: F<0, u8>,
		n_y: F<1, u16>,
		n_x: F<2, i128>,
		n_w: F<3, u64>,
		n_v: F<4, u32>,
		n_u: F<5, u64>,
		n_t: F<6, u32>,
		n_s: F<7, u8>,
		n_r: F<8, u16>,
		n_q: F<9, i128>,
		n_p: F<10, u16>,
		n_o: F<11, i128>,
		n_n: F<12, u64>,
		n_m: F<13, u32>,
	},
}
#[derive(Serialize)]
#[repr(u8)]
enum Coded {
	/// with a value of its own
	B(F<1, u16>) = 5,
	#[allow(dead_code)]
	A { x: F<2, u8>, #[allow(unused)] y: F<3, u64> } = 3,
	C = 200,
}
#[derive(Serialize)]
enum GenE<'a, T, const N: usize>
where T: Copy
{
	First(&'static str_like::Unit, F<1, T>),
	Second { a: [F<2, u16>; N], b: Option<F<3, &'a u8>> },
	Third(Box<F<4, T>>, (F<5, u8>, F<6, u32>)),
}
mod str_like {
	pub struct Unit;
	impl<S: ser_raw::Serializer> ser_raw::Serialize<S> for &'static Unit {
		fn serialize_data(&self, _: &mut S) {
			super::note(77, *self as *const _ as usize);
		}
	}
}
#[derive(Serialize, Clone, Copy)]
#[repr(u16)]
enum Many {
	V0(F<0, u8>),
	V1(F<1, u8>),
	V2(F<2, u8>),
	V3(F<3, u8>),
	V4(F<4, u8>),
	V5(F<5, u8>),
	V6(F<6, u8>),
	V7(F<7, u8>),
	V8(F<8, u8>),
	V9(F<9, u8>),
	V10(F<10, u8>),
	V11(F<11, u8>),
	V12(F<12, u8>),
	V13(F<13, u8>),
	V14(F<14, u8>),
	V15(F<15, u8>),
	V16(F<16, u8>),
	V17(F<17, u8>),
	V18(F<18, u8>),
	V19(F<19, u8>),
	V20(F<20, u8>),
	V21(F<21, u8>),
	V22(F<22, u8>),
	V23(F<23, u8>),
	V24(F<24, u8>),
	V25(F<25, u8>),
	V26(F<26, u8>),
	V27(F<27, u8>),
	V28(F<28, u8>),
	V29(F<29, u8>),
	V30(F<30, u8>),
	V31(F<31, u8>),
	V32(F<32, u8>),
	V33(F<33, u8>),
	V34(F<34, u8>),
	V35(F<35, u8>),
	V36(F<36, u8>),
	V37(F<37, u8>),
	V38(F<38, u8>),
	V39(F<39, u8>),
	V40(F<40, u8>),
	V41(F<41, u8>),
	V42(F<42, u8>),
	V43(F<43, u8>),
	V44(F<44, u8>),
	V45(F<45, u8>),
	V46(F<46, u8>),
	V47(F<47, u8>),
	V48(F<48, u8>),
	V49(F<49, u8>),
	V50(F<50, u8>),
	V51(F<51, u8>),
	V52(F<52, u8>),
	V53(F<53, u8>),
	V54(F<54, u8>),
	V55(F<55, u8>),
	V56(F<56, u8>),
	V57(F<57, u8>),
	V58(F<58, u8>),
	V59(F<59, u8>),
	V60(F<60, u8>),
	V61(F<61, u8>),
	V62(F<62, u8>),
	V63(F<63, u8>),
	V64(F<64, u8>),
	V65(F<65, u8>),
	V66(F<66, u8>),
	V67(F<67, u8>),
	V68(F<68, u8>),
	V69(F<69, u8>),
	V70(F<70, u8>),
	V71(F<71, u8>),
	V72(F<72, u8>),
	V73(F<73, u8>),
	V74(F<74, u8>),
	V75(F<75, u8>),
	V76(F<76, u8>),
	V77(F<77, u8>),
	V78(F<78, u8>),
	V79(F<79, u8>),
	V80(F<80, u8>),
	V81(F<81, u8>),
	V82(F<82, u8>),
	V83(F<83, u8>),
	V84(F<84, u8>),
	V85(F<85, u8>),
	V86(F<86, u8>),
	V87(F<87, u8>),
	V88(F<88, u8>),
	V89(F<89, u8>),
	V90(F<90, u8>),
	V91(F<91, u8>),
	V92(F<92, u8>),
	V93(F<93, u8>),
	V94(F<94, u8>),
	V95(F<95, u8>),
	V96(F<96, u8>),
	V97(F<97, u8>),
	V98(F<98, u8>),
	V99(F<99, u8>),
	V100(F<100, u8>),
	V101(F<101, u8>),
	V102(F<102, u8>),
	V103(F<103, u8>),
	V104(F<104, u8>),
	V105(F<105, u8>),
	V106(F<106, u8>),
	V107(F<107, u8>),
	V108(F<108, u8>),
	V109(F<109, u8>),
	V110(F<110, u8>),
	V111(F<111, u8>),
	V112(F<112, u8>),
	V113(F<113, u8>),
	V114(F<114, u8>),
	V115(F<115, u8>),
	V116(F<116, u8>),
	V117(F<117, u8>),
	V118(F<118, u8>),
	V119(F<119, u8>),
	V120(F<120, u8>),
	V121(F<121, u8>),
	V122(F<122, u8>),
	V123(F<123, u8>),
	V124(F<124, u8>),
	V125(F<125, u8>),
	V126(F<126, u8>),
	V127(F<127, u8>),
	V128(F<128, u8>),
	V129(F<129, u8>),
	V130(F<130, u8>),
	V131(F<131, u8>),
	V132(F<132, u8>),
	V133(F<133, u8>),
	V134(F<134, u8>),
	V135(F<135, u8>),
	V136(F<136, u8>),
	V137(F<137, u8>),
	V138(F<138, u8>),
	V139(F<139, u8>),
	V140(F<140, u8>),
	V141(F<141, u8>),
	V142(F<142, u8>),
	V143(F<143, u8>),
	V144(F<144, u8>),
	V145(F<145, u8>),
	V146(F<146, u8>),
	V147(F<147, u8>),
	V148(F<148, u8>),
	V149(F<149, u8>),
	V150(F<150, u8>),
	V151(F<151, u8>),
	V152(F<152, u8>),
	V153(F<153, u8>),
	V154(F<154, u8>),
	V155(F<155, u8>),
	V156(F<156, u8>),
	V157(F<157, u8>),
	V158(F<158, u8>),
	V159(F<159, u8>),
	V160(F<160, u8>),
	V161(F<161, u8>),
	V162(F<162, u8>),
	V163(F<163, u8>),
	V164(F<164, u8>),
	V165(F<165, u8>),
	V166(F<166, u8>),
	V167(F<167, u8>),
	V168(F<168, u8>),
	V169(F<169, u8>),
	V170(F<170, u8>),
	V171(F<171, u8>),
	V172(F<172, u8>),
	V173(F<173, u8>),
	V174(F<174, u8>),
	V175(F<175, u8>),
	V176(F<176, u8>),
	V177(F<177, u8>),
	V178(F<178, u8>),
	V179(F<179, u8>),
	V180(F<180, u8>),
	V181(F<181, u8>),
	V182(F<182, u8>),
	V183(F<183, u8>),
	V184(F<184, u8>),
	V185(F<185, u8>),
	V186(F<186, u8>),
	V187(F<187, u8>),
	V188(F<188, u8>),
	V189(F<189, u8>),
	V190(F<190, u8>),
	V191(F<191, u8>),
	V192(F<192, u8>),
	V193(F<193, u8>),
	V194(F<194, u8>),
	V195(F<195, u8>),
	V196(F<196, u8>),
	V197(F<197, u8>),
	V198(F<198, u8>),
	V199(F<199, u8>),
	V200(F<200, u8>),
	V201(F<201, u8>),
	V202(F<202, u8>),
	V203(F<203, u8>),
	V204(F<204, u8>),
	V205(F<205, u8>),
	V206(F<206, u8>),
	V207(F<207, u8>),
	V208(F<208, u8>),
	V209(F<209, u8>),
	V210(F<210, u8>),
	V211(F<211, u8>),
	V212(F<212, u8>),
	V213(F<213, u8>),
	V214(F<214, u8>),
	V215(F<215, u8>),
	V216(F<216, u8>),
	V217(F<217, u8>),
	V218(F<218, u8>),
	V219(F<219, u8>),
	V220(F<220, u8>),
	V221(F<221, u8>),
	V222(F<222, u8>),
	V223(F<223, u8>),
	V224(F<224, u8>),
	V225(F<225, u8>),
	V226(F<226, u8>),
	V227(F<227, u8>),
	V228(F<228, u8>),
	V229(F<229, u8>),
	V230(F<230, u8>),
	V231(F<231, u8>),
	V232(F<232, u8>),
	V233(F<233, u8>),
	V234(F<234, u8>),
	V235(F<235, u8>),
	V236(F<236, u8>),
	V237(F<237, u8>),
	V238(F<238, u8>),
	V239(F<239, u8>),
	V240(F<240, u8>),
	V241(F<241, u8>),
	V242(F<242, u8>),
	V243(F<243, u8>),
	V244(F<244, u8>),
	V245(F<245, u8>),
	V246(F<246, u8>),
	V247(F<247, u8>),
	V248(F<248, u8>),
	V249(F<249, u8>),
	V250(F<250, u8>),
	V251(F<251, u8>),
	V252(F<252, u8>),
	V253(F<253, u8>),
	V254(F<254, u8>),
	V255(F<255, u8>),
	V256(F<256, u8>),
	V257(F<257, u8>),
	V258(F<258, u8>),
	V259(F<259, u8>),
}
fn wide() {
	let v = Wide { w_z: f(), w_y: f(), w_x: f(), w_w: f(), w_v: f(), w_u: f(), w_t: f(), w_s: f(), w_r: f(), w_q: f(), w_p: f(), w_o: f(), w_n: f(), w_m: f(), w_l: f(), w_k: f(), w_j: f(), w_i: f(), w_h: f(), w_g: f(), w_f: f(), w_e: f(), w_d: f(), w_c: f(), w_b: f(), w_a: f() };
	go(&v);
	logged([(0, at(&v.w_z)), (1, at(&v.w_y)), (2, at(&v.w_x)), (3, at(&v.w_w)), (4, at(&v.w_v)), (5, at(&v.w_u)), (6, at(&v.w_t)), (7, at(&v.w_s)), (8, at(&v.w_r)), (9, at(&v.w_q)), (10, at(&v.w_p)), (11, at(&v.w_o)), (12, at(&v.w_n)), (13, at(&v.w_m)), (14, at(&v.w_l)), (15, at(&v.w_k)), (16, at(&v.w_j)), (17, at(&v.w_i)), (18, at(&v.w_h)), (19, at(&v.w_g)), (20, at(&v.w_f)), (21, at(&v.w_e)), (22, at(&v.w_d)), (23, at(&v.w_c)), (24, at(&v.w_b)), (25, at(&v.w_a))]);
	let v = WideT(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f());
	go(&v);
	logged([(0, at(&v.0)), (1, at(&v.1)), (2, at(&v.2)), (3, at(&v.3)), (4, at(&v.4)), (5, at(&v.5)), (6, at(&v.6)), (7, at(&v.7)), (8, at(&v.8)), (9, at(&v.9)), (10, at(&v.10)), (11, at(&v.11)), (12, at(&v.12)), (13, at(&v.13)), (14, at(&v.14)), (15, at(&v.15)), (16, at(&v.16)), (17, at(&v.17)), (18, at(&v.18)), (19, at(&v.19)), (20, at(&v.20))]);
	let v = match range(0, 2) {
		0 => WideE::U,
		1 => WideE::T(f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()),
		_ => WideE::N { n_z: f(), n_y: f(), n_x: f(), n_w: f(), n_v: f(), n_u: f(), n_t: f(), n_s: f(), n_r: f(), n_q: f(), n_p: f(), n_o: f(), n_n: f(), n_m: f() },
	};
	go(&v);
	match &v {
		WideE::U => logged([]),
		WideE::T(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12) => logged([(0, at(x0)), (1, at(x1)), (2, at(x2)), (3, at(x3)), (4, at(x4)), (5, at(x5)), (6, at(x6)), (7, at(x7)), (8, at(x8)), (9, at(x9)), (10, at(x10)), (11, at(x11)), (12, at(x12))]),
		WideE::N { n_z, n_y, n_x, n_w, n_v, n_u, n_t, n_s, n_r, n_q, n_p, n_o, n_n, n_m } => logged([(0, at(n_z)), (1, at(n_y)), (2, at(n_x)), (3, at(n_w)), (4, at(n_v)), (5, at(n_u)), (6, at(n_t)), (7, at(n_s)), (8, at(n_r)), (9, at(n_q)), (10, at(n_p)), (11, at(n_o)), (12, at(n_n)), (13, at(n_m))]),
	}
}
fn coded() {
	let v = match range(0, 2) {
		0 => Coded::C,
		1 => Coded::B(f()),
		_ => Coded::A { x: f(), y: f() },
	};
	go(&v);
	match &v {
		Coded::C => logged([]),
		Coded::B(a) => logged([(1, at(a))]),
		Coded::A { x, y } => logged([(2, at(x)), (3, at(y))]),
	}
	static UNIT: str_like::Unit = str_like::Unit;
	let b = 3;
	let v: GenE<u16, 2> = match range(0, 2) {
		0 => GenE::First(&UNIT, f()),
		1 => GenE::Second { a: [f(), f()], b: if any() { Some(F(&b)) } else { None } },
		_ => GenE::Third(Box::new(f()), (f(), f())),
	};
	go(&v);
	match &v {
		GenE::First(u, x) => logged([(77, at(*u)), (1, at(x))]),
		GenE::Second { a, b: Some(b) } => logged([(2, at(&a[0])), (2, at(&a[1])), (3, at(b))]),
		GenE::Second { a, b: None } => logged([(2, at(&a[0])), (2, at(&a[1]))]),
		GenE::Third(x, (y, z)) => logged([(4, at(&**x)), (5, at(y)), (6, at(z))]),
	}
}
/// More variants than a byte counts
fn many() {
	let k = range(0, 259);
	// tag, then the field
	let v: Many = unsafe { *(&[k as u16, any()] as *const [u16; 2] as *const Many) };
	check!(size_of::<Many>() == 4, "tag and field");
	go(&v);
	check!(nlogged() == 1, "every field is serialized exactly once, and nothing else");
	let (id, a) = log_at(0);
	check!(id == k && a == at(&v) + 2, "the active variant's field is serialized");
}

const F0: u8 = VALUES | VERBATIM;

fn structs() {
	let v = Five { e: f(), d: f(), c: f(), b: f(), a: f() };
	go(&v);
	logged([(1, at(&v.e)), (2, at(&v.d)), (3, at(&v.c)), (4, at(&v.b)), (5, at(&v.a))]);
	let v = One(f());
	go(&v);
	logged([(1, at(&v.0))]);
	let v = Four(f(), f(), f(), f());
	go(&v);
	logged([(1, at(&v.0)), (2, at(&v.1)), (3, at(&v.2)), (4, at(&v.3))]);
	go(&Nothing);
	logged([]);
	go(&NoFields {});
	logged([]);
	let v = Outer { inner: Four(f(), f(), f(), f()), last: f() };
	go(&v);
	logged([(1, at(&v.inner.0)), (2, at(&v.inner.1)), (3, at(&v.inner.2)), (4, at(&v.inner.3)), (9, at(&v.last))]);
}
fn generics() {
	let x = 5;
	let v = Gen::<2> { x: F(&x), y: [f(), f()], z: Some(f()) };
	go(&v);
	logged([(1, at(&v.x)), (2, at(&v.y[0])), (2, at(&v.y[1])), (3, at(v.z.as_ref().unwrap()))]);
	let v = Gen::<0> { x: F(&x), y: [], z: None };
	go(&v);
	logged([(1, at(&v.x))]);
}
fn proxied() {
	let v = Proxied { a: f(), b: Foreign(any()), c: f(), d: Foreign(any()), e: f(), f: Foreign(any()) };
	go(&v);
	logged([(1, at(&v.a)), (102, at(&v.b)), (3, at(&v.c)), (204, at(&v.d)), (105, at(&v.e)), (306, at(&v.f))]);
	let v = ProxiedT(f(), Foreign(any()), f());
	go(&v);
	logged([(1, at(&v.0)), (202, at(&v.1)), (3, at(&v.2))]);
	let v = ProxiedU(f(), f(), f(), f(), f(), f());
	go(&v);
	logged([(101, at(&v.0)), (2, at(&v.1)), (103, at(&v.2)), (4, at(&v.3)), (5, at(&v.4)), (206, at(&v.5))]);
}
fn enums() {
	let v = match range(0, 7) {
		0 => E::U,
		1 => E::T1(f()),
		2 => E::T3(f(), f(), f()),
		3 => E::N1 { only: f() },
		4 => E::N3 { z: f(), y: f(), x: f() },
		5 => E::Empty(),
		6 => E::NoneN {},
		_ => E::Same(f(), f()),
	};
	go(&v);
	match &v {
		E::U | E::Empty() | E::NoneN {} => logged([]),
		E::T1(a) => logged([(1, at(a))]),
		E::T3(a, b, c) => logged([(2, at(a)), (3, at(b)), (4, at(c))]),
		E::N1 { only } => logged([(5, at(only))]),
		E::N3 { z, y, x } => logged([(6, at(z)), (7, at(y)), (8, at(x))]),
		E::Same(a, b) => logged([(9, at(a)), (9, at(b))]),
	}
}
fn enums2() {
	let v = if any() { AllData::A(f(), f()) } else { AllData::B { serializer: f(), val: f() } };
	go(&v);
	match &v {
		AllData::A(a, b) => logged([(1, at(a)), (2, at(b))]),
		AllData::B { serializer, val } => logged([(3, at(serializer)), (4, at(val))]),
	}
	go(&if any() { Units::A } else { Units::B });
	logged([]);
	let v = Single::Only { a: f(), b: f() };
	go(&v);
	let Single::Only { a, b } = &v;
	logged([(1, at(a)), (2, at(b))]);
}
/// Containers the derived code delegates to: each element exactly once, in order
fn containers() {
	let v: (F<1, u8>, F<2, u64>, F<3, u8>) = (f(), f(), f());
	go(&v);
	logged([(1, at(&v.0)), (2, at(&v.1)), (3, at(&v.2))]);
	let v: [F<1, u32>; 3] = [f(), f(), f()];
	go(&v);
	logged([(1, at(&v[0])), (1, at(&v[1])), (1, at(&v[2]))]);
	let v: Option<F<4, u32>> = if any() { Some(f()) } else { None };
	go(&v);
	match &v {
		Some(x) => logged([(4, at(x))]),
		None => logged([]),
	}
	let v: Box<F<5, u32>> = Box::new(f());
	go(&v);
	logged([(5, at(&*v))]);
}
fn vectors() {
	const M: usize = if NATIVE { 32 } else { 3 };
	let n = range(0, M);
	let mut v: Vec<F<6, u16>> = Vec::with_capacity(M + 1);
	unsafe {
		for i in 0..M {
			std::ptr::write(v.as_mut_ptr().add(i), f());
		}
		v.set_len(n);
	}
	go(&v);
	unsafe {
		check!(nlogged() == n, "every element is serialized exactly once, and nothing else");
		let mut i = 0;
		while i < n {
			check!(log_at(i) == (6, at(&v[i])), "elements are serialized in order, each from its own place");
			i += 1;
		}
	}
}
harnesses! {
	// structural induction: fields of any type
	plain i_dnamed [5] = data::<APure, DNamed>(F0);
	plain i_dtuple [5] = data::<APure, DTuple>(F0);
	plain i_dnest [5] = data::<APure, DNest>(F0);
	plain i_denum [5] = data::<APure, DEnum>(F0);
	plain i_dnamed_c [5] = data::<AComplete, DNamed>(F0 | FOLLOW);
	plain i_denum_c [5] = data::<AComplete, DEnum>(F0 | FOLLOW);
	plain i_array [5] = data::<APure, [P10; 3]>(F0);
	loops l_array_p4 [5] = data_array::<APure, P4, 260>(F0);
	plain i_tuple [5] = data::<APure, (P1, Option<P24>, P4, P3)>(F0);
	loops l_vec_p2 [5] = data_loop::<APure, Vec<P2>, P2>(F0);
	loops l_vec_p10 [5] = data_loop::<APure, Vec<P10>, P10>(F0);
	loops l_vec_d [5] = data_loop::<APure, (P2, Vec<P4>, P1), P4>(F0);
	plain h_structs [8] = structs();
	plain h_generics [8] = generics();
	plain h_proxied [8] = proxied();
	plain h_enums [8] = enums();
	plain h_enums2 [8] = enums2();
	plain h_wide [34] = wide();
	plain h_coded [8] = coded();
	plain h_many [8] = many();
	plain h_containers [8] = containers();
	native n_vectors [8] = vectors();
	plain h_tuples_16 [34] = all_tuples(0, 16);
	plain h_tuples_32 [34] = all_tuples(16, 32);
	plain h_named_bytes [5] = whole::<APure, (Tuple, Option<Tuple>)>(VALUES | VERBATIM);
}
