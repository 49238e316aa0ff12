mod records;
mod buf;
mod validate;
mod trust;
mod resolve;
pub mod builder;
mod hostile;
mod bystander;
mod scenario;
mod http;
#[cfg(feature = "net")]
mod net;
#[cfg(feature = "wasm")]
mod wasm;
#[cfg(feature = "wasm")]
mod js;

use crate::engine::Prop;

pub fn all() -> Vec<Prop> {
	let mut v = vec![
		hostile::c01(),
		records::c02(), records::c03(), records::c04(), records::c05(), records::c06(),
		validate::c07(), validate::c08(), trust::c09(), trust::c10(), trust::c11(), validate::c12(), validate::c13(), trust::c14(), validate::c15(), trust::c16(), resolve::c17(), builder::c18(), builder::c19(), builder::c20(), buf::c22(), http::c23(), bystander::c26(),
	];
	#[cfg(feature = "net")]
	v.push(net::c21());
	#[cfg(feature = "wasm")]
	v.push(wasm::c24());
	#[cfg(feature = "wasm")]
	v.push(js::c25());
	v
}
