//! One module per group of properties.
use crate::runner::Prop;

pub mod core;
mod append;
mod cfgs;
mod codec;
mod conc;
mod excl;
mod fault;
mod format;
mod huge;
mod mock;
mod parts;
pub mod proofs;
pub mod range;
mod restore;
mod prune;

pub fn all() -> &'static [&'static dyn Prop] {
    static ALL: &[&dyn Prop] = &[&core::C01, &core::C02, &core::C03, &proofs::C04, &excl::C05, &excl::C06, &proofs::C07, &proofs::C08, &prune::C09, &prune::C10, &core::C11, &prune::C12, &prune::C13, &prune::C14, &range::C15, &range::C16, &restore::C17, &restore::C18, &restore::C19, &codec::C20, &append::C21, &fault::C22, &fault::C23, &mock::C24, &cfgs::C25, &conc::C26, &parts::C27, &format::C28, &huge::C29];
    ALL
}

/// Call a generic function with the hasher the case asks for.
#[macro_export]
macro_rules! with_hasher {
    ($h:expr, $f:ident($($a:expr),*)) => {
        match $h {
            1 => $f::<$crate::hasher::B3>($($a),*),
            2 => $f::<$crate::hasher::IdHash>($($a),*),
            3 => $f::<$crate::hasher::Sha512>($($a),*),
            4 => $f::<$crate::hasher::Keyed>($($a),*),
            _ => $f::<$crate::hasher::Sha>($($a),*),
        }
    };
}
