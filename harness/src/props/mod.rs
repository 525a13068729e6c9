use crate::engine::Property;
pub mod common;
pub mod foreign;
pub mod p_foreign;
pub mod p_again;
pub mod p_bad;
pub mod p_big;
pub mod p_cont;
pub mod p_cycles;
pub mod p_damage;
pub mod types;
pub mod p_buffer;
pub mod p_layout;
pub mod p_show;
pub mod p_derive;
pub mod p_tools;
pub mod p_user;
pub mod p_write;

/// Each family of properties is a feature, so that one check builds no more than it runs.
#[allow(unused_mut)]
pub fn all() -> Vec<Property> {
    let mut v: Vec<Property> = vec![];
    #[cfg(feature = "write")]
    v.extend(p_write::properties());
    #[cfg(feature = "layout")]
    v.extend(p_layout::properties());
    #[cfg(feature = "buffer")]
    v.extend(p_buffer::properties());
    #[cfg(feature = "bad")]
    v.extend(p_bad::properties());
    #[cfg(feature = "foreign")]
    v.extend(p_foreign::properties());
    #[cfg(feature = "foreign")]
    v.extend(p_damage::properties());
    #[cfg(feature = "foreign")]
    v.extend(p_cycles::properties());
    #[cfg(feature = "cont")]
    v.extend(p_cont::properties());
    #[cfg(feature = "big")]
    v.extend(p_big::properties());
    #[cfg(feature = "show")]
    v.extend(p_show::properties());
    #[cfg(feature = "tools")]
    v.extend(p_tools::properties());
    #[cfg(feature = "derive")]
    v.push(p_derive::c13());
    #[cfg(feature = "derive")]
    v.push(p_derive::c14());
    #[cfg(feature = "user")]
    v.extend(p_user::properties());
    #[cfg(feature = "again")]
    v.extend(p_again::properties());
    v.sort_by_key(|p| p.id);
    v
}
