//! Stand-in for the part of `bytemuck` the prover's input adapter uses.
pub use bytemuck_derive_shim::{Pod, Zeroable};
/// # Safety
/// All-zero bytes are a value of the type.
pub unsafe trait Zeroable {}
/// # Safety
/// Any bytes are a value of the type, without padding.
pub unsafe trait Pod: Zeroable + Copy + 'static {}
unsafe impl Zeroable for u32 {}
unsafe impl Pod for u32 {}
pub fn bytes_of_mut<T: Pod>(t: &mut T) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(t as *mut T as *mut u8, std::mem::size_of::<T>()) } }
pub fn bytes_of<T: Pod>(t: &T) -> &[u8] { unsafe { std::slice::from_raw_parts(t as *const T as *const u8, std::mem::size_of::<T>()) } }
