#![no_std]
#![allow(clippy::all)]

#[macro_use]
pub mod vp;
pub mod refs {
    pub mod astc;
    pub mod bc;
    pub mod bptc;
    #[cfg(feature = "alloc")]
    pub mod crunch;
    pub mod etc;
    pub mod pvrtc;
}
pub mod astc;
pub mod bc;
#[cfg(feature = "alloc")]
pub mod crunch;
pub mod etc;
pub mod image;
pub mod pvrtc;

macro_rules! table {
    ($($(#[$a:meta])* $m:ident :: $f:ident),* $(,)?) => {
        pub static TABLE: &[(&str, extern "C" fn())] = &[$($(#[$a])* (stringify!($f), $m::$f)),*];
    };
}
table! {
    bc::h_bc1, bc::h_bc1a, bc::h_bc2, bc::h_bc3, bc::h_bc4, bc::h_bc5, bc::h_bc45_image,
    bc::h_bc6u, bc::h_bc6s, bc::h_bc7, bc::h_atc_rgb, bc::h_atc_rgba,
    etc::h_etc1, etc::h_etc2_rgb, etc::h_etc2_rgba1, etc::h_etc2_rgba8, etc::h_etc2_a8, etc::h_eac, etc::h_eac_channel, etc::h_eac_image,
    image::h_layout, image::h_layout_big, image::h_layout_astc, image::h_short, image::h_short_bc6, image::h_short_astc, image::h_astc_badsize, image::h_short_pvrtc,
    pvrtc::h_pvrtc4, pvrtc::h_pvrtc2, pvrtc::h_pvrtc4_one, pvrtc::h_pvrtc2_one,
    astc::h_astc_void, astc::h_astc_illegal, astc::h_astc_one, astc::h_astc_modes, astc::h_astc_grids, astc::h_astc_part, astc::h_astc_ranges, astc::h_astc_ldr, astc::h_astc_hdr, astc::h_astc_cem, astc::h_astc_dual, astc::h_astc_interp, 
    #[cfg(feature = "alloc")] crunch::h_crn, #[cfg(feature = "alloc")] crunch::h_crn_info, #[cfg(feature = "alloc")] crunch::h_huff_small, #[cfg(feature = "alloc")] crunch::h_huff_table, #[cfg(feature = "alloc")] crunch::h_huff_runs, #[cfg(feature = "alloc")] crunch::h_huff_lens, #[cfg(feature = "alloc")] crunch::h_bad_lens, #[cfg(feature = "alloc")] crunch::h_bad_num, #[cfg(feature = "alloc")] crunch::h_bad_section, #[cfg(feature = "alloc")] crunch::h_bad_levels, #[cfg(feature = "alloc")] crunch::h_bad_size, #[cfg(feature = "alloc")] crunch::h_bad_cut, 
    image::h_block_total, image::h_same_astc, image::h_same_bc6, image::h_same_bc6_block, image::h_same_pvrtc,
}
