//! Points of the BLS curves outside the groups of prime order. Added to a signature or a public key they change no
//! pairing, so that only the group checks tell the altered value from the genuine one.

use blst::*;
use std::sync::OnceLock;
use tn_types::{BlsPublicKey, BlsSignature};

/// the order of the groups, most significant byte first
const R: [u8; 32] = [
    0x73, 0xed, 0xa7, 0x53, 0x29, 0x9d, 0x7d, 0x48, 0x33, 0x39, 0xd8, 0x08, 0x09, 0xa1, 0xd8, 0x05, 0x53, 0xbd, 0xa4, 0x02, 0xff,
    0xfe, 0x5b, 0xfe, 0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x01,
];

fn t1() -> &'static Vec<blst_p1> {
    static T: OnceLock<Vec<blst_p1>> = OnceLock::new();
    T.get_or_init(|| {
        let mut out = vec![];
        for x in 1..=255u8 {
            let mut b = [0u8; 48];
            b[0] = 0x80;
            b[47] = x;
            unsafe {
                let mut a = blst_p1_affine::default();
                if blst_p1_uncompress(&mut a, b.as_ptr()) != BLST_ERROR::BLST_SUCCESS {
                    continue;
                }
                let (mut p, mut acc) = (blst_p1::default(), blst_p1::default());
                blst_p1_from_affine(&mut p, &a);
                for bit in (0..256).rev() {
                    let t = acc;
                    blst_p1_double(&mut acc, &t);
                    if R[31 - bit / 8] >> (bit % 8) & 1 == 1 {
                        let t = acc;
                        blst_p1_add_or_double(&mut acc, &t, &p);
                    }
                }
                if !blst_p1_is_inf(&acc) {
                    out.push(acc);
                }
            }
            if out.len() == 6 {
                break;
            }
        }
        out
    })
}

fn t2() -> &'static Vec<blst_p2> {
    static T: OnceLock<Vec<blst_p2>> = OnceLock::new();
    T.get_or_init(|| {
        let mut out = vec![];
        for x in 1..=255u8 {
            let mut b = [0u8; 96];
            b[0] = 0x80;
            b[95] = x;
            unsafe {
                let mut a = blst_p2_affine::default();
                if blst_p2_uncompress(&mut a, b.as_ptr()) != BLST_ERROR::BLST_SUCCESS {
                    continue;
                }
                let (mut p, mut acc) = (blst_p2::default(), blst_p2::default());
                blst_p2_from_affine(&mut p, &a);
                for bit in (0..256).rev() {
                    let t = acc;
                    blst_p2_double(&mut acc, &t);
                    if R[31 - bit / 8] >> (bit % 8) & 1 == 1 {
                        let t = acc;
                        blst_p2_add_or_double(&mut acc, &t, &p);
                    }
                }
                if !blst_p2_is_inf(&acc) {
                    out.push(acc);
                }
            }
            if out.len() == 6 {
                break;
            }
        }
        out
    })
}

/// The signature moved out of its group; None if the bytes of such a point are refused when they are read.
pub fn off_group_sig(s: &BlsSignature, which: usize) -> Option<BlsSignature> {
    let t = &t1()[which % t1().len()];
    let mut out = [0u8; 48];
    unsafe {
        let (mut a, mut p, mut q) = (blst_p1_affine::default(), blst_p1::default(), blst_p1::default());
        if blst_p1_uncompress(&mut a, s.to_bytes().as_ptr()) != BLST_ERROR::BLST_SUCCESS {
            return None;
        }
        blst_p1_from_affine(&mut p, &a);
        blst_p1_add_or_double(&mut q, &p, t);
        blst_p1_compress(out.as_mut_ptr(), &q);
    }
    BlsSignature::from_bytes(&out).ok()
}

/// The public key moved out of its group; None if the bytes of such a point are refused when they are read.
pub fn off_group_key(k: &BlsPublicKey, which: usize) -> Option<BlsPublicKey> {
    let t = &t2()[which % t2().len()];
    let mut out = [0u8; 96];
    unsafe {
        let (mut a, mut p, mut q) = (blst_p2_affine::default(), blst_p2::default(), blst_p2::default());
        if blst_p2_uncompress(&mut a, k.to_bytes().as_ptr()) != BLST_ERROR::BLST_SUCCESS {
            return None;
        }
        blst_p2_from_affine(&mut p, &a);
        blst_p2_add_or_double(&mut q, &p, t);
        blst_p2_compress(out.as_mut_ptr(), &q);
    }
    BlsPublicKey::from_literal_bytes(&out).ok()
}
