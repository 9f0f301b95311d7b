#![allow(static_mut_refs, unused_macros, dead_code, unused_imports)]
#![cfg_attr(all(kani, feature = "machine"), feature(allocator_api))]
#[macro_use]
mod nd;
pub mod cut;
pub mod gen;
pub mod mk;
#[cfg(feature = "machine")]
#[macro_use]
pub mod race;
pub mod seg;
pub mod spec;
#[cfg(not(kani))]
pub mod rt;

/// One harness per frame type.
macro_rules! per_type {
    ($unwind:expr, $f:ident($($a:expr),*)) => {
        harness!(setup($unwind) { $f::<SetupFrame>($($a),*) });
        harness!(lease($unwind) { $f::<LeaseFrame>($($a),*) });
        harness!(keepalive($unwind) { $f::<KeepaliveFrame>($($a),*) });
        harness!(request_response($unwind) { $f::<RequestResponseFrame>($($a),*) });
        harness!(request_fnf($unwind) { $f::<RequestFnfFrame>($($a),*) });
        harness!(request_stream($unwind) { $f::<RequestStreamFrame>($($a),*) });
        harness!(request_channel($unwind) { $f::<RequestChannelFrame>($($a),*) });
        harness!(request_n($unwind) { $f::<RequestNFrame>($($a),*) });
        harness!(cancel($unwind) { $f::<CancelFrame>($($a),*) });
        harness!(payload($unwind) { $f::<PayloadFrame>($($a),*) });
        harness!(error($unwind) { $f::<ErrorFrame>($($a),*) });
        harness!(metadata_push($unwind) { $f::<MetadataPushFrame>($($a),*) });
        harness!(resume($unwind) { $f::<ResumeFrame>($($a),*) });
        harness!(resume_ok($unwind) { $f::<ResumeOkFrame>($($a),*) });
    };
}

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod p01;
pub mod p02;
pub mod p03;
pub mod p04;
pub mod b01;
pub mod b02;
pub mod w01;
pub mod t01;
#[cfg(feature = "machine")]
pub mod r01;
pub mod e01;
#[cfg(feature = "machine")]
pub mod world;
#[cfg(feature = "machine")]
pub mod s01;
#[cfg(feature = "machine")]
pub mod m01;
#[cfg(feature = "machine")]
pub mod m02;
#[cfg(feature = "machine")]
pub mod m03;
