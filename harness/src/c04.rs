//! C04: encoded frames have the layout the protocol specifies, byte for byte.
use crate::gen::*;
use crate::*;
use binate::frame::codec::*;
use binate::frame::*;

fn layout<T: Case>(p: P) {
    let g = T::gen(p);
    g.segs.check(&g.f.to_bytes());
}
fn frame<T: Case>(p: P) {
    let g = T::gen(p);
    g.segs.check(&T::wrap(g.f).to_bytes());
}

pub mod none {
    use super::*;
    per_type!(34, layout(P0));
}
pub mod data {
    use super::*;
    per_type!(34, layout(PD));
}
pub mod through_frame {
    use super::*;
    per_type!(34, frame(PD));
}
macro_rules! more {
    ($m:ident, $p:expr) => {
        pub mod $m {
            use super::*;
            harness!(setup(34) { layout::<SetupFrame>($p) });
            harness!(request_response(34) { layout::<RequestResponseFrame>($p) });
            harness!(request_fnf(34) { layout::<RequestFnfFrame>($p) });
            harness!(request_stream(34) { layout::<RequestStreamFrame>($p) });
            harness!(request_channel(34) { layout::<RequestChannelFrame>($p) });
            harness!(payload(34) { layout::<PayloadFrame>($p) });
        }
    };
}
more!(meta, PM);
more!(both, PMD);
more!(empty, PE);
pub mod token {
    use super::*;
    harness!(setup(34) { layout::<SetupFrame>(PT) });
    harness!(setup_all(34) { layout::<SetupFrame>(PTMD) });
    harness!(setup_bare(34) { layout::<SetupFrame>(PR) });
    harness!(resume(34) { layout::<ResumeFrame>(PT) });
}
