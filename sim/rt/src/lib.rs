//! Generated code of the schemas under simulation, and the glue to it.

pub mod api;

#[allow(warnings)]
pub mod gen {
    include!(concat!(env!("OUT_DIR"), "/gen_mod.rs"));
}

#[allow(warnings)]
pub mod glue {
    use crate::api::*;
    use bp3d_proto::message::{FromSlice, FromSliceWithOffsets, WriteTo};
    use bp3d_proto::util::FixedSize;
    use simcore::refcodec::{ListVal, Off, Seen, Val};
    use simcore::sut::sut;
    use std::io::Write;
    include!(concat!(env!("OUT_DIR"), "/glue.rs"));
}
