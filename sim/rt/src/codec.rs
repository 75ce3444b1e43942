//! The codecs on their own, as code outside the generated structures uses them: any field over a buffer of any fitting length.

use bp3d_proto::codec::*;
use crate::world::hex;
use simcore::ctx::{Ctx, Run};
use simcore::refcodec::*;
use simcore::schema::*;
use simcore::sut::sut;
use simcore::{ensure, ev};

struct Cell {
    name: &'static str,
    endian: Endian,
    /// Size of the type values are passed in.
    size: usize,
    off: usize,
    bits: usize,
    /// A whole number, not a bit field.
    whole: bool,
    read: fn(&[u8]) -> u64,
    write: fn(&mut [u8], u64),
}

macro_rules! bit_cells {
    ($($t: ty: $(($off: literal, $bits: literal))*;)*) => {
        &[$($(
            Cell { name: concat!("BitCodecLE::<", stringify!($t), ",", $off, ",", $bits, ">"), endian: Endian::Little, size: size_of::<$t>(), off: $off, bits: $bits, whole: false,
                read: |b| BitCodecLE::read::<$t, $off, $bits>(b) as u64, write: |b, v| BitCodecLE::write::<$t, $off, $bits>(b, v as $t) },
            Cell { name: concat!("BitCodecBE::<", stringify!($t), ",", $off, ",", $bits, ">"), endian: Endian::Big, size: size_of::<$t>(), off: $off, bits: $bits, whole: false,
                read: |b| BitCodecBE::read::<$t, $off, $bits>(b) as u64, write: |b, v| BitCodecBE::write::<$t, $off, $bits>(b, v as $t) },
        )*)*]
    };
}

macro_rules! byte_cells {
    ($($t: ty),*) => {
        &[$(
            Cell { name: concat!("ByteCodecLE::<", stringify!($t), ">"), endian: Endian::Little, size: size_of::<$t>(), off: 0, bits: 0, whole: true,
                read: |b| ByteCodecLE::read::<$t>(b) as u64, write: |b, v| ByteCodecLE::write::<$t>(b, v as $t) },
            Cell { name: concat!("ByteCodecBE::<", stringify!($t), ">"), endian: Endian::Big, size: size_of::<$t>(), off: 0, bits: 0, whole: true,
                read: |b| ByteCodecBE::read::<$t>(b) as u64, write: |b, v| ByteCodecBE::write::<$t>(b, v as $t) },
        )*]
    };
}

const BITS: &[Cell] = bit_cells! {
    u8: (0, 1) (0, 5) (3, 2) (7, 1) (1, 7) (6, 4) (7, 8) (0, 8) (5, 7);
    u16: (0, 9) (4, 12) (7, 9) (1, 15) (0, 16) (3, 15) (7, 16) (2, 3);
    u32: (0, 17) (0, 24) (5, 20) (7, 17) (7, 25) (3, 29) (1, 31) (4, 32) (0, 32) (6, 31) (2, 4);
    u64: (0, 33) (0, 40) (3, 45) (7, 48) (5, 51) (7, 57) (1, 63) (0, 63) (6, 34) (2, 6);
};

const BYTES: &[Cell] = byte_cells!(u8, u16, u32, u64);

pub fn run(ctx: &mut Ctx) -> Run {
    let c = if ctx.below(4) == 0 { ctx.pick(BYTES) } else { ctx.pick(BITS) };
    // The shortest buffer that holds it, or a longer one.
    let (len, off, bits) = if c.whole {
        let len = ctx.range(1, c.size);
        (len, 0, 8 * len)
    } else {
        (ctx.range((c.off + c.bits + 7) / 8, 8), c.off, c.bits)
    };
    let before = ctx.below(4);
    let total = before + len + ctx.below(4);
    let mut mem = match ctx.below(3) {
        0 => vec![0; total],
        1 => vec![0xFF; total],
        _ => ctx.bytes(total),
    };
    let mut model = mem.clone();
    let name = format!("{} over {len} bytes", c.name);
    ctx.count("probe.codec");
    for _ in 0..ctx.range(1, 6) {
        ctx.now += 1;
        let part = before..before + len;
        if ctx.below(2) == 0 {
            let want = get_bits(&model[part.clone()], off, bits, c.endian);
            let got = sut(|| (c.read)(&mem[part]));
            ev!(ctx, "codec-read", "{name}: {got:#x}");
            ensure!(got == want, "codec", "{name}: read {got:#x}, expected {want:#x} ({})", hex(&model));
        } else {
            let v = ctx.draw64();
            // Wider than the field, as far as the type allows.
            let v = if c.size < 8 { v & mask(8 * c.size) } else { v };
            ev!(ctx, "codec-write", "{name}: {v:#x}");
            sut(|| (c.write)(&mut mem[part.clone()], v));
            set_bits(&mut model[part], off, bits, c.endian, v & mask(bits));
            ensure!(mem == model, "codec", "{name}: after writing {v:#x} memory is {}, expected {}", hex(&mem), hex(&model));
        }
    }
    ctx.nontrivial = true;
    Ok(())
}
