//! The schemas under simulation: a hand-written set that covers every construct, and protocols drawn from a seed.

use crate::rng::Rng;
use crate::schema::*;

pub fn fixed() -> Vec<Proto> {
    let base = Proto {
        name: "base".into(),
        endian: None,
        enums: vec![
            en("Color", &[("Red", 0), ("Green", 1), ("Blue", 2), ("Pink", 3)]),
            en("Gap", &[("A", 0), ("C", 2), ("F", 5)]),
            en("Sparse", &[("Two", 2), ("Nine", 9), ("Big", 200)]),
            en("Wide", &[("Zero", 0), ("Mid", 300), ("Top", 4000)]),
            en("One", &[("Only", 1)]),
            // Values that agree in their low byte, low half or low word.
            en("Far", &[("Near", 1), ("Page", 257), ("Bank", 65537), ("Top", 0x0100_0001)]),
            // Values of more than 32 bits, which agree in their low half.
            en("Huge", &[("Low", 2), ("High", 0x2_0000_0002), ("Page", 0x1_0000_0002), ("Top", 0xFFFF_FFFF_FFFF)]),
            // Names which differ in case only.
            en("Fold", &[("AB", 2), ("Ab", 1), ("aB", 0)]),
            en("Kind", &[("Null", 0), ("Text", 1), ("Num", 2), ("Pair", 3), ("Blob", 4), ("Deep", 6), ("Big", 7)]),
        ],
        structs: vec![
            // Takes no bytes at all.
            st("Void", vec![]),
            st("Hollow", vec![u("a", 5), u("b", 3), sub("v", "Void"), u("c", 12)]),
            st("Byte", vec![u("v", 8)]),
            st("Half", vec![u("v", 16)]),
            st("Word", vec![u("v", 32)]),
            st("Long", vec![u("v", 64)]),
            st("Tri", vec![u("v", 24)]),
            st("SByte", vec![i("v", 8)]),
            st("SLong", vec![i("v", 64)]),
            st("Flag", vec![b("v", 8)]),
            st("Real", vec![fl("v", 32)]),
            st("Dreal", vec![fl("v", 64)]),
            st("Packed", vec![u("a", 3), u("b", 5), i("c", 4), u("d", 12), b("e", 1), i("f", 7)]),
            st("Pair", vec![u("x", 16), i("y", 16)]),
            st("Colors", vec![u("a", 2).en("Color"), u("b", 4).en("Gap"), u("c", 8).en("Sparse"), u("d", 12).en("Wide"), u("e", 6).en("One")]),
            // A variant that does not fit the field is a known finding; the others have to work.
            st("Narrow", vec![u("s", 4).en("Sparse"), u("n", 4), u("r", 6).en("Sparse"), u("m", 2)]),
            st("Header", vec![u("kind", 4).en("Kind"), u("seq", 12)]),
            st("Switch", vec![b("on", 1), u("pad", 7)]),
            st("Inner", vec![u("tag", 8), u("ver", 8)]),
            st("Tag16", vec![u("t", 16), u("n", 8)]),
            st("Tag32", vec![u("t", 32), u("n", 8)]),
            st("Tag64", vec![u("n", 8), u("t", 64)]),
            st("TagOdd", vec![u("tn", 3), u("t", 20), u("te", 1)]),
            st("TagFar", vec![u("t", 32).en("Far"), u("n", 16)]),
            st("TagHuge", vec![u("t", 48).en("Huge"), u("n", 9), u("o", 48).en("Huge"), u("p", 7)]),
            st("TagFold", vec![u("t", 4).en("Fold"), u("n", 12)]),
            st("TagCase", vec![u("X", 8), u("x", 8)]),
            st("TagSigned", vec![i("t", 8), i("s", 12), u("n", 4)]),
            st("TagBool", vec![b("t", 3), u("n", 13)]),
            st("Outer", vec![u("lead", 8), sub("inner", "Inner"), u("tail", 16)]),
            // What is nested does not fill its last byte, and what follows starts there.
            st("Nib", vec![u("a", 7), u("b", 5)]),
            st("Nested", vec![u("lead", 16), sub("i", "Nib"), u("k", 4), sub("j", "Nib"), u("m", 13), u("n", 7)]),
            st("Scaled", vec![fl("t", 10).range(-40.0, 85.0), fl("p", 14).mult(0.25), fl("q", 24).range(0.0, 1.0), i("s", 12), fl("r", 20).range(100.0, 101.0)]),
            st("Scales", vec![fl("a", 16).mult(1.25e-13), fl("b", 20).mult(-0.5), fl("c", 12).mult(3e9), fl("d", 30).mult(3.3e-7), fl("e", 32).mult(1e-9), fl("f", 10).range(5.0, -5.0), fl("g", 33).range(-1e-6, 1e-6), fl("h", 7).mult(1.0 / 3.0)]),
            st("Arrays", vec![u("n", 8), u("bytes", 8).arr(6), u("tri", 24).arr(3), i("half", 16).arr(2), fl("real", 32).arr(2), u("end", 8)]),
            st("Items", vec![i("a", 24).arr(3), i("b", 40).arr(2), u("c", 56).arr(2), i("d", 48).arr(2)]),
            st("Bits", vec![b("f0", 1), b("f1", 1), u("f2", 2), i("f3", 3), b("f4", 1), b("w", 9), u("x", 7)]),
            st("Wide64", vec![u("a", 33), i("b", 31), u("c", 40), i("d", 24)]),
            st("Native", vec![i("a", 8), i("b", 16), i("c", 32), i("d", 64), fl("e", 32), fl("f", 64), b("g", 16), u("h", 48)]),
        ],
        msgs: vec![
            msg("Text", vec![nul("data")]),
            msg("Label", vec![vstr("data", 40)]),
            msg("Point", vec![item("x", "Half"), item("p", "Packed")]),
            msg("Deep", vec![item("l", "Label"), item("t", "Text").opt(), item("p", "Pair").opt()]),
        ],
        ..Proto::default()
    };
    let big_base = Proto {
        name: "bigbase".into(),
        endian: Some(Endian::Big),
        enums: vec![en("BKind", &[("Null", 0), ("Text", 1), ("Num", 2), ("Pair", 5), ("Deep", 9)])],
        structs: vec![
            st("BByte", vec![u("v", 8)]),
            st("BHalf", vec![u("v", 16)]),
            st("BWord", vec![u("v", 32)]),
            st("BLong", vec![u("v", 64)]),
            st("BTri", vec![u("v", 24)]),
            st("BReal", vec![fl("v", 32)]),
            st("BPacked", vec![u("a", 3), u("b", 5), i("c", 4), u("d", 12), b("e", 1), i("f", 7)]),
            st("BPair", vec![u("x", 16), i("y", 16)]),
            st("BHeader", vec![u("kind", 4).en("BKind"), u("seq", 12)]),
            st("BTag", vec![u("n", 4), u("t", 20), u("w", 32)]),
            st("BTag64", vec![u("t", 64), u("n", 8)]),
            st("BArrays", vec![u("n", 8), u("bytes", 8).arr(3), u("tri", 24).arr(2), i("half", 16).arr(2), fl("real", 64).arr(2)]),
            st("BNumbers", vec![i("a", 4), u("b", 4), i("c", 17), u("d", 7)]),
            st("BItems", vec![i("a", 24).arr(3), i("b", 56).arr(2), u("c", 40).arr(2)]),
            st("BScaled", vec![fl("t", 12).range(-1.0, 3.0), fl("p", 4).mult(2.0), i("s", 24), u("w", 40), fl("x", 11).mult(7.5e-12), fl("y", 5).range(1e9, 1e6)]),
            st("BNib", vec![u("a", 7), u("b", 5)]),
            st("BNested", vec![sub("i", "BNib"), u("k", 4), sub("j", "BNib"), u("m", 13), u("n", 7), u("tail", 24)]),
            st("BOuter", vec![u("lead", 8), sub("inner", "BPair"), u("tail", 32)]),
        ],
        msgs: vec![
            msg("BText", vec![nul("data")]),
            msg("BLabel", vec![vstr("data", 300)]),
            msg("BDeep", vec![item("l", "BLabel"), item("n", "BTri"), item("t", "BText").opt()]),
        ],
        ..Proto::default()
    };
    let imp = |p: &str, t: &[&str]| t.iter().map(|t| (p.to_string(), t.to_string())).collect::<Vec<_>>();
    let main = Proto {
        name: "core".into(),
        endian: Some(Endian::Little),
        imports: imp(
            "base",
            &[
                "Void", "Hollow", "Kind", "Color", "Byte", "Half", "Word", "Long", "Tri", "SByte", "SLong", "Flag", "Real", "Dreal", "Packed", "Pair", "Colors",
                "Tag16", "Tag32", "Tag64", "TagOdd", "TagFar", "TagHuge", "TagFold", "TagCase", "Scales", "TagSigned", "TagBool", "Header", "Switch", "Outer", "Nested", "Scaled", "Arrays", "Items", "Bits", "Native", "Text", "Label", "Point", "Deep",
            ],
        ),
        structs: vec![
            st("Frame", vec![u("no", 8), sub("head", "Header"), u("crc", 16)]),
            st("Mode", vec![u("m", 3).en("Color"), u("rest", 5)]),
            st("Nest2", vec![sub("frame", "Frame"), sub("p", "Packed")]),
            // Fields that cross byte boundaries.
            st("Cross", vec![u("a", 6), u("b", 6), i("c", 10), u("d", 2), u("e", 5), u("f", 8), u("g", 3), u("h", 7), u("i", 32), u("j", 1)]),
            st("Cross64", vec![u("a", 5), u("b", 58), u("c", 1), i("d", 3), i("e", 55), b("f", 4), u("g", 2)]),
        ],
        unions: vec![
            un(
                "Value",
                "Header.kind",
                &[
                    ("Null", "Null", ""),
                    ("Text", "Text", "Text"),
                    ("Num", "Num", "Long"),
                    ("Pair", "Pair", "Pair"),
                    ("Blob", "Blob", "Label"),
                    ("Deep", "Deep", "Deep"),
                ],
            ),
            un("Choice", "Switch.on", &[("Off", "0", ""), ("On", "1", "Point")]),
            un("ByRaw", "Outer.inner.tag", &[("Zero", "0", "Byte"), ("Seven", "7", ""), ("Max", "255", "Text")]),
            un("ByNest", "Frame.head.kind", &[("A", "Text", "Text"), ("B", "Num", "Packed"), ("C", "Null", "")]),
            un("By16", "Tag16.t", &[("A", "0", "Byte"), ("B", "256", "Text"), ("C", "1", "Label"), ("D", "257", ""), ("E", "65535", "Half"), ("F", "255", "Pair")]),
            un("By32", "Tag32.t", &[("A", "1", "Half"), ("B", "65537", "Word"), ("C", "4294967295", "Text"), ("D", "2147483648", "Byte"), ("E", "257", "")]),
            un("By64", "Tag64.t", &[("A", "1", "Half"), ("B", "4294967297", "Text"), ("C", "281474976710657", "Label"), ("D", "9223372036854775808", ""), ("E", "257", "Byte")]),
            un("ByOdd", "TagOdd.t", &[("A", "5", "Point"), ("B", "261", "Text"), ("C", "65541", ""), ("D", "1048575", "Packed")]),
            un("ByFar", "TagFar.t", &[("N", "Near", "Text"), ("P", "Page", "Half"), ("B", "Bank", ""), ("T", "Top", "Label")]),
            un("ByHuge", "TagHuge.t", &[("L", "Low", "Half"), ("H", "High", "Text"), ("P", "Page", ""), ("T", "Top", "Label")]),
            un("ByHuger", "TagHuge.o", &[("L", "Low", "Text"), ("H", "High", "Byte"), ("P", "Page", "Label")]),
            un("ByCase", "TagCase.x", &[("A", "1", "Half"), ("B", "2", "Text"), ("C", "7", "")]),
            un("ByFold", "TagFold.t", &[("U", "AB", "Half"), ("M", "Ab", "Text"), ("N", "aB", "")]),
            un("BySigned", "TagSigned.t", &[("Z", "0", "Half"), ("A", "1", "Text"), ("M", "127", "")]),
            un("BySmall", "TagSigned.s", &[("Z", "3", ""), ("A", "259", "Text"), ("M", "2047", "Word")]),
            un("ByBool", "TagBool.t", &[("F", "0", "Text"), ("T", "1", "Half"), ("X", "5", "")]),
            un("ByMode", "Mode.m", &[("R", "Red", "Half"), ("G", "Green", ""), ("P", "Pink", "Deep")]),
        ],
        msgs: vec![
            // Fixed-size content, every inlined kind.
            msg(
                "Scalars",
                vec![
                    item("a", "Byte"),
                    item("b", "Half"),
                    item("c", "Word"),
                    item("d", "Long"),
                    item("e", "Tri"),
                    item("f", "SByte"),
                    item("g", "SLong"),
                    item("h", "Flag"),
                    item("i", "Real"),
                    item("j", "Dreal"),
                    nul("name"),
                ],
            ),
            msg("Structs", vec![item("p", "Packed"), item("a", "Arrays"), item("o", "Outer").opt(), item("c", "Colors"), item("n", "Native"), item("x", "Nested")]),
            msg("Strings", vec![nul("a"), vstr("b", 20), nul("c"), vstr("d", 1000), vstr("e", 100000), vstr("f", 5_000_000_000)]),
            msg("Item", vec![item("header", "Header"), nul("name"), union("value", "header", "Value")]),
            msg("Small", vec![item("b", "Byte"), item("s", "Switch")]),
            msg("Toggle", vec![item("s", "Switch"), union("c", "s", "Choice"), item("end", "Half")]),
            msg("RawU", vec![item("o", "Outer"), vstr("mid", 10), union("u", "o", "ByRaw")]),
            msg("NestU", vec![item("f", "Frame"), union("u", "f", "ByNest"), item("m", "Mode"), union("v", "m", "ByMode")]),
            msg("WideU", vec![item("a", "Tag16"), union("ua", "a", "By16"), item("b", "Tag32"), union("ub", "b", "By32"), item("c", "Tag64"), union("uc", "c", "By64")]),
            msg("OddU", vec![item("ax", "TagOdd"), item("bx", "TagFar"), item("a", "TagOdd"), union("ua", "a", "ByOdd"), item("b", "TagFar"), item("c", "TagSigned"), union("ub", "b", "ByFar"), union("uc", "c", "BySigned"), union("ud", "c", "BySmall")]),
            msg("HugeU", vec![item("a", "TagHuge"), union("ua", "a", "ByHuge"), item("b", "TagFold"), union("ub", "b", "ByFold"), union("uc", "a", "ByHuger"), item("c", "TagCase"), union("ud", "c", "ByCase")]),
            msg("BoolU", vec![item("a", "TagBool"), union("u", "a", "ByBool")]),
            // Limits at the ends of the prefix widths.
            msg("Edges", vec![vstr("a", 255), vstr("b", 256), vstr("c", 65535), vstr("d", 65536), vstr("e", 4294967295), vstr("f", 4294967296), vstr("g", 1), nul("z")]),
            msg("ArrEdges", vec![list("a", 255, "Pair"), list("b", 256, "Half"), list("c", 65535, "Byte"), list("d", 65536, "Pair"), list("e", 4294967295, "Tri"), list("f", 4294967296, "Half"), item("z", "Byte")]),
            msg("Edge8", vec![item("k", "Byte"), list("l", 255, "Small")]),
            msg("Edge9", vec![item("k", "Byte"), list("l", 256, "Small")]),
            msg("Edge16", vec![item("k", "Byte"), list("l", 65535, "Edge8")]),
            msg("Edge17", vec![item("k", "Byte"), list("l", 65536, "Label")]),
            msg("Edge32", vec![item("k", "Byte"), list("l", 4294967295, "Small")]),
            msg("Edge33", vec![item("k", "Byte"), list("l", 4294967296, "Small")]),
            msg("Opts", vec![item("a", "Packed").opt(), item("t", "Text").opt(), item("i", "Item").opt(), item("d", "Deep"), item("p", "Pair").opt()]),
            msg("Arr", vec![list("small", 200, "Pair"), list("big", 60000, "Byte"), list("packed", 70000, "Packed"), item("end", "Half")]),
            msg("Arr64", vec![list("long", 5_000_000_000, "Tri"), nul("end")]),
            // Lists of messages: Run and Span become delimited because they are used as items.
            msg("Span", vec![item("p", "Pair"), list("vars", 255, "Item")]),
            msg("Run", vec![item("id", "Word"), list("spans", 1000, "Span"), item("end", "Pair").opt()]),
            msg("Dataset", vec![nul("title"), list("runs", 100000, "Run")]),
            msg("Log", vec![item("h", "Header"), list("items", 255, "Small")]),
            // Delimited through nesting only.
            msg("Bag", vec![item("k", "Byte"), list("smalls", 255, "Small"), item("z", "Half")]),
            msg("Nothing", vec![item("v", "Void"), item("w", "Void")]),
            msg("Gaps", vec![item("v", "Void"), nul("a"), item("n", "Nothing"), item("o", "Nothing").opt(), item("p", "Void").opt(), item("h", "Hollow")]),
            msg("Box", vec![nul("n"), item("bag", "Bag")]),
            msg("Store", vec![item("k", "Word"), list("boxes", 300, "Box")]),
            msg("Raw", vec![item("h", "Header"), vstr("path", 255), payload("data")]),
            msg("Envelope", vec![item("id", "Word"), item("raw", "Raw")]),
            msg("Labels", vec![item("n", "Byte"), list("labels", 5_000_000_000, "Label")]),
            msg("Crossing", vec![item("c", "Cross"), item("d", "Cross64"), list("cs", 255, "Cross")]),
            msg("Views", vec![item("s", "Scaled"), item("t", "Scales"), item("c", "Colors"), item("b", "Bits"), item("i", "Items")]),
            msg("Nested", vec![item("a", "Structs2"), item("n", "Nest2")]),
        ],
        ..Proto::default()
    };
    let mut main = main;
    // `Nested` needs a message that is declared before it.
    main.msgs.insert(2, msg("Structs2", vec![item("p", "Packed"), item("l", "Label"), item("q", "Point").opt()]));
    let big = Proto {
        name: "bigcore".into(),
        endian: Some(Endian::Big),
        imports: imp(
            "bigbase",
            &["BKind", "BByte", "BHalf", "BWord", "BLong", "BTri", "BReal", "BPacked", "BPair", "BHeader", "BTag", "BTag64", "BArrays", "BItems", "BNumbers", "BScaled", "BOuter", "BNested", "BText", "BLabel", "BDeep"],
        )
        .into_iter()
        .chain(imp("base", &["Colors", "Packed", "Native"]))
        .collect(),
        structs: vec![
            st("BCross", vec![u("a", 6), u("b", 6), i("c", 10), u("d", 2), u("e", 5), u("f", 8), u("g", 3), u("h", 7), u("i", 32), u("j", 1)]),
            st("BMix", vec![u("a", 8), sub("le", "Packed"), u("c", 24), sub("be", "BPacked")]),
        ],
        unions: vec![
            un("BBy20", "BTag.t", &[("A", "1", "BText"), ("B", "257", "BHalf"), ("C", "65537", ""), ("D", "1048575", "BPair")]),
            un("BBy32", "BTag.w", &[("A", "1", "BText"), ("B", "16777217", "BHalf"), ("C", "4294967295", "")]),
            un("BBy64", "BTag64.t", &[("A", "1", ""), ("B", "72057594037927937", "BHalf"), ("C", "257", "BText"), ("D", "4294967297", "BLabel")]),
            un(
            "BValue",
            "BHeader.kind",
            &[("Null", "Null", ""), ("Text", "Text", "BText"), ("Num", "Num", "BLong"), ("Pair", "Pair", "BPair"), ("Deep", "Deep", "BDeep")],
        )],
        msgs: vec![
            msg("BScalars", vec![item("a", "BByte"), item("b", "BHalf"), item("c", "BWord"), item("d", "BLong"), item("e", "BTri"), item("i", "BReal"), nul("name")]),
            msg("BStructs", vec![item("p", "BPacked"), item("a", "BArrays"), item("o", "BOuter").opt(), item("c", "Colors"), item("n", "BNumbers"), item("e", "BNested"), item("s", "BScaled"), item("x", "BCross"), item("m", "BMix"), item("i", "BItems")]),
            msg("BStrings", vec![nul("a"), vstr("b", 20), vstr("d", 1000), vstr("e", 100000)]),
            msg("BItem", vec![item("header", "BHeader"), nul("name"), union("value", "header", "BValue")]),
            msg("BWideU", vec![item("t", "BTag"), union("a", "t", "BBy20"), union("b", "t", "BBy32"), item("u", "BTag64"), union("c", "u", "BBy64")]),
            msg("BEdges", vec![vstr("a", 255), vstr("b", 256), vstr("c", 65535), vstr("d", 65536), vstr("e", 4294967295), vstr("f", 4294967296)]),
            msg("BArrEdges", vec![list("a", 255, "BPair"), list("b", 256, "BHalf"), list("c", 65535, "BByte"), list("d", 65536, "BPair"), list("e", 4294967295, "BTri"), list("f", 4294967296, "BHalf")]),
            msg("BEdge16", vec![item("k", "BByte"), list("l", 65535, "BText")]),
            msg("BEdge17", vec![item("k", "BByte"), list("l", 65536, "BText")]),
            msg("BArr", vec![list("small", 200, "BPair"), list("big", 60000, "BByte"), list("packed", 70000, "BPacked"), item("end", "BHalf")]),
            msg("BRun", vec![item("id", "BWord"), list("items", 1000, "BItem")]),
            msg("BDataset", vec![nul("title"), list("runs", 100000, "BRun")]),
            msg("BRaw", vec![item("h", "BHeader"), vstr("path", 300), payload("data")]),
        ],
        ..Proto::default()
    };
    // Imported unions and messages, names used by other protocols too, and the other byte order around them.
    let mix = Proto {
        name: "Mix_Case2".into(),
        endian: Some(Endian::Big),
        imports: imp("core", &["Value", "Choice", "By16", "ByMode", "Mode", "Item", "Small", "Strings"]).into_iter().chain(imp("base", &["Header", "Switch", "Tag16", "Label"])).chain(imp("bigbase", &["BLabel", "BKind"])).collect(),
        enums: vec![en("Color", &[("Red", 7), ("Blue", 1)])],
        structs: vec![
            st("Pair", vec![u("x", 24), i("y", 8)]),
            st("Tint", vec![u("c", 3).en("Color"), u("k", 5).en("BKind"), u("n", 16)]),
        ],
        unions: vec![un("ByTint", "Tint.c", &[("R", "Red", "Pair"), ("B", "Blue", "Item")])],
        msgs: vec![
            msg("Outside", vec![item("h", "Header"), vstr("n", 256), union("v", "h", "Value"), item("p", "Pair")]),
            msg("Several", vec![item("s", "Switch"), item("t", "Tag16"), item("m", "Mode"), union("c", "s", "Choice"), union("u", "t", "By16"), union("d", "s", "Choice"), union("e", "m", "ByMode")]),
            msg("Tinted", vec![item("t", "Tint"), union("u", "t", "ByTint"), item("l", "Label").opt(), item("b", "BLabel").opt()]),
            msg("Pile", vec![item("k", "Tint"), list("p", 256, "Pair"), list("b", 65535, "Tinted")]),
        ],
        ..Proto::default()
    };
    vec![base, big_base, main, big, mix]
}

struct Gen<'a> {
    r: &'a mut Rng,
}

impl Gen<'_> {
    fn below(&mut self, n: usize) -> usize {
        self.r.below(n as u64) as usize
    }
    fn chance(&mut self, p: u64) -> bool {
        self.r.below(100) < p
    }
    fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        let k = self.below(v.len());
        v[k].clone()
    }
}

#[derive(Clone)]
struct SInfo {
    name: String,
    bits: usize,
}

/// A random protocol inside the supported envelope (see DESIGN.md).
pub fn random(seed: u64, idx: usize) -> Vec<Proto> {
    let mut rng = Rng::new(seed.wrapping_mul(1000).wrapping_add(idx as u64) ^ 0x5eed);
    let mut g = Gen { r: &mut rng };
    let endian = g.pick(&[None, Some(Endian::Little), Some(Endian::Big)]);
    let pre = format!("R{idx}");
    // How names relate: numbered, or one the beginning of another, declared later or earlier.
    let style = Rng::new(seed ^ (idx as u64) << 32 ^ 0x4a3e).below(3);
    let nth = move |k: usize| match style {
        0 => format!("{k}"),
        1 => "x".repeat(9 - k.min(9)),
        _ => "x".repeat(k),
    };
    let lib_name = format!("rlib{idx}");
    // Library protocol: enums, structs, simple messages.
    let mut enums = Vec::new();
    for k in 0..1 + g.below(3) {
        let n = 1 + g.below(5);
        let mut vals: Vec<u64> = Vec::new();
        while vals.len() < n {
            let v = match g.below(4) {
                0 => g.below(4) as u64,
                1 => g.below(16) as u64,
                _ => vals.iter().max().map(|v| v + 1 + g.below(3) as u64).unwrap_or(0),
            };
            if !vals.contains(&v) {
                vals.push(v);
            }
        }
        enums.push(Enum { name: format!("{pre}E{}", nth(k)), variants: vals.iter().enumerate().map(|(i, v)| (format!("V{}", nth(i)), *v)).collect() });
    }
    let mut structs: Vec<Struct> = Vec::new();
    let mut infos: Vec<SInfo> = Vec::new();
    let mk_struct = |g: &mut Gen, infos: &mut Vec<SInfo>, name: String, max_fields: usize| -> Struct {
        let n = 1 + g.below(max_fields);
        let mut fields: Vec<SField> = Vec::new();
        let mut off = 0usize;
        for k in 0..n {
            let nm = format!("f{}", nth(k));
            let room = |bits: usize| off % 8 + bits <= 64;
            let aligned = off % 8 == 0;
            let mut fld = None;
            match g.below(12) {
                0 | 1 if aligned && !infos.is_empty() => {
                    let t = g.pick(infos);
                    fld = Some((sub(&nm, &t.name), t.bits));
                }
                2 if aligned => {
                    let len = 2 + g.below(5);
                    let (f, bits) = match g.below(4) {
                        0 => (u(&nm, 8), 8),
                        1 => (u(&nm, g.pick(&[16, 24, 32, 40, 48, 56, 64])), 0),
                        2 => (i(&nm, g.pick(&[8, 16, 24, 32, 40, 48, 56, 64])), 0),
                        _ => (fl(&nm, g.pick(&[32, 64])), 0),
                    };
                    let bits = match &f.info {
                        Info::Unsigned(b) | Info::Signed(b) | Info::Float(b) => *b,
                        _ => bits,
                    };
                    fld = Some((f.arr(len), bits * len));
                }
                3 => {
                    let bits = if g.chance(50) { 1 } else { 1 + g.below(17) };
                    fld = Some((b(&nm, bits), bits));
                }
                4 => {
                    let bits = 1 + g.below(40);
                    let lo = g.pick(&[0.0, -1.0, -40.0, 10.0, 0.5]);
                    let hi = lo + g.pick(&[1.0, 2.5, 100.0, 1000.0, -3.5, 0.0009]);
                    fld = Some((fl(&nm, bits).range(lo, hi), bits));
                }
                5 => {
                    let bits = 1 + g.below(32);
                    fld = Some((fl(&nm, bits).mult(g.pick(&[0.1, 0.5, 1.0, 2.0, 10.0, 0.001, -0.25, 1.7e-9, 4e-13, 2.5e8, 1.0 / 3.0])), bits));
                }
                6 => {
                    let bits = g.pick(&[32, 64]);
                    fld = Some((fl(&nm, bits), bits));
                }
                7 | 8 => {
                    let e = g.pick(&enums);
                    let max = e.variants.iter().map(|v| v.1).max().unwrap();
                    let min_bits = (64 - max.leading_zeros() as usize).max(1);
                    let bits = min_bits + g.below(4);
                    fld = Some((u(&nm, bits).en(&e.name), bits));
                }
                9 => {
                    let bits = if g.chance(40) { g.pick(&[8, 16, 32, 64]) } else { 1 + g.below(63) };
                    fld = Some((i(&nm, bits), bits));
                }
                _ => {}
            }
            let (f, bits) = match fld {
                Some(v) if room(v.1) || v.0.array_len > 1 || matches!(v.0.info, Info::Struct(_)) => v,
                _ => {
                    let mut bits = if g.chance(40) { g.pick(&[8, 16, 24, 32, 64]) } else { 1 + g.below(24) };
                    if !room(bits) {
                        bits = 1 + g.below(8);
                    }
                    (u(&nm, bits), bits)
                }
            };
            off += bits;
            fields.push(f);
        }
        infos.push(SInfo { name: name.clone(), bits: off });
        Struct { name, fields }
    };
    for k in 0..3 + g.below(4) {
        let s = mk_struct(&mut g, &mut infos, format!("{pre}S{}", nth(k)), 6);
        structs.push(s);
    }
    // Single-field structures (inlined in messages) and a header for unions.
    structs.push(st(&format!("{pre}One"), vec![u("v", [8, 16, 32, 64, 24][g.below(5)])]));
    infos.push(SInfo { name: format!("{pre}One"), bits: 0 });
    let single = infos.pop().unwrap().name;
    let e = g.pick(&enums);
    let emax = e.variants.iter().map(|v| v.1).max().unwrap();
    let ebits = (64 - emax.leading_zeros() as usize).max(1) + g.below(3);
    let lead = g.below(9).max((style == 1) as usize);
    let mut hf = Vec::new();
    if lead > 0 {
        hf.push(u(if style == 1 { "disc_lead" } else { "lead" }, lead));
    }
    let by_enum = g.chance(60);
    // Without an enumeration the discriminant may be of any width.
    let ebits = if by_enum || g.chance(40) { ebits } else { g.pick(&[8, 9, 12, 16, 17, 24, 31, 32, 33, 40, 48, 55]) };
    hf.push(if by_enum { u("disc", ebits).en(&e.name) } else { u("disc", ebits) });
    let rest = (8 - (lead + ebits) % 8) % 8;
    if rest > 0 && g.chance(80) {
        hf.push(u("rest", rest));
    }
    // Never a single-field structure: those are inlined and cannot carry a discriminant.
    hf.push(u("seq", 8 + g.below(9)));
    let header = format!("{pre}H");
    structs.push(Struct { name: header.clone(), fields: hf });
    let struct_names: Vec<String> = infos.iter().map(|v| v.name.clone()).collect();
    let str_field = |g: &mut Gen, n: &str| -> MField {
        match g.below(4) {
            0 | 1 => nul(n),
            2 => vstr(n, 200),
            _ => vstr(n, g.pick(&[5000, 255, 256, 65535, 65536, 4294967295, 4294967296])),
        }
    };
    let simple_msg = |g: &mut Gen, name: String| -> Msg {
        let n = 1 + g.below(3);
        let mut fields = vec![str_field(g, "s0")];
        for k in 0..n {
            let nm = format!("m{}", nth(k));
            fields.push(match g.below(5) {
                0 => item(&nm, &single),
                1 => {
                    let t = g.pick(&struct_names);
                    // Structures the compiler inlines cannot be optional (known limitation of the generator).
                    item(&nm, &t)
                }
                2 => str_field(g, &nm),
                3 => list(&nm, g.pick(&[100, 1000, 100000, 255, 256, 65535, 65536, 4294967295, 4294967296]), &g.pick(&struct_names)),
                _ => item(&nm, &header).opt(),
            });
        }
        if g.chance(50) {
            let k = g.below(fields.len());
            fields.swap(0, k);
        }
        Msg { name, fields }
    };
    let msgs: Vec<Msg> = (0..1 + g.below(3)).map(|k| simple_msg(&mut g, format!("{pre}L{}", nth(k)))).collect();
    let lib_msgs: Vec<String> = msgs.iter().map(|v| v.name.clone()).collect();
    let lib = Proto { name: lib_name.clone(), endian, enums: enums.clone(), structs: structs.clone(), msgs, ..Proto::default() };
    // Main protocol: a union and messages of every form.
    let mut imports: Vec<(String, String)> = Vec::new();
    for e in &enums {
        imports.push((lib_name.clone(), e.name.clone()));
    }
    for s in &structs {
        imports.push((lib_name.clone(), s.name.clone()));
    }
    for m in &lib_msgs {
        imports.push((lib_name.clone(), m.clone()));
    }
    let mut cases = Vec::new();
    let disc_vals: Vec<String> = if by_enum {
        e.variants.iter().map(|v| v.0.clone()).collect()
    } else {
        let max = (1u64 << ebits) - 1;
        let mut v = vec![0, max];
        for _ in 0..3 {
            v.push(g.r.below(max + 1));
        }
        for sh in [8, 16, 32] {
            if sh < ebits && g.chance(60) {
                let k = g.pick(&v);
                v.push(k ^ 1 << sh);
            }
        }
        v.sort();
        v.dedup();
        v.iter().map(|v| v.to_string()).collect()
    };
    for (k, c) in disc_vals.iter().enumerate() {
        if k > 0 && g.chance(15) {
            continue;
        }
        let t = match g.below(5) {
            0 if k > 0 => None,
            1 | 2 => Some(g.pick(&struct_names)),
            _ => Some(g.pick(&lib_msgs)),
        };
        cases.push(Case { name: format!("C{}", nth(k)), case: c.clone(), item: t });
    }
    let uname = format!("{pre}U");
    let unions = vec![Union { name: uname.clone(), disc: format!("{header}.disc"), cases }];
    let mut msgs: Vec<Msg> = Vec::new();
    // m -> (name, ends by itself)
    let n_msgs = 4 + g.below(4);
    for k in 0..n_msgs {
        let name = format!("{pre}M{}", nth(k));
        let mut fields = Vec::new();
        let nf = 1 + g.below(5);
        let mut has_lifetime = false;
        for q in 0..nf {
            let nm = format!("g{}", nth(q));
            let f = match g.below(8) {
                0 => item(&nm, &single),
                1 => item(&nm, &g.pick(&struct_names)),
                2 | 3 => str_field(&mut g, &nm),
                4 => list(&nm, g.pick(&[100, 1000, 100000, 255, 256, 65535, 65536, 4294967295, 4294967296]), &g.pick(&struct_names)),
                5 => {
                    let mut f = item(&nm, &g.pick(&lib_msgs));
                    f.optional = g.chance(50);
                    f
                }
                6 => {
                    let mut f = item(&nm, &header);
                    f.optional = g.chance(50);
                    f
                }
                _ => {
                    fields.push(item(&format!("h{}", nth(q)), &header));
                    union(&nm, &format!("h{}", nth(q)), &uname)
                }
            };
            has_lifetime |= !matches!(&f.info, MInfo::Item(t) if *t == single);
            fields.push(f);
        }
        if !has_lifetime {
            fields.push(item("hh", &header));
        }
        // The tail decides whether the message ends by itself.
        let earlier: Vec<String> = msgs.iter().filter(|m| !m.fields.iter().any(|f| matches!(f.info, MInfo::Payload))).map(|m| m.name.clone()).collect();
        match g.below(4) {
            0 if !earlier.is_empty() => fields.push(list("tail", g.pick(&[100, 1000, 100000]), &g.pick(&earlier))),
            1 => fields.push(list("tail", g.pick(&[100, 1000]), &g.pick(&lib_msgs))),
            2 if g.chance(40) => fields.push(payload("tail")),
            _ => {}
        }
        msgs.push(Msg { name, fields });
    }
    let main = Proto { name: format!("rand{idx}"), endian, imports, unions, msgs, ..Proto::default() };
    vec![lib, main]
}

/// Structures alone: every place and width a field can have, shared out between the byte orders, with types and
/// views as they come.
pub fn grid(seed: u64) -> Vec<Proto> {
    let mut rng = Rng::new(seed ^ 0x6e1d);
    let mut g = Gen { r: &mut rng };
    // Unused widths by offset within the byte.
    let mut left: Vec<Vec<(usize, bool)>> = (0..8)
        .map(|off| {
            let mut v: Vec<(usize, bool)> = (1..=64 - off).map(|b| (b, false)).collect();
            for k in (1..v.len()).rev() {
                v.swap(k, g.below(k + 1));
            }
            // Neighbouring widths do not all end up with the same byte order.
            v.iter_mut().for_each(|v| v.1 = g.chance(50));
            v
        })
        .collect();
    let mut out = Vec::new();
    for (name, pre, endian) in [("gridl", "GL", Endian::Little), ("gridb", "GB", Endian::Big)] {
        let big = endian == Endian::Big;
        let enums = vec![
            en(&format!("{pre}E"), &[("A", 0), ("B", 1), ("D", 3)]),
            en(&format!("{pre}F"), &[("X", 1), ("Y", 300), ("Z", 65536 + 1)]),
        ];
        let mut structs = Vec::new();
        loop {
            let mut off = 0usize;
            let mut fields: Vec<SField> = Vec::new();
            let mut fresh = 0;
            while fields.len() < 12 {
                let nm = format!("f{}", fields.len());
                let o = off % 8;
                let bits = match left[o].iter().position(|v| v.1 == big) {
                    Some(k) => {
                        fresh += 1;
                        left[o].remove(k).0
                    }
                    // On to an offset that still has some.
                    None => match (1..8).find(|d| left[(o + d) % 8].iter().any(|v| v.1 == big)) {
                        Some(d) => d,
                        None => break,
                    },
                };
                let f = match g.below(8) {
                    0 | 1 => i(&nm, bits),
                    2 if bits <= 32 => b(&nm, bits),
                    3 if bits <= 52 => fl(&nm, bits).range(g.pick(&[0.0, -40.0, 0.5]), 100.0),
                    4 if bits <= 52 => fl(&nm, bits).mult(g.pick(&[0.1, 2.0])),
                    5 if bits >= 17 => u(&nm, bits).en(&format!("{pre}F")),
                    5 if bits >= 2 => u(&nm, bits).en(&format!("{pre}E")),
                    6 if bits == 32 || bits == 64 => fl(&nm, bits),
                    _ => u(&nm, bits),
                };
                fields.push(f);
                off += bits;
            }
            if fresh == 0 {
                break;
            }
            if fields.len() == 1 {
                fields.push(u("end", 8));
            }
            structs.push(Struct { name: format!("{pre}{}", structs.len()), fields });
        }
        out.push(Proto { name: name.into(), endian: Some(endian), enums, structs, ..Proto::default() });
    }
    out
}

/// All protocols of a schema seed, in dependency order.
pub fn all(seed: u64) -> Vec<Proto> {
    let mut v = fixed();
    v.extend(grid(seed));
    for k in 0..3 {
        v.extend(random(seed, k));
    }
    v.push(limits());
    v.push(voids());
    v
}

/// Name of the protocol that holds the known findings of C06: its messages take no part in the other simulations.
pub const LIMITS: &str = "limits";

fn limits() -> Proto {
    Proto {
        name: LIMITS.into(),
        endian: Some(Endian::Little),
        imports: vec![("base".into(), "Half".into()), ("base".into(), "Byte".into()), ("core".into(), "Small".into()), ("core".into(), "Log".into())],
        msgs: vec![
            // Fixed-size fields behind a part that takes all that is left.
            msg("PayloadThenField", vec![item("k", "Byte"), payload("data"), item("end", "Half")]),
            msg("ListThenField", vec![list("items", 255, "Small"), item("end", "Half")]),
            // An imported message whose own list was generated to take all that is left.
            msg("ImportedLogs", vec![item("k", "Byte"), list("logs", 255, "Log")]),
        ],
        ..Proto::default()
    }
}

/// Lists of items that take no bytes: their count says nothing about the size of the input. Their messages take
/// part in simulations of their own only.
fn voids() -> Proto {
    Proto {
        name: "voids".into(),
        endian: Some(Endian::Little),
        imports: vec![("base".into(), "Byte".into()), ("base".into(), "Void".into())],
        msgs: vec![
            msg("Nil", vec![item("a", "Void"), item("b", "Void")]),
            msg("Voids", vec![item("k", "Byte"), list("a", 255, "Void"), list("b", 5_000_000_000, "Void"), item("z", "Byte")]),
            msg("Hush", vec![item("k", "Byte"), list("l", 5_000_000_000, "Nil")]),
            msg("Hushes", vec![item("k", "Byte"), list("l", 255, "Hush")]),
        ],
        ..Proto::default()
    }
}
