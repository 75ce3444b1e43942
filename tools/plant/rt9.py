LIST = 'runtime/src/message/util/list.rs'
ST = 'compiler/src/compiler/structure.rs'
import re
SH = '''
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.len, Some(self.len))
    }
}

'''
BUGS = [
dict(id='c09-size-hint', property='C09',
  needs='a damaged list with a huge count, collected',
  breaks='the iterators promise as many items as the damaged count says, which nothing can hold',
  edits=[(LIST, '''        self.data = &self.data[msg.size()..];
        self.len -= 1;
        Some(Ok(msg.into_inner()))
    }
}

pub struct IterOffsets''', '''        self.data = &self.data[msg.size()..];
        self.len -= 1;
        Some(Ok(msg.into_inner()))
    }
''' + SH + '''pub struct IterOffsets''')],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "I", fields: [ { name: "s", info: { type: "string" } } ] },
    { name: "M", fields: [ { name: "l", info: { type: "list", max_len: 9223372036854775807, item_type: "I" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSlice;
fn main() {
    let mut b = vec![0xff; 8];
    b.extend_from_slice(b"a\\0b\\0");
    let m = demo::M::from_slice(&b).unwrap().into_inner();
    let mut n = 0;
    for i in m.l.iter() { if i.is_ok() { n += 1; } }
    assert_eq!(n, 2);
    let v: Vec<_> = m.l.iter().collect();
    assert_eq!(v.len(), 3);
}'''),
dict(id='c06-float-width', property='C06',
  needs='a scaled field of more than 24 bits',
  breaks='scaled fields of 25 to 32 bits lose their last bits',
  edits=[(ST, 'map_numeric(ty, Self::Int32, Self::UInt32, Self::Float64)', 'map_numeric(ty, Self::Int32, Self::UInt32, Self::Float32)')],
  schemas={'demo': '''{ name: "demo", structs: [ { name: "S", fields: [ { name: "x", info: { type: "float", bits: 30 }, view: { type: "float-multiplier", multiplier: 2 } }, { name: "n", info: { type: "unsigned", bits: 2 } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
fn main() {
    let mut s = demo::S::new_on_stack();
    s.set_x(33554434.0 * 2.0 + 2.0);
    assert_eq!(s.get_raw_x(), 33554435);
    assert!(s.get_x() == 67108870.0);
}'''),
]
