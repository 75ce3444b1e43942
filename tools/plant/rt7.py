RT = 'runtime/src/'
LIST = RT + 'message/util/list.rs'
BASE = RT + 'message/util/list_base.rs'
STRING = RT + 'message/util/string.rs'
COMMON = RT + 'message/util/common.rs'
ST = 'compiler/src/compiler/structure.rs'
UNION = 'compiler/src/compiler/union.rs'
MSG = 'compiler/src/compiler/message.rs'
GEN = 'compiler/src/gen/mod.rs'
IF = 'compiler/src/interface.rs'
import importlib.util, os
_s = importlib.util.spec_from_file_location('gen4', os.path.join(os.path.dirname(__file__), 'gen4.py'))
_g = importlib.util.module_from_spec(_s); _s.loader.exec_module(_g)
PRE = _g.PRE
VOIDS = '''{ name: "demo", structs: [ { name: "V", fields: [] }, { name: "B", fields: [ { name: "v", info: { type: "unsigned", bits: 8 } } ] } ],
    messages: [ { name: "E", fields: [ { name: "v", info: { type: "item", item_type: "V" } } ] },
      { name: "N", fields: [ { name: "s", info: { type: "string" } } ] },
      { name: "I", fields: [ { name: "l", info: { type: "list", max_len: 255, item_type: "N" } } ] },
      { name: "O", fields: [ { name: "l", info: { type: "list", max_len: 255, item_type: "I" } } ] },
      { name: "M", fields: [ { name: "l", info: { type: "list", max_len: 255, item_type: "E" } } ] } ] }'''

BUGS = [
dict(id='c09-bytes-bound', property='C09',
  needs='a list of items that take no bytes',
  breaks='a list iterates at most as many items as it has bytes, so items without bytes are missing',
  edits=[(LIST, '''    pub fn iter(&self) -> Iter<Item> {
        Iter {
            data: self.data.as_ref(),
            len: self.len,
''', '''    pub fn iter(&self) -> Iter<Item> {
        Iter {
            data: self.data.as_ref(),
            // A damaged count must not make the caller reserve too much.
            len: self.len.min(self.data.as_ref().len()),
''')],
  schemas={'demo': VOIDS},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSlice;
fn main() {
    let m = demo::M::from_slice(&[3]).unwrap().into_inner();
    assert_eq!(m.l.iter().count(), 3);
}'''),

dict(id='c01-flush', property='C01',
  needs='a sink which takes every byte but cannot be flushed (or not yet)',
  breaks='the sink is flushed after every string, so that an encode whose every byte was accepted fails',
  edits=[(STRING, '''        out.write_all(&[0x0])?;
        Ok(())
''', '''        out.write_all(&[0x0])?;
        // The end of a string is a good place to let the peer have what is there.
        out.flush()?;
        Ok(())
''')],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "M", fields: [ { name: "s", info: { type: "string" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::WriteTo;
struct S(Vec<u8>);
impl std::io::Write for S {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Err(std::io::ErrorKind::WouldBlock.into()) }
}
fn main() {
    let mut s = S(vec![]);
    let r = demo::M::write_to(&demo::M { s: "ab" }, &mut s);
    assert_eq!(s.0, b"ab\\0");
    assert!(r.is_ok());
}'''),

dict(id='c08-depth-leak', property='C08',
  needs='many damaged nested lists decoded in one process before a valid one',
  breaks='a guard against deep nesting is not released when decoding fails, so that after enough damaged messages valid ones are refused',
  edits=[(LIST, '''        let data = &slice[control_size..];
        let mut total_size: usize = 0;
        for _ in 0..len {
''', '''        let data = &slice[control_size..];
        // Items may hold lists which hold lists: do not let hostile input use up the stack.
        static DEPTH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        if DEPTH.fetch_add(1, std::sync::atomic::Ordering::Relaxed) >= 500 {
            return Err(Error::Truncated);
        }
        let mut total_size: usize = 0;
        for _ in 0..len {
'''), (LIST, '''            total_size += msg.size();
        }
''', '''            total_size += msg.size();
        }
        DEPTH.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
''')],
  schemas={'demo': VOIDS},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
use bp3d_proto::message::FromSlice;
fn main() {
    let good = [1u8, 1, b'a', 0];
    for _ in 0..1000 {
        let o = demo::O::from_slice(&[1, 2, b'a', 0]).unwrap().into_inner();
        assert!(o.l.iter().next().unwrap().is_err());
    }
    let o = demo::O::from_slice(&good).unwrap().into_inner();
    assert!(o.l.iter().next().unwrap().is_ok());
}'''),

dict(id='c05-batch-continue', property='C05',
  needs='a batch of items in which one that is not the last cannot be encoded, or a buffer that fails in it',
  breaks='the rest of a batch is still appended after an item of it was refused',
  edits=[(BASE, '''                for item in items {
                    self.write_item(item)?;
                }
                Ok(())
''', '''                let mut res = Ok(());
                for item in items {
                    // Keep as many items as possible and report the first one which was refused.
                    res = res.and(self.write_item(item));
                }
                res
''')],
  schemas={'demo': '''{ name: "demo", messages: [ { name: "N", fields: [ { name: "s", info: { type: "string" } } ] },
      { name: "M", fields: [ { name: "l", info: { type: "list", max_len: 255, item_type: "N" } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
struct S { b: Vec<u8>, n: usize }
impl std::io::Write for S {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.n += 1;
        if self.n == 4 { return Err(std::io::ErrorKind::Other.into()); }
        self.b.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl AsRef<[u8]> for S { fn as_ref(&self) -> &[u8] { &self.b } }
fn main() {
    let mut l = demo::ML::new(S { b: vec![], n: 0 });
    let n = |s| demo::N { s };
    assert!(l.write_items(&[n("a"), n("b"), n("c")]).is_err());
    let r: bp3d_proto::message::util::List<&[u8], bp3d_proto::message::util::ValueLE<u8>, demo::N> = l.to_ref();
    let v: Vec<String> = r.iter().map(|v| v.unwrap().s.to_string()).collect();
    assert!(v == ["a"] , "{v:?}");
}'''),

dict(id='c06-nested-rounding', property='C06',
  needs='a nested structure whose bits do not fill its last byte, with a field behind it',
  breaks='a nested structure takes whole bytes: the fields behind it are not packed from where it ends',
  edits=[(ST, '''            bit_size: last_bit_offset,
''', '''            bit_size: (last_bit_offset + 7) / 8 * 8,
''')],
  schemas={'demo': '''{ name: "demo", structs: [ { name: "I", fields: [ { name: "a", info: { type: "unsigned", bits: 12 } } ] },
    { name: "S", fields: [ { name: "i", info: { type: "struct", item_type: "I" } }, { name: "b", info: { type: "unsigned", bits: 4 } } ] } ] }'''},
  main='''
include!(env!("BP3D_PROTOC_DEMO"));
fn main() {
    let s = demo::S::new([0xBC, 0xDA, 0x0E, 0]);
    assert_eq!(s.get_b(), 0xD);
}'''),

dict(id='c27-early-umbrella', property='C27', kind='gen',
  needs='a reader, or the end of the process, between the writes of a first run',
  breaks='the entry file is written before the files it includes',
  edits=[(IF, '''            let iter = files_iter.into_iter().map(|v| v.write(&out_path))
''', '''            let files: Vec<_> = files_iter.collect();
            // Other tools look for the entry file, so have it there early.
            let paths: Vec<PathBuf> = files.iter().filter_map(|v| v.path(&out_path)).collect();
            let early = T::generate_umbrella(&name, paths.iter().map(|v| &**v)).map_err(|e| Error::Generator(e.to_string()))?;
            if early.len() > 1 {
                write_file(&out_path.join("umbrella.rs"), early.as_bytes()).map_err(Error::Io)?;
            }
            let iter = files.into_iter().map(|v| v.write(&out_path))
'''), (GEN, '''    pub fn ty(&self) -> FileType {
''', '''    /// The path of this file, if it is not empty.
    pub fn path(&self, out_directory: &Path) -> Option<PathBuf> {
        (self.data.len() > 1).then(|| out_directory.join(&*self.name))
    }

    pub fn ty(&self) -> FileType {
''')],
  main=PRE + '''
fn main() {
    if std::env::args().len() > 1 { return script(&["one"]); }
    schema("one");
    std::fs::create_dir_all("out/one/messages.rs/x").unwrap();
    let o = child("out", false).output().unwrap();
    assert!(!o.status.success());
    assert!(!std::path::Path::new("out/one/umbrella.rs").exists());
}
'''),
]
