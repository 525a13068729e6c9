//! What the generated programs share: a canonical form of rows, and a server that reads trees
//! as derived structures and writes derived structures on request.
use oxyroot::{ReaderTree, RootFile, Slice, WriterTree};
use std::io::{BufRead, Write};

/// An element: big-endian bytes.
pub trait Be: Sized {
    const W: usize;
    fn de(b: &[u8]) -> Self;
    fn ser(&self, out: &mut Vec<u8>);
}
macro_rules! be {
    ($($t:ty),*) => { $(impl Be for $t {
        const W: usize = std::mem::size_of::<$t>();
        fn de(b: &[u8]) -> Self { <$t>::from_be_bytes(b.try_into().unwrap()) }
        fn ser(&self, out: &mut Vec<u8>) { out.extend_from_slice(&self.to_be_bytes()) }
    })* };
}
be!(i8, u8, i16, u16, i32, u32, i64, u64, f32, f64);
impl Be for bool {
    const W: usize = 1;
    fn de(b: &[u8]) -> Self {
        b[0] != 0
    }
    fn ser(&self, out: &mut Vec<u8>) {
        out.push(*self as u8)
    }
}

fn put(o: &mut Vec<u8>, b: &[u8]) {
    o.extend((b.len() as u32).to_le_bytes());
    o.extend(b);
}
fn get<'a>(r: &mut &'a [u8]) -> &'a [u8] {
    let n = u32::from_le_bytes(r[..4].try_into().unwrap()) as usize;
    let b = &r[4..4 + n];
    *r = &r[4 + n..];
    b
}

/// A field's value: its length and its bytes.
pub trait Dump {
    fn dump(&self, o: &mut Vec<u8>);
}
/// A field's value from its length and bytes.
pub trait Make {
    fn make(r: &mut &[u8]) -> Self;
}
macro_rules! prim {
    ($($t:ty),*) => { $(
        impl Dump for $t {
            fn dump(&self, o: &mut Vec<u8>) {
                let mut b = vec![];
                self.ser(&mut b);
                put(o, &b);
            }
        }
        impl Make for $t {
            fn make(r: &mut &[u8]) -> Self { <$t>::de(get(r)) }
        }
    )* };
}
prim!(bool, i8, u8, i16, u16, i32, u32, i64, u64, f32, f64);

fn many<'a, T: Be + 'a>(v: impl IntoIterator<Item = &'a T>, o: &mut Vec<u8>) {
    let mut b = vec![];
    for x in v {
        x.ser(&mut b);
    }
    put(o, &b);
}
impl<T: Be, const N: usize> Dump for [T; N] {
    fn dump(&self, o: &mut Vec<u8>) {
        many(self, o)
    }
}
impl<T: Be> Dump for Vec<T> {
    fn dump(&self, o: &mut Vec<u8>) {
        many(self, o)
    }
}
impl<T: Be> Dump for Slice<T> {
    fn dump(&self, o: &mut Vec<u8>) {
        many(self.inner(), o)
    }
}
impl Dump for String {
    fn dump(&self, o: &mut Vec<u8>) {
        put(o, self.as_bytes())
    }
}
impl Dump for Vec<String> {
    fn dump(&self, o: &mut Vec<u8>) {
        let mut b = vec![];
        for x in self {
            b.extend((x.len() as u32).to_be_bytes());
            b.extend(x.as_bytes());
        }
        put(o, &b);
    }
}
/// Elements of a sliced structure.
pub fn dump_all<T: Dump>(v: &[T], o: &mut Vec<u8>) {
    o.extend((v.len() as u32).to_le_bytes());
    v.iter().for_each(|x| x.dump(o));
}
impl<T: Be, const N: usize> Make for [T; N] {
    fn make(r: &mut &[u8]) -> Self {
        let b = get(r);
        std::array::from_fn(|i| T::de(&b[i * T::W..(i + 1) * T::W]))
    }
}
impl<T: Be> Make for Vec<T> {
    fn make(r: &mut &[u8]) -> Self {
        get(r).chunks(T::W).map(T::de).collect()
    }
}
impl Make for String {
    fn make(r: &mut &[u8]) -> Self {
        String::from_utf8(get(r).to_vec()).unwrap()
    }
}

pub struct Rows {
    pub n: u32,
    pub bytes: Vec<u8>,
}

pub fn rows<T: Dump>(it: impl Iterator<Item = T>, cap: usize) -> Rows {
    let mut r = Rows { n: 0, bytes: vec![] };
    for x in it.take(cap) {
        r.n += 1;
        x.dump(&mut r.bytes);
    }
    r
}
pub fn make_rows<T: Make>(mut b: &[u8], n: usize) -> Vec<T> {
    let v = (0..n).map(|_| T::make(&mut b)).collect();
    assert!(b.is_empty());
    v
}

pub struct Ops {
    pub read: fn(&ReaderTree, usize) -> Result<Rows, String>,
    pub add: fn(&mut WriterTree, &[u8], usize) -> Result<(), String>,
}

pub fn no_add(_: &mut WriterTree, _: &[u8], _: usize) -> Result<(), String> {
    unreachable!()
}

fn plain(tree: &mut WriterTree, name: &str, ty: &str, v: Vec<Vec<u8>>) {
    macro_rules! go {
        ($($n:literal $t:ty),*) => { match ty {
            $($n => tree.new_branch(name, v.into_iter().map(|b| <$t>::de(&b))),)*
            "String" => tree.new_branch(name, v.into_iter().map(|b| String::from_utf8(b).unwrap())),
            "Vec<i32>" => tree.new_branch(name, v.into_iter().map(|b| b.chunks(4).map(i32::de).collect::<Vec<i32>>())),
            _ => unreachable!("{ty}"),
        } };
    }
    go!("bool" bool, "i8" i8, "u8" u8, "i16" i16, "u16" u16, "i32" i32, "u32" u32, "i64" i64, "u64" u64, "f32" f32, "f64" f64)
}

fn text(r: &mut &[u8]) -> String {
    String::from_utf8(get(r).to_vec()).unwrap()
}
fn num(r: &mut &[u8]) -> usize {
    let n = u32::from_le_bytes(r[..4].try_into().unwrap());
    *r = &r[4..];
    n as usize
}

fn write(out: &str, job: &[u8], ops: &[Ops]) -> Result<(), String> {
    let mut r = job;
    let mut f = RootFile::create(out).map_err(|e| format!("create: {e}"))?;
    let mut tree = WriterTree::new(text(&mut r));
    for _ in 0..num(&mut r) {
        if num(&mut r) == 0 {
            let shape = num(&mut r);
            let n = num(&mut r);
            let b = get(&mut r);
            (ops[shape].add)(&mut tree, b, n)?;
        } else {
            let name = text(&mut r);
            let ty = text(&mut r);
            let n = num(&mut r);
            let v = (0..n).map(|_| get(&mut r).to_vec()).collect();
            plain(&mut tree, &name, &ty, v);
        }
    }
    tree.write(&mut f).map_err(|e| format!("write: {e}"))?;
    f.close().map_err(|e| format!("close: {e}"))
}

fn read(file: &str, tree: &str, cap: usize, op: &Ops) -> Result<Rows, String> {
    let mut f = RootFile::open(file).map_err(|e| format!("open: {e}"))?;
    let t = f.get_tree(tree).map_err(|e| format!("get_tree: {e}"))?;
    (op.read)(&t, cap).map_err(|e| format!("from_tree: {e}"))
}

/// Answers: status (0 done, 1 error, 2 panic), then length and bytes.
pub fn serve(ops: &[Ops]) {
    use std::cell::RefCell;
    thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }
    std::panic::set_hook(Box::new(|i| LAST.with(|l| *l.borrow_mut() = i.to_string())));
    let mut out = std::io::stdout().lock();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let a: Vec<&str> = line.split('\t').collect();
        let res = std::panic::catch_unwind(|| -> Result<Vec<u8>, String> {
            match a[0] {
                "R" => {
                    let r = read(a[2], a[3], a[4].parse().unwrap(), &ops[a[1].parse::<usize>().unwrap()])?;
                    let mut b = r.n.to_le_bytes().to_vec();
                    b.extend(r.bytes);
                    Ok(b)
                }
                _ => {
                    let job = std::fs::read(a[2]).map_err(|e| e.to_string())?;
                    write(a[1], &job, ops)?;
                    Ok(vec![])
                }
            }
        });
        let (st, b) = match res {
            Ok(Ok(b)) => (0u8, b),
            Ok(Err(e)) => (1, e.into_bytes()),
            Err(_) => (2, LAST.with(|l| l.borrow().clone()).into_bytes()),
        };
        out.write_all(&[st]).unwrap();
        out.write_all(&(b.len() as u32).to_le_bytes()).unwrap();
        out.write_all(&b).unwrap();
        out.flush().unwrap();
    }
}
