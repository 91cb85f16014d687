SH = open(os.path.join(V, 'tools', 'demo.sh')).read().replace('timeout 250 cargo run', 'RUSTFLAGS="--cfg parcom_verif" timeout 250 cargo run')
D = r'''
use parcom_sequence_core::*;
use parcom_sequences::{generic::*, BufferStrategy};
use std::future::{ready, Future, Ready};
use std::pin::pin;
use std::sync::Arc;
use std::task::{Context, Waker};
struct Min;
impl BufferStrategy for Min { fn calc_capacity(&self, n: usize) -> usize { n } }
struct Src(Vec<&'static [u8]>);
impl SequenceSource for Src {
    type Item = u8;
    type Error = ();
    type Next<'a, C> = Ready<C::Result> where C: 'a + SequenceControl<Item = u8, Error = ()>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Ready<C::Result> where C: 'a + SequenceControl<Item = u8, Error = ()> {
        let v = self.0.remove(0);
        let mut w = control.request_writer(v.len());
        unsafe {
            std::ptr::copy_nonoverlapping(v.as_ptr(), w.as_mut_ptr(), v.len());
            w.set_len(v.len());
        }
        ready(w.advance())
    }
}
type B = GenericSequenceBuffer<u8>;
type L = GenericSequenceLoader<u8, Src, Min>;
fn build(v: &[&'static [u8]]) -> (B, L) { GenericSequenceBuilder::new(Arc::new(Min)).build(Src(v.to_vec())) }
fn add(l: &mut L) {
    assert!(pin!(l.load()).poll(&mut Context::from_waker(Waker::noop())).is_ready());
    l.force_commit();
}
fn all(b: &B) -> Vec<u8> { b.segments().flatten().copied().collect() }
'''
_seed = seed
def seed(*a):
    _seed(*a, sh_body=SH, prelude=False)
f = 'parcom-sequences/src/generic/buffer.rs'
seed('c23-boundary-offset', 'C23', [(f, """            remain -= len;
            offset = 0;
""", """            remain -= len;
            if remain > 0 {
                offset = 0;
            }
""")], 'a position inside a block, then an advance that ends exactly at its end', 'the first items of the next block are skipped', D + r'''
fn main() {
    let (mut b, mut l) = build(&[b"abc", b"defg"]);
    add(&mut l);
    add(&mut l);
    assert_eq!(b.advance(1), 0);
    assert_eq!(b.advance(2), 0);
    assert_eq!(all(&b), b"defg");
}
''')
seed('c23-iter-ends-for-good', 'C23', [(f, """    node: &'a Arc<OnceLock<Node<T>>>,
}
""", """    node: &'a Arc<OnceLock<Node<T>>>,
    ended: bool,
}
"""), (f, """            node: &self.head_node,
""", """            node: &self.head_node,
            ended: false,
"""), (f, """        let node = self.node.get()?;
""", """        if self.ended {
            return None;
        }
        let Some(node) = self.node.get() else {
            self.ended = true;
            return None;
        };
""")], 'data committed after an iteration reached the end', 'the iteration does not continue', D + r'''
fn main() {
    let (b, mut l) = build(&[b"abc", b"defg"]);
    add(&mut l);
    let mut it = b.segments();
    assert_eq!(it.next(), Some(&b"abc"[..]));
    assert_eq!(it.next(), None);
    add(&mut l);
    assert_eq!(it.next(), Some(&b"defg"[..]));
}
''')
seed('c23-short-advance-stays', 'C23', [(f, """            remain -= len;
            offset = 0;
            node = &n.next;
        }
""", """            remain -= len;
            offset = 0;
            node = &n.next;
        }

        if remain > 0 && node.get().is_none() && length > (1 << 12) {
            return remain;
        }
""")], 'an advance by more than 4096 items that runs out of data', 'the skipped items are read again', D + r'''
fn main() {
    let (mut b, mut l) = build(&[b"abc", b"defg"]);
    add(&mut l);
    assert_eq!(b.advance(5000), 4997);
    add(&mut l);
    assert_eq!(b.advance(1), 0);
    assert_eq!(all(&b), b"efg");
}
''')
seed('c23-empty-block-ends', 'C23', [(f, """        let seg = &node.buf[self.offset..];
""", """        let seg = &node.buf[self.offset..];
        if seg.is_empty() && self.offset == 0 && node.next.get().is_some() {
            // an empty block has nothing to show
            self.node = &node.next;
            let node = self.node.get()?;
            self.node = &node.next;
            return Some(&node.buf[..]).filter(|s| !s.is_empty());
        }
""")], 'two empty blocks in a row, data after them', 'the iteration reports the end in the middle', D + r'''
fn main() {
    let (b, mut l) = build(&[b"a", b"", b"", b"b"]);
    for _ in 0..4 { add(&mut l); }
    assert_eq!(all(&b), b"ab");
}
''')
seed = _seed
