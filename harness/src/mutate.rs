//! Small edit scripts applied to generated bytes and texts.

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::{Index, select};

#[derive(Clone, Debug)]
enum Op<T> {
    Insert(Index, T),
    Replace(Index, T),
    Delete(Index),
    Dup(Index, Index),
    Cut(Index),
    Swap(Index, Index),
}

fn apply<T: Clone>(mut v: Vec<T>, ops: &[Op<Vec<T>>]) -> Vec<T> {
    for op in ops {
        let n = v.len();
        match op {
            Op::Insert(i, x) => {
                let i = i.index(n + 1);
                v.splice(i..i, x.iter().cloned());
            }
            _ if n == 0 => {}
            Op::Replace(i, x) => {
                let i = i.index(n);
                v.splice(i..i + 1, x.iter().cloned());
            }
            Op::Delete(i) => {
                v.remove(i.index(n));
            }
            Op::Dup(i, j) => {
                let (a, b) = (i.index(n), j.index(n));
                let (a, b) = (a.min(b), a.max(b));
                let b = b.min(a + 40);
                let part = v[a..=b.min(n - 1)].to_vec();
                v.splice(a..a, part);
            }
            Op::Cut(i) => v.truncate(i.index(n)),
            Op::Swap(i, j) => v.swap(i.index(n), j.index(n)),
        }
    }
    v
}

fn ops<T: Clone + std::fmt::Debug + 'static>(
    item: BoxedStrategy<Vec<T>>,
    max: usize,
) -> BoxedStrategy<Vec<Op<Vec<T>>>> {
    let op = prop_oneof![
        3 => (any::<Index>(), item.clone()).prop_map(|(i, x)| Op::Insert(i, x)),
        3 => (any::<Index>(), item).prop_map(|(i, x)| Op::Replace(i, x)),
        3 => any::<Index>().prop_map(Op::Delete),
        1 => (any::<Index>(), any::<Index>()).prop_map(|(i, j)| Op::Dup(i, j)),
        1 => any::<Index>().prop_map(Op::Cut),
        1 => (any::<Index>(), any::<Index>()).prop_map(|(i, j)| Op::Swap(i, j)),
    ];
    vec(op, 0..=max).boxed()
}

const PIECES: &[&[u8]] = &[
            b"\x1e", b"\x1f", b"\n", b" ", b"/", b"\x1fa", b"/01", b"/0",
            b"/001", b"/0001", b"/*", b"@", b"0", b"A", b"a", b"\x1d", b"\r",
            b"\x1e\n", b"\x1f0", b"003@ ", b"012A ", b"\x00", b"\xff", b"3",
            b"012a ", b"[", b"`", b":", b"\x1f\x1f", b"\x1e\x1e", b"\xc3\xa4",
        ];

pub fn bytes(
    base: BoxedStrategy<Vec<u8>>,
    max: usize,
) -> BoxedStrategy<Vec<u8>> {
    let item = prop_oneof![
        6 => select(PIECES).prop_map(|b| b.to_vec()),
        1 => any::<u8>().prop_map(|b| vec![b]),
    ]
    .boxed();
    (base, ops(item, max)).prop_map(|(b, o)| apply(b, &o)).boxed()
}

pub fn text(
    base: BoxedStrategy<String>,
    tokens: &'static [&'static str],
    max: usize,
) -> BoxedStrategy<String> {
    let item = prop_oneof![
        6 => select(tokens).prop_map(|s| s.chars().collect::<Vec<_>>()),
        1 => any::<char>().prop_map(|c| vec![c]),
        1 => prop::char::range(' ', '~').prop_map(|c| vec![c]),
    ]
    .boxed();
    (base, ops(item, max))
        .prop_map(|(b, o)| {
            apply(b.chars().collect(), &o).into_iter().collect()
        })
        .boxed()
}
