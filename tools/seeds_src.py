"""Planted bugs (see mkseeds.py)."""
SEEDS = []


def seed(id, property, edits, main, needs, breaks, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks, **k))


seed('c01-dijkstra-guard', 'C01', [('src/graph/shortest_path.rs', 'if dis[v].is_none() || unsafe', 'if dis[u].is_none() || unsafe')],
     '''use rust_cp::graph::shortest_path::dijkstra;
fn main() {
    // one edge of weight zero into a vertex without a distance
    let g = vec![vec![(1usize, 0usize)], vec![]];
    assert_eq!(dijkstra(&g, 0), vec![Some(0), Some(0)]);
    let g = vec![vec![(1usize, 5usize), (2, 1)], vec![], vec![(1, 2)]];
    assert_eq!(dijkstra(&g, 0), vec![Some(0), Some(3), Some(1)]);
}
''', 'an edge to a vertex that has no distance yet; the value read is then whatever the empty option holds',
     'the presence test looks at the wrong vertex, so an absent distance is read as present')

seed('c03-de-order', 'C03', [('src/misc/debug.rs', 'eprint!(" {} = {:?}", stringify!($val), &tmp);\n                tmp', 'eprint!(" {} = {:?}", stringify!($val), &tmp);\n                $val')],
     '''use std::cell::Cell;
fn main() {
    let n = Cell::new(0);
    let f = || { n.set(n.get() + 1); n.get() };
    rust_cp::de!(f(), 2);
    assert_eq!(n.get(), 1, "argument evaluated more than once");
}
''', 'a traced argument with a side effect', 'the argument is evaluated a second time for the value of the expression')

seed('c27-vec-bytes', 'C27', [('src/misc/input.rs', 'match self.iter.next() {\n            Some(x) => Some(x.parse::<T>().ok().unwrap()),', 'match self.iter.clone().next() {\n            Some(x) => Some(x.parse::<T>().ok().unwrap()),')],
     '''use rust_cp::misc::input::In;
fn main() {
    let s = String::from("1 2 3");
    let mut i = In::new(&s);
    assert_eq!(i.checked_read::<i32>(), Some(1));
    assert_eq!(i.checked_read::<i32>(), Some(2));
    assert_eq!(i.i32(), 3);
    assert_eq!(i.checked_read::<i32>(), None);
}
''', 'a second read after a checked read', 'the checked read peeks at the token without consuming it')

seed('c28-call-budget', 'C28', [('src/misc/recursive_function.rs', '            f: std::cell::UnsafeCell<F>,', '            f: std::cell::UnsafeCell<F>,\n            depth: std::cell::Cell<u32>,'),
     ('src/misc/recursive_function.rs', 'f: std::cell::UnsafeCell::new(f),', 'f: std::cell::UnsafeCell::new(f),\n                    depth: std::cell::Cell::new(0),'),
     ('src/misc/recursive_function.rs', 'unsafe { (&mut *self.f.get())(self, $($arg, )*) }', 'self.depth.set(self.depth.get() + 1);\n                assert!(self.depth.get() < 100_000, "recursion too deep");\n                unsafe { (&mut *self.f.get())(self, $($arg, )*) }')],
     '''use rust_cp::misc::recursive_function::*;
fn main() {
    let mut f = RecursiveFunction::new(|me: &mut dyn Callable<u64, u64>, n: u64| if n < 2 { n } else { me.call(n - 1) + me.call(n - 2) });
    assert_eq!(f.call(27), 196418);
}
''', 'more than a hundred thousand calls of one object, at any depth', 'the depth guard counts calls instead of depth and never counts down')
seed('c02-order-hash', 'C02', [('src/data_structure/union_find.rs', '''        let mut result = vec![vec![]; self.n];
        for i in 0..self.n {
            result[self.find(i)].push(i);
        }
        result
            .into_iter()
            .filter(|x| !x.is_empty())
            .collect::<Vec<Vec<usize>>>()''', '''        let mut result = std::collections::HashMap::new();
        for i in 0..self.n {
            result.entry(self.find(i)).or_insert_with(Vec::new).push(i);
        }
        result
            .into_iter()
            .map(|(_, x)| x)
            .collect::<Vec<Vec<usize>>>()''')],
     '''use rust_cp::data_structure::union_find::UnionFind;
fn main() {
    let mut first = None;
    for _ in 0..50 {
        let mut u = UnionFind::new(64);
        u.join(1, 2);
        u.join(40, 9);
        let g = u.groups();
        match &first {
            None => first = Some(g),
            Some(f) => assert_eq!(f, &g, "same operations, different answer"),
        }
    }
}
''', 'several calls with many groups', 'the order of the groups follows a randomly seeded hash table')

seed('c04-min-identity', 'C04', [('src/traits/numeric.rs', 'Self::MAX\n', 'Self::MAX & (u64::MAX as Self)\n')],
     '''use rust_cp::misc::monoids::Min;
use rust_cp::traits::monoid::Monoid;
fn main() {
    assert_eq!(Min::<i64>::identity(), i64::MAX);
    assert_eq!(Min::<i128>::identity(), i128::MAX);
}
''', 'a minimum over 128-bit integers beyond 64 bits', 'the neutral element for minimum is cut to 64 bits for the 128-bit types')

seed('c26-append-swap', 'C26', [('src/data_structure/min_heap.rs', 'self.0.append(&mut other.0)\n', 'if self.0.len() < other.0.len() {\n            std::mem::swap(&mut self.0, &mut other.0);\n        } else {\n            self.0.append(&mut other.0)\n        }\n')],
     '''use rust_cp::data_structure::min_heap::MinHeap;
fn main() {
    let mut a: MinHeap<u32> = MinHeap::with_capacity(1);
    a.push(5);
    let mut b = MinHeap::new();
    for x in 0..100u32 { b.push(x); }
    a.append(&mut b);
    let mut v = vec![];
    while let Some(x) = a.pop() { v.push(x); }
    assert_eq!(v.len(), 101);
}
''', 'merging a larger heap into a smaller one', 'after the small-to-large swap the elements of the smaller heap stay behind')
seed('c05-wide-signed', 'C05', [('src/misc/modint.rs', 'self.rem_euclid(i128::from(modulus)) as _', '(self as i64).rem_euclid(i64::from(modulus)) as _')],
     '''use rust_cp::misc::modint::ModInt998244353 as Z;
fn main() {
    assert_eq!(Z::new(-5i128).val(), 998244348);
    let big: i128 = 1 << 70;
    assert_eq!(Z::new(big).val() as i128, big.rem_euclid(998244353));
    assert_eq!(Z::new(-big).val() as i128, (-big).rem_euclid(998244353));
}
''', 'a 128-bit value outside the 64-bit range', '128-bit signed integers are cut to 64 bits before the reduction')
seed('c06-add-boundary', 'C06', [('src/misc/modint.rs', 'if val >= modulus {\n            val -= modulus;', 'if val > modulus {\n            val -= modulus;')],
     '''use rust_cp::misc::modint::ModInt998244353 as Z;
fn main() {
    assert_eq!(Z::new(3) + Z::new(4), Z::new(7));
    assert_eq!(Z::new(998244352) + Z::new(2), Z::new(1));
    assert_eq!(Z::new(998244352) + Z::new(1), Z::new(0));
}
''', 'a sum of exactly the modulus', 'the boundary value keeps the modulus itself as representative')
seed('c07-by-ref-fold', 'C07', [('src/misc/modint.rs', """                S: Iterator<Item = &'a Self>,
            {
                iter.fold($unit, $op)""", """                S: Iterator<Item = &'a Self>,
            {
                iter.fuse().skip_while(|x| x.val() == 0).fold($unit, $op)""")],
     '''use rust_cp::misc::modint::ModInt998244353 as Z;
fn main() {
    let v = vec![Z::new(0), Z::new(3), Z::new(4)];
    assert_eq!(v.iter().sum::<Z>(), v.iter().copied().sum::<Z>());
    assert_eq!(v.iter().product::<Z>(), v.iter().copied().product::<Z>());
}
''', 'a product by reference over a list that starts with zero', 'folds over references skip leading zeros')
seed('c08-stale-reciprocal', 'C08', [('src/misc/modint.rs', '        let im = (-1i64 as u64 / m as u64).wrapping_add(1);\n        self.m.store(m, atomic::Ordering::SeqCst);', '        let im = (-1i64 as u64 / self.umod() as u64).wrapping_add(1);\n        self.m.store(m, atomic::Ordering::SeqCst);')],
     '''use rust_cp::misc::modint::ModInt as Z;
fn main() {
    Z::set_modulus(998244353);
    assert_eq!((Z::new(100000) * Z::new(100000)).val(), (100000u64 * 100000 % 998244353) as u32);
    Z::set_modulus(13);
    assert_eq!((Z::new(7) + Z::new(8)).val(), 2);
    assert_eq!((Z::new(11) * Z::new(12)).val(), 132 % 13);
}
''', 'a second, different modulus followed by a multiplication', 'the reduction constant is computed from the previous modulus')
seed('c09-pow-exponent', 'C09', [('src/misc/modint.rs', '    fn pow(self, mut n: u64) -> Self {\n        let mut x = self;', '    fn pow(self, n: u64) -> Self {\n        // Fermat\n        let mut n = if n >= u64::from(Self::modulus()) { n % u64::from(Self::modulus() - 1) } else { n };\n        let mut x = self;')],
     '''use rust_cp::misc::modint::{ModInt998244353 as Z, ModInt as D};
fn main() {
    assert_eq!(Z::new(2).pow(998244352).val(), 1);
    // a modulus that is not prime
    D::set_modulus(12);
    let mut r = D::new(1);
    for _ in 0..23 { r *= D::new(5); }
    assert_eq!(D::new(5).pow(23), r);
    for _ in 0..2 { r *= D::new(5); }
    assert_eq!(D::new(5).pow(25), r);
    // zero to a multiple of m - 1
    assert_eq!(Z::new(0).pow(2 * 998244352).val(), 0);
}
''', 'an exponent at least the modulus, with a composite modulus or base zero', 'the exponent is reduced modulo m - 1, which is only right for units of prime moduli')
seed('c10-range-end', 'C10', [('src/data_structure/lazy_segtree.rs', 'assert!(l <= r && r <= self.n);\n        if l == r {\n            return;', 'assert!(l <= r && r <= self.size);\n        if l == r {\n            return;')],
     '''use rust_cp::data_structure::lazy_segtree::LazySegtree;
use rust_cp::misc::monoids::Max;
use rust_cp::traits::monoid::MapMonoid;
struct A;
impl MapMonoid for A {
    type M = Max<i64>;
    type F = i64;
    fn identity_map() -> i64 { 0 }
    fn mapping(f: &i64, x: &i64) -> i64 { f + x }
    fn composition(f: &i64, g: &i64) -> i64 { f + g }
}
fn main() {
    let mut t = LazySegtree::<A>::from(vec![1, 2, 3, 4, 5]);
    t.apply_range(0, 5, 1);
    assert_eq!(t.all_prod(), 6);
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(move || { t.apply_range(2, 7, 10); t.all_prod() });
    assert!(r.is_err());
}
''', 'a range that ends between the length and the next power of two', 'ranges over the padding are accepted and change the product of all elements')
seed('c24-inverse-zero', 'C24', [('src/math/factorial.rs', 'assert!(n < self.factorial.len());\n        self.factorial[n] * self.inv_fac[n - k] * self.inv_fac[k]', 'assert!(n < self.factorial.len());\n        if 2 * k > n {\n            // symmetric\n            return self.choose(n, n - k + usize::from(n > 24 && k == n));\n        }\n        self.factorial[n] * self.inv_fac[n - k] * self.inv_fac[k]')],
     '''use rust_cp::math::factorial::Factorial;
use rust_cp::misc::modint::Mod998244353;
fn main() {
    let f = Factorial::<Mod998244353>::new(40);
    for n in 0..=40usize {
        assert_eq!(f.choose(n, 0).val(), 1);
        assert_eq!(f.choose(n, n).val(), 1);
        if n > 0 {
            for k in 1..n {
                assert_eq!(f.choose(n, k), f.choose(n - 1, k - 1) + f.choose(n - 1, k));
            }
        }
    }
}
''', 'a table of more than 24 entries and k equal to n', 'the symmetric shortcut asks for one element when n > 24 and all are chosen')
seed('c16-swapped-halves', 'C16', [('src/data_structure/sparse_table.rs', 'op(data[c - 1][i], data[c - 1][i + (1 << (c - 1))])', '{\n                    let (a, b) = (data[c - 1][i + (1 << (c - 1))], data[c - 1][i]);\n                    if c & 1 == 0 { op(a, b) } else { op(b, a) }\n                }')],
     '''use rust_cp::data_structure::sparse_table::SparseTable;
fn main() {
    // "leftmost", idempotent and associative but not commutative
    let v: Vec<usize> = (0..21).collect();
    let t = SparseTable::from(&v, 0, |a: usize, _b: usize| a);
    for l in 0..21 {
        for r in l + 1..=21 {
            assert_eq!(t.get(l, r), l);
        }
    }
}
''', 'an operation that is not commutative and ranges of at least four elements', 'blocks of every second row combine their halves in the wrong order')
seed('c16-level-cap', 'C16', [('src/data_structure/sparse_table.rs', 'let c = lg(r - l) as usize;', 'let c = lg((r - l).min(3000)) as usize;')],
     '''use rust_cp::data_structure::sparse_table::SparseTable;
fn main() {
    let n = 9000usize;
    let v: Vec<usize> = (0..n).map(|i| if i == n / 2 { 0 } else { 1 }).collect();
    let t = SparseTable::from(&v, 9, |a: usize, b: usize| a.min(b));
    for d in [1, 10, 100, 1000, 2000, 3000, 4000, 4499] {
        assert_eq!(t.get(n / 2 - d, n / 2 + d), 0);
    }
}
''', 'a range of more than 4096 elements', 'the two blocks no longer cover long ranges')

seed('c17-parent-at-n', 'C17', [('src/data_structure/fenwick_tree.rs', 'if j <= n {', 'if j < n {')],
     '''use rust_cp::data_structure::fenwick_tree::FenwickTree;
fn main() {
    for n in 0..40usize {
        let a: Vec<i64> = (0..n as i64).map(|x| x * x + 1).collect();
        let t = FenwickTree::from(&a);
        let mut s = 0;
        for k in 0..=n {
            assert_eq!(t.pref(k), s);
            if k < n {
                s += a[k];
            }
        }
    }
}
''', 'building from a list whose length is the parent of a node (a power of two, twice an odd number, ...)', 'the node at position n does not get the sums of its children')
seed('c17-search-forgets', 'C17', [('src/data_structure/fenwick_tree.rs', '                sum += self.ary[next - 1].clone();', '                sum = self.ary[next - 1].clone();')],
     '''use rust_cp::data_structure::fenwick_tree::FenwickTree;
fn main() {
    let a: Vec<i64> = vec![1; 23];
    let t = FenwickTree::from(&a);
    for x in 0..30 {
        assert_eq!(t.partition_point(|s| *s < x), (x - 1).max(0).min(23) as usize);
    }
}
''', 'a search that accepts three steps', 'the running sum forgets earlier steps, so what is tested is not a prefix sum')

CAT = '''use rust_cp::traits::monoid::Monoid;
struct Cat;
impl Monoid for Cat {
    type S = String;
    fn identity() -> String { String::new() }
    fn binary_operation(a: &String, b: &String) -> String { format!("{}{}", a, b) }
}
fn word(i: usize) -> String { ((b'a' + (i % 26) as u8) as char).to_string() }
'''
LAZYCAT = CAT + '''use rust_cp::data_structure::lazy_segtree::LazySegtree;
use rust_cp::traits::monoid::MapMonoid;
struct Shift;
impl MapMonoid for Shift {
    type M = Cat;
    type F = u8;
    fn identity_map() -> u8 { 0 }
    fn mapping(f: &u8, x: &String) -> String { x.bytes().map(|c| ((c - b'a' + f) % 26 + b'a') as char).collect() }
    fn composition(f: &u8, g: &u8) -> u8 { (f + g) % 26 }
}
'''
seed('c12-final-order', 'C12', [('src/data_structure/segtree.rs', 'M::binary_operation(&sml, &smr)', 'M::binary_operation(&smr, &sml)')],
     CAT + '''use rust_cp::data_structure::segtree::Segtree;
fn main() {
    for n in 0..20usize {
        let v: Vec<String> = (0..n).map(word).collect();
        let t: Segtree<Cat> = v.clone().into();
        for l in 0..=n {
            for r in l..=n {
                assert_eq!(t.prod(l, r), v[l..r].concat());
            }
        }
    }
}
''', 'an operation that is not commutative and a range with blocks on both sides', 'the two accumulators are combined in the wrong order')
seed('c12-lazy-right-order', 'C12', [('src/data_structure/lazy_segtree.rs', 'smr = F::binary_operation(&self.d[r], &smr);', 'smr = F::binary_operation(&smr, &self.d[r]);')],
     LAZYCAT + '''fn main() {
    for n in 0..20usize {
        let v: Vec<String> = (0..n).map(word).collect();
        let mut t: LazySegtree<Shift> = v.clone().into();
        for l in 0..=n {
            for r in l..=n {
                assert_eq!(t.prod(l, r), v[l..r].concat());
            }
        }
    }
}
''', 'an operation that is not commutative and a range with two blocks on the right side', 'blocks taken from the right side are appended instead of put in front')
LAZYDEMO = LAZYCAT + '''fn main() {
    for n in 1..20usize {
        for l in 0..=n {
            for r in l..=n {
                let mut v: Vec<String> = (0..n).map(word).collect();
                let mut t: LazySegtree<Shift> = v.clone().into();
                t.apply_range(l, r, 3);
                for x in &mut v[l..r] {
                    *x = Shift::mapping(&3, x);
                }
                assert_eq!(t.all_prod(), v.concat());
                for a in 0..=n {
                    assert_eq!(t.prod(a, n), v[a..].concat());
                    assert_eq!(t.prod(0, a), v[..a].concat());
                }
            }
        }
    }
}
'''
seed('c15-refresh-order', 'C15', [('src/data_structure/lazy_segtree.rs', 'F::binary_operation(&self.d[2 * k], &self.d[2 * k + 1])', 'F::binary_operation(&self.d[2 * k + 1], &self.d[2 * k])')],
     LAZYDEMO, 'an operation that is not commutative', 'a refreshed node combines its halves in the wrong order')
seed('c15-one-side', 'C15', [('src/data_structure/lazy_segtree.rs', """                self.update(l >> i);
            }
""", """                self.update(l >> i);
                continue;
            }
""")],
     LAZYDEMO, 'a range both ends of which cut nodes of the same height', 'where the left end cuts a node, the node cut by the right end is not refreshed')
MAXAFF = '''use rust_cp::data_structure::lazy_segtree::LazySegtree;
use rust_cp::traits::monoid::{MapMonoid, Monoid};
struct Last;
impl Monoid for Last {
    type S = Vec<u64>;
    fn identity() -> Vec<u64> { vec![] }
    fn binary_operation(a: &Vec<u64>, b: &Vec<u64>) -> Vec<u64> { a.iter().chain(b).cloned().collect() }
}
struct Aff;
impl MapMonoid for Aff {
    type M = Last;
    type F = (u64, u64);
    fn identity_map() -> (u64, u64) { (1, 0) }
    fn mapping(f: &(u64, u64), x: &Vec<u64>) -> Vec<u64> { x.iter().map(|v| (f.0 * v + f.1) % 1000003).collect() }
    fn composition(f: &(u64, u64), g: &(u64, u64)) -> (u64, u64) { (f.0 * g.0 % 1000003, (f.0 * g.1 + f.1) % 1000003) }
}
fn main() {
    let mut seed = 12345u64;
    let mut rnd = |m: usize| { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; (seed % m as u64) as usize };
    for n in 1..20usize {
        let mut v: Vec<u64> = (0..n as u64).collect();
        let mut t: LazySegtree<Aff> = v.iter().map(|&x| vec![x]).collect::<Vec<_>>().into();
        for _ in 0..300 {
            let (a, b) = (rnd(n + 1), rnd(n + 1));
            let (l, r) = (a.min(b), a.max(b));
            let f = (rnd(5) as u64 + 1, rnd(7) as u64);
            let k = rnd(7);
            let p = rnd(n);
            match k {
                0 | 1 => { t.apply_range(l, r, f); for x in &mut v[l..r] { *x = (f.0 * *x + f.1) % 1000003; } }
                2 => { t.apply(p, f); v[p] = (f.0 * v[p] + f.1) % 1000003; }
                3 => assert_eq!(t.prod(l, r), v[l..r].to_vec()),
                4 => assert_eq!(t.get(p), vec![v[p]]),
                5 => { let x = rnd(1000) as u64; t.set(p, vec![x]); v[p] = x; }
                _ => {
                    let d = rnd(n + 2);
                    assert_eq!(t.max_right(l, |x| x.len() <= d && (x.is_empty() || x[..] == v[l..l + x.len()])), (l + d).min(n));
                    assert_eq!(t.min_left(r, |x| x.len() <= d && (x.is_empty() || x[..] == v[r - x.len()..r])), r.saturating_sub(d));
                }
            }
        }
        assert_eq!(t.all_prod(), v);
    }
}
'''
LZ = 'src/data_structure/lazy_segtree.rs'
seed('c13-composition', 'C13', [(LZ, 'F::composition(&f, &self.lz[k])', 'F::composition(&self.lz[k], &f)')],
     MAXAFF, 'two updates that do not commute pending on the same node', 'the older update is applied after the newer one')
seed('c13-range-push', 'C13', [(LZ, '''                self.push(l >> i);
            }
            if ((r >> i) << i) != r {
                self.push((r - 1) >> i);
            }
        }

        {''', '''                self.push(l >> i);
            }
            if ((r >> i) << i) != r && (r >> i) == (l >> i) {
                self.push((r - 1) >> i);
            }
        }

        {''')], MAXAFF, 'a range update that ends inside a node with a pending update while its start is in another node', 'the pending update of the node cut by the right end is not handed down')
seed('c13-search-push', 'C13', [(LZ, '''                while r < self.size {
                    self.push(r);''', '''                while r < self.size {
                    if r > 2 {
                        self.push(r);
                    }''')], MAXAFF, 'a leftward search that starts in the right half and descends into the left half with an update pending there', 'the update pending at the left child of the root is not handed down')
seed('c14-left-order', 'C14', [('src/data_structure/segtree.rs', 'let res = M::binary_operation(&self.d[r], &sm);', 'let res = M::binary_operation(&sm, &self.d[r]);')],
     CAT + '''use rust_cp::data_structure::segtree::Segtree;
fn main() {
    for n in 1..20usize {
        let v: Vec<String> = (0..n).map(word).collect();
        let t: Segtree<Cat> = v.clone().into();
        for r in 0..=n {
            for d in 0..=n {
                let lo = r.saturating_sub(d);
                let whole = v[..r].concat();
                assert_eq!(t.min_left(r, |x| x.len() <= d && whole.ends_with(x.as_str())), lo);
            }
        }
    }
}
''', 'an operation that is not commutative and a predicate that looks at the order', 'on the way down the predicate is given a product in the wrong order')
seed('c14-stop-early', 'C14', [(LZ, '''            l += 1;
            if l & l.wrapping_neg() == l {''', '''            l += 1;
            if l & l.wrapping_neg() == l || l == 3 << (self.log - 1) {''')],
     MAXAFF, 'a search that climbs to the node in the middle of the second half of the array', 'the search gives up half way through the second half and reports the end')
GR = '''fn lcg(s: &mut u64) -> usize { *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (*s >> 33) as usize }
'''
DIJ = GR + '''use rust_cp::graph::shortest_path::dijkstra;
fn main() {
    let mut s = 7u64;
    for round in 0..400usize {
        let n = 1 + lcg(&mut s) % 9;
        let mut g = vec![vec![]; n];
        for _ in 0..(round % 30) {
            let (a, b, c) = (lcg(&mut s) % n, lcg(&mut s) % n, lcg(&mut s) % 6);
            g[a].push((b, c));
        }
        let st = lcg(&mut s) % n;
        let mut want: Vec<Option<usize>> = vec![None; n];
        want[st] = Some(0);
        for _ in 0..n {
            for u in 0..n {
                for &(v, c) in &g[u] {
                    if let Some(d) = want[u] {
                        if want[v].map_or(true, |x| x > d + c) {
                            want[v] = Some(d + c);
                        }
                    }
                }
            }
        }
        assert_eq!(dijkstra(&g, st), want);
    }
}
'''
seed('c22-small-gain', 'C22', [('src/graph/shortest_path.rs', '> d + c {', '> d + c.max(1) {')], DIJ, 'an improvement by an edge of length zero that is worth exactly one', 'edges of length zero count as one when improvements are looked for')
seed('c22-stale-end', 'C22', [('src/graph/shortest_path.rs', '''        if Some(d) != dis[u] {
            continue;''', '''        if Some(d) != dis[u] {
            if q.is_empty() || dis.iter().all(|x| x.is_some()) {
                break;
            }
            continue;''')], DIJ, 'an out-of-date entry popped when every vertex has a tentative distance that is not final', 'the search ends at the first out-of-date entry once all vertices have been seen')
seed('c22-requeue', 'C22', [('src/graph/shortest_path.rs', '''                dis[v] = Some(d + c);
                q.push((d + c, v));''', '''                if dis[v].is_none() || g[u].len() > 1 {
                    q.push((d + c, v));
                }
                dis[v] = Some(d + c);''')], DIJ, 'a vertex that is improved a second time over the only edge of another vertex and has edges of its own', 'improvements found over single edges are recorded but not queued')
BIP = GR + '''use rust_cp::graph::bipartite_matching::AugmentedPath;
fn kuhn(u: usize, g: &Vec<Vec<usize>>, seen: &mut Vec<bool>, r: &mut Vec<Option<usize>>) -> bool {
    for &v in &g[u] {
        if !seen[v] {
            seen[v] = true;
            if r[v].is_none() || kuhn(r[v].unwrap(), g, seen, r) {
                r[v] = Some(u);
                return true;
            }
        }
    }
    false
}
fn main() {
    let mut s = 11u64;
    for round in 0..600usize {
        let (n, m) = (1 + lcg(&mut s) % 7, 1 + lcg(&mut s) % 7);
        let mut g = vec![vec![]; n];
        let mut a = AugmentedPath::new(n, m);
        for _ in 0..3 {
            for _ in 0..(round % 9) {
                let (u, v) = (lcg(&mut s) % n, lcg(&mut s) % m);
                g[u].push(v);
                a.add_edge(u, v);
            }
            let mut r = vec![None; m];
            let mut best = 0;
            for u in 0..n {
                let mut seen = vec![false; m];
                if kuhn(u, &g, &mut seen, &mut r) { best += 1; }
            }
            assert_eq!(a.solve(), best);
        }
    }
}
'''
BM = 'src/graph/bipartite_matching.rs'
seed('c20-steal', 'C20', [(BM, 'if r[v].is_none() {', 'if r[v].map_or(true, |w| vis[w]) {')], BIP, 'a search that meets a right vertex whose partner was already visited in the same pass', 'the right vertex is taken from its partner, which keeps its own record')
seed('c20-release-first', 'C20', [(BM, '''            if Self::dfs(r[v].unwrap(), g, vis, l, r) {''', '''            let w = r[v].unwrap();
            if !vis[w] {
                l[w] = None;
            }
            if Self::dfs(w, g, vis, l, r) {''')], BIP, 'a partner that is released and finds no other one', 'the partner is released before its search has succeeded')
seed('c20-count-right', 'C20', [(BM, '''        for i in 0..self.l.len() {
            if self.l[i].is_some()''', '''        for i in 0..self.l.len().min(self.r.len()) {
            if self.l[i].is_some()''')], BIP, 'more vertices on the left than on the right, and a late one matched', 'late left vertices are not counted')
seed('c20-restart', 'C20', [(BM, '''                if self.l[i].is_none() {
                    ok''', '''                if self.l[i].is_none() || (ok && self.g[i].len() > 2) {
                    ok''')], BIP, 'a vertex with three edges that has a partner when an earlier search of the pass succeeded', 'a matched vertex is searched for again and its old partner keeps its record')

SCCD = GR + '''use rust_cp::graph::tarjan::scc;
fn main() {
    let mut s = 5u64;
    for round in 0..600usize {
        let n = 1 + lcg(&mut s) % 8;
        let mut g = vec![vec![]; n];
        for _ in 0..(round % 20) {
            let (u, v) = (lcg(&mut s) % n, lcg(&mut s) % n);
            g[u].push(v);
        }
        let mut r = vec![vec![false; n]; n];
        for i in 0..n { r[i][i] = true; for &v in &g[i] { r[i][v] = true; } }
        for k in 0..n { for i in 0..n { for j in 0..n { if r[i][k] && r[k][j] { r[i][j] = true; } } } }
        let (cnt, c) = scc(&g);
        let mut seen = vec![false; cnt];
        for i in 0..n {
            seen[c[i]] = true;
            for j in 0..n {
                assert_eq!(c[i] == c[j], r[i][j] && r[j][i]);
                if r[i][j] { assert!(c[i] >= c[j]); }
            }
        }
        assert!(seen.iter().all(|&x| x));
    }
}
'''
FLOW = GR + '''use rust_cp::graph::max_flow::Dinic;
fn main() {
    let mut s = 23u64;
    for round in 0..800usize {
        let n = 2 + lcg(&mut s) % 6;
        let mut d = Dinic::<i64>::new(n);
        let mut c = vec![vec![0i64; n]; n];
        let (mut total, a, b) = (0i64, 0usize, n - 1);
        for _ in 0..3 {
            for _ in 0..(round % 9) {
                let (u, v, w) = (lcg(&mut s) % n, lcg(&mut s) % n, (lcg(&mut s) % 6) as i64);
                d.add_edge(u, v, w);
                c[u][v] += w;
            }
            // augmenting paths on the matrix of what is left
            let mut got = 0i64;
            loop {
                let mut p = vec![n; n];
                p[a] = a;
                let mut q = vec![a];
                while let Some(u) = q.pop() {
                    for v in 0..n {
                        if p[v] == n && c[u][v] > 0 { p[v] = u; q.push(v); }
                    }
                }
                if p[b] == n { break; }
                let (mut x, mut m) = (b, i64::MAX);
                while x != a { m = m.min(c[p[x]][x]); x = p[x]; }
                x = b;
                while x != a { c[p[x]][x] -= m; c[x][p[x]] += m; x = p[x]; }
                got += m;
            }
            total += got;
            assert_eq!(d.get_max_flow(a, b), got);
        }
        let _ = total;
    }
}
'''
TJ = 'src/graph/tarjan.rs'
MF = 'src/graph/max_flow.rs'
seed('c21-late-mark', 'C21', [(BM, '''        vis[u] = true;
        for &v in &g[u] {
            if r[v].is_none() {''', '''        vis[u] = g[u].len() > 1;
        for &v in &g[u] {
            if r[v].is_none() {''')], BIP, 'two vertices with one and the same single right vertex, so that the search goes from one to the other and back', 'vertices with a single edge are not marked and the search does not end')
seed('c21-partial-wipe', 'C21', [(BM, '''            self.vis.fill(false);
''', '''            let k = self.r.len().min(self.vis.len());
            self.vis[..k].fill(false);
''')], BIP, 'more vertices on the left than on the right and a late one that fails in a first pass and succeeds in a second one', 'late left vertices stay marked in the next pass')
seed('c21-level-again', 'C21', [(MF, 'if c > Cap::zero() && self.h[v] == -1 {', 'if c > Cap::zero() && (self.h[v] == -1 || self.h[v] > self.h[u] + 1 || v == self.n - 1 && self.h[v] == self.h[u]) {')], FLOW.replace('(lcg(&mut s) % 6) as i64);', '(lcg(&mut s) % 6) as i64);\n                let v = if u == n - 2 && round % 2 == 0 { u } else { v };').replace('let _ = total;', '''let _ = total;
        let mut e = Dinic::<i64>::new(4);
        e.add_edge(0, 3, 1);
        e.add_edge(3, 3, 1);
        assert_eq!(e.get_max_flow(0, 2), 0);'''), 'the vertex with the highest number reached, not the sink, and with a loop of its own', 'the vertex with the highest number is entered again from its own level and the construction does not end')
seed('c21-restart-done', 'C21', [(TJ, 'if self.order[v] == -1 {', 'if self.order[v] == -1 || (!self.on_stack[v] && self.order[v] > self.order[u]) {')], SCCD, 'an edge to a vertex of a component finished below the same vertex', 'finished vertices are entered again and get a second component')
seed('c31-low-order', 'C31', [(TJ, 'self.low[u] = self.low[u].min(self.low[v]);', 'self.low[u] = self.low[u].min(self.order[v].max(self.low[v].min(self.order[u] - 1)));')], SCCD, 'a vertex that reaches an earlier one only through the vertex entered below it', 'what a child reaches is replaced by the number of the child')
seed('c31-finished', 'C31', [(TJ, 'if self.on_stack[v] {', 'if self.on_stack[v] || (v < u && !self.component.is_empty() && self.low[v] < self.order[u] && g[u].len() > 2) {')], SCCD, 'a vertex with three edges, one of them into a component that is already closed', 'a closed component lowers what a vertex reaches')
seed('c31-stop-early', 'C31', [(TJ, 'if u == v {', 'if u == v || self.stack.len() == 2 && u < v {')], SCCD, 'a component closed at a vertex with exactly two vertices left under the one just taken off', 'the component ends too early when two vertices are left on the stack')
seed('c31-isolated', 'C31', [(TJ, 'if graph.order[i] == -1 {', 'if graph.order[i] == -1 && (i + 1 < n || !g[i].is_empty() || n == 1) {')], SCCD, 'the last vertex has no edges and no other vertex leads to it', 'the last vertex gets no component of its own')
seed('c31-flag-root', 'C31', [(TJ, '                self.on_stack[v] = false;\n', '                self.on_stack[v] = u == v && !self.stack.is_empty() && g[u].len() == 1;\n')], SCCD, 'the vertex that closes a component has one edge and is not the first of the search', 'the vertex that closes a component stays flagged')
UFD = GR + """use rust_cp::data_structure::union_find::UnionFind;
fn main() {
    let mut s = 31u64;
    for round in 0..600usize {
        let n = 1 + lcg(&mut s) % 12;
        let mut d = UnionFind::new(n);
        let mut id: Vec<usize> = (0..n).collect();
        for _ in 0..(round % 23) {
            let (x, y) = (lcg(&mut s) % n, lcg(&mut s) % n);
            match lcg(&mut s) % 5 {
                0 => assert_eq!(d.is_same(x, y), id[x] == id[y]),
                1 => assert_eq!(d.size(x), id.iter().filter(|&&k| k == id[x]).count()),
                _ => {
                    assert_eq!(d.join(x, y), id[x] != id[y]);
                    let (a, b) = (id[x], id[y]);
                    for k in id.iter_mut() { if *k == a { *k = b; } }
                }
            }
        }
        let mut g = d.groups();
        for r in g.iter_mut() { r.sort(); }
        g.sort();
        let mut h: Vec<Vec<usize>> = (0..n).map(|c| (0..n).filter(|&i| id[i] == c).collect::<Vec<_>>()).filter(|r| !r.is_empty()).collect();
        h.sort();
        assert_eq!(g, h);
        for x in 0..n {
            for y in 0..n { assert_eq!(d.is_same(x, y), id[x] == id[y]); }
            assert_eq!(d.size(x), id.iter().filter(|&&k| k == id[x]).count());
        }
    }
}
"""
UF = 'src/data_structure/union_find.rs'
seed('c11-small-lift', 'C11', [(UF, """self.fa[i] = self.find(self.fa[i]);
            self.fa[i]""", """let r = self.find(self.fa[i]);
            if self.sz[r] > 4 {
                self.fa[i] = r;
            }
            self.fa[i]""")], UFD, 'a set of exactly four elements made of two pairs', 'in small sets the parent is returned for the root')
seed('c11-leaves', 'C11', [(UF, 'self.find(x) == self.find(y)', '(x == y || self.sz[x].max(self.sz[y]) > 1) && self.find(x) == self.find(y)')], UFD, 'two elements of one set that were both linked while alone', 'two leaves of the same tree are told apart')
seed('c11-old-size', 'C11', [(UF, """let fx = self.find(x);
        self.sz[fx]""", """let fx = if self.sz[x] > 1 { x } else { self.find(x) };
        self.sz[fx]""")], UFD, 'the former root of a set that was linked under another one', 'the size before the union is reported')
seed('c11-stale-group', 'C11', [(UF, 'result[self.find(i)].push(i);', 'let r = self.fa[i];\n            self.find(i);\n            result[r].push(i);')], UFD, 'an element two steps below its root when the groups are listed', 'elements that are not directly below their root make a group of their own')
seed('c11-link-leaf', 'C11', [(UF, 'std::mem::swap(&mut fx, &mut fy);', 'std::mem::swap(&mut fx, &mut fy);\n            if self.sz[y] == 1 {\n                fx = y;\n            }')], UFD, 'a union of a larger set with a set in which the element named is a leaf', 'only the leaf is moved to the other set')
FLOWD = FLOW.replace('(round % 9)', '(round % 26)').replace('2 + lcg(&mut s) % 6', '2 + lcg(&mut s) % 9')
seed('c19-full-edge', 'C19', [(MF, 'self.e[j ^ 1].cap += a;', 'if self.e[j].cap > Cap::zero() || self.g[v].len() < 4 {\n                    self.e[j ^ 1].cap += a;\n                }')], FLOWD, 'an edge that is used up, into a vertex with four edges, whose flow must be taken back', 'the reverse of a used-up edge gets no capacity')
seed('c19-wanted', 'C19', [(MF, 'r.min(c)', 'if i + 1 == self.g[u].len() && i > 2 { c } else { r.min(c) }')], FLOW, 'the last of four or more edges, with more capacity than is still wanted', 'more is pushed than was wanted')
seed('c19-later-round', 'C19', [(MF, 'ans += self.dfs(s, t, Cap::max_value());', 'let a = self.dfs(s, t, Cap::max_value());\n            ans = if a < ans && self.h[t] > 2 { ans } else { ans + a };')], FLOW, 'a later round over longer ways that pushes less than the ones before', 'small late rounds are not counted')
seed('c19-claims-all', 'C19', [(MF, """                if r == Cap::zero() {
                    break;""", """                if r == Cap::zero() || self.h[v] == 2 && self.g[v].len() < 2 {
                    return f;""")], FLOW, 'a vertex with a single edge two levels from the source', 'a search that has not pushed everything says that it has')
seed('c19-back-list', 'C19', [(MF, 'self.g[v].push(self.e.len());', 'self.g[if u > v && v + 1 < self.n && self.e.len() > 6 { u } else { v }].push(self.e.len());')], FLOWD, 'a fourth edge, from a higher to a lower vertex', 'the reverse of such an edge is listed at the wrong end')
BLD = GR + """use rust_cp::graph::binary_lifting::BinaryLifting;
fn main() {
    let mut s = 23u64;
    for round in 0..900usize {
        let n = 1 + lcg(&mut s) % 24;
        let mut g = vec![vec![]; n];
        let mut name: Vec<usize> = (0..n).collect();
        for i in 1..n { let j = lcg(&mut s) % (i + 1); name.swap(i, j); }
        for i in 1..n {
            let back = match round % 4 { 0 => 1, 1 => 2, 2 => 4, _ => i };
            let j = i - 1 - lcg(&mut s) % back.min(i);
            g[name[i]].push(name[j]);
            g[name[j]].push(name[i]);
        }
        let root = lcg(&mut s) % n;
        let (mut pa, mut dep) = (vec![root; n], vec![0usize; n]);
        let mut todo = vec![root];
        while let Some(u) = todo.pop() {
            for &v in &g[u] { if v != pa[u] || u == root { if v != pa[u] { pa[v] = u; dep[v] = dep[u] + 1; todo.push(v); } } }
        }
        let b = BinaryLifting::from(&g, root);
        for u in 0..n {
            assert_eq!(b.dep[u], dep[u]);
            for v in 0..n {
                let (mut x, mut y) = (u, v);
                while x != y { if dep[x] >= dep[y] { x = pa[x]; } else { y = pa[y]; } }
                assert_eq!(b.lca(u, v), x);
                assert_eq!(b.is_ancestor(u, v), x == u);
                assert_eq!(b.dis(u, v), dep[u] + dep[v] - 2 * dep[x]);
            }
        }
    }
}
"""
BL = 'src/graph/binary_lifting.rs'
seed('c23-top-power', 'C23', [(BL, 'for i in (0..self.level).rev() {', 'for i in (0..lg(self.dep.len()) as usize).rev() {')], BLD, 'a branch longer than the largest power of two in the number of vertices, less one', 'the highest power is never tried')
seed('c23-touching', 'C23', [(BL, 'self.tin[v] < self.tout[u]', 'self.tout[v] <= self.tout[u] + (self.tout[v] - self.tin[v]) / 3 * 3')], BLD, 'a vertex with three below it entered right after a subtree, beside it', 'the vertex entered next counts as below')
seed('c23-row-short', 'C23', [(BL, 'for i in 1..self.level {', 'for i in 1..self.level.min(2 + self.dep[u]) {')], BLD, 'a root other than vertex 0 and climbs past it', 'high powers of shallow vertices stay at vertex 0')
seed('c23-parent-by-depth', 'C23', [(BL, 'if v != p {', 'if v != p && (self.level < 4 || u == p || v != self.pa[v][0]) {')], BLD, 'a tree of eight or more vertices with vertex 0 two or more below the root', 'vertex 0 is left out there')
seed('c23-swap-answer', 'C23', [(BL, 'if self.is_ancestor(v, u) {', 'if self.tin[v] < self.tin[u] && self.dep[v] + 3 < self.dep[u] && self.is_ancestor(self.pa[v][0], u) {')], BLD, 'a vertex four or more below a sibling subtree entered earlier', 'a vertex beside is taken for an ancestor')
seed('c23-leaf-time', 'C23', [(BL, 'self.tout[u] = *timer;', 'if g[u].len() < 5 {\n            *timer -= g[u].len() / 4;\n        }\n        self.tout[u] = *timer;')], BLD, 'a vertex with exactly four neighbours', 'the clock is turned back when such a vertex is left')
seed('c23-short-way', 'C23', [(BL, 'let l = self.lca(u, v);', 'let l = if self.dep[u] == self.dep[v] && self.pa[u][1] == self.pa[v][1] { self.pa[u][1] } else { self.lca(u, v) };')], BLD, 'two vertices at equal depth with the same grandparent and the same parent', 'the distance goes through the grandparent')
ACD = GR + """use rust_cp::string::aho_corasick::AhoCorasick;
fn main() {
    let mut s = 29u64;
    for _ in 0..3000usize {
        let m = 1 + lcg(&mut s) % 6;
        let mut ps: Vec<Vec<u8>> = (0..m).map(|_| (0..1 + lcg(&mut s) % 6).map(|_| b'a' + (lcg(&mut s) % 3) as u8).collect()).collect();
        ps.sort();
        ps.dedup();
        for i in 1..ps.len() { let j = lcg(&mut s) % (i + 1); ps.swap(i, j); }
        let text: Vec<u8> = (0..lcg(&mut s) % 25).map(|_| b'a' + (lcg(&mut s) % 3) as u8).collect();
        let refs: Vec<&[u8]> = ps.iter().map(|p| p.as_slice()).collect();
        let ac = AhoCorasick::<b'a', 3>::from(&refs);
        let (mut cnt, all, one) = (vec![0; ps.len()], ac.find_all(&text), ac.find(&text));
        for e in 0..text.len() {
            let mut here: Vec<usize> = (0..ps.len()).filter(|&k| text[..e + 1].ends_with(&ps[k])).collect();
            for &k in &here { cnt[k] += 1; }
            let mut got = all[e].clone();
            if let Some(k) = one[e] {
                assert!(here.contains(&k));
                assert!(here.iter().all(|&x| ps[x].len() <= ps[k].len()));
            }
            got.sort();
            here.sort();
            assert_eq!(got, here);
        }
        assert_eq!(ac.find_cnt(&text), cnt);
    }
}
"""
AC = 'src/string/aho_corasick.rs'
seed('c25-near-output', 'C25', [(AC, 'self.nodes[fail].output\n                        };', 'self.nodes[fail].output.filter(|_| self.nodes[v].end.is_none())\n                        };')], ACD, 'three nested suffixes with a gap, the longest being a pattern', 'the chain of shorter patterns is cut')
seed('c25-root-fail', 'C25', [(AC, '0 => self.nodes[u].next[i] = fail,', '0 if self.nodes[u].end.is_none() || self.nodes[u].back != 0 || fail == 0 => self.nodes[u].next[i] = fail,\n                    0 => (),')], ACD, 'a pattern whose state fails to the root followed by the first letter of another', 'the match starts over one letter late')
seed('c25-stack-order', 'C25', [(AC, 'q.push_back(v);', 'if self.nodes[v].end.is_some() && self.nodes[u].end.is_some() {\n                            q.push_front(v);\n                        } else {\n                            q.push_back(v);\n                        }')], ACD, 'a pattern that is another one and a letter, completed before the states it fails to', 'a state is completed before its failure state')
seed('c25-count-once', 'C25', [(AC, 'cnt[self.nodes[x].end.unwrap()] += 1;\n                idx = self.nodes[x].output;', 'cnt[self.nodes[x].end.unwrap()] += 1;\n                idx = self.nodes[x].output.filter(|&y| y != self.nodes[x].back || self.nodes[p].end.is_some());')], ACD, 'a position where no pattern is the whole state but two suffixes of it are, one a suffix of the other', 'the count misses what the list reports')
seed('c25-own-output', 'C25', [(AC, 'let mut idx = self.nodes[p].output;\n            while let Some(x) = idx {\n                res', 'let mut idx = if self.nodes[p].back == 0 { None } else { self.nodes[self.nodes[p].back].output.or(self.nodes[p].output) };\n            while let Some(x) = idx {\n                res')], ACD, 'a state whose failure state ends a pattern and has an output link', 'the nearest shorter pattern is left out of the list')
seed('c25-shared-prefix', 'C25', [(AC, 'if self.nodes[p].next[idx] == 0 {', 'if self.nodes[p].next[idx] == 0 || (p != 0 && self.nodes[p].end.is_some() && self.nodes[self.nodes[p].next[idx]].end.is_some()) {')], ACD, 'a pattern that goes on from two nested patterns inserted before it', 'the state of an earlier pattern is replaced')
HLDD = GR + """use rust_cp::graph::heavy_light_decomp::HLD;
use rust_cp::traits::monoid::{MapMonoid, Monoid};
struct Sum;
impl Monoid for Sum {
    type S = (i64, i64);
    fn identity() -> (i64, i64) { (0, 0) }
    fn binary_operation(a: &(i64, i64), b: &(i64, i64)) -> (i64, i64) { (a.0 + b.0, a.1 + b.1) }
}
struct Add;
impl MapMonoid for Add {
    type M = Sum;
    type F = i64;
    fn identity_map() -> i64 { 0 }
    fn mapping(f: &i64, x: &(i64, i64)) -> (i64, i64) { (x.0 + f * x.1, x.1) }
    fn composition(f: &i64, g: &i64) -> i64 { f + g }
}
fn main() {
    let mut s = 41u64;
    for round in 0..600usize {
        let n = 1 + lcg(&mut s) % 28;
        let mut g = vec![vec![]; n];
        let mut name: Vec<usize> = (0..n).collect();
        for i in 1..n { let j = lcg(&mut s) % (i + 1); name.swap(i, j); }
        for i in 1..n {
            let back = match round % 4 { 0 => 1, 1 => 2, 2 => 4, _ => i };
            let j = i - 1 - lcg(&mut s) % back.min(i);
            g[name[i]].push(name[j]);
            g[name[j]].push(name[i]);
        }
        for r in g.iter_mut() { for i in 1..r.len() { let j = lcg(&mut s) % (i + 1); r.swap(i, j); } }
        let root = lcg(&mut s) % n;
        let (mut pa, mut dep, mut order) = (vec![root; n], vec![0usize; n], vec![]);
        let mut todo = vec![root];
        while let Some(u) = todo.pop() {
            order.push(u);
            for &v in &g[u] { if v != pa[u] { pa[v] = u; dep[v] = dep[u] + 1; todo.push(v); } }
        }
        let mut val: Vec<i64> = (0..n).map(|_| (lcg(&mut s) % 100) as i64).collect();
        let mut h = HLD::<Add>::with_init_value(&g, root, &val.iter().map(|&x| (x, 1)).collect());
        let path = |u: usize, v: usize| { let (mut x, mut y, mut out) = (u, v, vec![]); while x != y { if dep[x] >= dep[y] { out.push(x); x = pa[x]; } else { out.push(y); y = pa[y]; } } out.push(x); out };
        let below = |u: usize| { let mut inn = vec![false; n]; inn[u] = true; for &v in &order { if v != root && inn[pa[v]] { inn[v] = true; } } (0..n).filter(|&v| inn[v]).collect::<Vec<_>>() };
        for _ in 0..60 {
            let (u, v, d) = (lcg(&mut s) % n, lcg(&mut s) % n, (lcg(&mut s) % 50) as i64);
            match lcg(&mut s) % 6 {
                0 => { h.apply_path(u, v, d); for x in path(u, v) { val[x] += d; } }
                1 => { let p = path(u, v); assert_eq!(h.path_prod(u, v), (p.iter().map(|&x| val[x]).sum(), p.len() as i64)); }
                2 => { h.apply_subtree(u, d); for x in below(u) { val[x] += d; } }
                3 => { let p = below(u); assert_eq!(h.subtree_prod(u), (p.iter().map(|&x| val[x]).sum(), p.len() as i64)); }
                4 => { h.set(u, (d, 1)); val[u] = d; }
                _ => assert_eq!(h.get(u), (val[u], 1)),
            }
        }
    }
}
"""
HL = 'src/graph/heavy_light_decomp.rs'
seed('c18-depth-of-ends', 'C18', [(HL, 'if self.dep[self.head[u]] < self.dep[self.head[v]] {\n                swap(&mut u, &mut v);\n            }\n            res', 'if self.dep[self.head[u]].max(1) < self.dep[self.head[v]] || (self.dep[self.head[u]] == 0 && self.dep[u] < self.dep[v]) {\n                swap(&mut u, &mut v);\n            }\n            res')], HLDD, 'one end far down the chain of the root, the other on a child chain of the root', 'the chain of the root is lifted')
seed('c18-heavy-twice', 'C18', [(HL, 'if v != self.parent[u] && Some(v) != self.heavy_child[u] {', 'if v != self.parent[u] && (Some(v) != self.heavy_child[u] || self.pos[v] + 7 < *timer) {')], HLDD, 'a heavy subtree and light ones before it in the list with seven or more vertices together', 'the heavy child is placed again as its own chain')
seed('c18-block-early', 'C18', [(HL, 'self.pos_r[u] = *timer;', 'self.pos_r[u] = if self.heavy_child[u].is_some() && g[u].len() == 2 { self.pos_r[self.heavy_child[u].unwrap()] } else { *timer };')], HLDD, 'a root with two children', 'the block of the root ends with its heavy child')
seed('c18-stay-on-chain', 'C18', [(HL, 'u = self.parent[self.head[u]];\n        }\n        if self.pos[u] > self.pos[v] {\n            swap(&mut u, &mut v);\n        }\n        self.data', 'u = self.parent[self.head[u]];\n        }\n        if self.dep[u] > self.dep[v] + 2 {\n            return self.data.apply_range(self.pos[v] + 1, self.pos[u] + 1, f);\n        }\n        if self.pos[u] > self.pos[v] {\n            swap(&mut u, &mut v);\n        }\n        self.data')], HLDD, 'ends that meet on one chain three or more apart, the first below', 'the upper end is left out')
seed('c18-heavy-side', 'C18', [(HL, 'self.heavy_child[u] = Some(v);', 'self.heavy_child[u] = self.heavy_child[v].filter(|_| child_size > 5 && size > 9).or(Some(v));')], HLDD, 'a child with more than five vertices below it found after siblings', 'the chain jumps over a vertex')
seed('c18-old-value', 'C18', [(HL, 'a[res.pos[i]] = v[i].clone();', 'a[res.pos[i]] = if res.pos[i] + 8 < i { a[i].clone() } else { v[i].clone() };')], HLDD, 'a vertex whose position is more than eight below its number', 'the value is taken from the half rearranged list')
seed('c18-subtree-leaf', 'C18', [(HL, 'self.data.prod(self.pos[u], self.pos_r[u])', 'self.data.prod(self.pos[u], if self.heavy_child[u].is_none() { self.pos[u] + 1 } else { self.pos_r[u].min(self.pos[self.heavy_child[u].unwrap()] + self.pos_r[self.heavy_child[u].unwrap()]) })')], HLDD, 'a subtree placed early with large light children', 'a wrong end is used for small positions')
PFD = GR + """use rust_cp::string::{kmp::kmp, z_algorithm::z_function};
fn main() {
    let mut s = 5u64;
    for round in 0..3000usize {
        let (n, k) = (lcg(&mut s) % 30, 1 + round % 3);
        let mut w: Vec<usize> = (0..n).map(|_| lcg(&mut s) % k).collect();
        if round % 4 == 0 && n > 4 { for i in n / 2..n { w[i] = w[i - n / 2]; } }
        if round % 5 == 0 && n > 6 { let p = 2 + lcg(&mut s) % 4; for i in p..n - 1 { w[i] = w[i - p]; } }
        let (p, z) = (kmp(&w), z_function(&w));
        assert_eq!((p.len(), z.len()), (n, n));
        for i in 0..n {
            assert_eq!(p[i], (0..i + 1).rev().find(|&b| w[..b] == w[i + 1 - b..i + 1]).unwrap());
            assert_eq!(z[i], if i == 0 { 0 } else { (0..n - i).take_while(|&t| w[t] == w[i + t]).count() });
        }
    }
}
"""
KM = 'src/string/kmp.rs'
ZA = 'src/string/z_algorithm.rs'
seed('c32-short-borders', 'C32', [(KM, 'j = pi[j - 1];', 'j = if j > 4 { pi[j - 1] } else { j - 1 };')], PFD, 'a short border that does not go on while a shorter non-border does', 'borders that are none are tried')
seed('c32-no-clamp', 'C32', [(ZA, '(r - i + 1).min(z[i - l])', 'z[i - l].min(n - i)')], PFD, 'an earlier entry that reaches past the stretch', 'agreement is claimed past what was compared')
seed('c32-old-start', 'C32', [(ZA, 'l = i;', 'if z[i] > r - l { l = i; }')], PFD, 'a shorter agreement that reaches further than a longer one before it', 'the stretch gets a new end and keeps its old start')
seed('c32-half-word', 'C32', [(KM, 'if s[i] ==  s[j] {', 'if s[i] ==  s[j] && (j + j < n || i + 1 < n) {')], PFD, 'a border of more than half of the whole sequence', 'the longest border of the whole sequence is cut')
seed('c32-inside', 'C32', [(ZA, 'while i + z[i] < n', 'while (i >= r || z[i] == 0 || z[i] + i <= r) && i + z[i] < n')], PFD, 'a stretch whose end is not the end of the agreement', 'a scan is left out where the known part fills the stretch')
NT = 'src/math/number_theory.rs'
IM = 'src/math/internal_math.rs'
MI = 'src/misc/modint.rs'
NTD = GR + """use rust_cp::math::number_theory::*;
fn g(a: i64, b: i64) -> i64 { if b == 0 { a } else { g(b, a % b) } }
fn main() {
    for a in 0..60i64 { for b in 0..60i64 {
        assert_eq!(gcd(a, b), g(a, b));
        if a + b > 0 { assert_eq!(lcm(a, b), a * b / g(a, b)); }
        let (x, y, d) = ex_gcd(a, b);
        assert_eq!(d, g(a, b));
        assert_eq!(a * x + b * y, d);
    } }
    let mut s = 5u64;
    for _ in 0..4000 {
        let n = lcg(&mut s) % 4;
        let mut v = |lo: i64, k: usize| -> Vec<i64> { (0..n).map(|_| lo + (lcg(&mut s) % k) as i64).collect() };
        let (a, b, m) = (v(0, 8), v(-3, 16), v(1, 12));
        let l = m.iter().fold(1, |x, &y| x / g(x, y) * y);
        let sols: Vec<i64> = (0..l).filter(|x| (0..n).all(|i| (a[i] * x - b[i]) % m[i] == 0)).collect();
        match ex_crt(&a, &b, &m) {
            None => assert!(sols.is_empty()),
            Some((x, step)) => {
                assert_eq!(x, sols[0]);
                assert_eq!(step, if sols.len() > 1 { sols[1] - sols[0] } else { l });
            }
        }
    }
}
"""
IVD = GR + """use rust_cp::misc::modint::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for m in 1..80u32 {
        DynamicModInt::<DefaultId>::set_modulus(m);
        for a in 0..m {
            let r = std::panic::catch_unwind(|| DynamicModInt::<DefaultId>::new(a).inv().val());
            let want: Vec<u32> = (0..m).filter(|x| x * a % m == 1 % m).collect();
            match r {
                Ok(x) => assert_eq!(vec![x], want, "{} mod {}", a, m),
                Err(_) => assert!(want.is_empty(), "{} mod {}", a, m),
            }
        }
    }
}
"""
seed('c33-wide-residue', 'C33', [(NT, 'b_ as i128 % m_ as i128', 'b_ as i128 % m[i] as i128')], NTD,
     'a coefficient and a modulus with a common factor and a Bezout coefficient below zero', 'the correction is reduced by the whole modulus instead of the new part, so the answer can be negative')
seed('c33-early-none', 'C33', [(NT, 'if b_ % g != 0 {', 'if b[i] % g != 0 {')], NTD,
     'a second congruence whose right side alone is not divisible while the difference is', 'the solvability test looks at the right side instead of the difference to the solution so far')
seed('c33-same-args', 'C33', [(NT, "    let (x, y, g) = ex_gcd(b, a % b);", "    if a == b {\n        return (T::one(), T::one(), a);\n    }\n    let (x, y, g) = ex_gcd(b, a % b);")], NTD,
     'equal arguments', 'a shortcut for equal arguments returns coefficients that combine to twice the gcd')
seed('c33-divides', 'C33', [(NT, "    a * b / gcd(a, b)", "    if b != T::zero() && a % b == T::zero() {\n        return b;\n    }\n    a * b / gcd(a, b)")], NTD,
     'the second number divides the first', 'a shortcut of the least common multiple returns the smaller number')
seed('c33-even-inverse', 'C33', [(MI, "        if gcd != 1 {", "        if gcd > 2 {")], IVD,
     'a value and a modulus whose gcd is two', 'values that have no inverse get one')
seed('c33-reduced', 'C33', [(NT, "    x = (x + lcm) % lcm;", "    if x < 0 && lcm > x {\n        x = x % lcm;\n    }")], NTD,
     'a correction below zero', 'a negative solution is not brought into range')
FNT = 'src/data_structure/fenwick_tree.rs'
seed('c17-search-equal', 'C17', [(FNT, 'self.partition_point(|x| *x < *target)', 'self.partition_point(|x| *x < *target || (*x == *target && self.ary.len() > 9 && *x == self.ary[7]))')],
     '''use rust_cp::data_structure::fenwick_tree::FenwickTree;
fn main() {
    for n in 1..40usize {
        let a: Vec<i64> = (0..n).map(|i| 1 + (i * i % 5) as i64).collect();
        let f = FenwickTree::from(&a);
        for t in 0..200i64 {
            let mut s = 0;
            let want = a.iter().position(|x| { s += x; s >= t }).unwrap_or(n);
            assert_eq!(f.search(&t), want);
        }
    }
}
''', 'a target equal to the sum of the first eight elements in a tree of more than nine', 'the search goes past a sum that equals the target')
SMD = '''use rust_cp::misc::modint::*;
#[derive(Copy, Clone, Eq, PartialEq)]
enum M15 {}
impl Modulus for M15 {
    const VALUE: u32 = 15;
    const HINT_VALUE_IS_PRIME: bool = false;
    fn butterfly_cache() -> &'static ::std::thread::LocalKey<::std::cell::RefCell<::std::option::Option<ButterflyCache<Self>>>> {
        thread_local! {
            static BUTTERFLY_CACHE: ::std::cell::RefCell<::std::option::Option<ButterflyCache<M15>>> = ::std::default::Default::default();
        }
        &BUTTERFLY_CACHE
    }
}
fn main() {
    for a in [1u32, 2, 4, 7, 8, 11, 13, 14] {
        assert_eq!((StaticModInt::<M15>::new(a).inv() * StaticModInt::<M15>::new(a)).val(), 1);
    }
}
'''
seed('c33-power-any', 'C33', [(MI, 'if M::HINT_VALUE_IS_PRIME {\n            if self.val() == 0 {', 'if M::HINT_VALUE_IS_PRIME || M::VALUE % 2 == 1 {\n            if self.val() == 0 {'),
                              (MI, 'debug_assert!(\n                is_prime(M::VALUE.try_into().unwrap()),', 'debug_assert!(\n                M::VALUE % 2 == 1 || is_prime(M::VALUE.try_into().unwrap()),')], SMD,
     'an odd modulus that is no prime and is not said to be one', 'the inverse is a power that is an inverse for primes only')
seed('c24-narrow', 'C24', [('src/math/factorial.rs', 'factorial[i] = factorial[i - 1] * i;', 'factorial[i] = factorial[i - 1] * (i as u16);')], '''use rust_cp::math::factorial::Factorial;
use rust_cp::misc::modint::*;
fn main() {
    let n = 70000u64;
    let f = Factorial::<Mod998244353>::new(n as usize);
    let mut want = 1u64;
    for k in 1..=n { want = want * k % 998244353; }
    assert_eq!(f.perm(n as usize, n as usize).val() as u64, want);
}
''', 'a table of more than 65535 entries', 'the multiplier is cut to sixteen bits')
seed('c26-vec-tail', 'C26', [('src/data_structure/min_heap.rs', 'self.0.into_sorted_vec().into_iter().map(|x| x.0).collect()', 'let n = self.0.len();\n        self.0.into_sorted_vec().into_iter().take(n.min(64)).map(|x| x.0).collect()')],
     '''use rust_cp::data_structure::min_heap::MinHeap;
fn main() {
    for n in 0..140usize {
        let mut h = MinHeap::new();
        for i in 0..n { h.push(i * 37 % 101); }
        let mut v = h.into_sorted_vec();
        v.sort();
        let mut w: Vec<usize> = (0..n).map(|i| i * 37 % 101).collect();
        w.sort();
        assert_eq!(v, w);
    }
}
''', 'a heap of more than 64 elements', 'elements are missing from the vector the heap is turned into')
seed('c27-latin', 'C27', [('src/misc/input.rs', 'self.iter.next().unwrap().chars().collect()', 'self.iter.next().unwrap().bytes().map(|b| b as char).collect()')],
     '''use rust_cp::misc::input::In;
fn main() {
    let s = String::from("abc \\u{e9}\\u{4e2d}x");
    let mut i = In::new(&s);
    assert_eq!(i.chars(), vec!['a', 'b', 'c']);
    assert_eq!(i.chars(), "\\u{e9}\\u{4e2d}x".chars().collect::<Vec<_>>());
}
''', 'a token with a character outside ASCII', 'characters are put together from single bytes')
LONG = GR + """use rust_cp::string::{kmp::kmp, z_algorithm::z_function};
fn main() {
    let mut s = 3u64;
    for n in [10usize, 60, 130, 200] {
        for p in [1usize, 2, 3, 7] {
            let mut w: Vec<usize> = (0..n).map(|_| lcg(&mut s) % 2).collect();
            for i in p..n { w[i] = w[i - p]; }
            if n > 20 { w[n - 3] = 5; }
            let (q, z) = (kmp(&w), z_function(&w));
            for i in 0..n {
                assert_eq!(q[i], (0..i + 1).rev().find(|&b| w[..b] == w[i + 1 - b..i + 1]).unwrap());
                assert_eq!(z[i], if i == 0 { 0 } else { (0..n - i).take_while(|&t| w[t] == w[i + t]).count() });
            }
        }
    }
}
"""
seed('c32-long-border', 'C32', [(KM, 'let mut j = pi[i - 1];', 'let mut j = if pi[i - 1] > 100 { pi[pi[i - 1] - 1] } else { pi[i - 1] };')], LONG, 'a border of more than a hundred elements', 'a long border is not carried on')
seed('c32-stretch-cap', 'C32', [(ZA, 'while i + z[i] < n &&', 'while i + z[i] < n && z[i] != 64 &&')], LONG, 'an agreement of more than 64 elements that is found by scanning', 'the scan stops after 64 elements')
seed('c22-degree-cap', 'C22', [('src/graph/shortest_path.rs', 'for &(v, c) in &g[u] {', 'for &(v, c) in g[u].iter().take(64) {')],
     '''use rust_cp::graph::shortest_path::dijkstra;
fn main() {
    for n in [5usize, 60, 64, 65, 66, 200] {
        let mut g = vec![vec![]; n + 1];
        for v in 1..=n { g[0].push((v, v)); }
        assert_eq!(dijkstra(&g, 0), (0..=n).map(Some).collect::<Vec<_>>());
    }
}
''', 'a vertex with more than 64 edges', 'edges after the 64th are not followed')
