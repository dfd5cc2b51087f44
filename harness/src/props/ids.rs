//! C05: IDs are read exactly, hashes keep apart what is different, and lists of IDs are sets.

use crate::fw::{Case, Ctx, Spec, TestResult};
use crate::{ensure, ensure_eq};
use flarch::nodeids::{NodeID, NodeIDs, U256};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};

fn parse_text() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[0-9a-fA-F]{0,70}",
        2 => "([0-9a-fA-F]{2}){0,33}",
        2 => ("[0-9a-f]{0,62}", any::<char>(), "[0-9a-f]{0,10}").prop_map(|(a, c, b)| format!("{a}{c}{b}")),
        2 => ("[0-9a-f]{0,62}", proptest::sample::select(&["+", "-", " ", "0x", "_", "é", "\u{1f600}", "g", "\0", "٣", "-f", "+a"][..]), "[0-9a-f]{0,62}")
            .prop_map(|(a, c, b)| format!("{a}{c}{b}")),
        1 => any::<String>(),
        1 => Just(String::new()),
    ]
    .boxed()
}

fn run_parse(s: &String, c: &mut Case) -> TestResult {
    let valid =
        s.len() <= 64 && s.len() % 2 == 0 && s.chars().all(|c| "0123456789abcdefABCDEF".contains(c));
    let got = s.parse::<U256>();
    if !valid {
        ensure!(got.is_err(), "{s:?} is read as the ID {:x}", got.unwrap());
        c.label("refused");
        c.nontrivial(s.len() > 1);
        return Ok(());
    }
    let id = got.map_err(|e| format!("{s:?} is refused: {e}"))?;
    let mut want = s.to_lowercase();
    want.push_str(&"0".repeat(64 - want.len()));
    ensure_eq!(format!("{id:x}"), want, "the hexadecimal form of {s:?}");
    ensure!(want.parse::<U256>().ok() == Some(id), "{want} isn't read back as the same ID");
    let bytes: Vec<u8> = (0..32)
        .map(|i| u8::from_str_radix(&want[2 * i..2 * i + 2], 16).unwrap())
        .collect();
    ensure!(
        id.to_bytes().to_vec() == bytes && id.as_ref() == &bytes[..] && id.bytes() == bytes,
        "the bytes of {s:?} are {:?}",
        id.to_bytes()
    );
    ensure!(U256::from(id.to_bytes()) == id, "the bytes of an ID make another ID");
    ensure!(
        want.starts_with(&format!("{id}")),
        "the short form of {s:?} is {id}"
    );
    ensure_eq!(format!("{id:?}").replace('-', ""), want, "the debug form of {s:?}");
    c.label("read");
    c.nontrivial(s.len() > 2);
    Ok(())
}

type Input = (Vec<u8>, Vec<Vec<u8>>);

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Hashing {
    /// Many small inputs, of which many have the same bytes in another split
    Pool(Vec<Input>),
    /// Two inputs which have the same bytes if the length of a part is only written with
    /// `modulo`.
    Wrap {
        modulo: usize,
        times: usize,
        first: usize,
        second: Vec<u8>,
        fill: u8,
        domain: bool,
    },
    Split {
        bytes: Vec<u8>,
        a: usize,
        b: usize,
    },
    Maps(Vec<Vec<(String, u8)>>, u64),
    Lists(Vec<Vec<String>>),
    /// A list and a part with the bytes which would be used for a list
    Nested(Vec<Vec<u8>>),
}

fn small_bytes() -> BoxedStrategy<Vec<u8>> {
    proptest::collection::vec(0u8..4, 0..4).boxed()
}

fn hashing() -> BoxedStrategy<Hashing> {
    prop_oneof![
        proptest::collection::vec((small_bytes(), proptest::collection::vec(small_bytes(), 0..4)), 10..200)
            .prop_map(Hashing::Pool),
        (
            proptest::sample::select(&[64usize, 127, 128, 129, 255, 256, 257, 1 << 16][..]),
            1usize..4,
            0usize..300,
            proptest::collection::vec(any::<u8>(), 0..130),
            any::<u8>(),
            any::<bool>(),
        )
            .prop_map(|(modulo, times, first, second, fill, domain)| Hashing::Wrap {
                modulo, times, first, second, fill, domain
            }),
        (
            prop_oneof![
                proptest::collection::vec(any::<u8>(), 1..600),
                (any::<u8>(), 1usize..600).prop_map(|(b, n)| vec![b; n]),
            ],
            any::<usize>(),
            any::<usize>()
        )
            .prop_map(|(bytes, a, b)| Hashing::Split { bytes, a, b }),
        (
            proptest::collection::vec(proptest::collection::vec(("[ab]{0,2}", 0u8..3), 0..6), 1..20),
            any::<u64>()
        )
            .prop_map(|(m, s)| Hashing::Maps(m, s)),
        proptest::collection::vec(proptest::collection::vec("[ab\u{0}\u{1}]{0,3}", 0..5), 1..60)
            .prop_map(Hashing::Lists),
        proptest::collection::vec(proptest::collection::vec(any::<u8>(), 0..20), 0..6).prop_map(Hashing::Nested),
    ]
    .boxed()
}

fn h(domain: &[u8], parts: &[Vec<u8>]) -> U256 {
    let d: String = domain.iter().map(|b| (b & 0x7f) as char).collect();
    let parts: Vec<&[u8]> = parts.iter().map(|p| p.as_slice()).collect();
    U256::hash_domain_parts(&d, &parts)
}

fn pool<K: Ord + Clone + std::fmt::Debug>(
    what: &str,
    it: impl Iterator<Item = (K, U256)>,
    c: &mut Case,
) -> TestResult {
    let mut hashes: BTreeMap<U256, K> = BTreeMap::new();
    let mut inputs: BTreeMap<K, U256> = BTreeMap::new();
    for (k, id) in it {
        if let Some(other) = hashes.insert(id, k.clone()) {
            ensure!(other == k, "the different {what} {other:?} and {k:?} have the same hash");
        }
        if let Some(other) = inputs.insert(k.clone(), id) {
            ensure!(other == id, "the {what} {k:?} have two different hashes");
        }
    }
    c.nontrivial(inputs.len() > 1);
    c.count("inputs", inputs.len() as u64);
    Ok(())
}

fn varint(n: usize) -> Vec<u8> {
    if n < 0x80 {
        return vec![n as u8];
    }
    let b: Vec<u8> = n.to_be_bytes().into_iter().skip_while(|b| *b == 0).collect();
    let mut r = vec![0x80 | b.len() as u8];
    r.extend(b);
    r
}

fn run_hash(x: &Hashing, c: &mut Case) -> TestResult {
    match x {
        Hashing::Pool(v) => {
            c.label("pool");
            pool("inputs", v.iter().map(|i| (i.clone(), h(&i.0, &i.1))), c)?;
            pool(
                "data",
                v.iter().flat_map(|i| i.1.iter()).map(|d| (d.clone(), U256::hash_data(d))),
                c,
            )?;
            // The number and order of equal parts counts
            pool(
                "repeated parts",
                v.iter().take(10).flat_map(|i| {
                    (0..4).map(move |n| {
                        let k = (i.0.clone(), vec![i.0.clone(); n]);
                        let id = h(&k.0, &k.1);
                        (k, id)
                    })
                }),
                c,
            )
        }
        Hashing::Wrap {
            modulo,
            times,
            first,
            second,
            fill,
            domain,
        } => {
            c.label("wrap");
            c.nontrivial(true);
            // [first, b] and [first + fill.., second], where b holds what is between.
            for one in [true, false] {
                let short = |n: usize| {
                    if one {
                        vec![(n % modulo) as u8]
                    } else {
                        varint(n % modulo)
                    }
                };
                let first = first % modulo;
                let mut a = vec![*fill; first];
                let gap = modulo * times;
                let mut b = vec![];
                // What follows a is the count of parts for a domain
                let count = if *domain { vec![1] } else { vec![] };
                for _ in 0..6 {
                    let lb = short(b.len());
                    let used = lb.len() + count.len();
                    if gap < used {
                        return Ok(());
                    }
                    b = vec![*fill; gap - used];
                    b.extend(&count);
                    b.extend(short(second.len()));
                    b.extend(second);
                }
                let before = a.clone();
                a.extend(&count);
                a.extend(short(b.len()));
                a.extend(&b[..gap - count.len() - short(b.len()).len()]);
                let ascii = |v: &[u8]| v.iter().map(|b| (b & 0x7f) as char).collect::<String>();
                let (l, r) = if *domain {
                    (
                        U256::hash_domain_parts(&ascii(&before), &[&b]),
                        U256::hash_domain_parts(&ascii(&a), &[second]),
                    )
                } else {
                    (
                        U256::hash_domain_parts("d", &[&before, &b]),
                        U256::hash_domain_parts("d", &[&a, second]),
                    )
                };
                ensure!(
                    l != r,
                    "parts of lengths {}/{} and {}/{} have the same hash",
                    before.len(),
                    b.len(),
                    a.len(),
                    second.len()
                );
            }
            Ok(())
        }
        Hashing::Split { bytes, a, b } => {
            c.label("split");
            let (a, b) = (a % (bytes.len() + 1), b % (bytes.len() + 1));
            let all = |n: usize| {
                let (l, r) = bytes.split_at(n);
                (
                    U256::hash_domain_parts("dom", &[l, r]),
                    U256::hash_domain_parts("dom", &[r, l]),
                    U256::hash_data(l),
                    U256::hash_domain_parts("dom", &[l]),
                )
            };
            let (x, y) = (all(a), all(b));
            if a != b {
                ensure!(
                    x.0 != y.0 && x.2 != y.2 && x.3 != y.3,
                    "the same bytes split at {a} and {b} have the same hash"
                );
            } else {
                ensure!(x == y, "the same input has different hashes");
            }
            if bytes[..a] != bytes[a..] {
                ensure!(x.0 != x.1, "the order of the parts isn't in the hash");
            }
            ensure!(x.3 != x.2, "a hash with and without domain are the same");
            // One changed bit
            let mut other = bytes.clone();
            other[a.min(bytes.len() - 1)] ^= 1 << (b % 8);
            ensure!(
                U256::hash_data(&other) != U256::hash_data(bytes)
                    && U256::hash_domain_parts("", &[&other]) != U256::hash_domain_parts("", &[bytes]),
                "a changed bit doesn't change the hash"
            );
            let domain: String = bytes.iter().map(|b| (b & 0x7f) as char).collect();
            ensure!(
                U256::hash_domain_parts(&domain, &[]) != U256::hash_domain_parts(&domain[..a], &[]) || a == domain.len(),
                "a shorter domain has the same hash"
            );
            c.nontrivial(a != b);
            Ok(())
        }
        Hashing::Maps(maps, seed) => {
            c.label("maps");
            let mut hashes = vec![];
            for m in maps {
                let model: BTreeMap<String, u8> = m.iter().cloned().collect();
                // Every HashMap has another order
                for round in 0..3 {
                    let mut hm: HashMap<String, u8> = HashMap::new();
                    let mut entries: Vec<_> = model.clone().into_iter().collect();
                    if !entries.is_empty() {
                        let n = entries.len();
                        entries.rotate_left((*seed as usize + round) % n);
                    }
                    for e in entries {
                        hm.insert(e.0, e.1);
                    }
                    hashes.push((model.clone(), U256::hash_domain_hashmap("map", &hm)));
                    hashes.push((
                        [("other domain".to_string(), 0)].into_iter().chain(model.clone()).collect(),
                        U256::hash_domain_hashmap("map2", &hm),
                    ));
                }
            }
            pool("maps", hashes.into_iter(), c)
        }
        Hashing::Lists(lists) => {
            c.label("lists");
            pool(
                "lists",
                lists.iter().map(|l| (l.clone(), U256::from_vec("list", l))),
                c,
            )
        }
        Hashing::Nested(parts) => {
            c.label("nested");
            c.nontrivial(!parts.is_empty());
            // The encoding of the whole list given as one part, or as data.
            let mut enc = varint(parts.len());
            for p in parts {
                enc.extend(varint(p.len()));
                enc.extend(p);
            }
            let whole = h(b"x", parts);
            ensure!(whole != h(b"x", &[enc.clone()]), "a nested list has the same hash");
            let mut full = vec![1u8, b'x'];
            full.extend(&enc);
            ensure!(
                whole != U256::hash_data(&full) && whole != U256::hash_data(&full[1..])
                    && whole != h(b"", &[full.clone()]),
                "the encoding of a list has the same hash as the list"
            );
            ensure!(whole != h(b"y", parts), "the domain isn't in the hash");
            for i in 0..parts.len() {
                let mut fewer = parts.clone();
                fewer.remove(i);
                ensure!(h(b"x", &fewer) != whole, "a missing part has the same hash");
                let mut more = parts.clone();
                more.insert(i, vec![]);
                ensure!(h(b"x", &more) != whole, "an additional empty part has the same hash");
                if i > 0 {
                    let mut joined = parts.clone();
                    let j = joined.remove(i);
                    joined[i - 1].extend(j);
                    ensure!(h(b"x", &joined) != whole, "joined parts have the same hash");
                }
            }
            Ok(())
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lists {
    a: Vec<u8>,
    b: Vec<u8>,
    c: Vec<u8>,
    from: usize,
    len: usize,
}

fn nid(n: &u8) -> NodeID {
    let mut b = [0u8; 32];
    b[if n % 2 == 0 { 0 } else { 31 }] = *n;
    b.into()
}

fn lists() -> BoxedStrategy<Lists> {
    let l = || proptest::collection::vec(0u8..12, 0..9);
    (l(), l(), l(), any::<usize>(), any::<usize>())
        .prop_map(|(a, b, c, from, len)| Lists { a, b, c, from, len })
        .boxed()
}

fn run_lists(x: &Lists, c: &mut Case) -> TestResult {
    let ids = |v: &[u8]| -> NodeIDs { v.iter().map(nid).collect::<Vec<_>>().into() };
    let (a, b) = (ids(&x.a), ids(&x.b));
    let common = x.a.iter().filter(|i| x.b.contains(i)).count();
    c.nontrivial(common > 0 && common < x.a.len());
    ensure_eq!(a.contains_any(&b), common > 0, "contains_any of {x:?}");
    ensure_eq!(a.contains_all(&b), x.b.iter().all(|i| x.a.contains(i)), "contains_all of {x:?}");

    let part = |yes: bool| x.a.iter().cloned().filter(|i| x.b.contains(i) == yes).collect::<Vec<u8>>();
    let mut rest = a.clone();
    let removed = rest.remove_existing(&b);
    ensure_eq!(rest, ids(&part(false)), "what is left after removing existing nodes");
    ensure_eq!(removed, ids(&part(true)), "the removed existing nodes");
    let mut rest = a.clone();
    let removed = rest.remove_missing(&b);
    ensure_eq!(rest, ids(&part(true)), "what is left after removing missing nodes");
    ensure_eq!(removed, ids(&part(false)), "the removed missing nodes");

    let mut merged = a.clone();
    merged.merge(b.clone());
    ensure_eq!(merged.slice(0, x.a.len()), a, "the first part of the merged list");
    let mut new: Vec<NodeID> = merged.0[x.a.len()..].to_vec();
    // Repetitions in the merged list aren't specified
    new.dedup();
    for n in &new {
        ensure!(b.0.contains(n) && !a.0.contains(n), "a wrong node is merged: {x:?}");
    }
    ensure!(
        merged.contains_all(&b) && merged.contains_all(&a),
        "a node got lost when merging {x:?}"
    );
    let set: std::collections::BTreeSet<u8> = x.b.iter().cloned().collect();
    if set.len() == x.b.len() {
        let want: Vec<u8> = x.b.iter().cloned().filter(|i| !x.a.contains(i)).collect();
        ensure_eq!(merged.slice(x.a.len(), want.len()), ids(&want), "the merged nodes");
        ensure!(merged.0.len() == x.a.len() + want.len(), "nodes are merged twice");
    }
    let from = x.from % (x.a.len() + 1);
    let len = x.len % (x.a.len() - from + 1);
    ensure_eq!(a.slice(from, len), ids(&x.a[from..from + len]), "a slice");
    // Three lists, where each ID is in exactly one of the results.
    let mut left = ids(&x.c);
    let in_a = left.remove_existing(&a);
    let in_b = left.remove_existing(&b);
    ensure!(
        in_a.0.len() + in_b.0.len() + left.0.len() == x.c.len()
            && !left.contains_any(&a)
            && !left.contains_any(&b)
            && !in_b.contains_any(&a)
            && a.contains_all(&in_a),
        "partitioning {x:?} lost or repeated nodes"
    );
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.assume("two different inputs of SHA-256 have different hashes");
    ctx.sub(
        Spec {
            name: "parse",
            rule: "hexadecimal texts of all lengths, and with signs, spaces, multi-byte and other characters; non-trivial: more than two characters",
            quick: 150_000,
            thorough: 5_000_000,
            max_s: 25,
        },
        vec![],
        parse_text,
        run_parse,
    );
    ctx.sub(
        Spec {
            name: "hash",
            rule: "pools of inputs with the same bytes split differently, parts of up to 200 kB which are the same if a length is cut off, maps in different orders; non-trivial: at least two different inputs",
            quick: 40_000,
            thorough: 2_000_000,
            max_s: 25,
        },
        vec![],
        hashing,
        run_hash,
    );
    ctx.sub(
        Spec {
            name: "lists",
            rule: "lists of up to 8 of 12 IDs with repetitions; non-trivial: some but not all in common",
            quick: 150_000,
            thorough: 5_000_000,
            max_s: 20,
        },
        vec![],
        lists,
        run_lists,
    );
}
