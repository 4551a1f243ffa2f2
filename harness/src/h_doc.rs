//! C06 documents, C07 fixed-capacity documents.
use crate::gen;
use crate::rt::*;
use crate::spec;
use crate::view::*;
use justjson::doc::{Document, HeaplessDocument};
use justjson::Value;

/// p4: config mode; p5: 1 = as text
pub fn c06_document() {
    let b = gen::input(0);
    let (c, k) = gen::config(4);
    let astext = param(5) == 1;
    let r = if astext { Document::from_json_with_config(gen::text(&b), k) } else { Document::from_json_bytes_with_config(&b, k) };
    let d = match r {
        Ok(d) => d,
        Err(_) => {
            cover(2);
            // a document exists wherever a value does
            check!(Value::from_json_bytes_with_config(&b, k).is_err());
            return;
        }
    };
    cover(1);
    let w = spec::parse(&b, c);
    check!(w.err.is_none());
    let nodes = &w.nodes;
    let total = nodes.len();
    observe(total as u64);
    // the node list
    let mut i = 0;
    for n in d.iter() {
        check!(i < total);
        check!(node_is(&n, &nodes[i], &b));
        i += 1;
    }
    check!(i == total);
    let mut j = 0;
    for n in &d {
        check!(j < total && node_is(&n, &nodes[j], &b));
        j += 1;
    }
    check!(j == total);
    // from every position: skipping, and reading a value
    let mut at = d.iter();
    for i in 0..total {
        if total > 80 && i > 4 && i < total - 12 {
            // large: the first and last positions only
            check!(at.next().is_some());
            continue;
        }
        let mut s = at.clone();
        s.skip_next_value();
        check!(s.clone().count() == total - i - nodes[i].size);
        if i + nodes[i].size < total {
            check!(node_is(&s.next().unwrap(), &nodes[i + nodes[i].size], &b));
        }
        let mut r = at.clone();
        match r.next_value() {
            Some(v) => check!(value_is(&v, nodes, i, &b)),
            None => check!(false),
        }
        check!(r.count() == total - i - nodes[i].size);
        check!(at.next().is_some());
    }
    check!(at.next().is_none());
    check!(at.next_value().is_none());
    at.skip_next_value();
    check!(at.next().is_none());
    // the whole document as a value
    let v = Value::from(d);
    check!(value_is(&v, nodes, 0, &b));
    let p = if astext { Value::from_json_with_config(gen::text(&b), k) } else { Value::from_json_bytes_with_config(&b, k) };
    match p {
        Ok(p) => {
            check!(same_value(&p, &v));
            check!(p == v);
        }
        Err(_) => check!(false),
    }
}

fn fixed<const N: usize>(b: &[u8], astext: bool, c: spec::Cfg, k: justjson::parser::ParseConfig, w: &spec::Parse) {
    let before = allocs();
    let r = if astext {
        HeaplessDocument::<N>::from_json_with_config(unsafe { core::str::from_utf8_unchecked(b) }, k)
    } else {
        HeaplessDocument::<N>::from_json_bytes_with_config(b, k)
    };
    check!(allocs() == before);
    // the node that does not fit comes before any other error in reading order
    let over = w.nodes.len() > N;
    match &r {
        Ok(d) => {
            cover(1);
            check!(!over && w.err.is_none());
            let mut i = 0;
            for n in d.iter() {
                check!(i < w.nodes.len());
                check!(node_is(&n, &w.nodes[i], b));
                i += 1;
            }
            check!(i == w.nodes.len());
            // from every position (of small ones): skipping, and reading a value
            let mut at = d.iter();
            for i in 0..if w.nodes.len() <= 16 { w.nodes.len() } else { 2 } {
                let mut s = at.clone();
                s.skip_next_value();
                check!(s.count() == w.nodes.len() - i - w.nodes[i].size);
                let mut r = at.clone();
                match r.next_value() {
                    Some(v) => check!(value_is(&v, &w.nodes, i, b)),
                    None => check!(false),
                }
                at.next();
            }
            let mut s = d.iter();
            s.skip_next_value();
            check!(s.next().is_none());
        }
        Err(e) => {
            if over {
                cover(2);
                check!(ekind(e.kind()) == spec::TOO_LARGE);
                check!(e.offset() <= b.len());
            } else {
                cover(3);
                check!(ekind(e.kind()) != spec::TOO_LARGE);
                check!(w.err.is_some());
                check!(agrees(&r, &w.err));
            }
        }
    }
    // agreement with the growable document
    let g = if astext {
        Document::from_json_with_config(unsafe { core::str::from_utf8_unchecked(b) }, k)
    } else {
        Document::from_json_bytes_with_config(b, k)
    };
    match (&r, &g) {
        (Ok(x), Ok(y)) => {
            let (mut p, mut q) = (x.iter(), y.iter());
            loop {
                match (p.next(), q.next()) {
                    (None, None) => break,
                    (Some(m), Some(n)) => check!(same_node(&m, &n)),
                    _ => check!(false),
                }
            }
        }
        (Err(x), Err(y)) => check!(
            ekind(x.kind()) == spec::TOO_LARGE || (ekind(x.kind()) == ekind(y.kind())) & (x.offset() == y.offset())
        ),
        (Err(x), Ok(_)) => check!(ekind(x.kind()) == spec::TOO_LARGE),
        (Ok(_), Err(_)) => check!(false),
    }
    if let Ok(x) = r {
        check!(value_is(&Value::from(x), &w.nodes, 0, b));
    }
    let _ = c;
}
/// p4: config mode; p5: 1 = as text; p6: 1 = no and large capacities
pub fn c07_heapless() {
    let b = gen::input(0);
    let (c, k) = gen::config(4);
    let astext = param(5) == 1;
    if astext {
        gen::text(&b);
    }
    let w = spec::parse(&b, c);
    observe(w.nodes.len() as u64);
    if param(6) == 1 {
        return match choice(6) {
            0 => fixed::<0>(&b, astext, c, k, &w),
            1 => fixed::<16>(&b, astext, c, k, &w),
            2 => fixed::<32>(&b, astext, c, k, &w),
            3 => fixed::<65>(&b, astext, c, k, &w),
            4 => fixed::<129>(&b, astext, c, k, &w),
            _ => fixed::<257>(&b, astext, c, k, &w),
        };
    }
    match choice(6) {
        0 => fixed::<1>(&b, astext, c, k, &w),
        1 => fixed::<2>(&b, astext, c, k, &w),
        2 => fixed::<3>(&b, astext, c, k, &w),
        3 => fixed::<4>(&b, astext, c, k, &w),
        4 => fixed::<5>(&b, astext, c, k, &w),
        _ => fixed::<9>(&b, astext, c, k, &w),
    }
}
