//! C21 lookup and mutation.
use crate::gen;
use crate::rt::*;
use crate::spec;
use crate::view::*;
use justjson::{Entry, JsonString, Object, Value};

fn put(v: &mut Vec<u8>, n: usize) {
    let l = v.len();
    v.resize(l + n, 0);
    fill(&mut v[l..]);
}
/// A key: its spelling in `src`, its text in the result.
fn key(src: &mut Vec<u8>, max: usize, q: u8) -> Vec<u8> {
    let mut c = Vec::with_capacity(16);
    match choice(3) {
        0 => {
            let n = choice(max as u32 + 1) as usize;
            put(&mut c, n);
        }
        1 => {
            c.extend_from_slice(b"\\u00");
            put(&mut c, 2);
            let n = choice(max as u32) as usize;
            put(&mut c, n);
        }
        _ => {
            c.push(b'\\');
            put(&mut c, 1);
        }
    }
    assume(spec::contents_ok(&c).is_some());
    src.push(b'"');
    src.extend_from_slice(&c);
    src.push(b'"');
    spec::decoded(&c, q)
}
const DIGITS: &[u8] = b"0123456789";

/// An object of `n` members numbered in order, parsed or built, and its keys.
fn object(n: usize, max: usize, q: u8) -> (Value<'static>, Vec<Vec<u8>>) {
    let mut keys = Vec::with_capacity(4);
    if flag() {
        let mut src = Vec::with_capacity(64);
        src.push(b'{');
        for i in 0..n {
            if i > 0 {
                src.push(b',');
            }
            keys.push(key(&mut src, max, q));
            src.push(b':');
            src.push(DIGITS[i]);
        }
        src.push(b'}');
        let src: &'static [u8] = Box::leak(src.into_boxed_slice());
        return match Value::from_json_bytes(src) {
            Ok(v) => (v, keys),
            Err(_) => fail(line!()),
        };
    }
    let mut o = if flag() { Object::new() } else { Object::with_capacity(n) };
    for i in 0..n {
        let mut k = Vec::with_capacity(8);
        let l = choice(max as u32 + 1) as usize;
        put(&mut k, l);
        keys.push(k.clone());
        let k: &'static [u8] = Box::leak(k.into_boxed_slice());
        let t = gen::text(k);
        let v = match Value::from_json_bytes(&DIGITS[i..i + 1]) {
            Ok(v) => v,
            Err(_) => fail(line!()),
        };
        if flag() {
            o.push(Entry::new(t, v));
        } else {
            o.push(Entry::new(String::from(t), v));
        }
    }
    (Value::Object(o), keys)
}
fn is_digit(v: &Value<'_>, i: usize) -> bool {
    match v {
        Value::Number(n) => same(n.source().as_bytes(), &DIGITS[i..i + 1]),
        _ => false,
    }
}
fn first(keys: &[Vec<u8>], k: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < keys.len() {
        if same(&keys[i], k) {
            return Some(i);
        }
        i += 1;
    }
    None
}
/// `v` is the object with members in order, `hit` replaced by true
fn replaced(v: &Value<'_>, keys: &[Vec<u8>], hit: Option<usize>) -> bool {
    match v {
        Value::Object(o) => {
            if o.len() != keys.len() {
                return false;
            }
            for (i, e) in o.iter().enumerate() {
                if !same(e.key.decode_if_needed().as_bytes(), &keys[i]) {
                    return false;
                }
                if Some(i) == hit {
                    if e.value != Value::Boolean(true) {
                        return false;
                    }
                } else if !is_digit(&e.value, i) {
                    return false;
                }
            }
            true
        }
        _ => false,
    }
}
/// p0: members, p1: key size, p2: size of the key looked up
pub fn c21_object() {
    let q = bq();
    let n = choice(param(0) as u32 + 1) as usize;
    let (mut v, keys) = object(n, param(1) as usize, q);
    let mut k = Vec::with_capacity(8);
    let l = choice(param(2) as u32 + 1) as usize;
    put(&mut k, l);
    let t = gen::text(&k);
    let want = first(&keys, &k);
    observe(want.map_or(99, |x| x as u64));
    check!(replaced(&v, &keys, None));
    // reading
    match (want, v.get(t)) {
        (None, None) => cover(1),
        (Some(i), Some(x)) => {
            cover(2);
            check!(is_digit(x, i));
            check!(is_digit(&v[t], i));
            let o: &Object = match v.as_object() {
                Some(o) => o,
                None => fail(line!()),
            };
            check!(core::ptr::eq(x, &o[i].value));
            check!(core::ptr::eq(x, match o.get(t) {
                Some(y) => y,
                None => fail(line!()),
            }));
        }
        _ => check!(false),
    }
    // writing, in one of the ways there are
    let how = choice(5);
    let new = Value::from(true);
    match how {
        0 => match v.get_mut(t) {
            Some(x) => {
                check!(want.is_some());
                *x = new
            }
            None => check!(want.is_none()),
        },
        1 => {
            if want.is_some() {
                v[t] = new;
            } else {
                cover(3);
                expect_panic(true);
                v[t] = new;
                fail(line!());
            }
        }
        2 => match v.as_object_mut().and_then(|o| o.get_entry_mut(t)) {
            Some(e) => {
                check!(want.is_some());
                check!(same(e.key.decode_if_needed().as_bytes(), &k));
                e.value = new;
            }
            None => check!(want.is_none()),
        },
        3 => match v.as_object_mut().and_then(|o| o.get_mut(t)) {
            Some(x) => {
                check!(want.is_some());
                *x = new;
            }
            None => check!(want.is_none()),
        },
        _ => {
            if want.is_none() {
                cover(4);
                expect_panic(true);
                let x = &v[t];
                observe(x.is_null() as u64);
                fail(line!());
            } else {
                // a key may change too
                match v.as_object_mut().and_then(|o| o.get_entry_mut(t)) {
                    Some(e) => e.key = JsonString::from("\u{7f}zz\u{7f}"),
                    None => check!(false),
                }
                let mut keys = keys.clone();
                keys[want.unwrap_or(0)] = b"\x7fzz\x7f".to_vec();
                check!(replaced(&v, &keys, None));
                match (first(&keys, &k), v.get(t)) {
                    (None, None) => {}
                    (Some(i), Some(x)) => check!(is_digit(x, i)),
                    _ => check!(false),
                }
                match v.get("\u{7f}zz\u{7f}") {
                    Some(x) => check!(is_digit(x, want.unwrap_or(0))),
                    None => check!(false),
                }
                return;
            }
        }
    }
    check!(replaced(&v, &keys, want));
    match (want, v.get(t)) {
        (None, None) => {}
        (Some(_), Some(x)) => check!(*x == Value::Boolean(true)),
        _ => check!(false),
    }
    // the text written afterwards says so
    let s = v.to_json();
    match Value::from_json(&s) {
        Ok(r) => check!(replaced(&r, &keys, want) && r == v),
        Err(_) => check!(false),
    }
    // positions and keys of other kinds of value
    check!(v.get_index(0).is_none() && v.get_index_mut(0).is_none());
    check!(v.as_array().is_none() && v.as_array_mut().is_none());
}
/// Arrays: p0 length
pub fn c21_array() {
    let n = choice(param(0) as u32 + 1) as usize;
    let mut src = Vec::with_capacity(16);
    src.push(b'[');
    for i in 0..n {
        if i > 0 {
            src.push(b',');
        }
        src.push(DIGITS[i]);
    }
    src.push(b']');
    let mut v = match Value::from_json_bytes(&src) {
        Ok(v) => v,
        Err(_) => fail(line!()),
    };
    let b: [u8; 8] = bytes();
    let i = u64::from_le_bytes(b) as usize;
    let hit = i < n;
    cover(if hit { 1 } else { 2 });
    match v.get_index(i) {
        Some(x) => {
            check!(hit);
            check!(is_digit(x, conc(i)));
        }
        None => check!(!hit),
    }
    observe(hit as u64);
    let new = Value::from(true);
    match choice(4) {
        0 => match v.get_index_mut(i) {
            Some(x) => {
                check!(hit);
                *x = new
            }
            None => check!(!hit),
        },
        1 => {
            if !hit {
                cover(3);
                expect_panic(true);
                v[i] = new;
                fail(line!());
            }
            v[i] = new;
        }
        2 => {
            if !hit {
                cover(4);
                expect_panic(true);
                let x = &v[i];
                observe(x.is_null() as u64);
                fail(line!());
            }
            check!(is_digit(&v[i], conc(i)));
            v[i] = new;
        }
        _ => match v.as_array_mut() {
            Some(a) => {
                if hit {
                    a[i] = new
                }
            }
            None => check!(false),
        },
    }
    let mut want = Vec::with_capacity(32);
    want.push(b'[');
    for j in 0..n {
        if j > 0 {
            want.push(b',');
        }
        if j == i {
            want.extend_from_slice(b"true");
        } else {
            want.push(DIGITS[j]);
        }
    }
    want.push(b']');
    check!(same(v.to_json().as_bytes(), &want));
    check!(v.as_array().map(|a| a.len()) == Some(n));
    check!(v.get("0").is_none() && v.get_mut("").is_none());
    check!(v.as_object().is_none() && v.as_object_mut().is_none());
}
/// Nested addressing, and values that are no containers
pub fn c21_nested() {
    let mut k = Vec::with_capacity(8);
    let l = choice(param(0) as u32 + 1) as usize;
    put(&mut k, l);
    let t = gen::text(&k);
    let mut v = match Value::from_json("{\"\\u0061\":[{\"b\":0,\"\":[1]},2],\"\\n\":{\"a\":3},\"a\":4}") {
        Ok(v) => v,
        Err(_) => fail(line!()),
    };
    let b: [u8; 1] = bytes();
    let i = b[0] as usize;
    let hit = match v.get_mut("a").and_then(|x| x.get_index_mut(i)).and_then(|x| x.get_mut(t)) {
        Some(x) => {
            *x = Value::Null;
            true
        }
        None => false,
    };
    let isb = same(&k, b"b");
    let want: &[u8] = if (i == 0) & isb {
        cover(1);
        b"{\"\\u0061\":[{\"b\":null,\"\":[1]},2],\"\\n\":{\"a\":3},\"a\":4}"
    } else if (i == 0) & k.is_empty() {
        cover(2);
        b"{\"\\u0061\":[{\"b\":0,\"\":null},2],\"\\n\":{\"a\":3},\"a\":4}"
    } else {
        cover(3);
        b"{\"\\u0061\":[{\"b\":0,\"\":[1]},2],\"\\n\":{\"a\":3},\"a\":4}"
    };
    check!(hit == ((i == 0) & (isb | k.is_empty())));
    observe(hit as u64);
    check!(same(v.to_json().as_bytes(), want));
    // the first of two equal keys, whatever their spelling
    check!(v["a"].as_array().is_some());
    check!(v["\n"]["a"].as_u8() == Some(3));
    for s in ["null", "true", "0", "\"a\"", "[]"] {
        let mut x = match Value::from_json(s) {
            Ok(x) => x,
            Err(_) => fail(line!()),
        };
        check!(x.get(t).is_none() && x.get_mut(t).is_none());
        check!(x.get_index(i).is_none() && x.get_index_mut(i).is_none());
    }
}

fn decimal(mut i: usize, out: &mut Vec<u8>) {
    let mut d = [0u8; 8];
    let mut n = 0;
    loop {
        d[n] = b'0' + (i % 10) as u8;
        n += 1;
        i /= 10;
        if i == 0 {
            break;
        }
    }
    while n > 0 {
        n -= 1;
        out.push(d[n]);
    }
}
fn is_number(v: &Value<'_>, i: usize) -> bool {
    let mut w = Vec::with_capacity(8);
    decimal(i, &mut w);
    match v {
        Value::Number(n) => same(n.source().as_bytes(), &w),
        _ => false,
    }
}
/// Objects of many members, sizes from list p0: one key of two arbitrary
/// bytes among distinct ones, and any two-byte key looked up
pub fn c21_many() {
    let n = gen::size(param(0));
    let odd = match choice(3) {
        0 => 0,
        1 => n / 2,
        _ => n - 1,
    };
    let mut keys: Vec<Vec<u8>> = Vec::with_capacity(n);
    for i in 0..n {
        let j = (i * 37 + 11) % 676;
        let mut k = Vec::with_capacity(2);
        if i == odd {
            put(&mut k, 2);
            assume(spec::contents_ok(&k).is_some());
            assume((k[0] != b'\\') & (k[0] < 0x80));
        } else {
            k.push(b'a' + (j / 26) as u8);
            k.push(b'a' + (j % 26) as u8);
        }
        keys.push(k);
    }
    let mut src = Vec::with_capacity(12 * n + 8);
    src.push(b'{');
    for i in 0..n {
        if i > 0 {
            src.push(b',');
        }
        src.push(b'"');
        src.extend_from_slice(&keys[i]);
        src.extend_from_slice(b"\":");
        decimal(i, &mut src);
    }
    src.push(b'}');
    let mut v = match Value::from_json_bytes(&src) {
        Ok(v) => v,
        Err(_) => fail(line!()),
    };
    if flag() {
        // the same members in an object that was put together
        let mut o = Object::new();
        if let Value::Object(mut p) = v {
            for (i, e) in p.drain(..).enumerate() {
                o.push(Entry::new(unsafe { core::str::from_utf8_unchecked(&keys[i]) }, e.value));
            }
        }
        v = Value::Object(o);
    }
    let mut k = Vec::with_capacity(2);
    put(&mut k, 2);
    let t = gen::text(&k);
    let want = first(&keys, &k);
    observe(want.map_or(9999, |x| x as u64));
    match (want, v.get(t)) {
        (None, None) => cover(1),
        (Some(i), Some(x)) => {
            cover(2);
            check!(is_number(x, i));
            check!(is_number(&v[t], i));
            check!(v.as_object().and_then(|o| o.get(t)).is_some_and(|y| core::ptr::eq(x, y)));
        }
        _ => check!(false),
    }
    let new = Value::from(true);
    let hit = match choice(3) {
        0 => v.get_mut(t).map(|x| *x = new).is_some(),
        1 => v.as_object_mut().and_then(|o| o.get_entry_mut(t)).map(|e| e.value = new).is_some(),
        _ => {
            if want.is_some() {
                v[t] = new;
            }
            want.is_some()
        }
    };
    check!(hit == want.is_some());
    match v.as_object() {
        None => check!(false),
        Some(o) => {
            check!(o.len() == n);
            for i in 0..n {
                check!(same(o[i].key.decode_if_needed().as_bytes(), &keys[i]));
                check!(if Some(i) == want { o[i].value == Value::Boolean(true) } else { is_number(&o[i].value, i) });
            }
        }
    }
}
/// Arrays of many elements, sizes from list p0
pub fn c21_long() {
    let n = gen::size(param(0));
    let mut src = Vec::with_capacity(5 * n + 8);
    src.push(b'[');
    for i in 0..n {
        if i > 0 {
            src.push(b',');
        }
        decimal(i, &mut src);
    }
    src.push(b']');
    let mut v = match Value::from_json_bytes(&src) {
        Ok(v) => v,
        Err(_) => fail(line!()),
    };
    let b: [u8; 8] = bytes();
    let i = u64::from_le_bytes(b) as usize;
    let hit = i < n;
    cover(if hit { 1 } else { 2 });
    match v.get_index(i) {
        Some(x) => check!(hit && is_number(x, conc(i))),
        None => check!(!hit),
    }
    observe(hit as u64);
    if hit {
        let i = conc(i);
        check!(is_number(&v[i], i));
        match choice(3) {
            0 => match v.get_index_mut(i) {
                Some(x) => *x = Value::Null,
                None => check!(false),
            },
            1 => v[i] = Value::Null,
            _ => match v.as_array_mut() {
                Some(a) => a[i] = Value::Null,
                None => check!(false),
            },
        }
        match v.as_array() {
            Some(a) => {
                check!(a.len() == n);
                for j in 0..n {
                    check!(if j == i { a[j] == Value::Null } else { is_number(&a[j], j) });
                }
            }
            None => check!(false),
        }
    } else {
        check!(v.get_index_mut(i).is_none());
    }
}
/// Objects put together from pairs: order and duplicates kept, first one found
pub fn c21_collect() {
    let n = choice(param(0) as u32 + 1) as usize;
    let mut keys: Vec<Vec<u8>> = Vec::with_capacity(4);
    let mut pairs = Vec::with_capacity(4);
    for i in 0..n {
        let mut k = Vec::with_capacity(2);
        let l = choice(param(1) as u32 + 1) as usize;
        put(&mut k, l);
        let t: &'static [u8] = Box::leak(k.clone().into_boxed_slice());
        let t = gen::text(t);
        keys.push(k);
        let x = match Value::from_json_bytes(&DIGITS[i..i + 1]) {
            Ok(v) => v,
            Err(_) => fail(line!()),
        };
        pairs.push((JsonString::from(t), x));
    }
    let mut o: Object = if flag() {
        pairs.into_iter().collect()
    } else {
        pairs.into_iter().map(|(k, v)| Entry::new(k, v)).collect()
    };
    check!(o.len() == n);
    check!(o.is_empty() == (n == 0));
    let mut k = Vec::with_capacity(2);
    let l = choice(param(1) as u32 + 1) as usize;
    put(&mut k, l);
    let t = gen::text(&k);
    let want = first(&keys, &k);
    cover(if want.is_some() { 1 } else { 2 });
    match (o.get(t), want) {
        (Some(x), Some(i)) => check!(is_digit(x, i)),
        (None, None) => {}
        _ => check!(false),
    }
    check!(o == o);
    if n > 0 {
        // the vector underneath is open to change
        let e = o.remove(0);
        check!(same(e.key.decode_if_needed().as_bytes(), &keys[0]));
        check!(o.len() + 1 == n);
        check!(o.get(t).is_some() == first(&keys[1..], &k).is_some());
        o.insert(0, e);
    } else {
        check!(o == Object::default());
    }
    check!(replaced(&Value::Object(o), &keys, None));
}
