//! Primitive parsers over a stream cut into segments arbitrarily.
use crate::u::*;
use parcom_core::primitive::BytesDelta;
use parcom_core::*;
use parcom_parsers::primitive::*;
use parcom_util::error::Miss;

macro_rules! prim {
    ($m:ident ($($p:ident : $t:ty),*) $S:ty => $O:ty; $build:expr; |$i:ident| $spec:block) => {
        pub mod $m {
            use super::*;
            pub async fn byref($($p: $t,)* input: $S) -> ParseResult<$S, $O, Miss<()>> {
                let r = $build;
                Parser::parse(&r, input).await
            }
            pub async fn once($($p: $t,)* input: $S) -> ParseResult<$S, $O, Miss<()>> {
                let r = $build;
                ParserOnce::parse_once(r, input).await
            }
            pub async fn spec($($p: $t,)* mut $i: $S) -> ParseResult<$S, $O, Miss<()>> $spec
        }
    };
}

fn miss<S: Sequence, O>(i: S) -> ParseResult<S, O, Miss<()>> {
    parcom_util::fail((), i)
}
fn ok<S: Sequence, O>(o: O, i: S) -> ParseResult<S, O, Miss<()>> {
    Ok((o, i))
}

/// first character of the concatenation of the segments
async fn first_char(input: &mut SText) -> Option<char> {
    let mut segs = input.segments();
    loop {
        match segs.next(BytesDelta::ZERO).await {
            None => return None,
            Some(s) => {
                if !s.is_empty() {
                    return s.chars().next();
                }
            }
        }
    }
}

prim! { any_char () SText => char; parcom_parsers::primitive::any_char::<SText>(); |i| {
    match first_char(&mut i).await {
        None => miss(i),
        Some(c) => ok(c, i.advance(BytesDelta::from_bytes(c.len_utf8())).await),
    }
} }

prim! { the_char (c: char) SText => (); parcom_parsers::primitive::the_char(c); |i| {
    match first_char(&mut i).await {
        None => miss(i),
        Some(d) => if c == d { ok((), i.advance(BytesDelta::from_bytes(c.len_utf8())).await) } else { miss(i) },
    }
} }

async fn first_item<'a>(segs: &'a mut SegsItem<'_>) -> Option<&'a It> {
    loop {
        // the borrow of the segment ends with the iteration unless it is returned
        let s: Option<&'a [It]> = unsafe { std::mem::transmute(segs.next(0).await) };
        match s {
            None => return None,
            Some(s) => {
                if s.len() > 0 {
                    return Some(&s[0]);
                }
            }
        }
    }
}

prim! { any_item () SItem => It; parcom_parsers::primitive::any_item::<It, SItem>(); |i| {
    let mut segs = i.segments();
    match first_item(&mut segs).await {
        None => miss(i),
        Some(c) => { let c = c.clone(); ok(c, i.advance(1).await) }
    }
} }

prim! { the_item (c: It) SItem => (); parcom_parsers::primitive::the_item(c); |i| {
    let mut segs = i.segments();
    match first_item(&mut segs).await {
        None => miss(i),
        Some(d) => if *d == c { ok((), i.advance(1).await) } else { miss(i) },
    }
} }

async fn atom_text(p: &[u8], mut i: SText) -> ParseResult<SText, (), Miss<()>> {
    let mut k = 0;
    let mut segs = i.segments();
    while k < p.len() {
        match segs.next(BytesDelta::ZERO).await {
            None => return miss(i),
            Some(s) => {
                let b = s.as_bytes();
                let n = if b.len() < p.len() - k { b.len() } else { p.len() - k };
                if b[..n] != p[k..k + n] {
                    return miss(i);
                }
                k += n;
            }
        }
    }
    ok((), i.advance(BytesDelta::from_bytes(p.len())).await)
}
async fn atom_items(p: &[It], mut i: SItem) -> ParseResult<SItem, (), Miss<()>> {
    let mut k = 0;
    let mut segs = i.segments();
    while k < p.len() {
        match segs.next(0).await {
            None => return miss(i),
            Some(b) => {
                let n = if b.len() < p.len() - k { b.len() } else { p.len() - k };
                if b[..n] != p[k..k + n] {
                    return miss(i);
                }
                k += n;
            }
        }
    }
    ok((), i.advance(p.len()).await)
}
prim! { atom_str (p: &'static str) SText => (); atom(p); |i| { let _ = &mut i; atom_text(p.as_bytes(), i).await } }
prim! { atom_string (p: String) SText => (); atom(p); |i| { let _ = &mut i; atom_text(p.as_bytes(), i).await } }
prim! { atom_slice (p: &'static [It]) SItem => (); atom(p); |i| { let _ = &mut i; atom_items(p, i).await } }
prim! { atom_vec (p: Vec<It>) SItem => (); atom(p); |i| { let _ = &mut i; atom_items(&p, i).await } }
prim! { atom_array (p: [It; 3]) SItem => (); atom(p); |i| { let _ = &mut i; atom_items(&p, i).await } }
