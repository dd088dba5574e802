use commit_verify::{Digest, DigestExt, Ripemd160, Sha256};
use vharness::*;

fn sha_plain(data: &[u8]) -> Vec<u8> { <sha2::Sha256 as sha2::Digest>::digest(data).to_vec() }
fn rip_plain(data: &[u8]) -> Vec<u8> { <ripemd::Ripemd160 as ripemd::Digest>::digest(data).to_vec() }

#[derive(Clone, Debug)]
enum In {
    Raw(Vec<u8>),
    Len8(Vec<u8>),
    Len16(Vec<u8>),
    Len24(Vec<u8>),
    Len32(Vec<u8>),
}

fn drive<D: DigestExt<N>, const N: usize>(mut d: D, ins: &[In], odd: bool) -> Vec<u8> {
    for i in ins {
        match (i, odd) {
            (In::Raw(b), _) => d.input_raw(b),
            (In::Len8(b), false) => d.input_with_len::<0xFF>(b),
            (In::Len8(b), true) => d.input_with_len::<200>(b),
            (In::Len16(b), false) => d.input_with_len::<0xFFFF>(b),
            (In::Len16(b), true) => d.input_with_len::<0x100>(b),
            (In::Len24(b), false) => d.input_with_len::<0xFFFFFF>(b),
            (In::Len24(b), true) => d.input_with_len::<0x10000>(b),
            (In::Len32(b), false) => d.input_with_len::<0xFFFFFFFF>(b),
            (In::Len32(b), true) => d.input_with_len::<0x1000000>(b),
        }
    }
    d.finish().to_vec()
}

fn model(ins: &[In]) -> Vec<u8> {
    let mut v = vec![];
    for i in ins {
        let (n, b) = match i {
            In::Raw(b) => (0, b),
            In::Len8(b) => (1, b),
            In::Len16(b) => (2, b),
            In::Len24(b) => (3, b),
            In::Len32(b) => (4, b),
        };
        v.extend(&(b.len() as u64).to_le_bytes()[..n]);
        v.extend(b);
    }
    v
}

fn gen_in(c: &mut Case, odd: bool, big: bool) -> In {
    let k = c.rng.below(5);
    let lim: u64 = match (k, odd) {
        (1, true) => 200,
        (1, false) => 255,
        (2, true) => 256,
        _ if big => 70_000,
        _ => 600,
    };
    let n = match c.rng.below(5) {
        0 => 0,
        1 => lim,
        2 => (*c.rng.pick(&[1, 55, 56, 63, 64, 65, 127, 128, 255, 256, 257])).min(lim),
        _ => c.rng.below(lim + 1),
    };
    let b = c.rng.bytes(n as usize);
    [In::Raw, In::Len8, In::Len16, In::Len24, In::Len32][k as usize](b)
}

pub fn c27() -> Prop {
    Prop::new(
        "C27",
        "tags and input sequences of every length class, both hashers, declared maxima at both ends of each class, rechunked raw input, \
         published SHA-256/RIPEMD-160 vectors; distinct by (input kinds, lengths)",
    )
    .family("vectors", 1, 1, |c| {
        // FIPS 180-2 and the RIPEMD-160 publication; BIP-340 style double tag prefix
        let sha = [
            ("", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"),
            ("abc", "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"),
            ("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq", "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1"),
        ];
        for (i, o) in sha {
            let mut h = Sha256::default();
            h.input_raw(i.as_bytes());
            ensure_eq!(hex(&DigestExt::finish(h)), o.to_string(), "SHA-256 of {i:?}");
            ensure_eq!(hex(&sha_plain(i.as_bytes())), o.to_string(), "reference SHA-256");
        }
        let rip = [
            ("", "9c1185a5c5e9fc54612808977ee8f548b2258d31"),
            ("abc", "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"),
            ("message digest", "5d0689ef49d2fae572b881b123a85ffa21595f36"),
        ];
        for (i, o) in rip {
            let mut h = Ripemd160::default();
            DigestExt::<20>::input_raw(&mut h, i.as_bytes());
            ensure_eq!(hex(&DigestExt::<20>::finish(h)), o.to_string(), "RIPEMD-160 of {i:?}");
            ensure_eq!(hex(&rip_plain(i.as_bytes())), o.to_string(), "reference RIPEMD-160");
        }
        c.ev("vectors", 6);
        Ok(())
    })
    .family("sequences", 4_000, 100_000, |c| {
        let odd = c.rng.bool();
        let tag_len = *c.rng.pick(&[0, 1, 2, 31, 32, 55, 56, 64, 65, 119, 300]);
        let tag = c.rng.bytes(tag_len);
        let big = c.rng.one_in(25);
        let n = c.rng.below(6);
        let ins: Vec<In> = (0..n).map(|_| gen_in(c, odd, big)).collect();
        let body = model(&ins);
        c.note(format!("tag {} inputs {ins:?}", hex(&tag)));
        c.sample(|| format!("tag {}, {} inputs, {} bytes", hex(&tag), ins.len(), body.len()));
        let st = sha_plain(&tag);
        let rt = rip_plain(&tag);
        let rows = [
            ("SHA-256 tagged", drive::<Sha256, 32>(Sha256::from_tag(&tag), &ins, odd), sha_plain(&[&st[..], &st, &body].concat())),
            ("SHA-256 plain", drive::<Sha256, 32>(Sha256::default(), &ins, odd), sha_plain(&body)),
            (
                "RIPEMD-160 tagged",
                drive::<Ripemd160, 20>(<Ripemd160 as DigestExt<20>>::from_tag(&tag), &ins, odd),
                rip_plain(&[&rt[..], &rt, &body].concat()),
            ),
            ("RIPEMD-160 plain", drive::<Ripemd160, 20>(Ripemd160::default(), &ins, odd), rip_plain(&body)),
        ];
        for (name, got, want) in rows {
            ensure_eq!(hex(&got), hex(&want), "{name} digest, tag {}, {} inputs", hex(&tag), ins.len());
            c.ev("digests", 1);
        }
        // the same bytes in other chunks
        let mut a = Sha256::from_tag(&tag);
        let mut b = <Ripemd160 as DigestExt<20>>::from_tag(&tag);
        let mut rest = &body[..];
        while !rest.is_empty() {
            let k = 1 + c.rng.below(rest.len() as u64) as usize;
            a.input_raw(&rest[..k]);
            DigestExt::<20>::input_raw(&mut b, &rest[..k]);
            rest = &rest[k..];
            if c.rng.one_in(3) {
                a.input_raw(&[]);
            }
        }
        let mid = a.clone();
        ensure_eq!(hex(&DigestExt::finish(a)), hex(&sha_plain(&[&st[..], &st, &body].concat())), "rechunked SHA-256");
        ensure_eq!(hex(&DigestExt::<20>::finish(b)), hex(&rip_plain(&[&rt[..], &rt, &body].concat())), "rechunked RIPEMD-160");
        // finishing equals the digest crate's own finalisation
        ensure_eq!(hex(&Digest::finalize(mid)), hex(&sha_plain(&[&st[..], &st, &body].concat())), "finalised SHA-256");
        c.ev("rechunked", 2);
        for i in &ins {
            let (k, l) = match i {
                In::Raw(b) => (0, b.len()),
                In::Len8(b) => (1, b.len()),
                In::Len16(b) => (2, b.len()),
                In::Len24(b) => (3, b.len()),
                In::Len32(b) => (4, b.len()),
            };
            c.sig(&[k, l as u64, odd as u64]);
            c.ev(["raw", "len8", "len16", "len24", "len32"][k as usize], 1);
        }
        // textual tags
        if let Ok(s) = std::str::from_utf8(&tag) {
            ensure_eq!(
                hex(&DigestExt::finish(Sha256::from_tag(s))),
                hex(&sha_plain(&[&st[..], &st].concat())),
                "SHA-256 of a text tag"
            );
        }
        Ok(())
    })
    .family("large", 3, 12, |c| {
        // lengths needing the third and fourth length byte
        let n = [65_536, 100_000, 16_777_216][c.idx as usize % 3];
        let data = vec![c.rng.u8(); n];
        let mut v = vec![];
        let mut h = Sha256::from_tag("x");
        let mut r = <Ripemd160 as DigestExt<20>>::from_tag("x");
        if n < 1 << 24 {
            h.input_with_len::<0xFFFFFF>(&data);
            DigestExt::<20>::input_with_len::<0xFFFFFF>(&mut r, &data);
            v.extend(&(n as u64).to_le_bytes()[..3]);
        } else {
            h.input_with_len::<0x1000000>(&data);
            DigestExt::<20>::input_with_len::<0x1000000>(&mut r, &data);
            v.extend(&(n as u64).to_le_bytes()[..4]);
        }
        v.extend(&data);
        let t = sha_plain(b"x");
        ensure_eq!(hex(&DigestExt::finish(h)), hex(&sha_plain(&[&t[..], &t, &v].concat())), "SHA-256 of {n} length-prefixed bytes");
        let t = rip_plain(b"x");
        ensure_eq!(hex(&DigestExt::<20>::finish(r)), hex(&rip_plain(&[&t[..], &t, &v].concat())), "RIPEMD-160 of {n} length-prefixed bytes");
        c.ev("digests", 2);
        c.max("bytes", n as u64);
        Ok(())
    })
    .require("digests", 8000)
    .require("len8", 500)
    .require("len16", 500)
    .require("len24", 500)
    .require("len32", 500)
}
