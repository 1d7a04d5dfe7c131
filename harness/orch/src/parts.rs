//! Optional pieces of the generated program's support module `g`.

pub fn part(name: &str) -> &'static str {
    match name { "types" => TYPES, "vec" => VEC, "ints" => INTS, "enums" => ENUMS, "enums_dyn" => ENUMS_DYN, "serde" => SERDE, "display" => DISPLAY, "wild" => WILD, _ => panic!("no part {}", name) }
}

/// values of basic types and tuples; slice operations
const TYPES: &str = r##"
    macro_rules! glue_int { ($($t:ty),*) => { $( impl Glue for $t { fn mk(it: &mut It) -> Self { it.i() as $t } fn rd(&self, o: &mut Vec<String>) { o.push(self.to_string()); } } )* } }
    glue_int!(u8, i8);
    impl Glue for bool { fn mk(it: &mut It) -> Self { it.i() != 0 } fn rd(&self, o: &mut Vec<String>) { o.push((*self as u8).to_string()); } }
    impl Glue for () { fn mk(_: &mut It) -> Self { } fn rd(&self, _: &mut Vec<String>) { } }
    impl<const N: usize> Glue for [u8; N] { fn mk(it: &mut It) -> Self { ba(&unhex(&it.s()[1..])) } fn rd(&self, o: &mut Vec<String>) { o.push(format!("x{}", hex(self))); } }
    impl<V: packed_struct::types::ReservedBitValue, B: packed_struct::types::bits::NumberOfBits> Glue for packed_struct::types::ReservedBits<V, B> where Self: Default { fn mk(_: &mut It) -> Self { Default::default() } fn rd(&self, _: &mut Vec<String>) { } }
    impl<T, B> Glue for MsbInteger<T, B, Integer<T, B>> where T: std::convert::TryFrom<i128> + Copy + std::fmt::Display, Integer<T, B>: From<T> {
        fn mk(it: &mut It) -> Self { let v: T = match T::try_from(it.i()) { Ok(v) => v, Err(_) => panic!("glue") }; Integer::<T, B>::from(v).into() }
        fn rd(&self, o: &mut Vec<String>) { o.push(self.to_string()); }
    }
    impl<T, B> Glue for LsbInteger<T, B, Integer<T, B>> where T: std::convert::TryFrom<i128> + Copy + std::fmt::Display, Integer<T, B>: From<T> {
        fn mk(it: &mut It) -> Self { let v: T = match T::try_from(it.i()) { Ok(v) => v, Err(_) => panic!("glue") }; Integer::<T, B>::from(v).into() }
        fn rd(&self, o: &mut Vec<String>) { o.push(self.to_string()); }
    }
    macro_rules! glue_tup { ($($t:ident $i:tt),*) => { impl<$($t: Glue),*> Glue for ($($t,)*) { fn mk(it: &mut It) -> Self { ($($t::mk(it),)*) } fn rd(&self, o: &mut Vec<String>) { $( self.$i.rd(o); )* } } } }
    glue_tup!(A 0); glue_tup!(A 0, B 1); glue_tup!(A 0, B 1, C 2); glue_tup!(A 0, B 1, C 2, D 3); glue_tup!(A 0, B 1, C 2, D 3, E 4); glue_tup!(A 0, B 1, C 2, D 3, E 4, F 5);
    glue_tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6); glue_tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7); glue_tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8); glue_tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
    pub fn sops<T: Glue + PackedStructSlice>(op: &str, args: &str) -> String {
        match op {
            "PS" => {
                let (l, a) = args.split_once(' ').unwrap();
                let l: usize = l.parse().unwrap();
                let mut buf: Vec<u8> = (0..l).map(|i| (i as u8).wrapping_mul(37) ^ 0xC3).collect();
                match T::mk(&mut it(a)).pack_to_slice(&mut buf) { Ok(()) => format!("OK {}", hex(&buf)), Err(e) => format!("ERR {:?} {}", e, hex(&buf)) }
            }
            "US" => match T::unpack_from_slice(&unhex(args)) { Ok(v) => format!("OK {}", v.toks()), Err(e) => err(e) },
            "PV" => pv(&T::mk(&mut it(args))),
            // unpack, pack
            "UPS" => match T::unpack_from_slice(&unhex(args)) { Ok(v) => match T::packed_bytes_size(Some(&v)) { Ok(n) => { let mut buf = vec![0x5Au8; n]; match v.pack_to_slice(&mut buf) { Ok(()) => format!("OK {}", hex(&buf)), Err(e) => format!("PACK {}", err(e)) } } Err(e) => format!("SIZE {}", err(e)) }, Err(e) => err(e) },
            "SZ" => format!("{:?} {:?}", T::packed_bytes_size(None), T::packed_bytes_size(Some(&T::mk(&mut it(args))))),
            _ => "BADOP".into(),
        }
    }
"##;

const VEC: &str = r##"
    impl<T: Glue> Glue for Vec<T> { fn mk(it: &mut It) -> Self { let n = it.i() as usize; (0..n).map(|_| T::mk(it)).collect() } fn rd(&self, o: &mut Vec<String>) { o.push(self.len().to_string()); for x in self { x.rd(o); } } }
"##;

const INTS: &str = r##"
    pub trait Nat: Copy + std::hash::Hash + Eq + Default + std::fmt::Display + std::fmt::Debug + 'static { fn of(v: i128) -> Self; fn to(self) -> i128; }
    macro_rules! nats { ($($t:ty),*) => { $( impl Nat for $t { fn of(v: i128) -> Self { let r = v as $t; assert!(r as i128 == v, "glue"); r } fn to(self) -> i128 { self as i128 } } )* } }
    nats!(u8, u16, u32, u64, i8, i16, i32, i64);
    pub fn h<T: std::hash::Hash>(v: &T) -> u64 { use std::hash::Hasher; let mut s = std::collections::hash_map::DefaultHasher::new(); v.hash(&mut s); s.finish() }
    pub fn iops<T: Nat, B: packed_struct::types::bits::NumberOfBits>(op: &str, args: &str) -> String
    where Integer<T, B>: SizedInteger<T, B> + From<T> + Into<T> + std::ops::Deref<Target = T> + Copy + Default + std::fmt::Display + std::fmt::Debug + PartialEq + Eq + std::hash::Hash, T: From<Integer<T, B>> {
        type I<T, B> = Integer<T, B>;
        match op {
            // conversion facts; the value converted appears only if everything agrees
            "V" => {
                let v = T::of(args.parse().unwrap());
                let a: I<T, B> = v.into();
                let b = <I<T, B> as SizedInteger<T, B>>::from_primitive(v);
                let mut o = vec![];
                let n = *a;
                o.push(n.to().to_string());
                if b != a || *b != n { o.push(format!("from_primitive={}", *b)); }
                if a.to_primitive() != n { o.push(format!("to_primitive={}", a.to_primitive())); }
                let c: T = a.into();
                if c != n { o.push(format!("into={}", c)); }
                if a.to_string() != n.to_string() { o.push(format!("display={}", a)); }
                if format!("{:?}", a) != format!("{:?}", n) { o.push(format!("debug={:?}", a)); }
                if h(&a) != h(&n) { o.push("hash differs".into()); }
                let d: I<T, B> = n.into();
                if d != a || *d != n || h(&d) != h(&a) { o.push(format!("not idempotent {}", *d)); }
                let e = a;
                if e != a || *e.clone() != n { o.push("copy differs".into()); }
                o.join(" ")
            }
            "E" => {
                let (x, y) = args.split_once(' ').unwrap();
                let a: I<T, B> = T::of(x.parse().unwrap()).into();
                let b: I<T, B> = T::of(y.parse().unwrap()).into();
                format!("{} {}", a == b, a != b)
            }
            "D" => { let a: I<T, B> = Default::default(); format!("{} {}", *a, <I<T, B> as SizedInteger<T, B>>::value_bit_mask().to()) }
            "N" => {
                let a: I<T, B> = T::of(args.parse().unwrap()).into();
                let sh = |r: Result<I<T, B>, PackingError>| match r { Ok(v) => v.to().to_string(), Err(e) => err(e) };
                let (m, l) = match (a.to_msb_bytes(), a.to_lsb_bytes()) { (Ok(m), Ok(l)) => (m, l), (m, l) => return format!("{:?} {:?}", m.map(|_| ()), l.map(|_| ())) };
                let (hm, hl): (MsbInteger<T, B, I<T, B>>, LsbInteger<T, B, I<T, B>>) = (From::from(a), From::from(a));
                let (pm, pl) = match (hm.pack(), hl.pack()) { (Ok(m), Ok(l)) => (m, l), (m, l) => return format!("helper {:?} {:?}", m.map(|_| ()), l.map(|_| ())) };
                let (pm2, pl2) = (a.as_packed_msb().pack(), a.as_packed_lsb().pack());
                let alt = pm2.map_or(false, |x| x.as_bytes_slice() == pm.as_bytes_slice()) && pl2.map_or(false, |x| x.as_bytes_slice() == pl.as_bytes_slice());
                let um = MsbInteger::<T, B, I<T, B>>::unpack(&pm).map(|v| *v);
                let ul = LsbInteger::<T, B, I<T, B>>::unpack(&pl).map(|v| *v);
                let shown = hm.to_string() == a.to_string() && format!("{:?}", hl) == format!("{:?}", *a) && **hm == *a && **hl == *a;
                format!("{} {} {} {} {} {} {} {} {} {}", hex(m.as_bytes_slice()), hex(l.as_bytes_slice()), sh(<I<T, B>>::from_msb_bytes(&m)), sh(<I<T, B>>::from_lsb_bytes(&l)),
                    hex(pm.as_bytes_slice()), hex(pl.as_bytes_slice()), sh(um), sh(ul), alt, shown)
            }
            "Y" => {
                let b = ba(&unhex(args));
                let sh = |r: Result<I<T, B>, PackingError>| match r { Ok(v) => v.to().to_string(), Err(e) => err(e) };
                let um = MsbInteger::<T, B, I<T, B>>::unpack(&b);
                let ul = LsbInteger::<T, B, I<T, B>>::unpack(&b);
                format!("{} {} {} {}", sh(<I<T, B>>::from_msb_bytes(&b)), sh(<I<T, B>>::from_lsb_bytes(&b)), sh(um.map(|v| *v)), sh(ul.map(|v| *v)))
            }
            "I" => format!("{} {} {} {} {} {}", B::number_of_bits(), B::byte_array_len(),
                <MsbInteger<T, B, I<T, B>> as PackedStructInfo>::packed_bits(), <LsbInteger<T, B, I<T, B>> as PackedStructInfo>::packed_bits(),
                <MsbInteger<T, B, I<T, B>> as PackedStructSlice>::packed_bytes_size(None).unwrap(), <LsbInteger<T, B, I<T, B>> as PackedStructSlice>::packed_bytes_size(None).unwrap()),
            _ => "BADOP".into(),
        }
    }
    pub fn sext<T: Nat, B: packed_struct::types::bits::NumberOfBits>(args: &str) -> String where Integer<T, B>: SizedIntegerSigned<T, B> {
        <Integer<T, B> as SizedIntegerSigned<T, B>>::from_unpacked_to_signed(T::of(args.parse().unwrap())).to().to_string()
    }
    pub fn nops<T: Nat + IntegerAsBytes>(op: &str, args: &str) -> String where T::AsBytes: ByteArray {
        match op {
            "N" => { let v = T::of(args.parse().unwrap()); let (m, l) = (v.to_msb_bytes(), v.to_lsb_bytes()); format!("{} {} {} {}", hex(m.as_bytes_slice()), hex(l.as_bytes_slice()), T::from_msb_bytes(&m), T::from_lsb_bytes(&l)) }
            "Y" => { let b = ba(&unhex(args)); format!("{} {}", T::from_msb_bytes(&b), T::from_lsb_bytes(&b)) }
            _ => "BADOP".into(),
        }
    }
"##;

/// needs INTS
const ENUMS: &str = r##"
    pub fn eops<E: Glue + PrimitiveEnum + packed_struct::PrimitiveEnumStaticStr + PartialEq + 'static>(op: &str, args: &str) -> String where E::Primitive: Nat {
        let t = |e: &E| { let mut o = vec![]; e.rd(&mut o); o.join(",") };
        let o = |e: Option<E>| match e { Some(e) => format!("Some({})", t(&e)), None => "None".into() };
        let s = |a: &str| String::from_utf8(unhex(a)).unwrap();
        let co = |e: Option<EnumCatchAll<E>>| match e { Some(EnumCatchAll::Enum(e)) => format!("Enum({})", t(&e)), Some(EnumCatchAll::CatchAll(v)) => format!("CatchAll({})", v), None => "None".into() };
        let ck = |a: &str| -> EnumCatchAll<E> { let v: i128 = a[1..].parse().unwrap(); match &a[..1] { "e" => EnumCatchAll::Enum(E::mk(&mut it(&a[1..]))), "f" => E::mk(&mut it(&a[1..])).into(), "g" => EnumCatchAll::from_enum(E::mk(&mut it(&a[1..]))), _ => EnumCatchAll::CatchAll(Nat::of(v)) } };
        match op {
            "PT" => std::any::type_name::<E::Primitive>().to_string(),
            "TP" => E::mk(&mut it(args)).to_primitive().to().to_string(),
            "FP" => o(E::from_primitive(Nat::of(args.parse().unwrap()))),
            // which integers of a range convert
            "FX" => {
                let (a, b) = args.split_once(' ').unwrap();
                let (a, b): (i128, i128) = (a.parse().unwrap(), b.parse().unwrap());
                (a..=b).filter_map(|v| E::from_primitive(Nat::of(v)).map(|e| format!("{}={}", v, t(&e)))).collect::<Vec<_>>().join(",")
            }
            "FS" => o(E::from_str(&s(args))),
            "FL" => o(E::from_str_lower(&s(args))),
            "DS" => hex(packed_struct::PrimitiveEnumStaticStr::to_display_str(&E::mk(&mut it(args))).as_bytes()),
            "AV" => <E as packed_struct::PrimitiveEnumStaticStr>::all_variants().iter().map(|e| t(e)).collect::<Vec<_>>().join(","),
            // catch-all
            "CF" => { let c = EnumCatchAll::<E>::from_primitive(Nat::of(args.parse().unwrap())); format!("{} {}", co(c), c.map_or("-".into(), |c| c.to_primitive().to().to_string())) }
            "CX" => {
                let (a, b) = args.split_once(' ').unwrap();
                let (a, b): (i128, i128) = (a.parse().unwrap(), b.parse().unwrap());
                (a..=b).filter_map(|v| { let c = EnumCatchAll::<E>::from_primitive(Nat::of(v)); let p = c.map(|c| c.to_primitive().to()); let x = co(c); if p == Some(v) && x == format!("CatchAll({})", v) { None } else { Some(format!("{}={}", v, if p == Some(v) { x } else { format!("{} {:?}", x, p) })) } }).collect::<Vec<_>>().join(",")
            }
            "CT" => ck(args).to_primitive().to().to_string(),
            "CE" => { let (a, b) = args.split_once(' ').unwrap(); let (a, b) = (ck(a), ck(b)); format!("{} {}", a == b, a != b) }
            "CS" => co(EnumCatchAll::<E>::from_str(&s(args))),
            "CL" => co(EnumCatchAll::<E>::from_str_lower(&s(args))),
            _ => "BADOP".into(),
        }
    }
"##;

const ENUMS_DYN: &str = r##"
    pub fn dops<E: Glue + PrimitiveEnum + packed_struct::PrimitiveEnumStaticStr + packed_struct::PrimitiveEnumDynamicStr + PartialEq + 'static>(op: &str, args: &str) -> String where E::Primitive: Nat {
        use packed_struct::PrimitiveEnumDynamicStr as D;
        let t = |e: &E| { let mut o = vec![]; e.rd(&mut o); o.join(",") };
        match op {
            "DD" => hex(D::to_display_str(&E::mk(&mut it(args))).as_bytes()),
            "AD" => <E as D>::all_variants().iter().map(|e| t(e)).collect::<Vec<_>>().join(","),
            "CD" => { let v: i128 = args[1..].parse().unwrap(); let c: EnumCatchAll<E> = if &args[..1] == "e" { EnumCatchAll::Enum(E::mk(&mut it(&args[1..]))) } else { EnumCatchAll::CatchAll(Nat::of(v)) }; hex(D::to_display_str(&c).as_bytes()) }
            "CA" => <EnumCatchAll<E> as D>::all_variants().iter().map(|c| match c { EnumCatchAll::Enum(e) => format!("e{}", t(e)), EnumCatchAll::CatchAll(v) => format!("c{}", v) }).collect::<Vec<_>>().join(","),
            _ => eops::<E>(op, args),
        }
    }
"##;

const SERDE: &str = r##"
    use serde::{Serialize, de::DeserializeOwned};
    pub fn yops<T: Nat + Serialize + DeserializeOwned, B: packed_struct::types::bits::NumberOfBits>(op: &str, args: &str) -> String
    where Integer<T, B>: SizedInteger<T, B> + From<T> + Into<T> + std::ops::Deref<Target = T> + Copy + Serialize + DeserializeOwned + PartialEq + std::fmt::Debug + Eq + std::hash::Hash {
        match op {
            "S" => {
                let a: Integer<T, B> = T::of(args.parse().unwrap()).into();
                let n = *a;
                let t = serde_json::to_string(&a).map_err(|e| e.to_string());
                let nt = serde_json::to_string(&n).map_err(|e| e.to_string());
                let val = serde_json::to_value(&a).ok() == serde_json::to_value(&n).ok();
                let inside = serde_json::to_string(&(vec![a, a], Some(a))).ok() == serde_json::to_string(&(vec![n, n], Some(n))).ok();
                let mut k = std::collections::HashMap::new();
                k.insert(a, 1u8);
                let mut kn = std::collections::HashMap::new();
                kn.insert(n, 1u8);
                let key = serde_json::to_string(&k).map_err(|e| e.to_string()) == serde_json::to_string(&kn).map_err(|e| e.to_string());
                let back = t.as_ref().map(|t| serde_json::from_str::<Integer<T, B>>(t).map(|v| v == a).unwrap_or(false)).unwrap_or(false);
                format!("{} {} {} {} {} {}", t.clone().unwrap_or_default(), t == nt, val, inside, key, back)
            }
            // text -> value; the native type is the reference for what is acceptable
            "D" => {
                let text = String::from_utf8(unhex(args)).unwrap();
                let n = serde_json::from_str::<T>(&text);
                let a = serde_json::from_str::<Integer<T, B>>(&text);
                let v = serde_json::from_str::<serde_json::Value>(&text).ok().map(|v| (serde_json::from_value::<T>(v.clone()).ok(), serde_json::from_value::<Integer<T, B>>(v).ok()));
                let vok = v.map_or(true, |(n, a)| n.is_some() == a.is_some() && n.map_or(true, |n| Integer::<T, B>::from(n) == a.unwrap()));
                match (n, a) { (Ok(n), Ok(a)) => format!("OK {} {} {}", n, a.to_primitive(), vok), (Err(_), Err(_)) => format!("ERR {}", vok), (n, a) => format!("DIFF native {:?} sized {:?}", n.map(|x| x.to_string()).map_err(|e| e.to_string()), a.map(|x| x.to_primitive().to()).map_err(|e| e.to_string())) }
            }
            _ => "BADOP".into(),
        }
    }
    pub fn rops<T: Serialize + DeserializeOwned + PartialEq + Default + PackedStruct>() -> String {
        let r = T::default();
        let t = match serde_json::to_string(&r) { Ok(t) => t, Err(e) => return format!("ERR {}", e) };
        match serde_json::from_str::<T>(&t) {
            Ok(x) => format!("{} {} {}", x == r, x.pack().unwrap().as_bytes_slice() == r.pack().unwrap().as_bytes_slice(), serde_json::to_value(&r).ok().and_then(|v| serde_json::from_value::<T>(v).ok()).map_or(false, |x| x == r)),
            Err(e) => format!("ERR {}", e),
        }
    }
    pub fn perr(kind: &str, a: usize, b: usize) -> String {
        let e = match kind {
            "InvalidValue" => PackingError::InvalidValue, "BitsError" => PackingError::BitsError, "BufferTooSmall" => PackingError::BufferTooSmall, "NotImplemented" => PackingError::NotImplemented,
            "InstanceRequiredForSize" => PackingError::InstanceRequiredForSize, "MoreThanOneDynamicType" => PackingError::MoreThanOneDynamicType, "InternalError" => PackingError::InternalError,
            "BufferSizeMismatch" => PackingError::BufferSizeMismatch { expected: a, actual: b }, "BufferModMismatch" => PackingError::BufferModMismatch { actual_size: a, modulo_required: b },
            _ => PackingError::SliceIndexingError { slice_len: a },
        };
        let t = match serde_json::to_string(&e) { Ok(t) => t, Err(e) => return format!("ERR {}", e) };
        let v = serde_json::to_value(&e).ok().and_then(|v| serde_json::from_value::<PackingError>(v).ok());
        match serde_json::from_str::<PackingError>(&t) { Ok(x) => format!("{} {:?} {}", x == e, x, v == Some(e)), Err(x) => format!("ERR {}", x) }
    }
"##;

const DISPLAY: &str = r##"
    pub trait DbgTexts { fn dbg_texts(&self) -> Vec<String>; }
    /// F <form> <switches> <value>: the text and the debug texts, each in hex
    pub fn fops<T: Glue + PackedStruct + packed_struct::debug_fmt::PackedStructDebug + std::fmt::Display + DbgTexts>(op: &str, args: &str, fm: &dyn for<'a> Fn(&'a T) -> packed_struct::debug_fmt::PackedStructDisplay<'a, T>) -> String {
        use packed_struct::debug_fmt::PackedStructDisplay;
        let mut p = args.splitn(3, ' ');
        let form: u32 = p.next().unwrap().parse().unwrap();
        let sw: u32 = p.next().unwrap().parse().unwrap();
        let v = T::mk(&mut it(p.next().unwrap()));
        let text = match form {
            0 => format!("{}", v),
            1 => format!("{}", fm(&v)),
            2 => { let mut d = fm(&v); d.header = sw & 1 != 0; d.raw_decimal = sw & 2 != 0; d.raw_hex = sw & 4 != 0; d.raw_binary = sw & 8 != 0; d.fields = sw & 16 != 0; d.to_string() }
            _ => PackedStructDisplay { packed_struct: &v, header: sw & 1 != 0, raw_decimal: sw & 2 != 0, raw_hex: sw & 4 != 0, raw_binary: sw & 8 != 0, fields: sw & 16 != 0 }.to_string(),
        };
        let again = match form { 0 => v.to_string() == text, _ => true };
        format!("{} {} {}", hex(text.as_bytes()), again, v.dbg_texts().iter().map(|s| hex(s.as_bytes())).collect::<Vec<_>>().join(","))
    }
"##;

/// W <content>: sizes, display, and the effect of each bit
const WILD: &str = r##"
    pub fn wops<S: PackedStruct + PackedStructSlice + packed_struct::PackedStructInfo + PartialEq + std::fmt::Display>(_op: &str, args: &str) -> String {
        let n = S::ByteArray::len();
        let bytes = <S as PackedStructSlice>::packed_bytes_size(None).unwrap();
        let mut o = format!("{},{},{}", n, S::packed_bits(), bytes);
        let zero: Vec<u8> = match args { "0" => vec![0; n], "1" => vec![0xff; n], _ => (0..n).map(|i| (i as u8).wrapping_mul(37) ^ 0x5A).collect() };
        let base = match S::unpack_from_slice(&zero) { Ok(s) => s, Err(e) => return format!("{}|{:?}", o, e) };
        o.push_str(&format!("|x{}", hex(base.to_string().as_bytes())));
        let pack = |s: &S| -> Result<Vec<u8>, PackingError> { let mut b = vec![0xA5u8; n]; s.pack_to_slice(&mut b)?; Ok(b) };
        let b0 = match pack(&base) { Ok(b) => b, Err(e) => return format!("{}|PACK {:?}", o, e) };
        for p in 0..n * 8 {
            if p >= 160 && p + 80 < n * 8 { continue; }
            let mut v = zero.clone();
            v[p / 8] ^= 0x80 >> (p % 8);
            match S::unpack_from_slice(&v) {
                Ok(s) => match pack(&s) {
                    Ok(b) => {
                        let ch: Vec<String> = (0..n * 8).filter(|q| (b[q / 8] ^ b0[q / 8]) >> (7 - q % 8) & 1 == 1).map(|q| q.to_string()).collect();
                        let again = S::unpack_from_slice(&b).map(|x| x == s).unwrap_or(false);
                        o.push_str(&format!("|{}={},{},{}", p, ch.join(" "), s == base, again));
                    }
                    Err(e) => o.push_str(&format!("|{}=PACK {:?}", p, e)),
                },
                Err(e) => o.push_str(&format!("|{}={:?}", p, e)),
            }
        }
        o
    }
"##;
