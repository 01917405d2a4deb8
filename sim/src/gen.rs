//! Seeded generation of chains (type tables, calls, extensions, storage) and of
//! valid encoded records for them.
use crate::meta::{sym, MetaInfo, Synth, Ty, P_CONSTANTS, P_DECOYS, P_PLAIN};
use crate::model::{mark_of_ext, special, Mark, Special};
use crate::prng::Rng;
use frame_metadata::v14::{
    StorageEntryMetadata, StorageEntryModifier, StorageEntryType, StorageHasher,
};
use scale_info::{
    form::PortableForm, Field, Path, TypeDef, TypeDefArray, TypeDefBitSequence, TypeDefCompact,
    TypeDefComposite, TypeDefPrimitive as Prim, TypeDefSequence, TypeDefTuple, TypeDefVariant,
    TypeParameter, Variant,
};
use std::sync::Arc;

pub type Entry = StorageEntryMetadata<PortableForm>;
type Fld = Field<PortableForm>;

const NAMES: &[&str] = &[
    "dest", "value", "who", "remark", "nonce", "spec_version", "spec_name", "tx_version",
    "transaction_version", "index", "amount", "data",
];
const TYPE_NAMES: &[&str] = &[
    "Balance", "BalanceOf<T>", "BalanceOf<T, I>", "DepositBalance", "ExtendedBalance",
    "PalletBalanceOf<T>", "T::Balance", "T::AccountId", "u32", "Vec<u8>", "sr25519::Signature",
    "Compact<T::Balance>", "Box<Self>",
];
const WORDS: &[&str] = &["pallet", "frame", "sp_core", "runtime", "primitives", "thing", "module"];
const IDENTS: &[&str] = &[
    "Thing", "Wrapper", "Info", "Item", "Data", "Config", "CheckNonce", "ChargeAssetTxPayment",
    "ChargeTransactionPayment", "Public", "Signature", "UncheckedExtrinsic", "Calls",
];

/// Type table under construction.
pub struct Table {
    pub types: Vec<Ty>,
    prims: Vec<Option<u32>>,
    pub r: Rng,
    pub call: Option<u32>,
    pool: Vec<u32>,
    docs_pct: u64,
    /// Number of types after which only simple ones are added.
    pub cap: usize,
    /// Wide types: many fields, variants, elements, calls and extensions.
    pub wide: bool,
    /// Further types to be put in between.
    pub pad: usize,
}

fn no_path() -> Path<PortableForm> {
    Path { segments: Vec::new() }
}

pub fn path(segments: &[&str]) -> Path<PortableForm> {
    Path { segments: segments.iter().map(|s| s.to_string()).collect() }
}

pub fn field(name: Option<&str>, ty: u32, type_name: Option<&str>) -> Fld {
    Field { name: name.map(String::from), ty: sym(ty), type_name: type_name.map(String::from), docs: vec![] }
}

const PRIMS: [Prim; 15] = [
    Prim::Bool,
    Prim::Char,
    Prim::Str,
    Prim::U8,
    Prim::U16,
    Prim::U32,
    Prim::U64,
    Prim::U128,
    Prim::U256,
    Prim::I8,
    Prim::I16,
    Prim::I32,
    Prim::I64,
    Prim::I128,
    Prim::I256,
];

pub fn prim_no(p: &Prim) -> usize {
    PRIMS.iter().position(|x| x == p).unwrap()
}

impl Table {
    pub fn new(r: Rng) -> Self {
        let mut t = Table {
            types: vec![],
            prims: vec![None; 15],
            r,
            call: None,
            pool: vec![],
            docs_pct: 0,
            cap: 60,
            wide: false,
            pad: 0,
        };
        t.wide = t.r.pct(4);
        if t.r.pct(3) {
            // types next to each other get numbers a power of two apart
            let power = match t.r.below(40) {
                0..=1 if huge() => 16,
                0..=5 if huge() => *t.r.pick(&[12, 14]),
                _ => *t.r.pick(&[8, 9, 10]),
            };
            t.pad = (1 << power) - 1 - t.r.weighted(&[50, 20, 10, 10]);
        }
        t.docs_pct = *t.r.pick(&[0, 10, 40]);
        t
    }
    fn docs(&mut self) -> Vec<String> {
        if self.r.pct(self.docs_pct) {
            (0..self.r.range(1, 3)).map(|i| format!("line {i} of {}", self.r.below(1000))).collect()
        } else {
            vec![]
        }
    }
    pub fn put(&mut self, p: Path<PortableForm>, def: impl Into<TypeDef<PortableForm>>) -> u32 {
        let docs = self.docs();
        if self.pad > 0 && self.r.pct(10) {
            // type numbers far apart
            let unit = Ty {
                path: no_path(),
                type_params: vec![],
                type_def: TypeDefTuple { fields: vec![] }.into(),
                docs: vec![],
            };
            self.types.extend(std::iter::repeat_n(unit, self.pad));
            self.cap += self.pad;
            self.pad = 0;
        }
        self.types.push(Ty { path: p, type_params: vec![], type_def: def.into(), docs });
        self.types.len() as u32 - 1
    }
    pub fn slot(&mut self) -> u32 {
        // placeholder: non-empty enum, replaced later
        self.types.push(Ty {
            path: no_path(),
            type_params: vec![],
            type_def: TypeDefVariant {
                variants: vec![Variant { name: "x".into(), fields: vec![], index: 0, docs: vec![] }],
            }
            .into(),
            docs: vec![],
        });
        self.types.len() as u32 - 1
    }
    pub fn prim(&mut self, p: Prim) -> u32 {
        let n = prim_no(&p);
        // occasionally the same primitive under another number
        if let (Some(id), false) = (self.prims[n], self.r.pct(10)) {
            return id;
        }
        self.types.push(Ty { path: no_path(), type_params: vec![], type_def: p.into(), docs: vec![] });
        let id = self.types.len() as u32 - 1;
        self.prims[n] = Some(id);
        id
    }
    pub fn composite(&mut self, p: Path<PortableForm>, fields: Vec<Fld>) -> u32 {
        self.put(p, TypeDefComposite { fields })
    }
    pub fn newtype(&mut self, p: Path<PortableForm>, ty: u32) -> u32 {
        self.composite(p, vec![field(None, ty, None)])
    }
    pub fn seq(&mut self, ty: u32) -> u32 {
        self.put(no_path(), TypeDefSequence { type_param: sym(ty) })
    }
    pub fn array(&mut self, ty: u32, len: u32) -> u32 {
        self.put(no_path(), TypeDefArray { len, type_param: sym(ty) })
    }
    pub fn compact_of(&mut self, ty: u32) -> u32 {
        self.put(no_path(), TypeDefCompact { type_param: sym(ty) })
    }
    pub fn tuple(&mut self, tys: &[u32]) -> u32 {
        self.put(no_path(), TypeDefTuple { fields: tys.iter().map(|t| sym(*t)).collect() })
    }
    pub fn bytes_type(&mut self, p: &[&str], len: u32) -> u32 {
        let u8t = self.prim(Prim::U8);
        let a = self.array(u8t, len);
        self.newtype(path(p), a)
    }
    pub fn h256(&mut self) -> u32 {
        self.bytes_type(&["primitive_types", "H256"], 32)
    }
    fn rand_path(&mut self) -> Path<PortableForm> {
        if self.r.pct(50) {
            return no_path();
        }
        let mut s: Vec<String> =
            (0..self.r.range(0, 2)).map(|_| self.r.pick(WORDS).to_string()).collect();
        s.push(self.r.pick(IDENTS).to_string());
        // Public and Signature mean something in these namespaces
        if matches!(s.last().unwrap().as_str(), "Public" | "Signature") && s[0] == "sp_core" {
            s[0] = "sp_more".into();
        }
        Path { segments: s }
    }
    fn rand_field(&mut self, ty: u32, named: bool) -> Fld {
        let name = if named { Some(self.r.pick(NAMES).to_string()) } else { None };
        let type_name = if self.r.pct(60) { Some(self.r.pick(TYPE_NAMES).to_string()) } else { None };
        let docs = self.docs();
        Field { name, ty: sym(ty), type_name, docs }
    }
    fn uint(&mut self) -> u32 {
        let p = [Prim::U8, Prim::U16, Prim::U32, Prim::U64, Prim::U128][self.r.usize(5)].clone();
        self.prim(p)
    }
    fn per(&mut self) -> u32 {
        let (n, p) = [
            ("Percent", Prim::U8),
            ("PerU16", Prim::U16),
            ("Permill", Prim::U32),
            ("Perbill", Prim::U32),
            ("Perquintill", Prim::U64),
        ][self.r.usize(5)]
        .clone();
        let inner = self.prim(p);
        self.newtype(path(&["sp_arithmetic", "per_things", n]), inner)
    }
    pub fn compact(&mut self) -> u32 {
        let mut t = match self.r.below(10) {
            0..=5 => self.uint(),
            6..=7 => self.per(),
            _ => {
                let u = self.uint();
                let p = self.rand_path();
                let named = self.r.pct(50);
                let f = self.rand_field(u, named);
                self.composite(p, vec![f])
            }
        };
        if self.r.pct(10) {
            t = self.tuple(&[t]);
        }
        self.compact_of(t)
    }
    pub fn era(&mut self) -> u32 {
        let u8t = self.prim(Prim::U8);
        let mut variants =
            vec![Variant { name: "Immortal".into(), fields: vec![], index: 0, docs: vec![] }];
        for i in 1..=3u8 {
            variants.push(Variant {
                name: format!("Mortal{i}"),
                fields: vec![field(None, u8t, None)],
                index: i,
                docs: vec![],
            });
        }
        self.put(path(&["sp_runtime", "generic", "era", "Era"]), TypeDefVariant { variants })
    }
    pub fn multi_signature(&mut self) -> u32 {
        let ed = self.bytes_type(&["sp_core", "ed25519", "Signature"], 64);
        let sr = self.bytes_type(&["sp_core", "sr25519", "Signature"], 64);
        let ec = self.bytes_type(&["sp_core", "ecdsa", "Signature"], 65);
        // with the wrappers known by path the elements stay wrapped; the bare
        // arrays are what older chains have
        let bare = self.r.pct(70);
        let u8t = self.prim(Prim::U8);
        let a64 = self.array(u8t, 64);
        let a65 = self.array(u8t, 65);
        let wrapped = self.r.pct(50);
        let w64 = if wrapped { self.newtype(path(&["some", "Wrapped"]), a64) } else { a64 };
        let w65 = if wrapped { self.newtype(path(&["some", "Wrapped"]), a65) } else { a65 };
        let base = self.r.below(3) as u8;
        let mk = |name: &str, ty: u32, tn: &str, index: u8| Variant {
            name: name.into(),
            fields: vec![field(None, ty, Some(tn))],
            index,
            docs: vec![],
        };
        let mut variants = vec![
            mk("Ed25519", if bare { w64 } else { ed }, "ed25519::Signature", base),
            mk("Sr25519", if bare { w64 } else { sr }, "sr25519::Signature", base + 1),
            mk("Ecdsa", if bare { w65 } else { ec }, "ecdsa::Signature", base + 2),
        ];
        if self.r.pct(30) {
            variants.push(mk("Other", w64, "other::Signature", base + 7));
        }
        if self.r.pct(20) {
            // declared name does not fit the length
            variants.push(mk("Odd", w65, "ed25519::Signature", base + 9));
        }
        self.put(path(&["sp_runtime", "MultiSignature"]), TypeDefVariant { variants })
    }
    fn special_type(&mut self) -> u32 {
        match self.r.below(14) {
            0 => self.bytes_type(&["sp_core", "crypto", "AccountId32"], 32),
            1 => self.bytes_type(&["primitive_types", "H160"], 20),
            2 => self.bytes_type(&["account", "AccountId20"], 20),
            3 => self.h256(),
            4 => self.bytes_type(&["primitive_types", "H512"], 64),
            5 => self.era(),
            6 => self.multi_signature(),
            7 => self.bytes_type(&["sp_core", "ed25519", "Public"], 32),
            8 => self.bytes_type(&["sp_core", "sr25519", "Public"], 32),
            9 => self.bytes_type(&["sp_core", "ecdsa", "Public"], 33),
            10 => self.bytes_type(&["sp_core", "ed25519", "Signature"], 64),
            11 => self.bytes_type(&["sp_core", "sr25519", "Signature"], 64),
            12 => self.bytes_type(&["sp_core", "ecdsa", "Signature"], 65),
            _ => self.per(),
        }
    }
    pub fn bit_sequence(&mut self) -> u32 {
        let store = [Prim::U8, Prim::U16, Prim::U32, Prim::U64][self.r.usize(4)].clone();
        let store = self.prim(store);
        let order = *self.r.pick(&["Lsb0", "Msb0"]);
        let order = self.composite(path(&["bitvec", "order", order]), vec![]);
        self.put(no_path(), TypeDefBitSequence { bit_store_type: sym(store), bit_order_type: sym(order) })
    }
    /// Element types must take at least a byte: a count alone can not make the
    /// decoder busy then (see the known finding of C11).
    fn element(&mut self, depth: u32) -> u32 {
        for _ in 0..4 {
            let t = self.ty(depth);
            if self.min_len(t, 0) > 0 {
                return t;
            }
        }
        self.prim(Prim::U16)
    }
    fn min_len(&self, id: u32, depth: u32) -> u64 {
        if depth > 30 {
            return 0;
        }
        match &self.types[id as usize].type_def {
            TypeDef::Composite(c) => c.fields.iter().map(|f| self.min_len(f.ty.id, depth + 1)).sum(),
            TypeDef::Tuple(c) => c.fields.iter().map(|f| self.min_len(f.id, depth + 1)).sum(),
            TypeDef::Array(a) => {
                if a.len == 0 {
                    0
                } else {
                    self.min_len(a.type_param.id, depth + 1)
                }
            }
            TypeDef::Variant(v) => !v.variants.is_empty() as u64,
            TypeDef::Compact(c) => self.min_len(c.type_param.id, depth + 1),
            _ => 1,
        }
    }
    fn fields(&mut self, n: u64, depth: u32) -> Vec<Fld> {
        let named = self.r.pct(60);
        (0..n)
            .map(|_| {
                let t = self.ty(depth);
                self.rand_field(t, named)
            })
            .collect()
    }
    fn recursive(&mut self, depth: u32) -> u32 {
        let id = self.slot();
        let leaf = self.ty(depth.saturating_sub(2));
        let self_ref = match self.r.below(4) {
            0 => id,
            1 => self.seq(id),
            2 => {
                let p = self.rand_path();
                self.newtype(p, id)
            }
            _ => self.tuple(&[leaf, id]),
        };
        let p = self.rand_path();
        let f1 = self.rand_field(leaf, true);
        let f2 = self.rand_field(self_ref, true);
        let docs = self.docs();
        let i = self.r.below(250) as u8;
        self.types[id as usize] = Ty {
            path: p,
            type_params: vec![],
            type_def: TypeDefVariant {
                variants: vec![
                    Variant { name: "Leaf".into(), fields: vec![f1], index: i, docs: vec![] },
                    Variant { name: "Node".into(), fields: vec![f2], index: i + 1, docs: vec![] },
                    Variant { name: "End".into(), fields: vec![], index: i + 4, docs: vec![] },
                ],
            }
            .into(),
            docs,
        };
        id
    }
    /// Many wrappers around one value.
    fn wrapped(&mut self) -> u32 {
        let mut id = match self.r.below(4) {
            0 => self.compact(),
            1 => self.element(1),
            _ => self.ty(0),
        };
        let n = *self.r.pick(&[5u64, 9, 17, 33, 60]);
        let arrays = self.r.pct(40);
        for _ in 0..n {
            id = match self.r.below(8) {
                0 if arrays => self.array(id, 1),
                1..=2 => self.tuple(&[id]),
                _ => {
                    let p = if self.r.pct(70) { no_path() } else { self.rand_path() };
                    let named = self.r.pct(30);
                    let f = if named { self.rand_field(id, true) } else { field(None, id, None) };
                    self.composite(p, vec![f])
                }
            };
        }
        if self.r.pct(20) && self.min_len(id, 0) > 0 {
            id = self.seq(id);
        }
        id
    }
    fn enumeration(&mut self, depth: u32) -> u32 {
        let wide = self.wide && self.r.pct(30);
        let n = if wide { *self.r.pick(&[30, 100, 255, 256]) } else { self.r.range(1, 5) };
        let mut index = if self.r.pct(8) { self.r.range(250, 255) as u8 } else { self.r.below(3) as u8 };
        let mut variants = Vec::new();
        for i in 0..n {
            let nf = if wide && self.r.pct(85) { 0 } else { self.r.weighted(&[4, 4, 2, 1]) as u64 };
            let fields = self.fields(nf, depth - 1);
            let docs = self.docs();
            variants.push(Variant { name: format!("Var{i}"), fields, index, docs });
            // indices must not meet again
            let gap = !wide && self.r.pct(30);
            index = index.wrapping_add(1 + if gap { self.r.below(40) as u8 } else { 0 });
        }
        if self.r.pct(30) {
            variants.reverse();
        }
        let p = self.rand_path();
        self.put(p, TypeDefVariant { variants })
    }
    /// A type, new or already present.
    pub fn ty(&mut self, depth: u32) -> u32 {
        if !self.pool.is_empty() && (self.types.len() > self.cap || self.r.pct(20)) {
            return *self.r.pick(&self.pool.clone());
        }
        let id = if self.wide && self.r.pct(4) {
            self.wrapped()
        } else if depth == 0 {
            match self.r.below(10) {
                0..=5 => {
                    let p = self.r.pick(&PRIMS).clone();
                    self.prim(p)
                }
                6..=7 => self.compact(),
                8 => self.special_type(),
                _ => {
                    let u8t = self.prim(Prim::U8);
                    self.seq(u8t)
                }
            }
        } else {
            match self.r.weighted(&[10, 8, 10, 14, 12, 12, 6, 8, 5, 4, 4, 4, 2, 1]) {
                0 => {
                    let p = self.r.pick(&PRIMS).clone();
                    self.prim(p)
                }
                1 => self.compact(),
                2 => self.special_type(),
                3 => {
                    let many = self.wide && self.r.pct(30);
                    let n = if many { self.r.range(5, 40) } else { self.r.weighted(&[1, 5, 4, 3, 2]) as u64 };
                    let f = self.fields(n, if many { 0 } else { depth - 1 });
                    let p = self.rand_path();
                    self.composite(p, f)
                }
                4 => self.enumeration(depth),
                5 => {
                    let e = self.element(depth - 1);
                    self.seq(e)
                }
                6 => {
                    if self.wide && self.r.pct(40) {
                        let p = self.r.pick(&PRIMS).clone();
                        let e = if self.r.pct(60) { self.prim(p) } else { self.compact() };
                        let n = *self.r.pick(&[33u32, 64, 127, 128, 255, 256, 300]);
                        return self.array(e, n);
                    }
                    let e = self.ty(depth - 1);
                    let n = self.r.below(5) as u32;
                    self.array(e, n)
                }
                7 => {
                    let many = self.wide && self.r.pct(30);
                    let n = if many { self.r.range(5, 40) as usize } else { self.r.weighted(&[1, 2, 4, 3, 1]) };
                    let t: Vec<u32> = (0..n).map(|_| self.ty(if many { 0 } else { depth - 1 })).collect();
                    self.tuple(&t)
                }
                8 => self.bit_sequence(),
                9 => self.recursive(depth),
                10 => {
                    let u8t = self.prim(Prim::U8);
                    let v = self.seq(u8t);
                    if self.r.pct(40) {
                        self.seq(v)
                    } else {
                        v
                    }
                }
                11 => {
                    // set of wrapped integers: hint and information collapse
                    let c = if self.r.pct(50) { self.compact() } else { self.uint() };
                    let p = self.rand_path();
                    let named = self.r.pct(70);
                    let f = self.rand_field(c, named);
                    let w = self.composite(p, vec![f]);
                    if self.r.pct(60) {
                        self.seq(w)
                    } else {
                        let n = self.r.below(4) as u32;
                        self.array(w, n)
                    }
                }
                12 => match self.call {
                    Some(c) if self.r.pct(50) => self.seq(c),
                    Some(c) => c,
                    None => self.prim(Prim::U32),
                },
                _ => {
                    let p = self.rand_path();
                    let e: u32 = self.put(p, TypeDefVariant { variants: vec![] });
                    e
                }
            }
        };
        if self.pool.len() < 60 {
            self.pool.push(id);
        }
        id
    }
    /// Two-level enum of pallets and their calls (or events).
    pub fn pallets(&mut self, outer: &[&str], inner: &str, depth: u32, slot: u32) {
        let many = self.wide && self.r.pct(40);
        let n = if many { self.r.range(13, 24) } else { self.r.range(1, 4) };
        let mut index = self.r.below(4) as u8;
        let mut variants = Vec::new();
        for i in 0..n {
            let name = *self.r.pick(&["Balances", "Staking", "System", "Utility", "Multisig", "Other"]);
            let calls = if many && self.r.pct(10) { self.r.range(13, 40) } else { self.r.range(1, 4) };
            let mut ci = if self.r.pct(5) { 245 - 3 * calls as u8 } else { self.r.below(3) as u8 };
            let mut inner_variants = Vec::new();
            for k in 0..calls {
                let nf = self.r.weighted(&[2, 4, 4, 2]) as u64;
                let fields = self.fields(nf, depth);
                let docs = self.docs();
                inner_variants.push(Variant { name: format!("call_{k}"), fields, index: ci, docs });
                ci += 1 + self.r.below(3) as u8;
            }
            let p = path(&[&format!("pallet_{i}"), "pallet", inner]);
            let ity = self.put(p, TypeDefVariant { variants: inner_variants });
            let docs = self.docs();
            variants.push(Variant {
                name: name.into(),
                fields: vec![field(None, ity, Some("self::sp_api"))],
                index,
                docs,
            });
            index += 1 + self.r.below(10) as u8;
        }
        let docs = self.docs();
        self.types[slot as usize] = Ty {
            path: path(outer),
            type_params: vec![],
            type_def: TypeDefVariant { variants }.into(),
            docs,
        };
    }
}

/// Valid encodings for types of one table.
/// Adds descriptions that are no types, and types with such parts.
pub fn odd_types(types: &mut Vec<Ty>, r: &mut Rng) -> Vec<u32> {
    let n = types.len() as u64;
    let put = |types: &mut Vec<Ty>, def: TypeDef<PortableForm>, p: Path<PortableForm>| -> u32 {
        types.push(Ty { path: p, type_params: vec![], type_def: def, docs: vec![] });
        types.len() as u32 - 1
    };
    let mut own: Vec<u32> = Vec::new();
    for _ in 0..r.range(1, 3) {
        let known: Vec<u32> = (0..types.len() as u32)
            .filter(|i| special(&types[*i as usize]).is_some() || types[*i as usize].path.segments.len() > 2)
            .collect();
        let of = if !own.is_empty() && r.pct(30) {
            *r.pick(&own)
        } else if !known.is_empty() && r.pct(25) {
            *r.pick(&known)
        } else if r.pct(35) {
            let p = r.pick(&PRIMS).clone();
            put(types, p.into(), no_path())
        } else if r.pct(20) {
            // several numbers, or a number of numbers, are no number
            let n = *r.pick(&[0u64, 1, 2, 2, 2, 3]);
            let of: Vec<u32> = (0..n)
                .map(|_| {
                    let p = r.pick(&[Prim::U8, Prim::U16, Prim::U32, Prim::U64, Prim::U128]).clone();
                    put(types, p.into(), no_path())
                })
                .collect();
            let one = put(types, Prim::U32.into(), no_path());
            match r.below(5) {
                0 => put(types, TypeDefTuple { fields: of.iter().map(|x| sym(*x)).collect() }.into(), no_path()),
                1 => put(types, TypeDefArray { len: n as u32, type_param: sym(one) }.into(), no_path()),
                2 => put(types, TypeDefSequence { type_param: sym(one) }.into(), no_path()),
                k => {
                    let name = if k == 3 { None } else { Some("amount") };
                    let fields = of.iter().map(|x| field(name, *x, None)).collect();
                    put(types, TypeDefComposite { fields }.into(), path(&["x", "Several"]))
                }
            }
        } else if r.pct(8) {
            (n + 50 + r.below(20)) as u32
        } else {
            r.below(n) as u32
        };
        let id = match r.below(8) {
            0..=4 => put(types, TypeDefCompact { type_param: sym(of) }.into(), no_path()),
            5 => {
                let order = match r.below(5) {
                    0 => of,
                    k => {
                        let p = path(&["bitvec", "order", ["Lsb0", "Msb0", "Lsb", "LocalBits"][k as usize - 1]]);
                        put(types, TypeDefComposite { fields: vec![] }.into(), p)
                    }
                };
                put(types, TypeDefBitSequence { bit_store_type: sym(of), bit_order_type: sym(order) }.into(), no_path())
            }
            6 => put(types, TypeDefSequence { type_param: sym((n + 50) as u32) }.into(), no_path()),
            _ => put(types, TypeDefComposite { fields: vec![field(None, (n + 51) as u32, None)] }.into(), no_path()),
        };
        own.push(id);
        let id = match r.below(7) {
            0 => {
                let first = r.below(n) as u32;
                put(types, TypeDefTuple { fields: vec![sym(first), sym(id)] }.into(), no_path())
            }
            1 => put(types, TypeDefComposite { fields: vec![field(Some("odd"), id, None)] }.into(), path(&["x", "Odd"])),
            2 => {
                let good = r.below(n) as u32;
                let variants = vec![
                    Variant { name: "good".into(), fields: vec![field(None, good, None)], index: 0, docs: vec![] },
                    Variant { name: "odd".into(), fields: vec![field(None, id, None)], index: 1, docs: vec![] },
                ];
                put(types, TypeDefVariant { variants }.into(), no_path())
            }
            3 => put(types, TypeDefArray { len: r.below(3) as u32, type_param: sym(id) }.into(), no_path()),
            4 => put(types, TypeDefSequence { type_param: sym(id) }.into(), no_path()),
            _ => continue,
        };
        own.push(id);
    }
    own
}

#[derive(Clone)]
pub struct Codec {
    pub types: Arc<Vec<Ty>>,
    rank: Arc<Vec<u32>>,
}

const NO_RANK: u32 = 1_000_000;

impl Codec {
    pub fn new(types: Arc<Vec<Ty>>) -> Self {
        let n = types.len();
        let mut rank = vec![NO_RANK; n];
        loop {
            let mut changed = false;
            for i in 0..n {
                let of = |id: u32| -> u32 { rank.get(id as usize).copied().unwrap_or(NO_RANK) };
                let new = match &types[i].type_def {
                    _ if special(&types[i]) == Some(Special::Era) => 0,
                    TypeDef::Composite(c) => {
                        c.fields.iter().map(|f| of(f.ty.id)).max().map(|x| x.saturating_add(1)).unwrap_or(0)
                    }
                    TypeDef::Tuple(c) => {
                        c.fields.iter().map(|f| of(f.id)).max().map(|x| x.saturating_add(1)).unwrap_or(0)
                    }
                    TypeDef::Variant(v) => v
                        .variants
                        .iter()
                        .map(|w| {
                            w.fields.iter().map(|f| of(f.ty.id)).max().map(|x| x.saturating_add(1)).unwrap_or(0)
                        })
                        .min()
                        .unwrap_or(0),
                    TypeDef::Array(a) if a.len > 0 => of(a.type_param.id).saturating_add(1),
                    TypeDef::Compact(c) => of(c.type_param.id).saturating_add(1),
                    _ => 0,
                };
                let new = new.min(NO_RANK);
                if new < rank[i] {
                    rank[i] = new;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        Codec { types, rank: Arc::new(rank) }
    }
    /// Can a value of the type be written at all?
    pub fn possible(&self, id: u32) -> bool {
        self.rank.get(id as usize).map(|r| *r < NO_RANK).unwrap_or(false)
    }
}

thread_local! {
    static HUGE: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
}

/// Are records of many kilobytes to be made? Not for those that are gone
/// through again for each of their bytes.
fn huge() -> bool {
    HUGE.with(|h| h.get())
}

pub fn set_huge(yes: bool) {
    HUGE.with(|h| h.set(yes));
}

thread_local! {
    static GIANT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Is the first byte string or text of each item to be so long that its length
/// does not fit 16 bits?
fn giant() -> bool {
    GIANT.with(|h| h.get())
}

pub fn set_giant(yes: bool) {
    GIANT.with(|h| h.set(yes));
}

pub struct Enc<'a> {
    pub c: &'a Codec,
    pub r: &'a mut Rng,
    pub out: Vec<u8>,
    pub budget: usize,
    pub era: Option<Vec<u8>>,
    pub dead_bits: bool,
    /// Depth up to which types that contain themselves are written nested.
    pub deep: u32,
    /// Length of the next byte string or text, if it is to be a giant.
    giant: Option<usize>,
    /// Values written at most.
    fuel: u32,
}

pub fn put_compact(v: u128, out: &mut Vec<u8>) {
    if v < 64 {
        out.push((v as u8) << 2);
    } else if v < 1 << 14 {
        out.extend_from_slice(&((v as u16) << 2 | 1).to_le_bytes());
    } else if v < 1 << 30 {
        out.extend_from_slice(&((v as u32) << 2 | 2).to_le_bytes());
    } else {
        let b = v.to_le_bytes();
        let n = (16 - v.leading_zeros() as usize / 8).max(4);
        out.push(((n - 4) as u8) << 2 | 3);
        out.extend_from_slice(&b[..n]);
    }
}

pub fn rand_uint(r: &mut Rng, width: u32) -> u128 {
    let bits = 8 * width;
    let max = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
    let v = match r.below(8) {
        0 => 0,
        1 => max,
        2 => {
            let edges: [u128; 12] = [
                1,
                63,
                64,
                (1 << 14) - 1,
                1 << 14,
                (1 << 30) - 1,
                1 << 30,
                (1 << 32) - 1,
                1 << 32,
                1 << 56,
                (1 << 64) - 1,
                1 << 64,
            ];
            *r.pick(&edges)
        }
        3..=4 => r.u128() >> r.below(128),
        _ => r.u128() >> (128 - 1 - r.below(bits as u64)),
    };
    v & max
}

pub fn rand_era(r: &mut Rng, immortal: bool) -> Vec<u8> {
    if immortal {
        return vec![0];
    }
    loop {
        let k = r.range(1, 15);
        let period = 2u64 << k;
        let q = (period / 4096).max(1);
        let phase = r.below(period / q);
        let raw = (k | phase << 4) as u16;
        if raw & 0xff != 0 {
            return raw.to_le_bytes().to_vec();
        }
    }
}

impl<'a> Enc<'a> {
    pub fn new(c: &'a Codec, r: &'a mut Rng) -> Self {
        let deep = if r.pct(3) { *r.pick(&[20, 40, 70, 100]) } else { 0 };
        let giant = giant().then(|| match r.below(3) {
            0 => r.range(65_500, 65_540) as usize,
            1 => 65_536,
            _ => r.range(65_536, 72_000) as usize,
        });
        Enc { c, r, out: vec![], budget: 400, era: None, dead_bits: true, deep, giant, fuel: 1_000_000 }
    }
    fn tight(&self, depth: u32) -> bool {
        depth > self.deep.max(10) || self.out.len() > self.budget
    }
    /// Integer width behind wrappers of a compact, 0 for nothing; and the
    /// largest allowed value.
    fn compact_target(&self, id: u32) -> (u32, u128) {
        let Some(t) = self.c.types.get(id as usize) else { return (0, 0) };
        let w = |w: u32| (w, if w == 16 { u128::MAX } else { (1u128 << (8 * w)) - 1 });
        match special(t) {
            Some(Special::Percent) => return (1, 100),
            Some(Special::PerU16) => return (2, 65535),
            Some(Special::Permill) => return (4, 1_000_000),
            Some(Special::Perbill) => return (4, 1_000_000_000),
            Some(Special::Perquintill) => return (8, 1_000_000_000_000_000_000),
            _ => (),
        }
        match &t.type_def {
            TypeDef::Composite(c) if c.fields.len() == 1 => self.compact_target(c.fields[0].ty.id),
            TypeDef::Tuple(c) if c.fields.len() == 1 => self.compact_target(c.fields[0].id),
            TypeDef::Primitive(p) => match p {
                Prim::U8 => w(1),
                Prim::U16 => w(2),
                Prim::U32 => w(4),
                Prim::U64 => w(8),
                Prim::U128 => w(16),
                _ => (0, 0),
            },
            _ => (0, 0),
        }
    }
    fn count(&mut self, depth: u32) -> usize {
        if self.tight(depth) {
            return 0;
        }
        match self.r.below(20) {
            0..=3 => 0,
            4..=8 => 1,
            9..=13 => self.r.range(2, 4) as usize,
            14..=18 => self.r.range(2, 12) as usize,
            _ if self.r.pct(12) => *self.r.pick(&[127usize, 128, 200, 255, 256, 257, 300]),
            _ => self.r.range(60, 70) as usize,
        }
    }
    pub fn value(&mut self, id: u32, depth: u32) {
        // only a type that has no finite value gets that deep
        if depth > 1500 || self.fuel == 0 {
            return;
        }
        self.fuel -= 1;
        let Some(t) = self.c.types.get(id as usize).cloned() else { return };
        if special(&t) == Some(Special::Era) {
            let e = match &self.era {
                Some(e) => e.clone(),
                None => {
                    let imm = self.r.pct(30);
                    rand_era(self.r, imm)
                }
            };
            self.out.extend_from_slice(&e);
            return;
        }
        if let Some(Special::Percent | Special::PerU16 | Special::Permill | Special::Perbill | Special::Perquintill) =
            special(&t)
        {
            let (w, max) = self.compact_target(id);
            let v = if self.r.pct(85) { rand_uint(self.r, w) % (max + 1) } else { rand_uint(self.r, w) };
            self.out.extend_from_slice(&v.to_le_bytes()[..w as usize]);
            return;
        }
        match &t.type_def {
            TypeDef::Composite(c) => {
                for f in &c.fields {
                    self.value(f.ty.id, depth + 1);
                }
            }
            TypeDef::Tuple(c) => {
                for f in &c.fields {
                    self.value(f.id, depth + 1);
                }
            }
            TypeDef::Variant(v) => {
                if v.variants.is_empty() {
                    return;
                }
                let cost = |w: &Variant<PortableForm>| {
                    w.fields.iter().map(|f| self.c.rank.get(f.ty.id as usize).copied().unwrap_or(NO_RANK)).max().unwrap_or(0)
                };
                let ok: Vec<&Variant<PortableForm>> = if self.tight(depth) {
                    let m = v.variants.iter().map(cost).min().unwrap();
                    v.variants.iter().filter(|w| cost(w) == m).collect()
                } else {
                    v.variants.iter().filter(|w| cost(w) < NO_RANK).collect()
                };
                let node = if depth < self.deep && !self.tight(depth) { ok.iter().find(|w| w.name == "Node") } else { None };
                let w = match node {
                    Some(w) => w,
                    None if ok.is_empty() => &v.variants[0],
                    None => *self.r.pick(&ok),
                };
                self.out.push(w.index);
                for f in &w.fields {
                    self.value(f.ty.id, depth + 1);
                }
            }
            TypeDef::Sequence(s) => {
                let el = s.type_param.id;
                if let Some(TypeDef::Primitive(Prim::U8)) = self.c.types.get(el as usize).map(|t| &t.type_def) {
                    let n = if self.tight(depth) {
                        0
                    } else if let Some(n) = self.giant.take() {
                        n
                    } else {
                        match self.r.below(40) {
                            0..=7 => 0,
                            8..=30 => self.r.range(1, 20) as usize,
                            31..=38 => self.r.range(60, 200) as usize,
                            _ => match self.r.below(20) {
                                0 if huge() => 70_000,
                                0..=7 if huge() => *self.r.pick(&[16383usize, 16384, 17000]),
                                _ => *self.r.pick(&[255usize, 256, 300, 600, 1025, 2048]),
                            },
                        }
                    };
                    put_compact(n as u128, &mut self.out);
                    let b = self.r.bytes(n);
                    self.out.extend_from_slice(&b);
                    return;
                }
                let n = if self.c.possible(el) { self.count(depth) } else { 0 };
                put_compact(n as u128, &mut self.out);
                for _ in 0..n {
                    self.value(el, depth + 1);
                }
            }
            TypeDef::Array(a) => {
                for _ in 0..a.len {
                    self.value(a.type_param.id, depth + 1);
                }
            }
            TypeDef::Primitive(p) => self.primitive(p),
            TypeDef::Compact(c) => {
                let (w, max) = self.compact_target(c.type_param.id);
                if w > 0 {
                    let mut v = rand_uint(self.r, w);
                    if v > max && self.r.pct(80) {
                        v %= max + 1;
                    }
                    put_compact(v, &mut self.out);
                }
            }
            TypeDef::BitSequence(b) => {
                let store = match &self.c.types.get(b.bit_store_type.id as usize).unwrap_or(&t).type_def {
                    TypeDef::Primitive(Prim::U16) => 2usize,
                    TypeDef::Primitive(Prim::U32) => 4,
                    TypeDef::Primitive(Prim::U64) => 8,
                    _ => 1,
                };
                let n = if self.tight(depth) { 0 } else if self.r.pct(4) {
                    let n = *self.r.pick(&[255u64, 256, 257, 1000, 1024, 4097, 16384, 20_000, 66_000]);
                    if huge() { n } else { n.min(4097) }
                } else {
                    *self.r.pick(&[0u64, 1, 7, 8, 9, 31, 32, 33, 63, 64, 65, 130])
                };
                put_compact(n as u128, &mut self.out);
                let words = (n as usize).div_ceil(8 * store);
                let mut raw = self.r.bytes(words * store);
                if !self.dead_bits || self.r.pct(70) {
                    let msb = self.c.types.get(b.bit_order_type.id as usize).unwrap_or(&t).path.segments.last().map(|s| s == "Msb0")
                        == Some(true);
                    for i in n as usize..words * 8 * store {
                        let w = i / (8 * store);
                        let mut k = i % (8 * store);
                        if msb {
                            k = 8 * store - 1 - k;
                        }
                        raw[w * store + k / 8] &= !(1 << (k % 8));
                    }
                }
                self.out.extend_from_slice(&raw);
            }
        }
    }
    fn primitive(&mut self, p: &Prim) {
        match p {
            Prim::Bool => {
                let b = self.r.pct(50) as u8;
                self.out.push(b)
            }
            Prim::Char => {
                let c = self.character();
                self.out.extend_from_slice(&(c as u32).to_le_bytes());
            }
            Prim::Str => {
                let n = if self.out.len() > self.budget {
                    0
                } else if let Some(n) = self.giant.take() {
                    n as u64
                } else if self.r.pct(4) {
                    let n = *self.r.pick(&[63u64, 64, 100, 255, 256, 300, 1025, 4100, 17_000]);
                    if huge() { n } else { n.min(1025) }
                } else {
                    self.r.below(12)
                };
                let s: String = (0..n).map(|_| self.character()).collect();
                put_compact(s.len() as u128, &mut self.out);
                self.out.extend_from_slice(s.as_bytes());
            }
            Prim::U256 | Prim::I256 => {
                let v = rand_uint(self.r, 16);
                let mut b = v.to_le_bytes().to_vec();
                let hi = match self.r.below(3) {
                    0 => [0; 16],
                    1 => [0xff; 16],
                    _ => self.r.u128().to_le_bytes(),
                };
                b.extend_from_slice(&hi);
                self.out.extend_from_slice(&b);
            }
            _ => {
                let w = match p {
                    Prim::U8 | Prim::I8 => 1,
                    Prim::U16 | Prim::I16 => 2,
                    Prim::U32 | Prim::I32 => 4,
                    Prim::U64 | Prim::I64 => 8,
                    _ => 16,
                };
                let v = rand_uint(self.r, w);
                self.out.extend_from_slice(&v.to_le_bytes()[..w as usize]);
            }
        }
    }
    fn character(&mut self) -> char {
        match self.r.below(6) {
            0 => *self.r.pick(&['é', 'ж', '日', '\u{1F600}', '\u{10FFFF}', '\0', '\u{D7FF}', '\u{E000}']),
            _ => (b' ' + self.r.below(95) as u8) as char,
        }
    }
    /// Write this very number as a value of the integer type behind wrappers.
    pub fn number(&mut self, id: u32, v: u128) -> bool {
        let t = self.c.types[id as usize].clone();
        match &t.type_def {
            TypeDef::Composite(c) if c.fields.len() == 1 => self.number(c.fields[0].ty.id, v),
            TypeDef::Tuple(c) if c.fields.len() == 1 => self.number(c.fields[0].id, v),
            TypeDef::Compact(c) => {
                let (w, max) = self.compact_target(c.type_param.id);
                if w == 0 || v > max {
                    return false;
                }
                put_compact(v, &mut self.out);
                true
            }
            TypeDef::Primitive(p) => {
                let w = match p {
                    Prim::U8 => 1,
                    Prim::U16 => 2,
                    Prim::U32 => 4,
                    Prim::U64 => 8,
                    Prim::U128 => 16,
                    _ => return false,
                };
                if w < 16 && v >= 1u128 << (8 * w) {
                    return false;
                }
                self.out.extend_from_slice(&v.to_le_bytes()[..w]);
                true
            }
            _ => false,
        }
    }
}

/// Parts of a signable transaction.
#[derive(Clone, Debug)]
pub struct TxParts {
    pub call: Vec<u8>,
    pub exts: Vec<u8>,
    /// Where in `exts` each item starts; last is the length.
    pub bounds: Vec<usize>,
    pub genesis: [u8; 32],
    pub immortal: bool,
}

impl TxParts {
    pub fn marked(&self) -> Vec<u8> {
        let mut out = Vec::new();
        put_compact(self.call.len() as u128, &mut out);
        out.extend_from_slice(&self.call);
        out.extend_from_slice(&self.exts);
        out
    }
    pub fn unmarked(&self) -> Vec<u8> {
        [&self.call[..], &self.exts[..]].concat()
    }
}

/// What a transaction says about its chain and version.
#[derive(Clone, Debug)]
pub struct TxSays {
    pub spec_version: u128,
    pub genesis: [u8; 32],
    pub block: [u8; 32],
    pub era: Vec<u8>,
}

pub fn exts_bytes(c: &Codec, info: &MetaInfo, says: &TxSays, r: &mut Rng) -> (Vec<u8>, Vec<usize>) {
    let mut e = Enc::new(c, r);
    e.era = Some(says.era.clone());
    e.budget = 200;
    let mut bounds = Vec::new();
    for add in [false, true] {
        for (ident, ty, additional) in &info.exts {
            bounds.push(e.out.len());
            let id = if add { *additional } else { *ty };
            let before = e.out.len();
            let mut inner = &c.types[id as usize];
            while let (None, TypeDef::Composite(x)) = (special(inner), &inner.type_def) {
                if x.fields.len() != 1 {
                    break;
                }
                inner = &c.types[x.fields[0].ty.id as usize];
            }
            match (mark_of_ext(ident), special(inner)) {
                (Mark::ExtSpec, _) => {
                    if !e.number(id, says.spec_version) {
                        e.value(id, 0);
                    }
                }
                (Mark::ExtGenesis, Some(Special::H256)) => e.out.extend_from_slice(&says.genesis),
                (Mark::ExtMortality, Some(Special::H256)) => e.out.extend_from_slice(&says.block),
                _ => e.value(id, 0),
            }
            debug_assert!(e.out.len() >= before);
        }
    }
    bounds.push(e.out.len());
    (e.out, bounds)
}

pub fn call_bytes(c: &Codec, info: &MetaInfo, r: &mut Rng, budget: usize) -> Vec<u8> {
    let mut n = if giant() { 25 } else { 1 };
    loop {
        let mut e = Enc::new(c, r);
        e.budget = budget;
        e.value(info.call_ty, 0);
        n -= 1;
        if n == 0 || e.out.len() > 65_535 {
            return e.out;
        }
    }
}

pub fn value_bytes(c: &Codec, ty: u32, r: &mut Rng, budget: usize) -> Vec<u8> {
    let mut e = Enc::new(c, r);
    e.budget = budget;
    e.value(ty, 0);
    e.out
}

/// Transaction that fits the chain given.
pub fn tx(c: &Codec, info: &MetaInfo, r: &mut Rng) -> TxParts {
    let genesis: [u8; 32] = r.bytes(32).try_into().unwrap();
    let immortal = r.pct(40);
    let says = TxSays {
        spec_version: info.spec_version.parse().unwrap_or(7),
        genesis,
        block: if immortal { genesis } else { r.bytes(32).try_into().unwrap() },
        era: rand_era(r, immortal),
    };
    let budget = *r.pick(&[40usize, 150, 400]);
    let call = call_bytes(c, info, r, budget);
    let (exts, bounds) = exts_bytes(c, info, &says, r);
    TxParts { call, exts, bounds, genesis, immortal }
}

#[derive(Clone, Debug)]
pub struct ExtrinsicParts {
    pub version_byte: u8,
    pub address: Vec<u8>,
    pub signature: Vec<u8>,
    pub extra: Vec<u8>,
    pub call: Vec<u8>,
}

impl ExtrinsicParts {
    pub fn body(&self) -> Vec<u8> {
        let mut b = vec![self.version_byte];
        if self.version_byte & 0x80 != 0 {
            b.extend_from_slice(&self.address);
            b.extend_from_slice(&self.signature);
            b.extend_from_slice(&self.extra);
        }
        b.extend_from_slice(&self.call);
        b
    }
    pub fn record(&self) -> Vec<u8> {
        let b = self.body();
        let mut out = Vec::new();
        put_compact(b.len() as u128, &mut out);
        out.extend_from_slice(&b);
        out
    }
}

pub fn extrinsic(c: &Codec, info: &MetaInfo, r: &mut Rng, signed: bool) -> ExtrinsicParts {
    let budget = *r.pick(&[20usize, 80, 250]);
    ExtrinsicParts {
        version_byte: info.tx_version & 0x7f | if signed { 0x80 } else { 0 },
        address: value_bytes(c, info.address_ty, r, budget),
        signature: value_bytes(c, info.signature_ty, r, budget),
        extra: value_bytes(c, info.extra_ty, r, budget),
        call: call_bytes(c, info, r, budget),
    }
}

/// Where things are in an encoded storage key.
#[derive(Clone, Debug)]
pub struct KeyPartAt {
    pub hash: (usize, usize),
    pub plain: (usize, usize),
}

pub fn hash_part(h: &StorageHasher, plain: &[u8]) -> Vec<u8> {
    use sp_crypto_hashing as s;
    match h {
        StorageHasher::Blake2_128 | StorageHasher::Blake2_128Concat => s::blake2_128(plain).to_vec(),
        StorageHasher::Blake2_256 => s::blake2_256(plain).to_vec(),
        StorageHasher::Twox128 => s::twox_128(plain).to_vec(),
        StorageHasher::Twox256 => s::twox_256(plain).to_vec(),
        StorageHasher::Twox64Concat => s::twox_64(plain).to_vec(),
        StorageHasher::Identity => vec![],
    }
}

pub fn keeps_plain(h: &StorageHasher) -> bool {
    matches!(h, StorageHasher::Blake2_128Concat | StorageHasher::Twox64Concat | StorageHasher::Identity)
}

/// Types of the key parts, `None` if hashers and key type do not fit.
pub fn key_types(types: &[Ty], hashers: &[StorageHasher], key_ty: u32) -> Option<Vec<u32>> {
    if hashers.len() == 1 {
        return Some(vec![key_ty]);
    }
    match &types.get(key_ty as usize)?.type_def {
        TypeDef::Tuple(t) if t.fields.len() == hashers.len() => Some(t.fields.iter().map(|f| f.id).collect()),
        _ => None,
    }
}

pub fn storage_key(
    c: &Codec,
    hashers: &[StorageHasher],
    key_ty: u32,
    prefix: &[u8],
    r: &mut Rng,
) -> Option<(Vec<u8>, Vec<KeyPartAt>)> {
    let tys = key_types(&c.types, hashers, key_ty)?;
    let mut out = prefix.to_vec();
    let mut at = Vec::new();
    for (h, t) in hashers.iter().zip(tys) {
        let plain = value_bytes(c, t, r, 60);
        let hash = hash_part(h, &plain);
        let s = out.len();
        out.extend_from_slice(&hash);
        let m = out.len();
        if keeps_plain(h) {
            out.extend_from_slice(&plain);
        }
        at.push(KeyPartAt { hash: (s, m), plain: (m, out.len()) });
    }
    Some((out, at))
}

pub const HASHERS: [StorageHasher; 7] = [
    StorageHasher::Blake2_128,
    StorageHasher::Blake2_256,
    StorageHasher::Blake2_128Concat,
    StorageHasher::Twox128,
    StorageHasher::Twox256,
    StorageHasher::Twox64Concat,
    StorageHasher::Identity,
];

pub fn rand_hashers(r: &mut Rng) -> Vec<StorageHasher> {
    let n = if r.pct(3) { r.range(5, 9) as usize } else { r.weighted(&[0, 6, 4, 3, 1]) };
    (0..n)
        .map(|_| {
            let i = r.weighted(&[1, 1, 3, 1, 1, 3, 1]);
            HASHERS[i].clone()
        })
        .collect()
}

pub fn entry(ty: StorageEntryType<PortableForm>, r: &mut Rng) -> Entry {
    StorageEntryMetadata {
        name: "Entry".into(),
        modifier: StorageEntryModifier::Default,
        ty,
        default: vec![],
        docs: (0..r.below(3)).map(|i| format!("entry line {i}")).collect(),
    }
}

/// How a synthetic chain is to be made.
#[derive(Clone, Copy, Debug)]
pub struct ChainOpts {
    pub depth: u32,
    pub form: u8,
    pub cap: usize,
}

/// Synthetic chain: all types the operations need, plus a list of types to
/// decode directly.
pub fn chain(r: &mut Rng, o: ChainOpts) -> (Synth, Vec<u32>) {
    loop {
        let (s, d) = chain_once(r, o);
        // everything a transaction needs must have finite values
        let c = Codec::new(Arc::new(s.types.clone()));
        let mut all = vec![s.call_ty, s.address_ty, s.signature_ty, s.extra_ty];
        all.extend(s.exts.iter().flat_map(|e| [e.1, e.2]));
        if all.into_iter().all(|t| c.possible(t)) {
            return (s, d);
        }
    }
}

fn chain_once(r: &mut Rng, o: ChainOpts) -> (Synth, Vec<u32>) {
    let mut t = Table::new(r.fork());
    t.cap = o.cap;
    // shift type numbers between chains
    for _ in 0..t.r.below(4) {
        let p = t.r.pick(&PRIMS).clone();
        t.prim(p);
    }
    let call = t.slot();
    t.call = Some(call);
    let outer: &[&str] = if t.r.pct(50) { &["node_runtime", "RuntimeCall"] } else { &["node_runtime", "Call"] };
    t.pallets(outer, "Call", o.depth, call);
    let mut direct = vec![];
    if t.r.pct(40) {
        let ev = t.slot();
        let outer: &[&str] = if t.r.pct(50) { &["node_runtime", "RuntimeEvent"] } else { &["node_runtime", "Event"] };
        t.pallets(outer, "Event", o.depth, ev);
        direct.push(ev);
        if t.r.pct(50) {
            direct.push(t.seq(ev));
        }
    }
    for _ in 0..3 {
        let id = t.ty(o.depth);
        direct.push(id);
    }
    direct.push(call);

    let address_ty = match t.r.below(4) {
        0 => t.bytes_type(&["sp_core", "crypto", "AccountId32"], 32),
        1 => t.bytes_type(&["account", "AccountId20"], 20),
        _ => {
            let id = t.bytes_type(&["sp_core", "crypto", "AccountId32"], 32);
            let unit = t.tuple(&[]);
            let idx = t.compact_of(unit);
            let u8t = t.prim(Prim::U8);
            let raw = t.seq(u8t);
            let a32 = t.array(u8t, 32);
            let a20 = t.array(u8t, 20);
            let mk = |n: &str, ty: u32, i: u8| Variant {
                name: n.into(),
                fields: vec![field(None, ty, None)],
                index: i,
                docs: vec![],
            };
            t.put(
                path(&["sp_runtime", "multiaddress", "MultiAddress"]),
                TypeDefVariant {
                    variants: vec![
                        mk("Id", id, 0),
                        mk("Index", idx, 1),
                        mk("Raw", raw, 2),
                        mk("Address32", a32, 3),
                        mk("Address20", a20, 4),
                    ],
                },
            )
        }
    };
    let signature_ty = if t.r.pct(80) { t.multi_signature() } else { t.bytes_type(&["primitive_types", "H512"], 64) };

    // extensions
    let unit = t.tuple(&[]);
    let version_ty = {
        let p = [Prim::U32, Prim::U32, Prim::U8, Prim::U16, Prim::U64, Prim::U128][t.r.usize(6)].clone();
        t.prim(p)
    };
    let version_width: u32 = match t.types[version_ty as usize].type_def {
        TypeDef::Primitive(Prim::U8) => 1,
        TypeDef::Primitive(Prim::U16) => 2,
        TypeDef::Primitive(Prim::U32) => 4,
        TypeDef::Primitive(Prim::U64) => 8,
        _ => 16,
    };
    let spec_version = rand_uint(&mut t.r, version_width);
    let mut exts: Vec<(String, u32, u32)> = Vec::new();
    // spec version, maybe in a wrapper or as compact
    let ext_version = match t.r.below(5) {
        0 => t.newtype(path(&["versions", "Wrapped"]), version_ty),
        1 => t.compact_of(version_ty),
        _ => version_ty,
    };
    let empty = t.composite(path(&["frame_system", "extensions", "CheckX"]), vec![]);
    exts.push(("CheckSpecVersion".into(), if t.r.pct(50) { empty } else { unit }, ext_version));
    let u32t = t.prim(Prim::U32);
    exts.push(("CheckTxVersion".into(), empty, u32t));
    let h = t.h256();
    let gen_ty = if t.r.pct(20) { t.newtype(path(&["hashes", "Wrapped"]), h) } else { h };
    exts.push(("CheckGenesis".into(), empty, gen_ty));
    if t.r.pct(85) {
        let era = t.era();
        let wrapped = if t.r.pct(70) {
            t.newtype(path(&["frame_system", "extensions", "check_mortality", "CheckMortality"]), era)
        } else {
            era
        };
        let h2 = if t.r.pct(50) { h } else { t.h256() };
        exts.push(("CheckMortality".into(), wrapped, h2));
    }
    if t.r.pct(80) {
        let u = t.uint();
        let c = t.compact_of(u);
        let n = t.newtype(path(&["frame_system", "extensions", "check_nonce", "CheckNonce"]), c);
        exts.push(("CheckNonce".into(), n, unit));
    }
    exts.push(("CheckWeight".into(), empty, unit));
    match t.r.below(3) {
        0 => {
            let u = t.prim(Prim::U128);
            let c = t.compact_of(u);
            let n = t.composite(
                path(&["pallet_transaction_payment", "ChargeTransactionPayment"]),
                vec![field(None, c, Some("BalanceOf<T>"))],
            );
            exts.push(("ChargeTransactionPayment".into(), n, unit));
        }
        1 => {
            let u = t.prim(Prim::U128);
            let c = t.compact_of(u);
            let asset = t.prim(Prim::U32);
            let opt = t.put(
                path(&["Option"]),
                TypeDefVariant {
                    variants: vec![
                        Variant { name: "None".into(), fields: vec![], index: 0, docs: vec![] },
                        Variant {
                            name: "Some".into(),
                            fields: vec![field(None, asset, None)],
                            index: 1,
                            docs: vec![],
                        },
                    ],
                },
            );
            let n = t.composite(
                path(&["pallet_asset_tx_payment", "ChargeAssetTxPayment"]),
                vec![field(Some("tip"), c, Some("BalanceOf<T>")), field(Some("asset_id"), opt, Some("Option<u32>"))],
            );
            exts.push(("ChargeAssetTxPayment".into(), n, unit));
        }
        _ => (),
    }
    let more = if t.wide && t.r.pct(50) { t.r.range(5, 30) } else { t.r.pct(40) as u64 };
    for i in 0..more {
        let x = t.ty(if i == 0 { 2 } else { 0 });
        let y = t.ty(if i == 0 { 1 } else { 0 });
        // another era, genesis or block hash in the open would be counted
        if !has_gated(&t.types, x) && !has_gated(&t.types, y) {
            let name = if i == 0 { "SomethingElse".into() } else { format!("SomethingElse{i}") };
            exts.push((name, x, y));
        }
    }
    // order differs between chains
    for i in (1..exts.len()).rev() {
        let j = t.r.usize(i + 1);
        exts.swap(i, j);
    }
    let extra_ty = {
        let tys: Vec<u32> = exts.iter().map(|e| e.1).collect();
        let tu = t.tuple(&tys);
        if t.r.pct(30) {
            t.newtype(path(&["runtime", "SignedExtra"]), tu)
        } else {
            tu
        }
    };
    // runtime version record
    let str_t = t.prim(Prim::Str);
    let mut fields = vec![
        field(Some("spec_name"), str_t, Some("RuntimeString")),
        field(Some("impl_name"), str_t, Some("RuntimeString")),
        field(Some("authoring_version"), u32t, Some("u32")),
        field(Some("spec_version"), version_ty, Some("u32")),
        field(Some("impl_version"), u32t, Some("u32")),
        field(Some("transaction_version"), u32t, Some("u32")),
    ];
    if t.r.pct(30) {
        fields.swap(0, 3);
    }
    let rv = t.composite(path(&["sp_version", "RuntimeVersion"]), fields.clone());
    let spec_name = ["node", "polkadot", "statemint", "é-chain"][t.r.usize(4)].to_string();
    let mut value = Vec::new();
    for f in &fields {
        match f.name.as_deref() {
            Some("spec_name") => {
                put_compact(spec_name.len() as u128, &mut value);
                value.extend_from_slice(spec_name.as_bytes());
            }
            Some("impl_name") => {
                put_compact(4, &mut value);
                value.extend_from_slice(b"impl");
            }
            Some("spec_version") => value.extend_from_slice(&spec_version.to_le_bytes()[..version_width as usize]),
            _ => value.extend_from_slice(&t.r.bytes(4)),
        }
    }
    // opaque extrinsic
    let u8t = t.prim(Prim::U8);
    let vec_u8 = t.seq(u8t);
    let extrinsic_ty = t.composite(
        path(&["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"]),
        vec![field(None, vec_u8, None)],
    );
    t.types[extrinsic_ty as usize].type_params = [
        ("Address", address_ty),
        ("Call", call),
        ("Signature", signature_ty),
        ("Extra", extra_ty),
    ]
    .iter()
    .map(|(n, ty)| TypeParameter { name: n.to_string(), ty: Some(sym(*ty)) })
    .collect();
    let tx_version = if t.r.pct(70) { 4 } else { t.r.below(128) as u8 };
    let synth = Synth {
        types: t.types,
        form: o.form,
        call_ty: call,
        address_ty,
        signature_ty,
        extra_ty,
        extrinsic_ty,
        exts,
        spec_version: spec_version.to_string(),
        spec_name,
        version_const: Some((value, rv)),
        tx_version,
        fails: vec![],
        pallets: *t.r.pick(&[P_PLAIN, P_PLAIN, P_DECOYS, P_CONSTANTS]),
        damage: vec![],
    };
    (synth, direct)
}

/// Would an unmarked item of this type be collected by the chain checks?
fn has_gated(types: &[Ty], id: u32) -> bool {
    let t = &types[id as usize];
    if special(t) == Some(Special::Era) {
        return true;
    }
    match &t.type_def {
        TypeDef::Composite(c) if c.fields.len() == 1 => {
            c.fields[0].name.as_deref() == Some("spec_version") || has_gated(types, c.fields[0].ty.id)
        }
        _ => false,
    }
}

