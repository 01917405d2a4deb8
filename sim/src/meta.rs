//! Metadata of simulated chains: synthetic or real (`/repo/for_tests`), with
//! the type table in memory or on the simulated device.
use crate::mem::{session, yield_here, SimMem, SimRegistry};
use frame_metadata::{v14, v15};
use parity_scale_codec::{Decode, Encode};
use scale_info::{form::PortableForm, interner::UntrackedSymbol, PortableRegistry, PortableType, Type};
use std::any::TypeId;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use substrate_parser::traits::{
    AsCompleteMetadata, AsMetadata, ExtrinsicTypeParams, SignedExtensionMetadata, SpecNameVersion,
};

pub type Ty = Type<PortableForm>;

pub fn sym(id: u32) -> UntrackedSymbol<TypeId> {
    id.into()
}

pub const FORM_FLASH: u8 = 0;
pub const FORM_V14: u8 = 1;
pub const FORM_V15: u8 = 2;

/// Failure of the metadata source: queries number `from .. from+count` of kind
/// `which` fail.
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub struct MetaFail {
    pub which: u8,
    pub from: u32,
    pub count: u32,
    pub code: u32,
}

pub const Q_CALL: u8 = 0;
pub const Q_EXTS: u8 = 1;
pub const Q_VERSION: u8 = 2;
pub const Q_PARAMS: u8 = 3;
pub const Q_EXTVERSION: u8 = 4;

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct Synth {
    pub types: Vec<Ty>,
    pub form: u8,
    pub call_ty: u32,
    pub address_ty: u32,
    pub signature_ty: u32,
    pub extra_ty: u32,
    pub extrinsic_ty: u32,
    pub exts: Vec<(String, u32, u32)>,
    pub spec_version: String,
    pub spec_name: String,
    /// `Version` constant of the `System` pallet: value and type.
    pub version_const: Option<(Vec<u8>, u32)>,
    pub tx_version: u8,
    pub fails: Vec<MetaFail>,
    /// Which pallets there are, see `Synth::constants`.
    pub pallets: u8,
    /// Damage of the stored type table: (offset, xor), or overwrite runs.
    pub damage: Vec<(u32, u8)>,
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub enum MetaSpec {
    Real { name: String, flash: bool },
    Synth(Synth),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SimMetaErr(pub u32);

impl std::fmt::Display for SimMetaErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "metadata source failure {}", self.0)
    }
}

/// Metadata whose type table lives on the device.
#[derive(Debug)]
pub struct SimMetadata {
    pub registry: SimRegistry,
    pub call_ty: u32,
    pub exts: Vec<SignedExtensionMetadata>,
    pub version: SpecNameVersion,
    pub params: ExtrinsicTypeParams,
    pub tx_version: u8,
    pub fails: Mutex<Vec<MetaFail>>,
    pub queries: [AtomicU32; 5],
    pub fired: AtomicU32,
    /// Codes of the failures returned.
    pub codes: Mutex<Vec<u32>>,
    /// Failures and number of queries of each session.
    pub of_session: Mutex<BTreeMap<usize, (Vec<MetaFail>, [u32; 5])>>,
}

impl SimMetadata {
    fn query(&self, which: u8) -> Result<(), SimMetaErr> {
        if let Some(s) = session() {
            yield_here();
            let mut g = self.of_session.lock().unwrap();
            let Some((fails, queries)) = g.get_mut(&s) else { return Ok(()) };
            let n = queries[which as usize];
            queries[which as usize] += 1;
            return match fails.iter().find(|f| f.which == which && n >= f.from && n - f.from < f.count) {
                Some(f) => {
                    self.fired.fetch_add(1, Ordering::SeqCst);
                    Err(SimMetaErr(f.code))
                }
                None => Ok(()),
            };
        }
        let n = self.queries[which as usize].fetch_add(1, Ordering::SeqCst);
        for f in self.fails.lock().unwrap().iter() {
            if f.which == which && n >= f.from && n - f.from < f.count {
                self.fired.fetch_add(1, Ordering::SeqCst);
                self.codes.lock().unwrap().push(f.code);
                return Err(SimMetaErr(f.code));
            }
        }
        Ok(())
    }
    /// Failures of this session's queries, counted from now.
    pub fn fail_session(&self, session: usize, fails: &[MetaFail]) {
        self.of_session.lock().unwrap().insert(session, (fails.to_vec(), [0; 5]));
    }
    pub fn take_codes(&self) -> Vec<u32> {
        std::mem::take(&mut self.codes.lock().unwrap())
    }
    pub fn set_fails(&self, fails: &[MetaFail]) {
        *self.fails.lock().unwrap() = fails.to_vec();
        for q in &self.queries {
            q.store(0, Ordering::SeqCst);
        }
    }
}

impl AsMetadata<SimMem> for SimMetadata {
    type TypeRegistry = SimRegistry;
    type MetaStructureError = SimMetaErr;
    fn types(&self) -> SimRegistry {
        self.registry.clone()
    }
    fn spec_name_version(&self) -> Result<SpecNameVersion, SimMetaErr> {
        self.query(Q_VERSION)?;
        Ok(self.version.clone())
    }
    fn call_ty(&self) -> Result<UntrackedSymbol<TypeId>, SimMetaErr> {
        self.query(Q_CALL)?;
        Ok(sym(self.call_ty))
    }
    fn signed_extensions(&self) -> Result<Vec<SignedExtensionMetadata>, SimMetaErr> {
        self.query(Q_EXTS)?;
        Ok(self.exts.clone())
    }
}

impl AsCompleteMetadata<SimMem> for SimMetadata {
    fn extrinsic_type_params(&self) -> Result<ExtrinsicTypeParams, SimMetaErr> {
        self.query(Q_PARAMS)?;
        Ok(self.params.clone())
    }
    fn extrinsic_version(&self) -> Result<u8, SimMetaErr> {
        self.query(Q_EXTVERSION)?;
        Ok(self.tx_version)
    }
}

pub enum Meta {
    Sim(SimMetadata),
    V14(Arc<v14::RuntimeMetadataV14>),
    V15(Arc<v15::RuntimeMetadataV15>),
}

/// What the simulator itself knows about a metadata, independent of the code
/// under test.
#[derive(Clone)]
pub struct MetaInfo {
    pub types: Arc<Vec<Ty>>,
    pub call_ty: u32,
    pub address_ty: u32,
    pub signature_ty: u32,
    pub extra_ty: u32,
    pub exts: Vec<(String, u32, u32)>,
    pub spec_version: String,
    pub spec_name: String,
    pub version_state: VersionState,
    pub tx_version: u8,
    /// Storage entries (real metadata only).
    pub storage: Arc<Vec<v14::StorageEntryMetadata<PortableForm>>>,
}

pub const REAL: [&str; 11] = [
    "acala2012",
    "acala2200",
    "astar66",
    "bifrost982",
    "polkadot9430",
    "statemint1002000",
    "westend9111",
    "westmint9270",
    "westmint9270_spoiled_digest",
    "polkadot1000001_v15",
    "polkadot1003003_v15",
];

pub struct RealMeta {
    pub info: MetaInfo,
    pub v14: Option<Arc<v14::RuntimeMetadataV14>>,
    pub v15: Option<Arc<v15::RuntimeMetadataV15>>,
    /// Type table as stored on the device: index with offsets relative to the
    /// start of the table, then the records.
    pub table: Arc<Vec<u8>>,
    pub count: u32,
}

/// Serialize a type table for the device: index of `(offset, len)`, records.
pub fn make_table(types: &[Ty]) -> Vec<u8> {
    let mut index = Vec::new();
    let mut body: Vec<u8> = Vec::new();
    let base = 8 * types.len();
    for t in types {
        let e = t.encode();
        index.extend_from_slice(&((base + body.len()) as u32).to_le_bytes());
        index.extend_from_slice(&(e.len() as u32).to_le_bytes());
        body.extend_from_slice(&e);
    }
    index.extend_from_slice(&body);
    index
}

/// Turn offsets relative to table start into device addresses.
pub fn relocate(table: &[u8], count: u32, at: usize) -> Vec<u8> {
    let mut out = table.to_vec();
    for i in 0..count as usize {
        let o = u32::from_le_bytes(out[8 * i..8 * i + 4].try_into().unwrap());
        out[8 * i..8 * i + 4].copy_from_slice(&(o + at as u32).to_le_bytes());
    }
    out
}

/// What the version record of a metadata says.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum VersionState {
    Good,
    /// Missing, not decodable, or not as it should be.
    Bad,
    /// The reference decoder does not decide.
    Unknown,
}

/// Read `spec_name` and `spec_version` out of the version constant with the
/// reference decoder.
pub fn version_from_const(types: &[Ty], value: &[u8], ty: u32) -> (VersionState, String, String) {
    use crate::model::MErr;
    use substrate_parser::cards::ParsedData as P;
    use substrate_parser::special_indicators::{SpecialtyStr, SpecialtyUnsignedInteger as Su};
    let none = |s| (s, String::new(), String::new());
    let (data, end) = match crate::model::decode_at(types, ty, value, 0) {
        Ok(x) => x,
        Err(MErr::Beyond) => return none(VersionState::Unknown),
        Err(_) => return none(VersionState::Bad),
    };
    let P::Composite(fields) = &data.data else { return none(VersionState::Bad) };
    if end != value.len() {
        return none(VersionState::Bad);
    }
    let (mut names, mut versions) = (vec![], vec![]);
    for f in fields {
        let sv = Su::SpecVersion;
        match &f.data.data {
            P::Text { text, specialty: SpecialtyStr::SpecName } => names.push(text.clone()),
            P::PrimitiveU8 { value, specialty } if *specialty == sv => versions.push(value.to_string()),
            P::PrimitiveU16 { value, specialty } if *specialty == sv => versions.push(value.to_string()),
            P::PrimitiveU32 { value, specialty } if *specialty == sv => versions.push(value.to_string()),
            P::PrimitiveU64 { value, specialty } if *specialty == sv => versions.push(value.to_string()),
            P::PrimitiveU128 { value, specialty } if *specialty == sv => versions.push(value.to_string()),
            _ => (),
        }
    }
    if names.len() != 1 || versions.len() != 1 {
        return none(VersionState::Bad);
    }
    (VersionState::Good, names.remove(0), versions.remove(0))
}

static GIVEN: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());

/// Text of a metadata file, where there are no files.
#[allow(dead_code)]
pub fn give(name: &str, text: String) {
    GIVEN.lock().unwrap().insert(name.to_string(), text);
}

pub fn real_text(name: &str) -> String {
    match GIVEN.lock().unwrap().remove(name) {
        Some(t) => t,
        None => std::fs::read_to_string(format!("/repo/for_tests/{name}")).expect("metadata file"),
    }
}

pub fn real(name: &str) -> Arc<RealMeta> {
    static CACHE: OnceLock<Mutex<BTreeMap<String, Arc<RealMeta>>>> = OnceLock::new();
    let cache = CACHE.get_or_init(Default::default);
    let mut g = cache.lock().unwrap();
    if let Some(m) = g.get(name) {
        return m.clone();
    }
    let text = real_text(name);
    let raw = hex::decode(text.trim()).expect("metadata hex");
    let built = if raw[4] == 15 {
        let m = v15::RuntimeMetadataV15::decode(&mut &raw[5..]).expect("v15 metadata");
        let types: Vec<Ty> = m.types.types.iter().map(|t| t.ty.clone()).collect();
        let mut version = (VersionState::Bad, String::new(), String::new());
        let mut storage = Vec::new();
        for p in &m.pallets {
            if p.name == "System" {
                for c in &p.constants {
                    if c.name == "Version" {
                        version = version_from_const(&types, &c.value, c.ty.id);
                    }
                }
            }
            if let Some(s) = &p.storage {
                // identical structure, converted through its encoding
                for e in &s.entries {
                    storage.push(Decode::decode(&mut &e.encode()[..]).expect("storage entry"));
                }
            }
        }
        let (version_state, spec_name, spec_version) = version;
        RealMeta {
            info: MetaInfo {
                call_ty: m.extrinsic.call_ty.id,
                address_ty: m.extrinsic.address_ty.id,
                signature_ty: m.extrinsic.signature_ty.id,
                extra_ty: m.extrinsic.extra_ty.id,
                exts: m
                    .extrinsic
                    .signed_extensions
                    .iter()
                    .map(|x| (x.identifier.clone(), x.ty.id, x.additional_signed.id))
                    .collect(),
                spec_version,
                spec_name,
                version_state,
                tx_version: m.extrinsic.version,
                storage: Arc::new(storage),
                types: Arc::new(types.clone()),
            },
            table: Arc::new(make_table(&types)),
            count: types.len() as u32,
            v14: None,
            v15: Some(Arc::new(m)),
        }
    } else {
        let m = v14::RuntimeMetadataV14::decode(&mut &raw[5..]).expect("v14 metadata");
        let types: Vec<Ty> = m.types.types.iter().map(|t| t.ty.clone()).collect();
        let mut version = (VersionState::Bad, String::new(), String::new());
        let mut storage = Vec::new();
        for p in &m.pallets {
            if p.name == "System" {
                for c in &p.constants {
                    if c.name == "Version" {
                        version = version_from_const(&types, &c.value, c.ty.id);
                    }
                }
            }
            if let Some(s) = &p.storage {
                storage.extend(s.entries.iter().cloned());
            }
        }
        let (version_state, spec_name, spec_version) = version;
        let param = |n: &str| {
            types[m.extrinsic.ty.id as usize]
                .type_params
                .iter()
                .find(|p| p.name == n)
                .and_then(|p| p.ty)
                .map(|t| t.id)
                .unwrap_or(u32::MAX)
        };
        RealMeta {
            info: MetaInfo {
                call_ty: param("Call"),
                address_ty: param("Address"),
                signature_ty: param("Signature"),
                extra_ty: param("Extra"),
                exts: m
                    .extrinsic
                    .signed_extensions
                    .iter()
                    .map(|x| (x.identifier.clone(), x.ty.id, x.additional_signed.id))
                    .collect(),
                spec_version,
                spec_name,
                version_state,
                tx_version: m.extrinsic.version,
                storage: Arc::new(storage),
                types: Arc::new(types.clone()),
            },
            table: Arc::new(make_table(&types)),
            count: types.len() as u32,
            v14: Some(Arc::new(m)),
            v15: None,
        }
    };
    let built = Arc::new(built);
    g.insert(name.to_string(), built.clone());
    built
}

pub fn portable(types: &[Ty]) -> PortableRegistry {
    PortableRegistry {
        types: types
            .iter()
            .enumerate()
            .map(|(i, t)| PortableType { id: i as u32, ty: t.clone() })
            .collect(),
    }
}

/// Arrangements of pallets and their constants.
pub const P_PLAIN: u8 = 0;
/// No `System` pallet.
pub const P_NO_SYSTEM: u8 = 1;
/// Other pallets, with version constants of their own.
pub const P_DECOYS: u8 = 2;
/// Other constants in `System`.
pub const P_CONSTANTS: u8 = 3;

type Constant = (String, Vec<u8>, u32);

impl Synth {
    /// Pallets with their constants.
    fn constants(&self) -> Vec<(String, Vec<Constant>)> {
        let version: Vec<Constant> =
            self.version_const.iter().map(|(v, t)| ("Version".to_string(), v.clone(), *t)).collect();
        let mut other = version.clone();
        for (_, v, _) in &mut other {
            // a decodable record of another version
            for b in v.iter_mut().rev().take(9) {
                *b ^= 1;
            }
        }
        let named = |n: &str| -> Vec<Constant> { other.iter().cloned().map(|(_, v, t)| (n.to_string(), v, t)).collect() };
        match self.pallets {
            P_NO_SYSTEM => vec![("Balances".into(), version)],
            P_DECOYS => vec![
                ("Balances".into(), other.clone()),
                ("SystemTokens".into(), other.clone()),
                ("system".into(), vec![]),
                ("System".into(), version),
                ("SystemX".into(), other.clone()),
                ("ParaSystem".into(), other),
            ],
            P_CONSTANTS => {
                vec![("System".into(), [named("BlockWeights"), named("VersionLimit"), version, named("version"), named("DbVersion"), named("SS58Prefix")].concat())]
            }
            _ => vec![("System".into(), version)],
        }
    }
    pub fn info(&self) -> MetaInfo {
        let (version_state, spec_name, spec_version) = match (self.form, &self.version_const) {
            (FORM_FLASH, _) => (VersionState::Good, self.spec_name.clone(), self.spec_version.clone()),
            (_, Some((v, t))) if self.pallets != P_NO_SYSTEM => version_from_const(&self.types, v, *t),
            _ => (VersionState::Bad, String::new(), String::new()),
        };
        MetaInfo {
            types: Arc::new(self.types.clone()),
            call_ty: self.call_ty,
            address_ty: self.address_ty,
            signature_ty: self.signature_ty,
            extra_ty: self.extra_ty,
            exts: self.exts.clone(),
            spec_version,
            spec_name,
            version_state,
            tx_version: self.tx_version,
            storage: Arc::new(Vec::new()),
        }
    }
    pub fn v14(&self) -> v14::RuntimeMetadataV14 {
        v14::RuntimeMetadataV14 {
            types: portable(&self.types),
            pallets: self
                .constants()
                .into_iter()
                .enumerate()
                .map(|(i, (name, constants))| v14::PalletMetadata {
                    name,
                    storage: None,
                    calls: None,
                    event: None,
                    constants: constants
                        .into_iter()
                        .map(|(name, value, ty)| v14::PalletConstantMetadata { name, ty: sym(ty), value, docs: vec![] })
                        .collect(),
                    error: None,
                    index: i as u8,
                })
                .collect(),
            extrinsic: v14::ExtrinsicMetadata {
                ty: sym(self.extrinsic_ty),
                version: self.tx_version,
                signed_extensions: self
                    .exts
                    .iter()
                    .map(|(i, t, a)| v14::SignedExtensionMetadata {
                        identifier: i.clone(),
                        ty: sym(*t),
                        additional_signed: sym(*a),
                    })
                    .collect(),
            },
            ty: sym(0),
        }
    }
    pub fn v15(&self) -> v15::RuntimeMetadataV15 {
        v15::RuntimeMetadataV15 {
            types: portable(&self.types),
            pallets: self
                .constants()
                .into_iter()
                .enumerate()
                .map(|(i, (name, constants))| v15::PalletMetadata {
                    name,
                    storage: None,
                    calls: None,
                    event: None,
                    constants: constants
                        .into_iter()
                        .map(|(name, value, ty)| v14::PalletConstantMetadata { name, ty: sym(ty), value, docs: vec![] })
                        .collect(),
                    error: None,
                    index: i as u8,
                    docs: vec![],
                })
                .collect(),
            extrinsic: v15::ExtrinsicMetadata {
                version: self.tx_version,
                address_ty: sym(self.address_ty),
                call_ty: sym(self.call_ty),
                signature_ty: sym(self.signature_ty),
                extra_ty: sym(self.extra_ty),
                signed_extensions: self
                    .exts
                    .iter()
                    .map(|(i, t, a)| v15::SignedExtensionMetadata {
                        identifier: i.clone(),
                        ty: sym(*t),
                        additional_signed: sym(*a),
                    })
                    .collect(),
            },
            ty: sym(0),
            apis: vec![],
            outer_enums: v15::OuterEnums {
                call_enum_ty: sym(self.call_ty),
                event_enum_ty: sym(0),
                error_enum_ty: sym(0),
            },
            custom: v15::CustomMetadata { map: Default::default() },
        }
    }
}

pub fn sim_metadata(info: &MetaInfo, index_at: usize, count: u32, fails: &[MetaFail]) -> SimMetadata {
    SimMetadata {
        registry: SimRegistry { index_at, count, guard: None },
        call_ty: info.call_ty,
        exts: info
            .exts
            .iter()
            .map(|(i, t, a)| SignedExtensionMetadata {
                identifier: i.clone(),
                ty: sym(*t),
                additional_signed: sym(*a),
            })
            .collect(),
        version: SpecNameVersion {
            printed_spec_version: info.spec_version.clone(),
            spec_name: info.spec_name.clone(),
        },
        params: ExtrinsicTypeParams {
            address_ty: sym(info.address_ty),
            call_ty: sym(info.call_ty),
            signature_ty: sym(info.signature_ty),
            extra_ty: sym(info.extra_ty),
        },
        tx_version: info.tx_version,
        fails: Mutex::new(fails.to_vec()),
        queries: Default::default(),
        fired: AtomicU32::new(0),
        codes: Mutex::new(vec![]),
        of_session: Default::default(),
    }
}

impl MetaSpec {
    pub fn info(&self) -> MetaInfo {
        match self {
            MetaSpec::Real { name, .. } => real(name).info.clone(),
            MetaSpec::Synth(s) => s.info(),
        }
    }
}
