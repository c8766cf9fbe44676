//! Owned, monomorphic copy of the compiler's MIR (no compiler lifetimes).
use std::collections::BTreeMap;

pub type TyId = u32;
pub type FnId = u32;
pub type AllocIx = u32;

#[derive(Clone, Debug)]
pub struct Variant {
    pub name: String,
    pub fields: Vec<TyId>,
    pub fnames: Vec<String>,
    pub offsets: Vec<u64>,
    pub discr: u128,
}

#[derive(Clone, Debug)]
pub enum Tag {
    Single(u32),
    Direct { off: u64, w: u32 },
    Niche { off: u64, w: u32, untagged: u32, first: u32, last: u32, start: u128 },
    None,
}

#[derive(Clone, Debug)]
pub enum TyK {
    Int { w: u32, signed: bool },
    Bool,
    Char,
    Float(u32),
    Never,
    FnDef(Callee),
    FnPtr,
    Ptr { to: TyId },
    Adt { name: String, is_enum: bool, is_union: bool, variants: Vec<Variant>, tag: Tag },
    Array { elem: TyId, len: u64 },
    Slice { elem: TyId },
    Str,
    Opaque(String),
}

#[derive(Clone, Debug)]
pub struct Ty {
    pub k: TyK,
    pub size: u64,
    pub sized: bool,
    pub name: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum MemK { GetByte, GetWord, GetLong, SetByte, SetWord, SetLong, Reset }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Callee {
    Fn(FnId),
    Mem(MemK),
    /// No body followed: modelled by name (path, generic argument names).
    Model(String),
    Intrinsic(String),
    Panic(String),
}

#[derive(Clone, Debug)]
pub enum CVal {
    Int(u32, u128),
    Callee(Callee),
    Ptr { alloc: AllocIx, off: u64, meta: Option<u64> },
    Zst,
    Mem { alloc: AllocIx, off: u64 },
    Top,
}

#[derive(Clone, Debug)]
pub enum Proj {
    Deref,
    Field(u32, TyId),
    Index(u32),
    ConstIndex { off: u64, from_end: bool },
    Subslice { from: u64, to: u64, from_end: bool },
    Downcast(u32),
    Other,
}

#[derive(Clone, Debug)]
pub struct Place { pub local: u32, pub proj: Vec<Proj> }

#[derive(Clone, Debug)]
pub enum Operand { Place(Place), Const(CVal, TyId) }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum BinOp { Add, Sub, Mul, AddOv, SubOv, MulOv, Div, Rem, Xor, And, Or, Shl, Shr, ShlUnchecked, ShrUnchecked, Eq, Ne, Lt, Le, Gt, Ge, Cmp, Offset }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum UnOp { Not, Neg, Meta }

#[derive(Clone, Debug)]
pub enum CastK { IntToInt, PtrToPtr, Transmute, Unsize, ReifyFn, Other }

#[derive(Clone, Debug)]
pub enum AggK { Tuple, Array, Adt { variant: u32, union_field: Option<u32> }, RawPtr }

#[derive(Clone, Debug)]
pub enum Rvalue {
    Use(Operand),
    Repeat(Operand, u64),
    Ref(Place),
    Cast(CastK, Operand, TyId, TyId),
    Bin(BinOp, Operand, Operand, TyId),
    Un(UnOp, Operand, TyId),
    Discr(Place),
    Agg(AggK, Vec<Operand>, TyId),
    Top,
}

#[derive(Clone, Debug)]
pub enum Stmt {
    Assign(Place, Rvalue),
    SetDiscr(Place, u32),
    Dead(u32),
    Nop,
}

#[derive(Clone, Debug)]
pub enum Term {
    Goto(u32),
    Switch { op: Operand, ty: TyId, targets: Vec<(u128, u32)>, otherwise: u32 },
    Return,
    Unreachable,
    Drop { place: Place, target: u32, glue: Option<FnId> },
    Call { f: Operand, args: Vec<Operand>, arg_tys: Vec<TyId>, dest: Place, ret: TyId, target: Option<u32> },
    Assert { cond: Operand, expected: bool, msg: String, target: u32 },
    Abort(String),
}

#[derive(Clone, Debug)]
pub struct Block { pub stmts: Vec<(Stmt, u32)>, pub term: Term, pub line: u32, pub file: u16 }

#[derive(Clone, Debug, Default)]
pub struct Func {
    pub name: String,
    pub path: String,
    pub nargs: usize,
    pub locals: Vec<TyId>,
    pub blocks: Vec<Block>,
    pub order: Vec<u32>,
    pub file: u16,
    pub line: u32,
    pub local_crate: bool,
    pub spread: Option<u32>,
    /// A closure's own body: callers pass its arguments as one tuple.
    pub closure: bool,
    pub ok: bool,
}

#[derive(Clone, Debug)]
pub enum Reloc { Alloc(AllocIx, u64), Callee(Callee), Other }

#[derive(Clone, Debug, Default)]
pub struct GAlloc { pub bytes: Vec<u8>, pub relocs: BTreeMap<u64, Reloc>, pub name: String }

#[derive(Default, Debug)]
pub struct Prog {
    pub tys: Vec<Ty>,
    pub fns: Vec<Func>,
    pub allocs: Vec<GAlloc>,
    pub files: Vec<String>,
    pub roots: BTreeMap<String, FnId>,
    pub consts: BTreeMap<String, (CVal, TyId)>,
    pub ty_names: BTreeMap<String, TyId>,
    /// iterator types whose step is itself a model
    pub model_next: BTreeMap<String, String>,
}

impl Prog {
    pub fn ty(&self, t: TyId) -> &Ty { &self.tys[t as usize] }
    pub fn width(&self, t: TyId) -> Option<u32> {
        match &self.ty(t).k {
            TyK::Int { w, .. } => Some(*w),
            TyK::Bool => Some(1),
            TyK::Char => Some(32),
            TyK::Float(w) => Some(*w),
            _ => None,
        }
    }
    pub fn signed(&self, t: TyId) -> bool { matches!(self.ty(t).k, TyK::Int { signed: true, .. }) }
}
