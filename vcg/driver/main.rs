// mirdump: a rustc driver that writes, as JSON, the monomorphic MIR of every function reachable
// from the `#[no_mangle]` functions of the crate it compiles (drop glue and std included), with the
// type table the VC generator (vcg/*.py) needs. It changes nothing about the compilation.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate serde;
extern crate serde_json;

use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::{ConstOperand, TerminatorKind};
use rustc_public::ty::{ConstantKind, RigidTy, Ty, TyKind, MirConst};
use rustc_public::{CrateDef, CrateDefType, mir::alloc::GlobalAlloc};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, VecDeque, HashMap};

struct Tys<'a>(&'a mut Vec<Ty>, &'a mut Vec<MirConst>);
impl<'a> MirVisitor for Tys<'a> {
    fn visit_ty(&mut self, ty: &Ty, _l: Location) { self.0.push(*ty); self.super_ty(ty); }
    fn visit_const_operand(&mut self, c: &ConstOperand, l: Location) {
        self.0.push(c.const_.ty()); self.1.push(c.const_.clone()); self.super_const_operand(c, l);
    }
}

struct Dump {
    skip: Vec<String>,
    ids: HashMap<Instance, usize>,
    queue: VecDeque<Instance>,
    fns: Vec<Value>,
    types: BTreeMap<usize, Value>,
    allocs: BTreeMap<String, Value>,
    log: BTreeSet<String>,
}

fn ty_idx(t: &Ty) -> usize { serde_json::to_value(t).unwrap().as_u64().unwrap() as usize }

impl Dump {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.ids.get(&i) { return *x; }
        let id = self.ids.len();
        self.ids.insert(i, id);
        self.queue.push_back(i);
        id
    }
    fn ty(&mut self, t: Ty) -> usize {
        let id = ty_idx(&t);
        if self.types.contains_key(&id) { return id; }
        self.types.insert(id, Value::Null);
        let mut m = Map::new();
        m.insert("s".into(), json!(format!("{}", t)));
        if let Ok(l) = t.layout() {
            let sh = l.shape();
            m.insert("size".into(), json!(sh.size.bytes()));
            m.insert("align".into(), json!(sh.abi_align));
            if matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(..) | RigidTy::Tuple(..))) && sh.size.bytes() <= 64 {
                m.insert("layout".into(), json!({"fields": sh.fields, "variants": sh.variants}));
            }
        }
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => { m.insert("k".into(), json!("bool")); }
                RigidTy::Char => { m.insert("k".into(), json!("char")); }
                RigidTy::Int(_) => { m.insert("k".into(), json!("int")); }
                RigidTy::Uint(_) => { m.insert("k".into(), json!("uint")); }
                RigidTy::Float(_) => { m.insert("k".into(), json!("float")); }
                RigidTy::Adt(def, args) => {
                    m.insert("k".into(), json!("adt"));
                    m.insert("name".into(), json!(def.name()));
                    m.insert("adt".into(), json!(format!("{:?}", def.kind())));
                    let a: Vec<Value> = args.0.iter().map(|a| match a.ty() { Some(t) => json!(self.ty(*t)), None => Value::Null }).collect();
                    m.insert("args".into(), json!(a));
                    let mut vs = vec![];
                    for v in def.variants_iter() {
                        let d = if def.kind() == rustc_public::ty::AdtKind::Enum { def.discriminant_for_variant(v.idx()).val } else { 0 };
                        let mut fs = vec![];
                        for f in v.fields() { let fid = self.ty(f.ty_with_args(&args)); fs.push(json!([f.name, fid])); }
                        vs.push(json!({"name": v.name(), "discr": d.to_string(), "fields": fs}));
                    }
                    m.insert("variants".into(), json!(vs));
                }
                RigidTy::Ref(_, t2, mu) => { m.insert("k".into(), json!("ref")); m.insert("to".into(), json!(self.ty(t2))); m.insert("mut".into(), json!(format!("{:?}", mu))); }
                RigidTy::RawPtr(t2, mu) => { m.insert("k".into(), json!("ptr")); m.insert("to".into(), json!(self.ty(t2))); m.insert("mut".into(), json!(format!("{:?}", mu))); }
                RigidTy::Tuple(ts) => { m.insert("k".into(), json!("tuple")); let a: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect(); m.insert("fields".into(), json!(a)); }
                RigidTy::Array(t2, n) => { m.insert("k".into(), json!("array")); m.insert("to".into(), json!(self.ty(t2))); m.insert("n".into(), json!(n.eval_target_usize().ok())); }
                RigidTy::Slice(t2) => { m.insert("k".into(), json!("slice")); m.insert("to".into(), json!(self.ty(t2))); }
                RigidTy::Str => { m.insert("k".into(), json!("str")); }
                RigidTy::Never => { m.insert("k".into(), json!("never")); }
                RigidTy::FnDef(def, args) => {
                    m.insert("k".into(), json!("fndef"));
                    m.insert("name".into(), json!(def.name()));
                    let a: Vec<Value> = args.0.iter().map(|a| match a.ty() { Some(t) => json!(self.ty(*t)), None => Value::Null }).collect();
                    m.insert("args".into(), json!(a));
                    if let Ok(i) = Instance::resolve(def, &args) { m.insert("inst".into(), json!(self.inst(i))); }
                }
                RigidTy::FnPtr(_) => { m.insert("k".into(), json!("fnptr")); }
                RigidTy::Closure(_def, args) => {
                    m.insert("k".into(), json!("closure"));
                    // last generic arg: tuple of upvars
                    if let Some(t) = args.0.last().and_then(|a| a.ty().copied()) {
                        m.insert("upvars".into(), json!(self.ty(t)));
                    }
                }
                RigidTy::Dynamic(..) => { m.insert("k".into(), json!("dyn")); }
                _ => { m.insert("k".into(), json!("other")); }
            },
            _ => { m.insert("k".into(), json!("other")); }
        }
        self.types.insert(id, Value::Object(m));
        id
    }
    fn const_(&mut self, c: &MirConst) {
        if let ConstantKind::Allocated(a) = c.kind() {
            self.prov(&a.provenance.ptrs.iter().map(|(_, p)| p.0).collect::<Vec<_>>());
        }
        self.ty(c.ty());
    }
    fn prov(&mut self, ids: &[rustc_public::mir::alloc::AllocId]) {
        for id in ids {
            let k = serde_json::to_value(id).unwrap().to_string();
            if self.allocs.contains_key(&k) { continue; }
            self.allocs.insert(k.clone(), Value::Null);
            let v = match GlobalAlloc::from(*id) {
                GlobalAlloc::Memory(a) => {
                    self.prov(&a.provenance.ptrs.iter().map(|(_, p)| p.0).collect::<Vec<_>>());
                    json!({"mem": serde_json::to_value(&a).unwrap()})
                }
                GlobalAlloc::Function(i) => json!({"fn": self.inst(i)}),
                GlobalAlloc::Static(s) => json!({"static": s.name()}),
                _ => json!({"other": 1}),
            };
            self.allocs.insert(k, v);
        }
    }
    fn run(&mut self) {
        while let Some(i) = self.queue.pop_front() {
            let id = self.ids[&i];
            let name = i.name();
            let mut m = Map::new();
            m.insert("id".into(), json!(id));
            m.insert("name".into(), json!(name));
            m.insert("mangled".into(), json!(i.mangled_name()));
            m.insert("krate".into(), json!(rustc_public::CrateDef::krate(&i.def).name));
            m.insert("kind".into(), json!(format!("{:?}", i.kind)));
            if let Some(n) = i.intrinsic_name() { m.insert("intrinsic".into(), json!(n)); }
            let a: Vec<Value> = i.args().0.iter().map(|a| match a.ty() { Some(t) => json!(self.ty(*t)), None => Value::Null }).collect();
            m.insert("args".into(), json!(a));
            m.insert("empty_shim".into(), json!(i.is_empty_shim()));
            let skip = self.skip.iter().any(|p| name.starts_with(p.as_str()));
            m.insert("skipped".into(), json!(skip));
            let wanted = !skip && !matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic) && !i.is_foreign_item();
            let body = if wanted { std::panic::catch_unwind(|| i.body()).unwrap_or(None) } else { None };
            if let Some(body) = body {
                let mut tys = vec![]; let mut cs = vec![];
                Tys(&mut tys, &mut cs).visit_body(&body);
                for t in tys { self.ty(t); }
                for c in &cs { self.const_(c); }
                let locals = body.locals().to_vec();
                let mut drops = Map::new();
                let mut optys = Map::new();
                for (bi, b) in body.blocks.iter().enumerate() {
                    match &b.terminator.kind {
                        TerminatorKind::Drop { place, .. } => {
                            if let Ok(t) = place.ty(&locals) {
                                let di = Instance::resolve_drop_in_place(t);
                                let did = self.inst(di);
                                drops.insert(bi.to_string(), json!([ty_idx(&t), did]));
                                self.ty(t);
                            }
                        }
                        TerminatorKind::Call { func, args, .. } => {
                            if let Ok(t) = func.ty(&locals) { let x = self.ty(t); optys.insert(bi.to_string(), json!(x)); }
                            for a in args { if let Ok(t) = a.ty(&locals) { self.ty(t); } }
                        }
                        _ => {}
                    }
                }
                m.insert("arg_count".into(), json!(body.arg_locals().len()));
                m.insert("spread".into(), json!(body.spread_arg()));
                m.insert("locals".into(), json!(locals.iter().map(|l| self.ty(l.ty)).collect::<Vec<_>>()));
                m.insert("drops".into(), Value::Object(drops));
                m.insert("calls".into(), Value::Object(optys));
                let blocks: Vec<Value> = body.blocks.iter().map(|b| json!({
                    "s": b.statements.iter().map(|s| serde_json::to_value(&s.kind).unwrap()).collect::<Vec<_>>(),
                    "sp": b.statements.iter().map(|s| span(&s.source_info.span)).collect::<Vec<_>>(),
                    "t": serde_json::to_value(&b.terminator.kind).unwrap(),
                    "l": span(&b.terminator.source_info.span),
                })).collect();
                m.insert("blocks".into(), json!(blocks));
            }
            self.fns.push(Value::Object(m));
        }
    }
}

fn span(s: &rustc_public::ty::Span) -> String {
    let l = s.get_lines();
    let f = s.get_filename();
    let f = f.to_string();
    let f = f.rsplit("/src/").next().unwrap_or(&f).to_string();
    format!("{}:{}", f, l.start_line)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let out = std::env::var("MIRDUMP_OUT").ok();
    if let Some(out) = out {
        let r = rustc_public::run!(&args, || -> ControlFlow<(), ()> {
            let skip: Vec<String> = std::env::var("MIRDUMP_SKIP").ok()
                .map(|p| std::fs::read_to_string(p).unwrap().lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect())
                .unwrap_or_default();
            let mut d = Dump { skip, ids: HashMap::new(), queue: VecDeque::new(), fns: vec![], types: BTreeMap::new(), allocs: BTreeMap::new(), log: BTreeSet::new() };
            let mut roots = Map::new();
            for item in rustc_public::all_local_items() {
                if let Ok(i) = Instance::try_from(item) {
                    let n = item.name().to_string();
                    let short = n.rsplit("::").next().unwrap().to_string(); let full = n.clone();
                    if short.starts_with("h_") { let id = d.inst(i); roots.insert(full, json!(id)); }
                }
            }
            d.run();
            let types: Map<String, Value> = d.types.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
            let allocs: Map<String, Value> = d.allocs.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
            let v = json!({"roots": roots, "fns": d.fns, "types": types, "allocs": allocs, "log": d.log.iter().collect::<Vec<_>>()});
            std::fs::write(&out, serde_json::to_vec(&v).unwrap()).unwrap();
            ControlFlow::Break(())
        });
        match r { Ok(_) | Err(rustc_public::CompilerError::Interrupted(_)) => std::process::exit(0), Err(e) => { eprintln!("mirdump: {:?}", e); std::process::exit(3) } }
    } else {
        let _ = rustc_driver::main();
    }
}
