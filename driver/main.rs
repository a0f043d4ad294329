// MIR fact extractor: a rustc driver that dumps the (pre-borrowck) MIR of every body of the
// target crate, and of the generic core/alloc helpers it calls, as JSON.  It never runs the code.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

#[derive(Clone, Debug)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(BTreeMap<String, J>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn esc(o: &mut String, x: &str) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(x) => esc(o, x),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

// Non-local generic helpers whose (optimized) MIR is worth inlining.
fn std_inline_ok(path: &str) -> bool {
    let pre = [
        "core::option::", "std::option::", "core::result::", "std::result::",
        "core::ops::", "std::ops::", "core::cmp::", "std::cmp::",
        "core::mem::take", "core::mem::replace", "core::mem::swap",
        "std::mem::take", "std::mem::replace", "std::mem::swap",
        "core::bool::", "core::convert::", "std::convert::",
    ];
    if pre.iter().any(|p| path.starts_with(p)) {
        return true;
    }
    // trait impls: `<X as Trait>::m`
    if path.starts_with('<') {
        if let Some(p) = path.find(" as ") {
            let head = &path[1..p];
            let t = &path[p + 4..];
            let tr_ok = ["core::ops::", "std::ops::", "core::cmp::", "std::cmp::", "core::convert::",
                         "std::convert::", "core::default::", "std::default::"]
                .iter().any(|q| t.starts_with(q));
            let h_ok = ["core::option::", "std::option::", "core::result::", "std::result::", "bool",
                        "core::cmp::", "std::cmp::", "core::ops::", "std::ops::", "u64", "u32", "u8",
                        "usize", "&", "(", "T", "U"]
                .iter().any(|q| head.starts_with(q));
            return tr_ok && h_ok;
        }
    }
    // `core::bool::<impl bool>::then`, `core::num::<impl u64>::..` are left to models
    path.contains("<impl bool>") 
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    built: HashMap<DefId, Body<'tcx>>,
    types: BTreeMap<String, J>,
    adts: BTreeMap<String, J>,
    adt_seen: HashSet<DefId>,
    seen: HashSet<String>,
    work: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, String)>,
}

impl<'tcx> Dumper<'tcx> {
    fn path(&self, d: DefId) -> String {
        // closures inside generic fns print with types; def_path_str is fine
        self.tcx.def_path_str(d)
    }
    fn key(&self, i: &Instance<'tcx>) -> String {
        let t = self.tcx;
        let k = match i.def {
            InstanceKind::Item(d) => {
                format!("{}::{}", t.crate_name(d.krate), t.def_path(d).to_string_no_crate_verbose())
            }
            o => format!("{:?}", o),
        };
        // generic args: for closure-likes only parent args matter
        let args = if let InstanceKind::Item(d) = i.def {
            if t.is_closure_like(d) {
                let n = t.generics_of(t.typeck_root_def_id(d)).count();
                format!("{:?}", &i.args[..n.min(i.args.len())])
            } else {
                format!("{:?}", i.args)
            }
        } else {
            format!("{:?}", i.args)
        };
        format!("{}{}", k, args)
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        s(format!("{}:{}", f, lo.line))
    }
    fn adt(&mut self, d: DefId) -> String {
        let p = self.path(d);
        if self.adt_seen.insert(d) {
            let def = self.tcx.adt_def(d);
            let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
            let mut vs = vec![];
            for (vi, v) in def.variants().iter_enumerated() {
                let discr = if def.is_enum() {
                    def.discriminant_for_variant(self.tcx, vi).val as i128
                } else {
                    0
                };
                let fields = v.fields.iter().map(|f| s(f.name.to_string())).collect();
                let ftys = v
                    .fields
                    .iter()
                    .map(|f| {
                        let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        s(format!("{}", t))
                    })
                    .collect();
                vs.push(J::O(vec![
                    ("n", s(v.name.to_string())),
                    ("d", J::I(discr)),
                    ("f", J::A(fields)),
                    ("t", J::A(ftys)),
                ]));
            }
            self.adts.insert(
                p.clone(),
                J::O(vec![("k", s(kind)), ("v", J::A(vs)), ("local", J::B(d.is_local()))]),
            );
        }
        p
    }
    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> String {
        let name = format!("{}", t);
        if self.types.contains_key(&name) {
            return name;
        }
        self.types.insert(name.clone(), J::N);
        let j = match t.kind() {
            ty::Adt(def, args) => {
                let p = self.adt(def.did());
                let a: Vec<J> = args.types().map(|x| s(self.ty(x, env))).collect();
                J::O(vec![("k", s("adt")), ("p", s(p)), ("a", J::A(a))])
            }
            ty::Ref(_, t, m) => {
                let i = self.ty(*t, env);
                J::O(vec![("k", s("ref")), ("m", J::B(m.is_mut())), ("a", J::A(vec![s(i)]))])
            }
            ty::RawPtr(t, m) => {
                let i = self.ty(*t, env);
                J::O(vec![("k", s("ptr")), ("m", J::B(m.is_mut())), ("a", J::A(vec![s(i)]))])
            }
            ty::Tuple(ts) => {
                let a: Vec<J> = ts.iter().map(|x| s(self.ty(x, env))).collect();
                J::O(vec![("k", s("tuple")), ("a", J::A(a))])
            }
            ty::Closure(d, args) => {
                let ups: Vec<J> =
                    args.as_closure().upvar_tys().iter().map(|x| s(self.ty(x, env))).collect();
                J::O(vec![("k", s("closure")), ("p", s(self.path(*d))), ("a", J::A(ups))])
            }
            ty::Coroutine(d, args) => {
                let ups: Vec<J> =
                    args.as_coroutine().upvar_tys().iter().map(|x| s(self.ty(x, env))).collect();
                J::O(vec![("k", s("coroutine")), ("p", s(self.path(*d))), ("a", J::A(ups))])
            }
            ty::FnDef(d, _) => J::O(vec![("k", s("fndef")), ("p", s(self.path(*d)))]),
            ty::Slice(t) | ty::Array(t, _) => {
                let i = self.ty(*t, env);
                J::O(vec![("k", s("slice")), ("a", J::A(vec![s(i)]))])
            }
            ty::Bool => J::O(vec![("k", s("bool"))]),
            ty::Int(_) | ty::Uint(_) => J::O(vec![("k", s("int"))]),
            ty::Param(_) => J::O(vec![("k", s("param"))]),
            ty::Dynamic(..) => J::O(vec![("k", s("dyn"))]),
            _ => J::O(vec![("k", s("other"))]),
        };
        self.types.insert(name.clone(), j);
        name
    }
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut out = vec![];
        for (base, elem) in p.iter_projections() {
            let j = match elem {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let bty = base.ty(body, self.tcx);
                    let mut o = vec![("f", J::I(f.index() as i128))];
                    match bty.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = bty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_struct() || def.is_union() || bty.variant_index.is_some() {
                                let v = def.variant(vi);
                                o.push(("n", s(v.fields[f].name.to_string())));
                                o.push(("nf", J::I(v.fields.len() as i128)));
                            }
                            let p = self.adt(def.did());
                            o.push(("adt", s(p)));
                        }
                        ty::Tuple(ts) => {
                            o.push(("nf", J::I(ts.len() as i128)));
                        }
                        ty::Closure(d, args) => {
                            o.push(("nf", J::I(args.as_closure().upvar_tys().len() as i128)));
                            if let Some(l) = d.as_local() {
                                let names = self.tcx.closure_saved_names_of_captured_variables(l.to_def_id());
                                if let Some(nm) = names.get(f) {
                                    o.push(("n", s(nm.to_string())));
                                }
                            }
                        }
                        ty::Coroutine(d, args) => {
                            o.push(("nf", J::I(args.as_coroutine().upvar_tys().len() as i128)));
                            if let Some(l) = d.as_local() {
                                let names = self.tcx.closure_saved_names_of_captured_variables(l.to_def_id());
                                if let Some(nm) = names.get(f) {
                                    o.push(("n", s(nm.to_string())));
                                }
                            }
                        }
                        _ => {}
                    }
                    J::O(o)
                }
                ProjectionElem::Index(l) => J::O(vec![("i", J::I(l.index() as i128))]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::O(vec![
                    ("ci", J::I(offset as i128)),
                    ("min", J::I(min_length as i128)),
                    ("fe", J::B(from_end)),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::O(vec![
                    ("sub", J::I(from as i128)),
                    ("to", J::I(to as i128)),
                    ("fe", J::B(from_end)),
                ]),
                ProjectionElem::Downcast(n, v) => {
                    let name = n.map(|x| x.to_string()).unwrap_or_default();
                    J::O(vec![("v", J::I(v.index() as i128)), ("n", s(name))])
                }
                _ => s("?"),
            };
            out.push(j);
        }
        let _ = env;
        J::A(vec![J::I(p.local.index() as i128), J::A(out)])
    }
    fn fndesc(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("p", s(self.path(d))),
            ("n", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
            ("local", J::B(d.is_local())),
        ];
        let ga: Vec<J> = args.types().map(|x| s(self.ty(x, env))).collect();
        o.push(("ga", J::A(ga)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            if let Some(st) = args.types().next() {
                let n = self.ty(st, env);
                o.push(("self", s(n)));
            }
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            let n = self.ty(st, env);
            o.push(("self", s(n)));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let parent = tcx.parent(d);
            let (adt, vi) = match tcx.def_kind(parent) {
                DefKind::Variant => {
                    let e = tcx.parent(parent);
                    (e, tcx.adt_def(e).variant_index_with_id(parent).index())
                }
                _ => (parent, 0),
            };
            let p = self.adt(adt);
            o.push(("ctor", J::A(vec![s(p), J::I(vi as i128)])));
            return J::O(o);
        }
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            return J::O(o);
        }
        let args_e = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args_e) {
            let kind = match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Intrinsic(..) => "intrinsic",
                InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "onceshim",
                InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone",
                _ => "shim",
            };
            o.push(("rk", s(kind)));
            let rd = inst.def_id();
            o.push(("rp", s(self.path(rd))));
            o.push(("rlocal", J::B(rd.is_local())));
            if let Some(im) = tcx.impl_of_assoc(rd) {
                let st = tcx.type_of(im).instantiate(tcx, inst.args).skip_norm_wip();
                let n = self.ty(st, env);
                o.push(("rself", s(n)));
            }
            if let InstanceKind::Item(_) = inst.def {
                if self.queue(inst, env) {
                    o.push(("key", s(self.key(&inst))));
                }
            }
        }
        J::O(o)
    }
    fn queue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> bool {
        let d = inst.def_id();
        let ok = if d.is_local() {
            self.built.contains_key(&d)
        } else {
            std_inline_ok(&self.path(d)) && self.tcx.is_mir_available(d)
        };
        if !ok {
            return false;
        }
        let k = self.key(&inst);
        if self.seen.insert(k.clone()) {
            self.work.push_back((inst, env, k));
        }
        true
    }
    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tn = self.ty(t, env);
        let mut o = vec![("ty", s(tn))];
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.fndesc(*d, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()), env);
            o.push(("fn", f));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c {
            o.push(("named", s(self.path(u.def))));
        }
        if matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_)) {
            if let Some(b) = c.try_eval_bits(tcx, env) {
                o.push(("int", s(format!("{}", b))));
                return J::O(o);
            }
        }
        if let ty::Adt(def, _) = t.kind() {
            // unit-like / scalar enum constants
            if def.is_enum() {
                if let Some(b) = c.try_eval_bits(tcx, env) {
                    o.push(("ebits", s(format!("{}", b))));
                }
            }
        }
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                    }
                }
                return J::O(o);
            }
        }
        if t.is_unit() {
            o.push(("zst", J::B(true)));
        }
        o.push(("dbg", s(format!("{}", c))));
        J::O(o)
    }
    fn op(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p, body, env)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p, body, env)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(&c.const_, env)]),
            Operand::RuntimeChecks(k) => J::A(vec![s("rc"), s(format!("{:?}", k))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.op(o, body, env)]),
            Rvalue::Repeat(o, n) => {
                J::A(vec![s("repeat"), self.op(o, body, env), s(format!("{}", n))])
            }
            Rvalue::Ref(_, k, p) => {
                let kk = match k {
                    BorrowKind::Shared => "sh",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                };
                J::A(vec![s("ref"), s(kk), self.place(p, body, env)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), s("raw"), self.place(p, body, env)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::Cast(k, o, t) => {
                let tn = self.ty(*t, env);
                let from = o.ty(body, self.tcx);
                let fnm = self.ty(from, env);
                J::A(vec![s("cast"), s(format!("{:?}", k)), self.op(o, body, env), s(tn), s(fnm)])
            }
            Rvalue::BinaryOp(b, x) => {
                let t = x.0.ty(body, self.tcx);
                let tn = self.ty(t, env);
                J::A(vec![
                    s("bin"),
                    s(format!("{:?}", b)),
                    self.op(&x.0, body, env),
                    self.op(&x.1, body, env),
                    s(tn),
                ])
            }
            Rvalue::UnaryOp(u, x) => {
                J::A(vec![s("un"), s(format!("{:?}", u)), self.op(x, body, env)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let tn = self.ty(t, env);
                J::A(vec![s("discr"), self.place(p, body, env), s(tn)])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::A(vec![s("c"), self.place(p, body, env)])])
            }
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(_) => J::O(vec![("k", s("array"))]),
                    AggregateKind::Tuple => J::O(vec![("k", s("tuple"))]),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let p = self.adt(*d);
                        let def = self.tcx.adt_def(*d);
                        let vn = def.variant(*v);
                        J::O(vec![
                            ("k", s("adt")),
                            ("p", s(p)),
                            ("v", J::I(v.index() as i128)),
                            ("vn", s(vn.name.to_string())),
                        ])
                    }
                    AggregateKind::Closure(d, a) => {
                        let args = self.tcx.erase_and_anonymize_regions(*a);
                        let inst = Instance { def: InstanceKind::Item(*d), args };
                        self.queue(inst, env);
                        J::O(vec![("k", s("closure")), ("key", s(self.key(&inst))), ("p", s(self.path(*d)))])
                    }
                    AggregateKind::Coroutine(d, a) => {
                        let args = self.tcx.erase_and_anonymize_regions(*a);
                        let inst = Instance { def: InstanceKind::Item(*d), args };
                        self.queue(inst, env);
                        J::O(vec![("k", s("coroutine")), ("key", s(self.key(&inst))), ("p", s(self.path(*d)))])
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        J::O(vec![("k", s("coroclosure")), ("p", s(self.path(*d)))])
                    }
                    AggregateKind::RawPtr(..) => J::O(vec![("k", s("rawptr"))]),
                };
                let os: Vec<J> = ops.iter().map(|o| self.op(o, body, env)).collect();
                J::A(vec![s("agg"), kj, J::A(os)])
            }
            o => J::A(vec![s("other"), s(format!("{:?}", o))]),
        }
    }
    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let d = inst.def_id();
        let raw: Body<'tcx> = if d.is_local() {
            self.built[&d].clone()
        } else {
            tcx.instance_mir(inst.def).clone()
        };
        let raw = tcx.erase_and_anonymize_regions(raw);
        let body = inst
            .try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw.clone()))
            .unwrap_or(raw);
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.index()).or_insert(v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, dl) in body.local_decls.iter_enumerated() {
            let t = self.ty(dl.ty, env);
            let mut a = vec![s(t)];
            if let Some(n) = names.get(&l.index()) {
                a.push(s(n.clone()));
            }
            locals.push(J::A(a));
        }
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for stmt in &data.statements {
                match &stmt.kind {
                    StatementKind::Assign(b) => {
                        if let Rvalue::Ref(_, BorrowKind::Fake(_), _) = &b.1 {
                            continue;
                        }
                        let p = self.place(&b.0, &body, env);
                        let r = self.rvalue(&b.1, &body, env);
                        st.push(J::A(vec![s("="), p, r, self.span(stmt.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, &body, env);
                        st.push(J::A(vec![s("sd"), p, J::I(variant_index.index() as i128)]));
                    }
                    _ => {}
                }
            }
            let term = data.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), J::I(target.index() as i128)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body, tcx);
                    let tn = self.ty(dt, env);
                    let o = self.op(discr, &body, env);
                    let mut v = vec![];
                    for (val, bb) in targets.iter() {
                        v.push(J::A(vec![s(format!("{}", val)), J::I(bb.index() as i128)]));
                    }
                    J::A(vec![s("switch"), o, J::A(v), J::I(targets.otherwise().index() as i128), s(tn)])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place, &body, env);
                    J::A(vec![s("drop"), p, J::I(target.index() as i128)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func, &body, env);
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node, &body, env)).collect();
                    let dd = self.place(destination, &body, env);
                    let rt = destination.ty(&body, tcx).ty;
                    let rtn = self.ty(rt, env);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        dd,
                        target.map(|t| J::I(t.index() as i128)).unwrap_or(J::N),
                        s(rtn),
                    ])
                }
                TerminatorKind::TailCall { .. } => J::A(vec![s("tailcall")]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond, &body, env);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(b, ..) => format!("overflow:{:?}", b),
                        AssertKind::OverflowNeg(..) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(..) => "div0".to_string(),
                        AssertKind::RemainderByZero(..) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), s(m), J::I(target.index() as i128)])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let v = self.op(value, &body, env);
                    let p = self.place(resume_arg, &body, env);
                    J::A(vec![s("yield"), v, J::I(resume.index() as i128), p])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), J::I(real_target.index() as i128)])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), J::I(real_target.index() as i128)])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::CoroutineDrop => J::A(vec![s("codrop")]),
                o => J::A(vec![s("other"), s(format!("{:?}", o))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", t),
                ("sp", sp),
                ("cl", J::B(data.is_cleanup)),
            ]));
        }
        let kind = if tcx.is_coroutine(d) {
            "coroutine"
        } else if tcx.is_closure_like(d) {
            "closure"
        } else {
            "fn"
        };
        let mut o = vec![
            ("p", s(self.path(d))),
            ("kind", s(kind)),
            ("local", J::B(d.is_local())),
            ("exp", J::B(tcx.def_span(d).from_expansion())),
            ("argc", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
            ("span", self.span(body.span)),
        ];
        if let Some(sa) = body.spread_arg {
            o.push(("spread", J::I(sa.index() as i128)));
        }
        if let Some(l) = d.as_local() {
            let root = tcx.typeck_root_def_id(l.to_def_id());
            o.push(("root", s(self.path(root))));
            if let Some(im) = tcx.impl_of_assoc(root) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let n = self.ty(st, env);
                o.push(("self", s(n)));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let t = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(self.path(t.def_id))));
                    o.push(("traitargs", s(format!("{}", t))));
                }
            }
            if let Some(n) = tcx.opt_item_name(root) {
                o.push(("name", s(n.to_string())));
            }
            let vis = tcx.visibility(root);
            o.push(("pub", J::B(vis.is_public())));
            if tcx.is_closure_like(d) {
                let names = tcx.closure_saved_names_of_captured_variables(d);
                o.push(("upvars", J::A(names.iter().map(|x| s(x.to_string())).collect())));
            }
        }
        J::O(o)
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let target = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "overlord".into());
        if tcx.crate_name(LOCAL_CRATE).to_string() != target {
            return Compilation::Continue;
        }
        let _g = (
            rustc_middle::ty::print::with_no_trimmed_paths!({
                dump(tcx);
            }),
        );
        Compilation::Continue
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) {
    let mut built = HashMap::new();
    let mut roots = vec![];
    for l in tcx.hir_body_owners() {
        let d = l.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
            _ => continue,
        }
        let b = tcx.mir_built(l).borrow().clone();
        built.insert(d, b);
        roots.push(d);
    }
    let mut du = Dumper {
        tcx,
        built,
        types: BTreeMap::new(),
        adts: BTreeMap::new(),
        adt_seen: HashSet::new(),
        seen: HashSet::new(),
        work: VecDeque::new(),
    };
    let mut fns = BTreeMap::new();
    for d in roots {
        if tcx.is_closure_like(d) {
            continue;
        }
        let env = TypingEnv::post_analysis(tcx, d);
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let args = tcx.erase_and_anonymize_regions(args);
        let inst = Instance { def: InstanceKind::Item(d), args };
        let k = du.key(&inst);
        fns.insert(du.path(d), s(k));
        du.queue(inst, env);
    }
    let mut bodies = BTreeMap::new();
    let mut n = 0;
    while let Some((inst, env, k)) = du.work.pop_front() {
        n += 1;
        if n > 6000 {
            eprintln!("mirdump: too many instances");
            break;
        }
        let b = du.body(inst, env);
        bodies.insert(k, b);
    }
    // all local ADTs
    let out = J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("fns", J::M(fns)),
        ("types", J::M(du.types.clone())),
        ("adts", J::M(du.adts.clone())),
        ("bodies", J::M(bodies)),
    ]);
    let mut o = String::new();
    out.w(&mut o);
    let p = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    std::fs::write(p, o).unwrap();
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
