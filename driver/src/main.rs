//! rustc driver: type-checks the crate given on the command line and writes the
//! borrow-check-level MIR (`mir_promoted`: generic, before drop elaboration and before
//! any optimisation) of every body of the local crate as JSON, together with
//! the resolved callees, the types, the data types, the trait impls and the statics.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;

struct Cb {
    out: String,
    json: Option<String>,
}

struct Ctx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: Vec<DefId>,
}

macro_rules! obj { ($($k:expr => $v:expr),* $(,)?) => { J::O(vec![$(($k.to_string(), J::from($v))),*]) } }

impl<'tcx> Ctx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_forced_impl_filename_line!(self.tcx.def_path_str(d))
        );
        let _ = p;
        // stable, generic-free path: crate::a::b::{impl#n}::f
        let c = self.tcx.crate_name(d.krate);
        format!("{}{}", c, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn cst(&mut self, c: ty::Const<'tcx>) -> J {
        match c.kind() {
            ty::ConstKind::Param(p) => obj! {"param" => p.name.to_string()},
            ty::ConstKind::Value(_) => match c.try_to_scalar() {
                Some(s) => match s.try_to_scalar_int() {
                    Ok(i) => obj! {"int" => i.to_bits(i.size()).to_string()},
                    _ => obj! {"dbg" => format!("{:?}", c)},
                },
                None => obj! {"dbg" => format!("{:?}", c)},
            },
            _ => obj! {"dbg" => format!("{:?}", c)},
        }
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => {
                    let j = self.cst(c);
                    v.push(obj! {"const" => j})
                }
                _ => {}
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.tymap.get(&t) {
            return J::N(*i as i128);
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, i);
        let s = format!("{:?}", t);
        let mut j = match t.kind() {
            ty::Bool => obj! {"k"=>"bool"},
            ty::Char => obj! {"k"=>"char"},
            ty::Int(_) | ty::Uint(_) => obj! {"k"=>"int"},
            ty::Float(_) => obj! {"k"=>"float"},
            ty::Str => obj! {"k"=>"str"},
            ty::Never => obj! {"k"=>"never"},
            ty::Adt(d, a) => {
                let did = d.did();
                if !self.adts.contains(&did) {
                    self.adts.push(did);
                }
                let a = self.args(a);
                obj! {"k"=>"adt","path"=>self.path(did),"args"=>a}
            }
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = self.cst(*n);
                obj! {"k"=>"array","of"=>e,"len"=>n}
            }
            ty::Slice(e) => {
                let e = self.ty(*e);
                obj! {"k"=>"slice","of"=>e}
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                obj! {"k"=>"ptr","of"=>e,"mut"=>m.is_mut()}
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                obj! {"k"=>"ref","of"=>e,"mut"=>m.is_mut()}
            }
            ty::FnDef(d, a) => {
                let d: DefId = (*d).into();
                let a = self.args(a.skip_binder());
                obj! {"k"=>"fndef","path"=>self.path(d),"args"=>a}
            }
            ty::Closure(d, _) => {
                let d: DefId = (*d).into();
                obj! {"k"=>"closure","path"=>self.path(d)}
            }
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                obj! {"k"=>"tuple","of"=>J::A(v)}
            }
            ty::Param(p) => obj! {"k"=>"param","name"=>p.name.to_string()},
            ty::FnPtr(..) => obj! {"k"=>"fnptr"},
            ty::Dynamic(p, _) => {
                let pr = p.principal_def_id().map(|d| self.path(d));
                obj! {"k"=>"dyn","trait"=>pr.map(J::S).unwrap_or(J::Null)}
            }
            ty::Alias(..) => {
                // projection <Self as Trait>::X
                alias_json(self, t)
            }
            _ => obj! {"k"=>"other"},
        };
        if let J::O(v) = &mut j {
            v.push(("s".into(), J::S(s)));
        }
        self.types[i] = j;
        J::N(i as i128)
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        J::S(format!("{}:{}", loc.file.name.prefer_remapped_unconditionally(), loc.line))
    }
    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, a: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let ja = self.args(a);
        let mut o = vec![
            ("path".to_string(), J::S(self.path(d))),
            ("name".to_string(), J::S(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())),
            ("args".to_string(), ja),
            ("local".to_string(), J::B(d.is_local())),
        ];
        let sig = tcx.fn_sig(d).skip_binder().skip_binder();
        o.push(("unsafe".into(), J::B(!sig.safety().is_safe())));
        o.push(("never".into(), J::B(sig.output().is_never())));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait".into(), J::S(self.path(tr))));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            o.push(("impl_self".into(), st));
        }
        let era = tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, era) {
            let rd = inst.def_id();
            if rd != d || matches!(inst.def, ty::InstanceKind::Item(_)) {
                let ra = self.args(inst.args);
                let kind = format!("{:?}", inst.def);
                let kind = kind.split('(').next().unwrap_or("").to_string();
                o.push(("res".into(), obj! {"path"=>self.path(rd),"args"=>ra,"local"=>rd.is_local(),"kind"=>kind}));
            } else {
                o.push(("virt".into(), J::S(format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string())));
            }
        }
        J::O(o)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::S("*".into()),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    obj! {"f"=>f.index(),"ty"=>t}
                }
                ProjectionElem::Index(l) => obj! {"ix"=>l.index()},
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    obj! {"ci"=>offset as usize,"min"=>min_length as usize,"fe"=>from_end}
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    obj! {"sub"=>from as usize,"to"=>to as usize,"fe"=>from_end}
                }
                ProjectionElem::Downcast(_, vi) => obj! {"dc"=>vi.index()},
                _ => J::S("?".into()),
            });
        }
        let t = p.ty(&body.local_decls, self.tcx).ty;
        let t = self.ty(t);
        // raw pointer dereference anywhere in the place?
        let mut raw = false;
        for (base, e) in p.iter_projections() {
            if matches!(e, ProjectionElem::Deref)
                && base.ty(&body.local_decls, self.tcx).ty.is_raw_ptr()
            {
                raw = true;
            }
        }
        let mut o = vec![
            ("l".to_string(), J::N(p.local.index() as i128)),
            ("p".to_string(), J::A(v)),
            ("t".to_string(), t),
        ];
        if raw {
            o.push(("raw".into(), J::B(true)));
        }
        J::O(o)
    }
    fn constant(&mut self, env: TypingEnv<'tcx>, c: &mir::Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let jt = self.ty(t);
        if let ty::FnDef(d, a) = t.kind() {
            let d: DefId = (*d).into();
            let f = self.callee(env, d, a.skip_binder());
            return obj! {"c"=>"fn","t"=>jt,"f"=>f};
        }
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return obj! {"c"=>"promoted","t"=>jt,"i"=>p.index(),"of"=>self.path(u.def)};
            }
        }
        if let mir::Const::Ty(_, k) = c {
            if let ty::ConstKind::Param(p) = k.kind() {
                return obj! {"c"=>"param","t"=>jt,"name"=>p.name.to_string()};
            }
        }
        if matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char) {
            if let Some(b) = c.try_eval_bits(tcx, env) {
                let signed = matches!(t.kind(), ty::Int(_));
                let s = if signed {
                    let size = tcx.layout_of(env.as_query_input(t)).unwrap().size;
                    size.sign_extend(b).to_string()
                } else {
                    b.to_string()
                };
                return obj! {"c"=>"int","t"=>jt,"v"=>s};
            }
        }
        if let mir::Const::Unevaluated(u, _) = c {
            let a = self.args(u.args);
            return obj! {"c"=>"uneval","t"=>jt,"path"=>self.path(u.def),"args"=>a};
        }
        if let mir::Const::Val(v, _) = c {
            if let Some(s) = v.try_to_scalar() {
                if let mir::interpret::Scalar::Ptr(p, _) = s {
                    let id = p.provenance.alloc_id();
                    if let mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(id) {
                        let m = tcx.is_mutable_static(d);
                        return obj! {"c"=>"static","t"=>jt,"path"=>self.path(d),"mut"=>m};
                    }
                }
            }
            if let ty::Ref(_, i, _) = t.kind() {
                if i.is_str() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return obj! {"c"=>"str","t"=>jt,"v"=>String::from_utf8_lossy(b).to_string()};
                    }
                }
            }
            if matches!(v, mir::ConstValue::ZeroSized) {
                return obj! {"c"=>"zst","t"=>jt};
            }
        }
        obj! {"c"=>"other","t"=>jt,"s"=>format!("{:?}", c)}
    }
    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => obj! {"copy"=>self.place(body, p)},
            Operand::Move(p) => obj! {"move"=>self.place(body, p)},
            Operand::Constant(c) => self.constant(env, &c.const_),
            _ => obj! {"c"=>"rt","s"=>format!("{:?}", o)},
        }
    }
    fn rvalue(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => obj! {"k"=>"use","o"=>self.operand(b, env, o)},
            Rvalue::Repeat(o, n) => {
                let n = self.cst(*n);
                obj! {"k"=>"repeat","o"=>self.operand(b, env, o),"n"=>n}
            }
            Rvalue::Ref(_, k, p) => {
                obj! {"k"=>"ref","mut"=>matches!(k, BorrowKind::Mut{..}),"fake"=>matches!(k, BorrowKind::Fake(_)),"place"=>self.place(b, p)}
            }
            Rvalue::RawPtr(_, p) => obj! {"k"=>"rawptr","place"=>self.place(b, p)},
            Rvalue::Cast(k, o, t) => {
                let t2 = self.ty(*t);
                obj! {"k"=>"cast","kind"=>format!("{:?}", k),"o"=>self.operand(b, env, o),"t"=>t2}
            }
            Rvalue::BinaryOp(op, x) => {
                obj! {"k"=>"bin","op"=>format!("{:?}", op),"a"=>self.operand(b, env, &x.0),"b"=>self.operand(b, env, &x.1)}
            }
            Rvalue::UnaryOp(op, x) => {
                obj! {"k"=>"un","op"=>format!("{:?}", op),"a"=>self.operand(b, env, x)}
            }
            Rvalue::Discriminant(p) => obj! {"k"=>"discr","place"=>self.place(b, p)},
            Rvalue::CopyForDeref(p) => obj! {"k"=>"use","o"=>obj!{"copy"=>self.place(b, p)}},
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<J> = fs.iter().map(|o| self.operand(b, env, o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => obj! {"a"=>"array"},
                    AggregateKind::Tuple => obj! {"a"=>"tuple"},
                    AggregateKind::Adt(d, v, _, _, _) => {
                        obj! {"a"=>"adt","path"=>self.path(*d),"v"=>v.index()}
                    }
                    AggregateKind::Closure(d, _) => obj! {"a"=>"closure","path"=>self.path(*d)},
                    _ => obj! {"a"=>"other"},
                };
                obj! {"k"=>"agg","kind"=>kk,"ops"=>J::A(f)}
            }
            Rvalue::ThreadLocalRef(d) => obj! {"k"=>"tls","path"=>self.path(*d)},
            _ => obj! {"k"=>"other","s"=>format!("{:?}", r)},
        }
    }
    fn body(&mut self, owner: DefId, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::non_body_analysis(tcx, owner);
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.index(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (i, d) in b.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let n = names.get(&i.index()).cloned().unwrap_or_default();
            locals.push(obj! {"t"=>t,"n"=>n});
        }
        let mut blocks = vec![];
        for (_bb, d) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &d.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let pl = self.place(b, &x.0);
                        let rv = self.rvalue(b, env, &x.1);
                        st.push(obj! {"s"=>"=","d"=>pl,"r"=>rv,"sp"=>sp});
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(b, place);
                        st.push(obj! {"s"=>"sd","d"=>pl,"v"=>variant_index.index(),"sp"=>sp});
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(obj! {"s"=>"intrinsic","x"=>format!("{:?}", i),"sp"=>sp});
                    }
                    _ => {}
                }
            }
            let t = d.terminator();
            let au = t.source_info.span.allows_unsafe();
            let sp = self.span(t.source_info.span);
            let mut term = match &t.kind {
                TerminatorKind::Goto { target, .. } => obj! {"k"=>"goto","t"=>target.index()},
                TerminatorKind::FalseEdge { real_target, .. } => obj! {"k"=>"goto","t"=>real_target.index()},
                TerminatorKind::FalseUnwind { real_target, .. } => obj! {"k"=>"goto","t"=>real_target.index()},
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(b, place);
                    obj! {"k"=>"drop","t"=>target.index(),"place"=>p}
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(b, env, discr);
                    let dt = discr.ty(&b.local_decls, tcx);
                    let signed = matches!(dt.kind(), ty::Int(_));
                    let size = tcx.layout_of(env.as_query_input(dt)).map(|l| l.size);
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(v, t)| {
                            let vs = match (signed, &size) {
                                (true, Ok(s)) => s.sign_extend(v).to_string(),
                                _ => v.to_string(),
                            };
                            J::A(vec![J::S(vs), J::N(t.index() as i128)])
                        })
                        .collect();
                    obj! {"k"=>"switch","o"=>o,"t"=>J::A(v),"else"=>targets.otherwise().index()}
                }
                TerminatorKind::Return => obj! {"k"=>"return"},
                TerminatorKind::Unreachable => obj! {"k"=>"unreachable"},
                TerminatorKind::UnwindResume => obj! {"k"=>"resume"},
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(b, env, cond);
                    let (kind, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(b, env, len), self.operand(b, env, index)])
                        }
                        AssertKind::Overflow(op, x, y) => (
                            format!("overflow:{:?}", op),
                            vec![self.operand(b, env, x), self.operand(b, env, y)],
                        ),
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.operand(b, env, x)]),
                        AssertKind::DivisionByZero(x) => ("div0".into(), vec![self.operand(b, env, x)]),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), vec![self.operand(b, env, x)]),
                        _ => ("other".into(), vec![]),
                    };
                    obj! {"k"=>"assert","c"=>c,"e"=>*expected,"msg"=>kind,"ops"=>J::A(ops),"t"=>target.index()}
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(b, env, func);
                    let a: Vec<J> = args.iter().map(|x| self.operand(b, env, &x.node)).collect();
                    let dp = self.place(b, destination);
                    obj! {"k"=>"call","f"=>f,"a"=>J::A(a),"d"=>dp,"t"=>target.map(|t| J::N(t.index() as i128)).unwrap_or(J::Null)}
                }
                TerminatorKind::InlineAsm { .. } => obj! {"k"=>"asm"},
                _ => obj! {"k"=>"other","s"=>format!("{:?}", t.kind)},
            };
            if let J::O(v) = &mut term {
                v.push(("sp".into(), sp));
                if au {
                    v.push(("au".into(), J::B(true)));
                }
            }
            blocks.push(obj! {"s"=>J::A(st),"t"=>term,"cleanup"=>d.is_cleanup});
        }
        obj! {"args"=>b.arg_count,"locals"=>J::A(locals),"blocks"=>J::A(blocks)}
    }
}

fn alias_json<'tcx>(cx: &mut Ctx<'tcx>, t: Ty<'tcx>) -> J {
    // projection <Self as Trait>::Name : record def path and args
    if let ty::Alias(_, a) = t.kind() {
        let d: Option<DefId> = match a.kind {
            ty::AliasTyKind::Projection { def_id } => Some(def_id.into()),
            _ => None,
        };
        let args = cx.args(a.args);
        return obj! {"k"=>"alias","path"=>d.map(|d| J::S(cx.path(d))).unwrap_or(J::Null),"args"=>args};
    }
    obj! {"k"=>"other"}
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut cx = Ctx { tcx, types: vec![], tymap: HashMap::new(), adts: vec![] };
    let mut bodies: Vec<(LocalDefId, Body<'tcx>, Vec<Body<'tcx>>)> = vec![];
    for &k in tcx.mir_keys(()).iter() {
        match tcx.def_kind(k) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {}
            _ => continue,
        }
        let (b, p) = tcx.mir_promoted(k);
        let b = b.borrow().clone();
        let p: Vec<Body<'tcx>> = p.borrow().iter().cloned().collect();
        bodies.push((k, b, p));
    }
    let mut fns = vec![];
    let ev = tcx.effective_visibilities(());
    for (k, b, prom) in &bodies {
        let d = k.to_def_id();
        let kind = tcx.def_kind(d);
        let owner = tcx.typeck_root_def_id(d);
        let jb = cx.body(owner, b);
        let pr: Vec<J> = prom.iter().map(|x| cx.body(owner, x)).collect();
        let generics = tcx.generics_of(owner);
        let mut gp = vec![];
        for i in 0..generics.count() {
            let p = generics.param_at(i, tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                gp.push(J::S(p.name.to_string()));
            }
        }
        let mut o = vec![
            ("path".to_string(), J::S(cx.path(d))),
            ("name".to_string(), J::S(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())),
            ("kind".to_string(), J::S(format!("{:?}", kind))),
            ("exported".to_string(), J::B(ev.is_exported(*k))),
            ("generics".to_string(), J::A(gp)),
            ("span".to_string(), cx.span(tcx.def_span(d))),
            ("body".to_string(), jb),
            ("promoted".to_string(), J::A(pr)),
        ];
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder().skip_binder();
            o.push(("unsafe".into(), J::B(!sig.safety().is_safe())));
            let ins: Vec<J> = sig.inputs().iter().map(|t| cx.ty(*t)).collect();
            o.push(("inputs".into(), J::A(ins)));
            let out = cx.ty(sig.output());
            o.push(("output".into(), out));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = cx.ty(st);
            o.push(("impl_self".into(), st));
            o.push(("impl".into(), J::S(cx.path(im))));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("impl_trait".into(), J::S(cx.path(tr.def_id))));
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("in_trait".into(), J::S(cx.path(tr))));
        }
        let mut bounds = vec![];
        let penv = tcx.param_env(owner);
        for cl in penv.caller_bounds() {
            if let Some(tp) = cl.as_trait_clause() {
                let tp = tp.skip_binder();
                let st = cx.ty(tp.self_ty());
                bounds.push(J::A(vec![st, J::S(cx.path(tp.def_id()))]));
            }
        }
        o.push(("bounds".into(), J::A(bounds)));
        fns.push(J::O(o));
    }
    // impls
    let mut impls = vec![];
    for (_tr, is) in tcx.all_local_trait_impls(()).iter() {
        for im in is {
            let im = im.to_def_id();
            let Some(tr) = tcx.impl_opt_trait_ref(im) else { continue };
            let tr = tr.instantiate_identity().skip_norm_wip();
            let args = cx.args(tr.args);
            let mut items = vec![];
            for it in tcx.associated_items(im).in_definition_order() {
                let mut o = vec![
                    ("name".to_string(), J::S(it.opt_name().map(|s| s.to_string()).unwrap_or_default())),
                    ("path".to_string(), J::S(cx.path(it.def_id))),
                    ("kind".to_string(), J::S(format!("{:?}", tcx.def_kind(it.def_id)))),
                ];
                if matches!(tcx.def_kind(it.def_id), DefKind::AssocTy) {
                    let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                    let t = cx.ty(t);
                    o.push(("ty".into(), t));
                }
                if matches!(tcx.def_kind(it.def_id), DefKind::AssocConst { .. }) {
                    if let Ok(v) = tcx.const_eval_poly(it.def_id) {
                        if let Some(s) = v.try_to_scalar_int() {
                            o.push(("v".into(), J::S(s.to_bits(s.size()).to_string())));
                        }
                    }
                }
                items.push(J::O(o));
            }
            let ig = tcx.generics_of(im);
            let mut igp = vec![];
            for i in 0..ig.count() {
                let p = ig.param_at(i, tcx);
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                    igp.push(J::S(p.name.to_string()));
                }
            }
            let mut ib = vec![];
            for cl in tcx.param_env(im).caller_bounds() {
                if let Some(tp) = cl.as_trait_clause() {
                    let tp = tp.skip_binder();
                    let st = cx.ty(tp.self_ty());
                    ib.push(J::A(vec![st, J::S(cx.path(tp.def_id()))]));
                }
            }
            impls.push(obj! {"generics"=>J::A(igp),"bounds"=>J::A(ib),"trait"=>cx.path(tr.def_id),"args"=>args,"path"=>cx.path(im),"items"=>J::A(items),"span"=>cx.span(tcx.def_span(im)),"unsafe"=>format!("{:?}", tcx.impl_trait_header(im).safety)});
        }
    }
    // statics
    let mut statics = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if let DefKind::Static { .. } = tcx.def_kind(d) {
            let t0 = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let t = cx.ty(t0);
            let frz = t0.is_freeze(tcx, TypingEnv::fully_monomorphized());
            let tl = tcx.is_thread_local_static(d);
            statics.push(obj! {"path"=>cx.path(d),"t"=>t,"mut"=>tcx.is_mutable_static(d),"freeze"=>frz,"tls"=>tl,"span"=>cx.span(tcx.def_span(d))});
        }
    }
    // adts (grow while iterating)
    let mut adts = vec![];
    // make sure that all local adts are there
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) && !cx.adts.contains(&d) {
            cx.adts.push(d);
        }
    }
    let mut i = 0;
    while i < cx.adts.len() {
        let d = cx.adts[i];
        i += 1;
        let def = tcx.adt_def(d);
        let expand = d.is_local()
            || matches!(cx.path(d).as_str(), "core::option::Option" | "core::result::Result" | "core::cmp::Reverse" | "core::ops::range::Range" | "core::ops::range::RangeFrom" | "core::ops::range::RangeTo"| "core::ops::range::RangeToInclusive" | "core::cmp::Ordering" | "core::ops::control_flow::ControlFlow");
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).to_string() } else { "0".into() };
            let mut fs = vec![];
            if expand {
                for f in &v.fields {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let t = cx.ty(t);
                    fs.push(obj! {"n"=>f.name.to_string(),"t"=>t,"pub"=>f.vis.is_public()});
                }
            }
            vs.push(obj! {"n"=>v.name.to_string(),"discr"=>discr,"fields"=>J::A(fs)});
        }
        let g = tcx.generics_of(d);
        let mut gp = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                gp.push(J::S(p.name.to_string()));
            }
        }
        adts.push(obj! {"path"=>cx.path(d),"local"=>d.is_local(),"enum"=>def.is_enum(),"generics"=>J::A(gp),"variants"=>J::A(vs)});
    }
    // every item path, with visibility (public surface)
    let mut items = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        items.push(obj! {"path"=>cx.path(d),"kind"=>format!("{:?}", tcx.def_kind(d)),"exported"=>ev.is_exported(id)});
    }
    let types = std::mem::take(&mut cx.types);
    obj! {"crate"=>tcx.crate_name(LOCAL_CRATE).to_string(),"fns"=>J::A(fns),"impls"=>J::A(impls),"statics"=>J::A(statics),"adts"=>J::A(adts),"items"=>J::A(items),"types"=>J::A(types)}
        .to_string()
}

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        self.json = Some(dump(tcx));
        Compilation::Continue
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, _tcx: TyCtxt<'tcx>) -> Compilation {
        std::fs::write(&self.out, self.json.take().unwrap()).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    args[0] = "rustc".into();
    let mut cb = Cb { out, json: None };
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
