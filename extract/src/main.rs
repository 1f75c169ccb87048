#![feature(rustc_private)]
//! Dumps the resolved, drop-elaborated MIR of every function of a workspace
//! crate as JSON. It only reads what the compiler computed; it runs nothing.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::{J, s};

use rustc_driver::Compilation;
use rustc_hir::def::{CtorOf, DefKind};
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{
	self, AggregateKind, Body, Operand, Place, PlaceTy, ProjectionElem, Rvalue, StatementKind,
	TerminatorKind, VarDebugInfoContents,
};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};

struct Cb {
	out: String,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
	with_no_trimmed_paths!({
		let p = tcx.def_path_str(d);
		if d.is_local() { format!("{}::{}", tcx.crate_name(LOCAL_CRATE), p) } else { p }
	})
}

/// Unambiguous definition path (crate + disambiguated path).
fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
	format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

fn tystr(t: Ty<'_>) -> String {
	with_no_trimmed_paths!(t.to_string())
}

struct Cx<'tcx, 'a> {
	tcx: TyCtxt<'tcx>,
	body: &'a Body<'tcx>,
	env: TypingEnv<'tcx>,
}

impl<'tcx, 'a> Cx<'tcx, 'a> {
	fn upvar_name(&self, closure: DefId, idx: usize) -> String {
		if let Some(l) = closure.as_local() {
			let caps = self.tcx.closure_captures(l);
			if let Some(c) = caps.get(idx) {
				return c.to_symbol().to_string();
			}
		}
		format!("{idx}")
	}

	fn place(&self, p: &Place<'tcx>) -> J {
		let mut proj = vec![];
		let mut pty = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
		for e in p.projection.iter() {
			let j = match e {
				ProjectionElem::Deref => s("*"),
				ProjectionElem::Field(f, _) => {
					let name = match pty.ty.kind() {
						ty::Adt(def, _) => {
							let v = pty.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
							if def.is_box() {
								format!("{}", f.index())
							} else {
								def.variant(v).fields[f].name.to_string()
							}
						}
						ty::Closure(d, _) => self.upvar_name(*d, f.index()),
						_ => format!("{}", f.index()),
					};
					s(format!(".{name}"))
				}
				ProjectionElem::Index(l) => s(format!("[_{}]", l.index())),
				ProjectionElem::ConstantIndex { offset, from_end, .. } => {
					s(format!("[{}{}]", if from_end { "-" } else { "" }, offset))
				}
				ProjectionElem::Subslice { .. } => s("[..]"),
				ProjectionElem::Downcast(n, v) => s(format!(
					"@{}",
					n.map(|n| n.to_string()).unwrap_or_else(|| v.index().to_string())
				)),
				_ => s("?"),
			};
			proj.push(j);
			pty = pty.projection_ty(self.tcx, e);
		}
		J::A(vec![J::N(p.local.index() as i64), J::A(proj)])
	}

	fn fndef(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
		let tcx = self.tcx;
		let mut o = vec![("path", s(path(tcx, d))), ("key", s(key(tcx, d)))];
		if let Some(ai) = tcx.opt_associated_item(d) {
			o.push(("name", s(tcx.item_name(d).to_string())));
			let _ = ai;
			if let Some(t) = tcx.trait_of_assoc(d) {
				o.push(("trait", s(path(tcx, t))));
				if !args.is_empty() {
					if let Some(t0) = args[0].as_type() {
						o.push(("self_ty", s(tystr(t0))));
					}
				}
			} else if let Some(im) = tcx.impl_of_assoc(d) {
				let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
				o.push(("self_ty", s(tystr(st))));
				if let Some(tr) = tcx.impl_opt_trait_ref(im) {
					o.push(("impl_trait", s(path(tcx, tr.skip_binder().def_id))));
				}
			}
		} else {
			o.push(("name", s(tcx.item_name(d).to_string())));
		}
		let ga: Vec<J> =
			args.iter().filter_map(|a| a.as_type()).map(|t| self.ty_j(t)).collect();
		o.push(("targs", J::A(ga)));
		// resolve trait calls to impls whenever the compiler can
		if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
			if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
				let rd = inst.def_id();
				if rd != d {
					o.push(("res", s(path(tcx, rd))));
					o.push(("res_key", s(key(tcx, rd))));
				}
				if let ty::InstanceKind::Virtual(..) = inst.def {
					o.push(("virtual", J::B(true)));
				}
			}
		}
		J::O(o)
	}

	fn ty_j(&self, t: Ty<'tcx>) -> J {
		let mut o = vec![("s", s(tystr(t)))];
		let mut cur = t;
		let mut refs = 0;
		while let ty::Ref(_, inner, _) = cur.kind() {
			cur = *inner;
			refs += 1;
		}
		if refs > 0 {
			o.push(("refs", J::N(refs)));
		}
		match cur.kind() {
			ty::Adt(def, args) => {
				o.push(("adt", s(path(self.tcx, def.did()))));
				let a: Vec<J> = args.iter().filter_map(|a| a.as_type()).map(|t| s(tystr(t))).collect();
				o.push(("args", J::A(a)));
			}
			ty::Closure(d, _) => {
				o.push(("closure", s(key(self.tcx, *d))));
			}
			ty::Param(p) => o.push(("param", s(p.name.to_string()))),
			ty::Alias(..) => o.push(("alias", J::B(true))),
			ty::Dynamic(..) => o.push(("dyn", J::B(true))),
			ty::FnDef(d, args) => o.push(("fndef", self.fndef(*d, args.no_bound_vars().unwrap_or_default()))),
			_ => {}
		}
		J::O(o)
	}

	fn operand(&self, op: &Operand<'tcx>) -> J {
		match op {
			Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(p))]),
			Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(p))]),
			Operand::Constant(c) => {
				let t = c.const_.ty();
				if let ty::FnDef(d, args) = t.kind() {
					let mut o =
						vec![("k", s("fn")), ("f", self.fndef(*d, args.no_bound_vars().unwrap_or_default()))];
					if let DefKind::Ctor(of, _) = self.tcx.def_kind(*d) {
						let vd = self.tcx.parent(*d);
						let adt = if matches!(of, CtorOf::Variant) { self.tcx.parent(vd) } else { vd };
						o.push(("ctor", s(path(self.tcx, adt))));
						o.push(("variant", s(self.tcx.item_name(vd).to_string())));
					} else {
						let sig = t.fn_sig(self.tcx).skip_binder();
						o.push(("ins", J::A(sig.inputs().iter().map(|i| self.ty_j(*i)).collect())));
					}
					J::O(o)
				} else {
					let mut o = vec![("k", s("const")), ("ty", s(tystr(t)))];
					if let Some(v) = c.const_.try_eval_scalar_int(self.tcx, self.env) {
						let n = v.to_bits_unchecked();
						if n <= i64::MAX as u128 {
							o.push(("v", J::N(n as i64)));
						} else {
							o.push(("v", s(n.to_string())));
						}
					} else {
						o.push(("t", s(with_no_trimmed_paths!(c.const_.to_string()))));
						if let Some(b) = self.const_body(&c.const_) {
							o.push(("pb", b));
						}
					}
					J::O(o)
				}
			}
			_ => J::O(vec![("k", s("rt"))]),
		}
	}

	/// What a promoted value or a constant of this crate is made of, if that is straight-line code
	fn with_body<'b>(&self, body: &'b Body<'tcx>) -> Cx<'tcx, 'b> {
		Cx { tcx: self.tcx, body, env: self.env }
	}

	fn const_body(&self, c: &mir::Const<'tcx>) -> Option<J> {
		let mir::Const::Unevaluated(u, _) = c else { return None };
		let body = match u.promoted {
			Some(p) => self.tcx.promoted_mir(u.def).get(p)?,
			None => {
				if !u.def.is_local()
					|| !matches!(self.tcx.def_kind(u.def), DefKind::Const { .. } | DefKind::AssocConst { .. })
					|| self.tcx.trait_of_assoc(u.def).is_some()
				{
					return None;
				}
				self.tcx.mir_for_ctfe(u.def)
			}
		};
		if body.basic_blocks.len() != 1 {
			return None;
		}
		let inner = self.with_body(body);
		let mut st = vec![];
		for x in &body.basic_blocks.iter().next()?.statements {
			if let StatementKind::Assign(a) = &x.kind {
				st.push(J::A(vec![inner.place(&a.0), inner.rvalue(&a.1)]));
			}
		}
		Some(J::A(st))
	}

	fn rvalue(&self, r: &Rvalue<'tcx>) -> J {
		match r {
			Rvalue::Use(op, ..) => J::O(vec![("k", s("use")), ("o", self.operand(op))]),
			Rvalue::Repeat(op, _) => J::O(vec![("k", s("repeat")), ("o", self.operand(op))]),
			Rvalue::Ref(_, bk, p) => J::O(vec![
				("k", s("ref")),
				("m", J::B(matches!(bk, mir::BorrowKind::Mut { .. }))),
				("p", self.place(p)),
			]),
			Rvalue::RawPtr(_, p) => {
				J::O(vec![("k", s("ref")), ("m", J::B(true)), ("p", self.place(p))])
			}
			Rvalue::Cast(ck, op, t) => J::O(vec![
				("k", s("cast")),
				("c", s(format!("{ck:?}"))),
				("o", self.operand(op)),
				("ty", s(tystr(*t))),
			]),
			Rvalue::BinaryOp(b, ops) => J::O(vec![
				("k", s("bin")),
				("op", s(format!("{b:?}"))),
				("a", self.operand(&ops.0)),
				("b", self.operand(&ops.1)),
			]),
			Rvalue::UnaryOp(u, op) => {
				J::O(vec![("k", s("un")), ("op", s(format!("{u:?}"))), ("o", self.operand(op))])
			}
			Rvalue::Discriminant(p) => J::O(vec![("k", s("discr")), ("p", self.place(p)), ("vars", self.variants(p))]),
			Rvalue::Aggregate(ak, ops) => {
				let mut o = vec![("k", s("agg"))];
				match &**ak {
					AggregateKind::Tuple => o.push(("a", s("tuple"))),
					AggregateKind::Array(_) => o.push(("a", s("array"))),
					AggregateKind::Adt(d, v, ..) => {
						let def = self.tcx.adt_def(*d);
						let var = def.variant(*v);
						o.push(("a", s("adt")));
						o.push(("adt", s(path(self.tcx, *d))));
						o.push(("variant", s(var.name.to_string())));
						o.push((
							"fields",
							J::A(var.fields.iter().map(|f| s(f.name.to_string())).collect()),
						));
					}
					AggregateKind::Closure(d, _) => {
						o.push(("a", s("closure")));
						o.push(("closure", s(key(self.tcx, *d))));
						let n = ops.len();
						o.push((
							"fields",
							J::A((0..n).map(|i| s(self.upvar_name(*d, i))).collect()),
						));
					}
					_ => o.push(("a", s("other"))),
				}
				o.push(("ops", J::A(ops.iter().map(|x| self.operand(x)).collect())));
				J::O(o)
			}
			Rvalue::CopyForDeref(p) => J::O(vec![
				("k", s("use")),
				("o", J::O(vec![("k", s("copy")), ("p", self.place(p))])),
			]),
			Rvalue::Reborrow(_, _, p) => {
				J::O(vec![("k", s("ref")), ("m", J::B(true)), ("p", self.place(p))])
			}
			_ => J::O(vec![("k", s("other"))]),
		}
	}

	fn variants(&self, p: &Place<'tcx>) -> J {
		let t = p.ty(&self.body.local_decls, self.tcx).ty;
		if let ty::Adt(def, _) = t.kind() {
			if def.is_enum() {
				let mut v = vec![];
				for (idx, d) in def.discriminants(self.tcx) {
					v.push(J::A(vec![
						s(d.val.to_string()),
						s(def.variant(idx).name.to_string()),
					]));
				}
				return J::A(v);
			}
		}
		J::Null
	}

	fn line(&self, sp: rustc_span::Span) -> J {
		// location in the outermost (non-macro) source
		let sp = sp.source_callsite();
		let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
		J::N(l.line as i64)
	}

	fn dump(&self) -> J {
		let b = self.body;
		let mut locals = vec![];
		for l in b.local_decls.iter() {
			locals.push(self.ty_j(l.ty));
		}
		let mut names = vec![];
		for v in &b.var_debug_info {
			if let VarDebugInfoContents::Place(p) = v.value {
				names.push(J::A(vec![s(v.name.to_string()), self.place(&p)]));
			}
		}
		let mut blocks = vec![];
		for bb in b.basic_blocks.iter() {
			let mut st = vec![];
			for x in &bb.statements {
				match &x.kind {
					StatementKind::Assign(a) => st.push(J::A(vec![
						s("="),
						self.place(&a.0),
						self.rvalue(&a.1),
						self.line(x.source_info.span),
					])),
					StatementKind::SetDiscriminant { place, variant_index } => {
						st.push(J::A(vec![
							s("setd"),
							self.place(place),
							J::N(variant_index.index() as i64),
						]))
					}
					StatementKind::StorageDead(l) => {
						st.push(J::A(vec![s("dead"), J::N(l.index() as i64)]))
					}
					_ => {}
				}
			}
			let t = bb.terminator();
			let tj = match &t.kind {
				TerminatorKind::Goto { target, .. } => {
					J::O(vec![("k", s("goto")), ("t", J::N(target.index() as i64))])
				}
				TerminatorKind::SwitchInt { discr, targets } => {
					let mut ts = vec![];
					for (v, tb) in targets.iter() {
						ts.push(J::A(vec![s(v.to_string()), J::N(tb.index() as i64)]));
					}
					ts.push(J::A(vec![J::Null, J::N(targets.otherwise().index() as i64)]));
					J::O(vec![
						("k", s("switch")),
						("o", self.operand(discr)),
						("ty", s(tystr(discr.ty(&b.local_decls, self.tcx)))),
						("ts", J::A(ts)),
					])
				}
				TerminatorKind::Return => J::O(vec![("k", s("ret"))]),
				TerminatorKind::Unreachable => J::O(vec![("k", s("unreach"))]),
				TerminatorKind::Drop { place, target, .. } => {
					let pt = place.ty(&b.local_decls, self.tcx).ty;
					J::O(vec![
						("k", s("drop")),
						("p", self.place(place)),
						("ty", self.ty_j(pt)),
						("nd", J::B(pt.needs_drop(self.tcx, self.env))),
						("t", J::N(target.index() as i64)),
						("l", self.line(t.source_info.span)),
					])
				}
				TerminatorKind::Call { func, args, destination, target, .. } => {
					let mut o = vec![
						("k", s("call")),
						("f", self.operand(func)),
						("args", J::A(args.iter().map(|a| self.operand(&a.node)).collect())),
						(
							"aty",
							J::A(
								args.iter()
									.map(|a| self.ty_j(a.node.ty(&b.local_decls, self.tcx)))
									.collect(),
							),
						),
						("d", self.place(destination)),
						("l", self.line(t.source_info.span)),
					];
					if let Some(t) = target {
						o.push(("t", J::N(t.index() as i64)));
					}
					J::O(o)
				}
				TerminatorKind::Assert { cond, expected, target, msg, .. } => J::O(vec![
					("k", s("assert")),
					("o", self.operand(cond)),
					("e", J::B(*expected)),
					("msg", s(format!("{msg:?}").chars().take(60).collect::<String>())),
					("t", J::N(target.index() as i64)),
				]),
				TerminatorKind::FalseEdge { real_target, .. } => {
					J::O(vec![("k", s("goto")), ("t", J::N(real_target.index() as i64))])
				}
				TerminatorKind::FalseUnwind { real_target, .. } => {
					J::O(vec![("k", s("goto")), ("t", J::N(real_target.index() as i64))])
				}
				TerminatorKind::UnwindResume => J::O(vec![("k", s("resume"))]),
				_ => J::O(vec![("k", s("other"))]),
			};
			let mut o = vec![("s", J::A(st)), ("t", tj)];
			if bb.is_cleanup {
				o.push(("cleanup", J::B(true)));
			}
			blocks.push(J::O(o));
		}
		J::O(vec![
			("argc", J::N(b.arg_count as i64)),
			("locals", J::A(locals)),
			("names", J::A(names)),
			("blocks", J::A(blocks)),
		])
	}
}

impl rustc_driver::Callbacks for Cb {
	fn after_analysis<'tcx>(
		&mut self,
		_c: &rustc_interface::interface::Compiler,
		tcx: TyCtxt<'tcx>,
	) -> Compilation {
		if tcx.dcx().has_errors().is_some() {
			return Compilation::Continue;
		}
		let cname = tcx.crate_name(LOCAL_CRATE).to_string();
		let mut fns = vec![];
		for &did in tcx.mir_keys(()) {
			let d = did.to_def_id();
			let kind = tcx.def_kind(d);
			if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
				continue;
			}
			let body = tcx.optimized_mir(d);
			let env = TypingEnv::post_analysis(tcx, d);
			let cx = Cx { tcx, body, env };
			let sp = tcx.def_span(d);
			let loc = tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo());
			let file = loc.file.name.prefer_local_unconditionally().to_string();
			let mut o = vec![
				("path", s(path(tcx, d))),
				("key", s(key(tcx, d))),
				("kind", s(match kind {
					DefKind::Closure => "closure",
					DefKind::AssocFn => "assoc",
					_ => "fn",
				})),
				("file", s(file)),
				("line", J::N(loc.line as i64)),
				("macro", J::B(sp.from_expansion())),
			];
			if kind == DefKind::Closure {
				let parent = tcx.local_parent(did).to_def_id();
				o.push(("parent", s(key(tcx, parent))));
				let caps = tcx.closure_captures(did);
				o.push((
					"caps",
					J::A(caps.iter().map(|c| s(c.to_symbol().to_string())).collect()),
				));
			} else {
				o.push(("name", s(tcx.item_name(d).to_string())));
				o.push(("pub", J::B(tcx.visibility(d).is_public())));
			}
			if kind == DefKind::AssocFn {
				if let Some(t) = tcx.trait_of_assoc(d) {
					o.push(("in_trait", s(path(tcx, t))));
				} else if let Some(im) = tcx.impl_of_assoc(d) {
					let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
					o.push(("self_ty", cx.ty_j(st)));
					if let Some(tr) = tcx.impl_opt_trait_ref(im) {
						o.push(("trait", s(path(tcx, tr.skip_binder().def_id))));
						o.push(("derived", J::B(tcx.def_span(im).from_expansion())));
					}
				}
			}
			o.push(("mir", cx.dump()));
			fns.push(J::O(o));
		}
		let mut adts = vec![];
		let mut impls = vec![];
		for id in tcx.hir_crate_items(()).definitions() {
			let d = id.to_def_id();
			match tcx.def_kind(d) {
				DefKind::Struct | DefKind::Enum => {
					let def = tcx.adt_def(d);
					let mut vs = vec![];
					for v in def.variants() {
						let mut fs = vec![];
						for f in &v.fields {
							let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
							fs.push(J::O(vec![
								("name", s(f.name.to_string())),
								("ty", s(tystr(ft))),
								("pub", J::B(f.vis.is_public())),
							]));
						}
						vs.push(J::O(vec![("name", s(v.name.to_string())), ("fields", J::A(fs))]));
					}
					let loc = tcx.sess.source_map().lookup_char_pos(tcx.def_span(d).source_callsite().lo());
					adts.push(J::O(vec![
						("path", s(path(tcx, d))),
						("file", s(loc.file.name.prefer_local_unconditionally().to_string())),
						("enum", J::B(def.is_enum())),
						("pub", J::B(tcx.visibility(d).is_public())),
						("variants", J::A(vs)),
					]));
				}
				DefKind::Impl { of_trait } => {
					let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
					let mut o = vec![("self_ty", s(tystr(st)))];
					if let ty::Adt(def, _) = st.kind() {
						o.push(("adt", s(path(tcx, def.did()))));
					}
					if of_trait {
						let tr = tcx.impl_trait_ref(d).skip_binder();
						o.push(("trait", s(path(tcx, tr.def_id))));
						o.push(("trait_ref", s(with_no_trimmed_paths!(tr.to_string()))));
					}
					o.push(("derived", J::B(tcx.def_span(d).from_expansion())));
					let mut ats = vec![];
					for ai in tcx.associated_items(d).in_definition_order() {
						if let ty::AssocKind::Type { .. } = ai.kind {
							let t = tcx.type_of(ai.def_id).instantiate_identity().skip_norm_wip();
							ats.push(J::A(vec![s(ai.opt_name().map(|n| n.to_string()).unwrap_or_default()), s(tystr(t))]));
						} else {
							ats.push(J::A(vec![s(ai.opt_name().map(|n| n.to_string()).unwrap_or_default()), J::Null]));
						}
					}
					o.push(("items", J::A(ats)));
					impls.push(J::O(o));
				}
				_ => {}
			}
		}
		let root = J::O(vec![
			("crate", s(cname.clone())),
			("fns", J::A(fns)),
			("adts", J::A(adts)),
			("impls", J::A(impls)),
		]);
		let mut text = String::new();
		root.write(&mut text);
		let tmp = format!("{}/{}.json.tmp", self.out, cname);
		let fin = format!("{}/{}.json", self.out, cname);
		std::fs::write(&tmp, text).expect("write dump");
		std::fs::rename(&tmp, &fin).expect("rename dump");
		Compilation::Continue
	}
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
	let mut args: Vec<String> = std::env::args().collect();
	// invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
	args.remove(0);
	let out = std::env::var("RXV_OUT").ok();
	let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
	let probing = !args.iter().any(|a| a == "--crate-name") || args.iter().any(|a| a == "___");
	match out {
		Some(out) if is_lib && !probing => {
			args.push("-Zmir-opt-level=0".into());
			args.push("-Zalways-encode-mir=no".into());
			args.push("--cap-lints=allow".into());
			rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
		}
		_ => {
			rustc_driver::compiler_entrypoint(&args, &mut Plain);
		}
	}
}
