//! Checks what the type inference recorded in a module (schemes, types, instantiations and satisfactions) as one would
//! check an explicitly typed program: every use is an instance of its scheme, every constraint is proved by evidence
//! that does prove it, every expression has the type its place asks for and no type parameter leaves its scope.
use crate::front::Front;
use llrl::ast::*;
use llrl::module::{External, Module};
use std::collections::{HashMap, HashSet};

type R<T> = Result<T, String>;
type Subst = HashMap<NodeId<TypeParameter>, Type>;

pub fn subst(t: &Type, s: &Subst) -> Type {
    match t {
        Type::App(f, a) => {
            let a: Vec<Type> = a.iter().map(|a| subst(a, s)).collect();
            match subst(f, s) {
                // an application of an application is the application to all the arguments
                Type::App(g, mut b) => {
                    b.extend(a);
                    Type::App(g, b)
                }
                f => Type::app(f, a),
            }
        }
        Type::Gen(g) => s.get(g).cloned().unwrap_or_else(|| t.clone()),
        t => t.clone(),
    }
}

fn norm(t: &Type) -> Type {
    subst(t, &Subst::new())
}

pub fn fun(args: &[Type], ret: &Type) -> Type {
    Type::app(Type::Con(TypeCon::fun(args.len())), args.iter().cloned().chain([ret.clone()]).collect())
}

pub struct Checker<'a> {
    front: &'a Front,
    m: &'a Module,
    /// the type parameters in scope
    gens: HashSet<NodeId<TypeParameter>>,
    premises: HashMap<NodeId<Constraint>, ConstraintRep>,
    pub uses: u64,
    pub proofs: u64,
}

/// Ok((uses, proofs)) when the whole module checks.
pub fn check(front: &Front, m: &Module) -> R<(u64, u64)> {
    let mut c = Checker { front, m, gens: HashSet::new(), premises: HashMap::new(), uses: 0, proofs: 0 };
    c.module()?;
    Ok((c.uses, c.proofs))
}

impl Checker<'_> {
    fn at(&self, id: ModuleId) -> &Module {
        if id == self.m.id() {
            self.m
        } else {
            self.front.module(id)
        }
    }

    fn same(&self, what: &str, a: &Type, b: &Type) -> R<()> {
        if norm(a) != norm(b) {
            return Err(format!("{}: {:?} is not {:?}", what, a, b));
        }
        Ok(())
    }

    fn in_scope(&self, t: &Type) -> R<()> {
        match t {
            Type::Use(_) => Err(format!("an unresolved type {:?}", t)),
            Type::Error(e) => Err(format!("an erroneous type {:?}", e)),
            Type::Con(_) => Ok(()),
            Type::App(f, a) => {
                self.in_scope(f)?;
                a.iter().try_for_each(|a| self.in_scope(a))
            }
            Type::Gen(g) if self.gens.contains(g) => Ok(()),
            Type::Gen(g) => Err(format!("the type parameter {} is used out of its scope", g)),
        }
    }

    fn scheme(&self, c: impl Into<Construct>) -> R<&Scheme> {
        let c = c.into();
        self.at(c.module()).inferred_types().scheme(c).ok_or_else(|| format!("no scheme for {}", c))
    }
    fn ty(&self, c: impl Into<Construct>) -> R<&Type> {
        let c = c.into();
        self.at(c.module()).inferred_types().type_(c).ok_or_else(|| format!("no type for {}", c))
    }
    fn inst(&self, c: impl Into<Construct>) -> R<&Instantiation> {
        let c = c.into();
        self.at(c.module()).inferred_types().instantiation(c).ok_or_else(|| format!("no instantiation for {}", c))
    }

    fn map(params: &[TypeParameter], args: &[Type]) -> R<Subst> {
        if params.len() != args.len() {
            return Err(format!("{} type arguments for {} type parameters", args.len(), params.len()));
        }
        Ok(params.iter().map(|p| p.id).zip(args.iter().cloned()).collect())
    }

    fn constraint(c: &ConstraintRep, s: &Subst) -> (NodeId<ClassCon>, Vec<Type>) {
        let ConstraintRep::Class(class, args) = c;
        (*class.get_resolved(), args.iter().map(|a| subst(a, s)).collect())
    }

    /// The constraint a satisfaction proves.
    fn proves(&self, s: &Satisfaction) -> R<(NodeId<ClassCon>, Vec<Type>)> {
        match s {
            Satisfaction::Error(e) => Err(format!("an erroneous satisfaction: {}", e)),
            Satisfaction::ByPremise(p) => {
                let c = self.premises.get(&p.id).ok_or_else(|| format!("no premise {} in scope", p.id))?;
                let mut c = Self::constraint(c, &Subst::new());
                for step in &p.path {
                    let class = self.at(c.0.module()).ast_root().get(c.0).ok_or("an unknown class")?.con;
                    let sup = class.superclasses.iter().find(|s| s.id == *step).ok_or_else(|| format!("{} is no superclass of {}", step, c.0))?;
                    c = Self::constraint(&sup.rep, &Self::map(&class.ty_params, &c.1)?);
                }
                Ok(c)
            }
            Satisfaction::ByInstance(i) => {
                let id = *i.use_.get_resolved();
                let con = self.at(id.module()).ast_root().get(id).ok_or("an unknown instance")?.con;
                let map = Self::map(&con.ty_params, &i.instantiation.ty_args)?;
                i.instantiation.ty_args.iter().try_for_each(|t| self.in_scope(t))?;
                self.args(&con.s_params, &i.instantiation.s_args, &map)?;
                if !self.m.available_instances().get(Self::constraint(&con.target.rep, &map).0).contains(&id) {
                    return Err(format!("the instance {} is not available here", id));
                }
                Ok(Self::constraint(&con.target.rep, &map))
            }
        }
    }

    fn args(&self, params: &[Constraint], args: &[Satisfaction], map: &Subst) -> R<()> {
        if params.len() != args.len() {
            return Err(format!("{} satisfactions for {} constraints", args.len(), params.len()));
        }
        for (p, a) in params.iter().zip(args) {
            let (want, got) = (Self::constraint(&p.rep, map), self.proves(a)?);
            if want.0 != got.0 || want.1.len() != got.1.len() || !want.1.iter().zip(&got.1).all(|(a, b)| norm(a) == norm(b)) {
                return Err(format!("{:?} is proved where {:?} is required", got, want));
            }
        }
        Ok(())
    }

    /// The type of a use with the recorded instantiation.
    fn instance(&mut self, at: Construct, scheme: &Scheme) -> R<Type> {
        self.uses += 1;
        let i = self.inst(at)?.clone();
        i.ty_args.iter().try_for_each(|t| self.in_scope(t))?;
        let map = Self::map(&scheme.ty_params, &i.ty_args)?;
        self.args(&scheme.s_params, &i.s_args, &map)?;
        self.proofs += i.s_args.len() as u64;
        let t = subst(&scheme.body, &map);
        let recorded = self.ty(at)?;
        self.same("the recorded type of a use", recorded, &t)?;
        Ok(t)
    }

    fn const_(&mut self, at: Construct, c: &Const) -> R<Type> {
        let t = self.ty(at)?.clone();
        self.in_scope(&t)?;
        let class = match c {
            Const::Integer(..) => builtin::NUMBER,
            Const::FPNumber(_) => builtin::FPNUMBER,
            Const::String(_) => return self.same("a string", &t, &Type::Con(TypeCon::STRING)).map(|_| t),
            Const::Char(_) => return self.same("a character", &t, &Type::Con(TypeCon::CHAR)).map(|_| t),
            Const::SyntaxSexp(_) => {
                let s = Type::app(Type::Con(TypeCon::SYNTAX), vec![Type::Con(TypeCon::SEXP)]);
                return self.same("a quoted form", &t, &s).map(|_| t);
            }
        };
        let i = self.inst(at)?;
        let [s] = i.s_args.as_slice() else { return Err("a number with several satisfactions".into()) };
        let got = self.proves(s)?;
        if got.0 != class || got.1.len() != 1 || norm(&got.1[0]) != norm(&t) {
            return Err(format!("{:?} is proved for a number of type {:?}", got, t));
        }
        Ok(t)
    }

    fn expr(&mut self, e: &Expr, ret: Option<&Type>) -> R<Option<Type>> {
        // None: any type (the expression does not return)
        let want = |c: &Self, what: &str, t: Option<Type>, w: &Type| match t {
            Some(t) => c.same(what, &t, w),
            None => Ok(()),
        };
        Ok(Some(match &e.rep {
            ExprRep::Use(u) => match *u.get_resolved() {
                Value::Function(id) => self.instance(e.id.into(), &self.scheme(id)?.clone())?,
                Value::BuiltinOp(id) => self.instance(e.id.into(), &self.scheme(id)?.clone())?,
                Value::ClassMethod(id) => self.instance(e.id.into(), &self.scheme(id)?.clone())?,
                Value::LocalFun(id) => self.instance(e.id.into(), &self.scheme(id)?.clone())?,
                Value::CFunction(id) => self.mono(e, id)?,
                Value::Parameter(id) => self.mono(e, id)?,
                Value::LocalVar(id) => self.mono(e, id)?,
                Value::PatternVar(id) => self.mono(e, id)?,
            },
            ExprRep::Con(c) => match *c {
                ValueCon::Data(id) => self.instance(e.id.into(), &self.scheme(id)?.clone())?,
                ValueCon::Builtin(id) => self.instance(e.id.into(), &self.scheme(id)?.clone())?,
            },
            ExprRep::Const(c) => self.const_(e.id.into(), c)?,
            ExprRep::App(app) => {
                let f = self.expr(&app.callee, ret)?;
                let args = app.args.iter().map(|a| self.expr(a, ret)).collect::<R<Vec<_>>>()?;
                let Some(f) = f else { return Ok(None) };
                let f = norm(&f);
                let Some((ps, r)) = f.matches_fun() else { return Err(format!("{:?} is applied", f)) };
                if ps.len() != args.len() {
                    return Err(format!("{} arguments for {:?}", args.len(), f));
                }
                for (a, p) in args.into_iter().zip(ps) {
                    want(self, "an argument", a, p)?;
                }
                r.clone()
            }
            ExprRep::Capture(_) => Type::app(Type::Con(TypeCon::SYNTAX), vec![Type::Con(TypeCon::SEXP)]),
            ExprRep::Annotate(a) => {
                let t = self.expr(&a.body, ret)?;
                self.in_scope(&a.ann.body)?;
                want(self, "an annotated expression", t, &a.ann.body)?;
                a.ann.body.clone()
            }
            ExprRep::Let(l) => {
                for f in l.local_functions() {
                    let s = self.scheme(f.id)?.clone();
                    self.abstraction(&s, Some(&f.params), &f.body)?;
                }
                for v in l.local_vars() {
                    let t = self.expr(&v.init, ret)?;
                    let vt = self.ty(v.id)?.clone();
                    self.in_scope(&vt)?;
                    want(self, "a local variable", t, &vt)?;
                    if let Some(a) = &v.ann {
                        self.same("an annotated variable", &vt, &a.body)?;
                    }
                }
                return self.expr(&l.body, ret);
            }
            ExprRep::Seq(s) => {
                for x in &s.stmts {
                    self.expr(x, ret)?;
                }
                return self.expr(&s.ret, ret);
            }
            ExprRep::If(i) => {
                let c = self.expr(&i.cond, ret)?;
                want(self, "a condition", c, &Type::Con(TypeCon::BOOL))?;
                let a = self.expr(&i.then, ret)?;
                let b = self.expr(&i.else_, ret)?;
                match (a, b) {
                    (Some(a), b) => {
                        want(self, "the else branch", b, &a)?;
                        a
                    }
                    (None, b) => return Ok(b),
                }
            }
            ExprRep::While(w) => {
                let c = self.expr(&w.cond, ret)?;
                want(self, "a condition", c, &Type::Con(TypeCon::BOOL))?;
                self.expr(&w.body, ret)?;
                Type::Con(TypeCon::unit())
            }
            ExprRep::Match(m) => {
                let t = self.expr(&m.target, ret)?;
                let mut out: Option<Type> = None;
                for (p, b) in &m.clauses {
                    let pt = self.pattern(p)?;
                    want(self, "a pattern", t.clone(), &pt)?;
                    let b = self.expr(b, ret)?;
                    match (&out, b) {
                        (Some(o), Some(b)) => self.same("a clause", &b, o)?,
                        (None, b) => out = b,
                        _ => {}
                    }
                }
                return Ok(out);
            }
            ExprRep::Return(r) => {
                let Some(want_ret) = ret else { return Err("a return outside a function".into()) };
                match &**r {
                    Some(x) => {
                        let t = self.expr(x, ret)?;
                        want(self, "a returned value", t, want_ret)?;
                    }
                    None => self.same("an empty return", want_ret, &Type::Con(TypeCon::unit()))?,
                }
                return Ok(None);
            }
        }))
    }

    fn mono(&mut self, e: &Expr, id: impl Into<Construct>) -> R<Type> {
        self.uses += 1;
        let t = self.ty(id)?.clone();
        self.in_scope(&t)?;
        self.same("the recorded type of a variable", self.ty(e.id)?, &t)?;
        Ok(t)
    }

    fn pattern(&mut self, p: &Pattern) -> R<Type> {
        Ok(match &p.rep {
            PatternRep::Var(v) => {
                let t = self.ty(v.id)?.clone();
                self.in_scope(&t)?;
                if let Some(a) = &v.as_pat {
                    let at = self.pattern(a)?;
                    self.same("an as-pattern", &at, &t)?;
                }
                t
            }
            PatternRep::Wildcard => {
                let t = self.ty(p.id)?.clone();
                self.in_scope(&t)?;
                t
            }
            PatternRep::Const(c) => self.const_(p.id.into(), c)?,
            PatternRep::Decon(d) => {
                let s = match *d.use_.get_resolved() {
                    ValueCon::Data(id) => self.scheme(id)?.clone(),
                    ValueCon::Builtin(id) => self.scheme(id)?.clone(),
                };
                let t = norm(&self.instance(p.id.into(), &s)?);
                match &d.fields {
                    None => t,
                    Some(fs) => {
                        let Some((ps, r)) = t.matches_fun() else { return Err("a constructor without fields is matched with some".into()) };
                        if ps.len() != fs.len() {
                            return Err("a pattern with the wrong number of fields".into());
                        }
                        for (f, p) in fs.iter().zip(ps) {
                            let ft = self.pattern(f)?;
                            self.same("a field pattern", &ft, p)?;
                        }
                        r.clone()
                    }
                }
            }
        })
    }

    fn scoped<T>(&mut self, ty_params: &[TypeParameter], s_params: &[Constraint], f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let (gens, premises) = (self.gens.clone(), self.premises.clone());
        self.gens.extend(ty_params.iter().map(|p| p.id));
        self.premises.extend(s_params.iter().map(|c| (c.id, c.rep.clone())));
        let r = f(self);
        self.gens = gens;
        self.premises = premises;
        r
    }

    fn abstraction(&mut self, s: &Scheme, params: Option<&Vec<Parameter>>, body: &Expr) -> R<()> {
        self.scoped(&s.ty_params, &s.s_params, |c| {
            for p in &s.s_params {
                let ConstraintRep::Class(_, a) = &p.rep;
                a.iter().try_for_each(|t| c.in_scope(t))?;
            }
            c.in_scope(&s.body)?;
            let b = norm(&s.body);
            let ret = match params {
                Some(ps) => {
                    let Some((ts, r)) = b.matches_fun() else { return Err(format!("the function has the type {:?}", b)) };
                    if ts.len() != ps.len() {
                        return Err(format!("{} parameters for {:?}", ps.len(), b));
                    }
                    for (p, t) in ps.iter().zip(ts) {
                        c.same("a parameter", c.ty(p.id)?, t)?;
                    }
                    r.clone()
                }
                None => b,
            };
            if let Some(t) = c.expr(body, Some(&ret))? {
                c.same("a function's body", &t, &ret)?;
            }
            Ok(())
        })
    }

    fn module(&mut self) -> R<()> {
        let root = self.m.ast_root();
        for f in root.functions.values() {
            let s = self.scheme(f.id)?.clone();
            if let Some(a) = &f.ann {
                self.same("an annotated function", &a.body.body, &s.body)?;
            }
            self.abstraction(&s, f.params.as_ref(), &f.body)?;
        }
        for class in root.classes() {
            for m in class.methods() {
                let s = self.scheme(m.id)?.clone();
                let want = m.to_external_scheme(class.con);
                self.same("a method", &s.body, &want.body)?;
                if let Some(b) = &m.default_body {
                    self.abstraction(&s, m.params.as_ref(), b)?;
                }
            }
        }
        for inst in root.instances() {
            let target = inst.con.target.rep.clone();
            let (class, args) = Self::constraint(&target, &Subst::new());
            let (class_con, methods): (ClassCon, Vec<ClassMethod>) = {
                let c = self.at(class.module()).ast_root().get(class).unwrap();
                (c.con.clone(), c.methods().cloned().collect())
            };
            let map = Self::map(&class_con.ty_params, &args)?;
            self.scoped(&inst.con.ty_params, &inst.con.s_params, |c| {
                let i = c.inst(inst.con.id)?.clone();
                c.args(&class_con.superclasses, &i.s_args, &map)?;
                c.proofs += i.s_args.len() as u64;
                for m in inst.methods() {
                    let s = c.scheme(m.id)?.clone();
                    let cm = methods.iter().find(|cm| cm.id == *m.class_method.get_resolved()).ok_or("a method of another class")?;
                    let mut map = map.clone();
                    if s.ty_params.len() != cm.ann.body.ty_params.len() {
                        return Err("an instance method with other type parameters".into());
                    }
                    for (p, q) in cm.ann.body.ty_params.iter().zip(&s.ty_params) {
                        map.insert(p.id, Type::Gen(q.id));
                    }
                    c.same("an instance method", &s.body, &subst(&cm.ann.body.body, &map))?;
                    if s.s_params.len() != cm.ann.body.s_params.len() {
                        return Err("an instance method with other constraints".into());
                    }
                    for (a, b) in s.s_params.iter().zip(&cm.ann.body.s_params) {
                        let (a, b) = (Self::constraint(&a.rep, &Subst::new()), Self::constraint(&b.rep, &map));
                        if a.0 != b.0 || a.1.iter().map(norm).ne(b.1.iter().map(norm)) {
                            return Err("an instance method with other constraints".into());
                        }
                    }
                    c.abstraction(&s, m.params.as_ref(), &m.body)?;
                }
                Ok(())
            })?;
        }
        for e in root.init_expressions.iter() {
            if let InitExpr::Eval(e) = e {
                self.expr(e, None)?;
            }
        }
        Ok(())
    }
}
