//! Unification and one-way matching of types, and unification of kinds: all short sequences of equations over small
//! sets of terms, in the real contexts, against textbook unification over trees.
use crate::common::*;
use crate::harness::*;
use llrl::ast::{self, KindBuilder, NodeIdGenerator, TypeBuilder, TypeCon};
use llrl::unification::kind as k;
use llrl::unification::kind::Resolve as _;
use llrl::unification::types as u;
use llrl::unification::types::Resolve as _;
use llrl::unification::Level;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Star,
    /// that many types to a type
    Fun(usize),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
enum T {
    V(usize),
    G(usize),
    C(usize),
    A(Box<T>, Vec<T>),
}
use T::*;

const CONS: &[(&str, K)] = &[("unit", K::Star), ("Pair", K::Fun(2)), ("->", K::Fun(2)), ("Opt", K::Fun(1)), ("Bool", K::Star), ("Fun0", K::Fun(1))];
const UNIT: usize = 0;
const PAIR: usize = 1;
const ARROW: usize = 2;
const OPT: usize = 3;
const FUN0: usize = 5;

#[derive(Clone, Debug)]
struct Env {
    vars: Vec<(K, u32)>,
    gens: Vec<(K, u32)>,
}

impl Env {
    fn kind(&self, t: &T) -> K {
        match t {
            V(i) => self.vars[*i].0,
            G(i) => self.gens[*i].0,
            C(i) => CONS[*i].1,
            A(..) => K::Star,
        }
    }
}

fn app(c: T, a: &[&T]) -> T {
    A(Box::new(c), a.iter().map(|t| (*t).clone()).collect())
}

fn show(t: &T) -> String {
    match t {
        V(i) => format!("?{}", i),
        G(i) => format!("g{}", i),
        C(i) => CONS[*i].0.into(),
        A(c, a) => format!("({} {})", show(c), a.iter().map(show).collect::<Vec<_>>().join(" ")),
    }
}

// ---- reference

type Subst = Vec<Option<T>>;

fn walk(s: &Subst, t: &T) -> T {
    match t {
        V(i) => match &s[*i] {
            Some(t) => walk(s, t),
            None => t.clone(),
        },
        A(c, a) => A(Box::new(walk(s, c)), a.iter().map(|t| walk(s, t)).collect()),
        t => t.clone(),
    }
}

fn leaves(t: &T, f: &mut impl FnMut(&T)) {
    match t {
        A(c, a) => {
            leaves(c, f);
            a.iter().for_each(|t| leaves(t, f));
        }
        t => f(t),
    }
}

fn occurs(i: usize, t: &T) -> bool {
    let mut o = false;
    leaves(t, &mut |l| o |= *l == V(i));
    o
}

/// Textbook unification; variables for which `rigid` holds stand for themselves only.
fn solve(env: &Env, s: &mut Subst, a: &T, b: &T, rigid: &dyn Fn(usize) -> bool) -> bool {
    let (a, b) = (walk(s, a), walk(s, b));
    if a == b {
        return true;
    }
    match (&a, &b) {
        (V(i), t) if !rigid(*i) => {
            if occurs(*i, t) || env.kind(t) != env.vars[*i].0 {
                return false;
            }
            s[*i] = Some(t.clone());
            true
        }
        (t, V(i)) if !rigid(*i) => {
            if occurs(*i, t) || env.kind(t) != env.vars[*i].0 {
                return false;
            }
            s[*i] = Some(t.clone());
            true
        }
        (A(c, x), A(d, y)) => x.len() == y.len() && solve(env, s, c, d, rigid) && x.iter().zip(y).all(|(x, y)| solve(env, s, x, y, rigid)),
        _ => false,
    }
}

/// The level each unsolved variable ends with, or None when a variable stands for something of a deeper level.
/// `lower`: unsolved variables may be moved up.
fn levels(env: &Env, s: &Subst, lower: bool) -> Option<Vec<u32>> {
    let mut lv: Vec<u32> = env.vars.iter().map(|v| v.1).collect();
    let mut fine = true;
    for i in 0..s.len() {
        let own = env.vars[i].1;
        leaves(&walk(s, &V(i)), &mut |l| match l {
            G(g) => fine &= env.gens[*g].1 <= own,
            V(j) => {
                fine &= lower || env.vars[*j].1 <= own;
                lv[*j] = lv[*j].min(own);
            }
            _ => {}
        });
    }
    if fine { Some(lv) } else { None }
}

/// What each variable stands for, with unsolved variables named by the first that stands for the same one.
fn canonical(n: usize, of: impl Fn(usize) -> T) -> Vec<T> {
    let all: Vec<T> = (0..n).map(of).collect();
    let mut first = BTreeMap::new();
    for (i, t) in all.iter().enumerate() {
        if let V(j) = t {
            first.entry(*j).or_insert(i);
        }
    }
    fn rename(t: &T, m: &BTreeMap<usize, usize>) -> T {
        match t {
            V(j) => V(m.get(j).copied().unwrap_or(1000 + j)),
            A(c, a) => A(Box::new(rename(c, m)), a.iter().map(|t| rename(t, m)).collect()),
            t => t.clone(),
        }
    }
    all.iter().map(|t| rename(t, &first)).collect()
}

// ---- the real thing

struct Kinds(HashMap<ast::Construct, ast::Kind>);

impl u::KindEnvironment for &Kinds {
    fn resolve_kind(&self, c: impl Into<ast::Construct>) -> Cow<'_, ast::Kind> {
        let c = c.into();
        Cow::Borrowed(self.0.get(&c).unwrap_or_else(|| panic!("no kind for {}", c)))
    }
}

fn kind(k: K) -> ast::Kind {
    match k {
        K::Star => ast::Kind::Type,
        K::Fun(n) => ast::Kind::Fun(vec![ast::Kind::Type; n], Box::new(ast::Kind::Type)),
    }
}

struct World {
    kinds: Kinds,
    cons: Vec<TypeCon>,
    gens: Vec<u::Gen>,
}

impl World {
    fn new(env: &Env) -> Self {
        let mut ids = NodeIdGenerator::in_module(ast::ModuleId::from_index(1));
        let opt: ast::NodeId<ast::DataTypeCon> = ids.generate();
        let bool_: ast::NodeId<ast::DataTypeCon> = ids.generate();
        let cons = vec![TypeCon::unit(), TypeCon::tuple(2), TypeCon::fun(1), TypeCon::Data(opt), TypeCon::Data(bool_), TypeCon::fun(0)];
        let mut kinds = HashMap::new();
        for (c, (_, k)) in cons.iter().zip(CONS) {
            let id: ast::Construct = match c {
                TypeCon::Data(id) => (*id).into(),
                TypeCon::Builtin(id) => (*id).into(),
            };
            kinds.insert(id, kind(*k));
        }
        let gens: Vec<u::Gen> = env.gens.iter().map(|_| ids.generate()).collect();
        for (g, (k, _)) in gens.iter().zip(&env.gens) {
            kinds.insert((*g).into(), kind(*k));
        }
        World { kinds: Kinds(kinds), cons, gens }
    }
}

struct Real<'w> {
    w: &'w World,
    env: &'w Env,
    ctx: u::Context<&'w Kinds>,
    vars: Vec<u::Type>,
    memo: Option<HashMap<T, u::Type>>,
}

impl<'w> Real<'w> {
    fn new(w: &'w World, env: &'w Env, share: bool) -> Self {
        let mut ctx = u::Context::new(&w.kinds);
        let vars = env
            .vars
            .iter()
            .map(|(k, l)| {
                let k = ctx.kind_table.intern(&kind(*k));
                ctx.new_var(k, level(*l))
            })
            .collect();
        Real { w, env, ctx, vars, memo: share.then(HashMap::new) }
    }
    fn build(&mut self, t: &T) -> u::Type {
        if let Some(r) = self.memo.as_ref().and_then(|m| m.get(t)) {
            return *r;
        }
        let r = match t {
            V(i) => self.vars[*i],
            G(i) => u::Type::Gen(self.w.gens[*i], level(self.env.gens[*i].1)),
            C(i) => u::Type::Con(self.w.cons[*i]),
            A(c, a) => {
                let c = self.build(c);
                let a = a.iter().map(|t| self.build(t)).collect();
                self.ctx.new_app(c, a)
            }
        };
        if let Some(m) = &mut self.memo {
            m.insert(t.clone(), r);
        }
        r
    }
    fn read(&mut self, t: u::Type, lv: &mut Vec<Option<u32>>, names: &HashMap<u::Var, usize>, depth: u32) -> T {
        assert!(depth < 200, "an infinite type was built");
        match self.ctx.resolve(t) {
            u::Type::Var(v, _, l) => {
                let i = *names.get(&v).expect("a variable nobody created");
                lv[i] = Some(depth_of(l));
                V(i)
            }
            u::Type::Con(c) => C(self.w.cons.iter().position(|d| *d == c).expect("an unknown constructor")),
            u::Type::Gen(g, _) => G(self.w.gens.iter().position(|h| *h == g).expect("an unknown type variable")),
            u::Type::App(c, a) => {
                let c = self.ctx.resolve(c);
                let c = self.read(c, lv, names, depth + 1);
                let a = a
                    .iter()
                    .map(|v| {
                        let t = self.ctx.resolve(v);
                        self.read(t, lv, names, depth + 1)
                    })
                    .collect();
                A(Box::new(c), a)
            }
        }
    }
    fn names(&self) -> HashMap<u::Var, usize> {
        self.vars.iter().enumerate().map(|(i, v)| if let u::Type::Var(v, ..) = v { (*v, i) } else { unreachable!() }).collect()
    }
    /// what every variable stands for and the levels of the unsolved ones
    fn state(&mut self) -> (Vec<T>, Vec<Option<u32>>) {
        let names = self.names();
        let mut lv = vec![None; self.vars.len()];
        let all: Vec<T> = (0..self.vars.len())
            .map(|i| {
                let t = self.vars[i];
                self.read(t, &mut lv, &names, 0)
            })
            .collect();
        let can = canonical(all.len(), |i| all[i].clone());
        (can, lv)
    }
}

fn level(n: u32) -> Level {
    if n >= 9 {
        return Level::bottom();
    }
    let mut l = Level::top();
    for _ in 0..n {
        l = l.down();
    }
    l
}

fn depth_of(l: Level) -> u32 {
    l.depth().min(9)
}

/// Compares the real state with the reference's; `lv`: expected levels by variable.
fn compare(real: &mut Real, s: &Subst, lv: Option<&[u32]>) -> Result<(), String> {
    let n = s.len();
    let want = canonical(n, |i| walk(s, &V(i)));
    let (got, got_lv) = real.state();
    if got != want {
        let i = (0..n).find(|i| got[*i] != want[*i]).unwrap();
        return Err(format!("?{} becomes {} instead of {}", i, show(&got[i]), show(&want[i])));
    }
    if let Some(lv) = lv {
        // compare by class: the level of the class of each unsolved variable
        let class_level = |i: usize| -> Option<u32> {
            match walk(s, &V(i)) {
                V(j) => Some(lv[j]),
                _ => None,
            }
        };
        let names = real.names();
        for i in 0..n {
            if let Some(want) = class_level(i) {
                if let u::Type::Var(v, _, l) = real.ctx.resolve(real.vars[i]) {
                    let _ = (&names, v);
                    if depth_of(l) != want {
                        return Err(format!("?{} ends at level {} instead of {}", i, depth_of(l), want));
                    }
                }
            }
        }
        let _ = got_lv;
    }
    Ok(())
}

fn queries(real: &mut Real, env: &Env, s: &Subst, lv: &[u32], t: &T, t2: &T) -> Result<(), String> {
    let (rt, rt2) = (real.build(t), real.build(t2));
    let (wt, wt2) = (walk(s, t), walk(s, t2));
    let eq = real.ctx.equal(rt, rt2);
    if eq != (wt == wt2) {
        return Err(format!("{} and {} are {}equal afterwards", show(t), show(t2), if eq { "" } else { "not " }));
    }
    let names = real.names();
    for min in 0..3 {
        let mut want = BTreeSet::new();
        leaves(&wt, &mut |l| {
            if let V(j) = l {
                if lv[*j] >= min {
                    want.insert(*j);
                }
            }
        });
        let got: BTreeSet<usize> = real.ctx.get_vars(rt, level(min)).iter().map(|v| names[v]).collect();
        // a class may be represented by any of its members
        let rep = |i: &usize| canonical(s.len(), |i| walk(s, &V(i)))[*i].clone();
        if got.iter().map(rep).collect::<BTreeSet<_>>() != want.iter().map(rep).collect::<BTreeSet<_>>() {
            return Err(format!("the variables of {} from level {} are {:?} instead of {:?}", show(t), min, got, want));
        }
    }
    let mut deepest = 0;
    leaves(&wt, &mut |l| match l {
        V(j) => deepest = deepest.max(lv[*j]),
        G(g) => deepest = deepest.max(env.gens[*g].1),
        _ => {}
    });
    let got = depth_of(real.ctx.compute_deepest_level(rt));
    if got != deepest {
        return Err(format!("the deepest level in {} is {} instead of {}", show(t), got, deepest));
    }
    // substitution for the rigid variables
    if env.gens.len() >= 2 {
        let (m0, m1) = (C(UNIT), app(C(PAIR), &[&V(0), &G(0)]));
        let mut map = HashMap::new();
        let (a, b) = (real.build(&m0), real.build(&m1));
        map.insert(real.w.gens[0], a);
        map.insert(real.w.gens[1], b);
        fn subst(t: &T, m0: &T, m1: &T) -> T {
            match t {
                G(0) => m0.clone(),
                G(1) => m1.clone(),
                A(c, a) => A(Box::new(subst(c, m0, m1)), a.iter().map(|t| subst(t, m0, m1)).collect()),
                t => t.clone(),
            }
        }
        let want = walk(s, &subst(&wt, &m0, &m1));
        let got = real.ctx.subst(&map, rt);
        let want_built = real.build(&want);
        if !real.ctx.equal(got, want_built) {
            return Err(format!("replacing the rigid variables in {} does not give {}", show(t), show(&want)));
        }
        // equality modulo a renaming of rigid variables
        let mut map = HashMap::new();
        map.insert(real.w.gens[0], a);
        let want = walk(s, &subst(&wt, &m0, &G(1))) == wt2;
        if real.ctx.equal_on_subst(&map, rt, rt2) != want {
            return Err(format!("{} with g0 replaced by unit and {} are {}found equal", show(t), show(t2), if want { "not " } else { "" }));
        }
    }
    Ok(())
}

fn check_equations(w: &World, env: &Env, eqs: &[(&T, &T)], share: bool) -> Result<bool, String> {
    let mut real = Real::new(w, env, share);
    let mut s: Subst = vec![None; env.vars.len()];
    for (n, (a, b)) in eqs.iter().enumerate() {
        let solved = solve(env, &mut s, a, b, &|_| false);
        let lv = if solved { levels(env, &s, true) } else { None };
        let (ra, rb) = (real.build(a), real.build(b));
        let got = real.ctx.unify(ra, rb);
        match (&got, &lv) {
            (Ok(()), Some(lv)) => {
                compare(&mut real, &s, Some(lv)).map_err(|e| format!("after equation {}: {}", n + 1, e))?;
                if n + 1 == eqs.len() {
                    queries(&mut real, env, &s, lv, a, b).map_err(|e| format!("after all equations: {}", e))?;
                    queries(&mut real, env, &s, lv, eqs[0].0, b).map_err(|e| format!("after all equations: {}", e))?;
                }
            }
            (Err(_), None) => return Ok(false),
            (Ok(()), None) => return Err(format!("equation {} is solved although it has no solution{}", n + 1, if solved { " at these levels" } else { "" })),
            (Err(e), Some(_)) => return Err(format!("equation {} is refused ({}) although {} solves it", n + 1, e, (0..s.len()).map(|i| format!("?{} = {}", i, show(&walk(&s, &V(i))))).collect::<Vec<_>>().join(", "))),
        }
    }
    Ok(true)
}

fn check_match(w: &World, env: &Env, pats: &[(&T, &T)], left: usize, share: bool) -> Result<bool, String> {
    // the first `left` variables belong to the patterns
    let mut real = Real::new(w, env, share);
    let mut s: Subst = vec![None; env.vars.len()];
    let rigid = |i: usize| i >= left;
    // all terms matched together stay as they are
    let mut rigid_vars = BTreeSet::new();
    for (_, b) in pats {
        let rb = real.build(b);
        real.ctx.collect_vars(rb, Level::top(), &mut rigid_vars);
    }
    for (n, (a, b)) in pats.iter().enumerate() {
        let solved = solve(env, &mut s, a, b, &rigid) && levels(env, &s, false).is_some();
        let (ra, rb) = (real.build(a), real.build(b));
        let got = if pats.len() == 1 { real.ctx.match_to_right(ra, rb) } else { real.ctx.match_to_right_on(&rigid_vars, ra, rb) };
        match (got, solved) {
            (Ok(()), true) => compare(&mut real, &s, None).map_err(|e| format!("after pattern {}: {}", n + 1, e))?,
            (Err(_), false) => return Ok(false),
            (Ok(()), false) => return Err(format!("pattern {} is found to match", n + 1)),
            (Err(e), true) => return Err(format!("pattern {} is found not to match ({})", n + 1, e)),
        }
    }
    Ok(true)
}

fn universe(env: &Env, heads: &[T], atoms: &[T], inner: &[T]) -> Vec<T> {
    let mut out = atoms.to_vec();
    for h in heads {
        match env.kind(h) {
            K::Star => {}
            K::Fun(1) => out.extend(inner.iter().map(|t| app(h.clone(), &[t]))),
            K::Fun(_) => {
                for a in inner {
                    for b in inner {
                        out.push(app(h.clone(), &[a, b]));
                    }
                }
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

pub fn main(o: &Opts, rep: &'static Report) {
    let total = AtomicU64::new(0);
    let solved = AtomicU64::new(0);
    let note = |desc: &dyn Fn() -> String, r: Result<Result<bool, String>, String>| {
        total.fetch_add(1, SeqCst);
        match r {
            Ok(Ok(ok)) => {
                solved.fetch_add(ok as u64, SeqCst);
            }
            Ok(Err(e)) => rep.violation(&format!("unify/{}", desc()), &format!("{}: {}", desc(), e), &desc()),
            Err(p) => rep.violation(&format!("unify/{}", desc()), &format!("{}: panics: {}", desc(), p), &desc()),
        }
        rep.nviol.load(SeqCst) < 30
    };
    let done = |part: &str, t0: u64, s0: u64, extra: &[(&str, u64)]| {
        let n = total.load(SeqCst) - t0;
        let mut v = vec![("states", n), ("transitions", n), ("traces_validated_against_impl", n), ("solvable", solved.load(SeqCst) - s0)];
        v.extend_from_slice(extra);
        rep.cover(part, &v, &[]);
    };
    let text = |eqs: &[(&T, &T)], env: &Env| format!("{} with levels {:?}/{:?}", eqs.iter().map(|(a, b)| format!("{} = {}", show(a), show(b))).collect::<Vec<_>>().join("; "), env.vars.iter().map(|v| v.1).collect::<Vec<_>>(), env.gens.iter().map(|v| v.1).collect::<Vec<_>>());
    let star = K::Star;
    let f1 = K::Fun(1);
    // 0..2: types, 3: a type constructor
    let env = Env { vars: vec![(star, 0), (star, 0), (star, 0), (f1, 0)], gens: vec![(star, 0), (star, 0), (f1, 0)] };
    let w = World::new(&env);
    let atoms = vec![V(0), V(1), V(2), G(0), C(UNIT)];
    let heads = vec![C(PAIR), C(ARROW), C(OPT), V(3), G(2), C(FUN0)];
    let flat = universe(&env, &heads, &[atoms.clone(), vec![V(3), G(2), C(OPT), C(PAIR), G(1)]].concat(), &atoms);

    // one equation between terms of depth two
    {
        let (t0, s0) = (total.load(SeqCst), solved.load(SeqCst));
        let inner = universe(&env, &[C(PAIR), C(OPT), V(3)], &[V(0), V(1), G(0)], &[V(0), V(1)]);
        let deep = universe(&env, &[C(PAIR), C(OPT), V(3), G(2)], &flat, &inner);
        let n = (deep.len() * deep.len()) as u64;
        sweep(o.jobs, n, |i| {
            let e = [(&deep[i as usize / deep.len()], &deep[i as usize % deep.len()])];
            let desc = || text(&e, &env);
            note(&desc, guarded("", || check_equations(&w, &env, &e, i % 2 == 0)))
        });
        done("one-equation-deep", t0, s0, &[("terms", deep.len() as u64)]);
    }
    // two equations
    {
        let (t0, s0) = (total.load(SeqCst), solved.load(SeqCst));
        let terms = universe(&env, &[C(PAIR), C(OPT), V(3)], &[V(0), V(1), V(2), V(3), G(0), C(OPT), C(UNIT)], &if o.thorough { vec![V(0), V(1), V(2), G(0), C(UNIT)] } else { vec![V(0), V(1), V(2), G(0)] });
        let eqs: Vec<(&T, &T)> = terms.iter().flat_map(|a| terms.iter().map(move |b| (a, b))).filter(|(a, b)| a != b).collect();
        let n = (eqs.len() * eqs.len()) as u64;
        sweep(o.jobs, n, |i| {
            let e = [eqs[i as usize / eqs.len()], eqs[i as usize % eqs.len()]];
            let desc = || text(&e, &env);
            note(&desc, guarded("", || check_equations(&w, &env, &e, i % 2 == 0)))
        });
        done("two-equations", t0, s0, &[("equations", eqs.len() as u64)]);
    }
    // three equations
    {
        let (t0, s0) = (total.load(SeqCst), solved.load(SeqCst));
        let mut terms = vec![V(0), V(1), V(2), app(C(PAIR), &[&V(0), &V(1)]), app(C(OPT), &[&V(2)]), app(V(3), &[&V(0)]), G(0)];
        terms.extend([app(C(PAIR), &[&V(2), &V(2)]), app(C(PAIR), &[&G(0), &V(2)]), C(UNIT)]);
        if o.thorough {
            terms.extend([app(C(ARROW), &[&V(0), &V(1)]), app(C(OPT), &[&V(0)]), V(3), app(V(3), &[&V(2)])]);
        }
        let eqs: Vec<(&T, &T)> = terms.iter().flat_map(|a| terms.iter().map(move |b| (a, b))).filter(|(a, b)| a != b).collect();
        let m = eqs.len() as u64;
        sweep(o.jobs, m * m * m, |i| {
            let e = [eqs[(i / m / m) as usize], eqs[(i / m % m) as usize], eqs[(i % m) as usize]];
            let desc = || text(&e, &env);
            note(&desc, guarded("", || check_equations(&w, &env, &e, i % 2 == 0)))
        });
        done("three-equations", t0, s0, &[("equations", m)]);
    }
    // every assignment of levels
    {
        let (t0, s0) = (total.load(SeqCst), solved.load(SeqCst));
        for code in 0..27 * 4u32 {
            let env = Env { vars: vec![(star, code % 3), (star, code / 3 % 3), (star, code / 9 % 3)], gens: vec![(star, code / 27 % 2), (star, 1 + code / 54 % 2)] };
            let w = World::new(&env);
            let terms = universe(&env, &[C(PAIR)], &[V(0), V(1), V(2), G(0), G(1)], &[V(0), V(1), V(2), G(0), G(1)]);
            let small = vec![V(0), V(1), V(2), G(0), G(1), app(C(OPT), &[&V(2)]), app(C(PAIR), &[&V(0), &V(1)])];
            let one: Vec<(&T, &T)> = terms.iter().flat_map(|a| terms.iter().map(move |b| (a, b))).collect();
            let two: Vec<(&T, &T)> = small.iter().flat_map(|a| small.iter().map(move |b| (a, b))).filter(|(a, b)| a != b).collect();
            let n = (one.len() + two.len() * two.len()) as u64;
            let run = |i: u64| {
                let i = i as usize;
                let e: Vec<(&T, &T)> = if i < one.len() { vec![one[i]] } else { vec![two[(i - one.len()) / two.len()], two[(i - one.len()) % two.len()]] };
                let desc = || text(&e, &env);
                note(&desc, guarded("", || check_equations(&w, &env, &e, i % 2 == 0)))
            };
            sweep(o.jobs, n, run);
        }
        done("levels", t0, s0, &[("assignments", 27 * 4)]);
    }
    // matching: patterns over ?0 ?1 ?2 (the last a constructor), terms over ?3 ?4
    {
        let (t0, s0) = (total.load(SeqCst), solved.load(SeqCst));
        for (pl, vl, gl) in [(9, 0, 0), (9, 1, 0), (9, 1, 1), (0, 0, 0), (0, 1, 0), (1, 0, 1), (1, 1, 1), (1, 2, 2), (0, 0, 1)] {
            let env = Env { vars: vec![(star, pl), (star, pl), (f1, pl), (star, vl), (star, 0), (f1, vl)], gens: vec![(star, gl), (star, 0)] };
            let w = World::new(&env);
            let p_atoms = [V(0), V(1), G(0), C(UNIT)];
            let pats = universe(&env, &[C(PAIR), C(OPT), V(2)], &[p_atoms.to_vec(), vec![V(2)]].concat(), &p_atoms);
            let inner = [V(3), V(4), G(0), G(1), C(UNIT), app(C(OPT), &[&V(3)])];
            let terms = universe(&env, &[C(PAIR), C(OPT), V(5)], &[inner.to_vec(), vec![V(5), C(OPT)]].concat(), &inner);
            let one: Vec<(&T, &T)> = pats.iter().flat_map(|a| terms.iter().map(move |b| (a, b))).collect();
            let sp = vec![V(0), V(1), app(C(PAIR), &[&V(0), &V(1)]), app(C(PAIR), &[&V(0), &V(0)]), app(V(2), &[&V(0)]), app(C(OPT), &[&V(1)])];
            let st = vec![V(3), V(4), G(0), C(UNIT), app(C(PAIR), &[&V(3), &V(4)]), app(C(PAIR), &[&V(3), &V(3)]), app(C(OPT), &[&V(3)]), app(C(OPT), &[&G(0)]), app(V(5), &[&V(3)])];
            let two: Vec<(&T, &T)> = sp.iter().flat_map(|a| st.iter().map(move |b| (a, b))).collect();
            let n = (one.len() + two.len() * two.len()) as u64;
            sweep(o.jobs, n, |i| {
                let i = i as usize;
                let e: Vec<(&T, &T)> = if i < one.len() { vec![one[i]] } else { vec![two[(i - one.len()) / two.len()], two[(i - one.len()) % two.len()]] };
                let desc = || format!("matching {}", text(&e, &env).replace(" = ", " to "));
                note(&desc, guarded("", || check_match(&w, &env, &e, 3, i % 2 == 0)))
            });
        }
        done("matching", t0, s0, &[]);
    }
    kinds(o, rep, &|desc, r| note(desc, r), &done, &total, &solved);
    rep.sample(&show(&flat[flat.len() / 2]));
}

// ---- kinds

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum KT {
    Var(usize),
    Const(usize),
    Fun(Vec<KT>, Box<KT>),
}

fn kshow(t: &KT) -> String {
    match t {
        KT::Var(i) => format!("?{}", i),
        KT::Const(c) => ["type", "constraint", "value", "macro", "satisfaction"][*c].into(),
        KT::Fun(a, r) => format!("(-> {} {})", a.iter().map(kshow).collect::<Vec<_>>().join(" "), kshow(r)),
    }
}

fn kwalk(s: &[Option<KT>], t: &KT) -> KT {
    match t {
        KT::Var(i) => s[*i].as_ref().map_or(t.clone(), |t| kwalk(s, t)),
        KT::Fun(a, r) => KT::Fun(a.iter().map(|t| kwalk(s, t)).collect(), Box::new(kwalk(s, r))),
        t => t.clone(),
    }
}

fn koccurs(i: usize, t: &KT) -> bool {
    match t {
        KT::Var(j) => i == *j,
        KT::Fun(a, r) => a.iter().any(|t| koccurs(i, t)) || koccurs(i, r),
        _ => false,
    }
}

fn ksolve(s: &mut Vec<Option<KT>>, a: &KT, b: &KT) -> bool {
    let (a, b) = (kwalk(s, a), kwalk(s, b));
    if a == b {
        return true;
    }
    match (&a, &b) {
        (KT::Var(i), t) | (t, KT::Var(i)) => {
            let ok = !koccurs(*i, t);
            s[*i] = Some(t.clone());
            ok
        }
        (KT::Fun(x, r), KT::Fun(y, q)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| ksolve(s, x, y)) && ksolve(s, r, q),
        _ => false,
    }
}

fn kbuild(ctx: &mut k::Context, vars: &[k::Kind], t: &KT) -> k::Kind {
    match t {
        KT::Var(i) => vars[*i],
        KT::Const(c) => [k::Kind::Type, k::Kind::Constraint, k::Kind::Value, k::Kind::Macro, k::Kind::Satisfaction][*c],
        KT::Fun(a, r) => {
            let a = a.iter().map(|t| kbuild(ctx, vars, t)).collect();
            let r = kbuild(ctx, vars, r);
            ctx.new_fun(a, r)
        }
    }
}

fn kread(ctx: &mut k::Context, vars: &[k::Kind], t: k::Kind, depth: u32) -> KT {
    assert!(depth < 200, "an infinite kind was built");
    match ctx.resolve(t) {
        k::Kind::Var(v) => KT::Var(vars.iter().position(|w| *w == k::Kind::Var(v)).expect("a variable nobody created")),
        k::Kind::Type => KT::Const(0),
        k::Kind::Constraint => KT::Const(1),
        k::Kind::Value => KT::Const(2),
        k::Kind::Macro => KT::Const(3),
        k::Kind::Satisfaction => KT::Const(4),
        k::Kind::Fun(a, r) => {
            let a = a
                .iter()
                .map(|v| {
                    let t = ctx.resolve(v);
                    kread(ctx, vars, t, depth + 1)
                })
                .collect();
            let r = ctx.resolve(r);
            KT::Fun(a, Box::new(kread(ctx, vars, r, depth + 1)))
        }
    }
}

fn krename(all: &[KT]) -> Vec<KT> {
    let mut first = BTreeMap::new();
    for (i, t) in all.iter().enumerate() {
        if let KT::Var(j) = t {
            first.entry(*j).or_insert(i);
        }
    }
    fn go(t: &KT, m: &BTreeMap<usize, usize>) -> KT {
        match t {
            KT::Var(j) => KT::Var(m[j]),
            KT::Fun(a, r) => KT::Fun(a.iter().map(|t| go(t, m)).collect(), Box::new(go(r, m))),
            t => t.clone(),
        }
    }
    all.iter().map(|t| go(t, &first)).collect()
}

fn kdefault(t: &KT, d: &KT) -> KT {
    match t {
        KT::Var(_) => d.clone(),
        KT::Fun(a, r) => KT::Fun(a.iter().map(|t| kdefault(t, d)).collect(), Box::new(kdefault(r, d))),
        t => t.clone(),
    }
}

fn check_kinds(eqs: &[(&KT, &KT)]) -> Result<bool, String> {
    let n = 3;
    let mut ctx = k::Context::new();
    let vars: Vec<k::Kind> = (0..n).map(|_| ctx.new_var()).collect();
    let mut s = vec![None; n];
    for (e, (a, b)) in eqs.iter().enumerate() {
        let ok = ksolve(&mut s, a, b);
        let (ra, rb) = (kbuild(&mut ctx, &vars, a), kbuild(&mut ctx, &vars, b));
        match (ctx.unify(ra, rb), ok) {
            (Ok(()), true) => {}
            (Err(_), false) => return Ok(false),
            (Ok(()), false) => return Err(format!("equation {} is solved although it has no solution", e + 1)),
            (Err(x), true) => return Err(format!("equation {} is refused ({}) although it has a solution", e + 1, x)),
        }
        let want: Vec<KT> = krename(&(0..n).map(|i| kwalk(&s, &KT::Var(i))).collect::<Vec<_>>());
        let got: Vec<KT> = krename(&(0..n).map(|i| kread(&mut ctx, &vars, vars[i], 0)).collect::<Vec<_>>());
        if let Some(i) = (0..n).find(|i| want[*i] != got[*i]) {
            return Err(format!("after equation {}: ?{} becomes {} instead of {}", e + 1, i, kshow(&got[i]), kshow(&want[i])));
        }
    }
    // unknown parts default to one kind
    let d = k::Kind::Type;
    for (i, v) in vars.iter().enumerate() {
        ctx.default_vars(*v, d).map_err(|e| format!("defaulting ?{} fails: {}", i, e))?;
        let got = kread(&mut ctx, &vars, *v, 0);
        let want = kdefault(&kwalk(&s, &KT::Var(i)), &KT::Const(0));
        if got != want {
            return Err(format!("?{} defaults to {} instead of {}", i, kshow(&got), kshow(&want)));
        }
        let exported = ctx.export(*v, &mut ast::Ast);
        let back = ctx.import(&exported);
        if kread(&mut ctx, &vars, back, 0) != want {
            return Err(format!("{} does not survive being exported and imported", kshow(&want)));
        }
    }
    Ok(true)
}

#[allow(clippy::type_complexity)]
fn kinds(o: &Opts, _rep: &'static Report, note: &(dyn Fn(&dyn Fn() -> String, Result<Result<bool, String>, String>) -> bool + Sync), done: &dyn Fn(&str, u64, u64, &[(&str, u64)]), total: &AtomicU64, solved: &AtomicU64) {
    let atoms: Vec<KT> = (0..3).map(KT::Var).chain([KT::Const(0), KT::Const(1)]).collect();
    let mut flat = atoms.clone();
    flat.extend([KT::Const(2), KT::Const(3), KT::Const(4)]);
    for a in &atoms {
        for b in &atoms {
            flat.push(KT::Fun(vec![a.clone()], Box::new(b.clone())));
            for c in &atoms {
                flat.push(KT::Fun(vec![a.clone(), b.clone()], Box::new(c.clone())));
            }
        }
    }
    let small: Vec<KT> = (0..3).map(KT::Var).chain([KT::Const(0)]).collect();
    let mut mid = small.clone();
    for a in &small {
        for b in &small {
            mid.push(KT::Fun(vec![a.clone()], Box::new(b.clone())));
        }
        mid.push(KT::Fun(vec![a.clone(), KT::Var(0)], Box::new(KT::Var(1))));
    }
    let mut deep = flat.clone();
    for a in &mid {
        for b in &mid {
            deep.push(KT::Fun(vec![a.clone()], Box::new(b.clone())));
        }
        deep.push(KT::Fun(vec![KT::Var(0), a.clone(), KT::Const(0)], Box::new(KT::Var(2))));
    }
    let show = |e: &[(&KT, &KT)]| e.iter().map(|(a, b)| format!("{} = {}", kshow(a), kshow(b))).collect::<Vec<_>>().join("; ");
    for (part, terms, len) in [("kinds-one-equation", &deep, 1u32), ("kinds-two-equations", &mid, 2), ("kinds-three-equations", &small.iter().cloned().chain([mid[5].clone(), mid[8].clone(), mid[9].clone()]).collect::<Vec<_>>(), 3)] {
        let (t0, s0) = (total.load(SeqCst), solved.load(SeqCst));
        let eqs: Vec<(&KT, &KT)> = terms.iter().flat_map(|a| terms.iter().map(move |b| (a, b))).collect();
        let m = eqs.len() as u64;
        sweep(o.jobs, m.pow(len), |i| {
            let e: Vec<(&KT, &KT)> = (0..len).map(|j| eqs[(i / m.pow(j) % m) as usize]).collect();
            let desc = || format!("kinds {}", show(&e));
            note(&desc, guarded("", || check_kinds(&e)))
        });
        done(part, t0, s0, &[("equations", m)]);
    }
}
