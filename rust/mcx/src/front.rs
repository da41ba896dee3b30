//! Runs the real front end (reader, preprocessor, semantic analysis) on small modules in-process.
use crate::common::*;
use llrl::ast;
use llrl::formatting::ContextualDisplay;
use llrl::module::{Error, External, Module, ModuleId};
use llrl::path::Path;
use llrl::preprocess::Preprocessor;
use llrl::sexp::Sexp;
use llrl::source::Source;
use llrl::source_loc::SourceLocationTable;
use std::collections::HashMap;
use std::sync::Arc;

pub struct Front {
    modules: Vec<Arc<Module>>,
    by_path: HashMap<Path, usize>,
}

pub struct Failure {
    pub error: Error,
    pub text: String,
}

pub enum Built {
    Ok(Module),
    /// rejected by the semantic analysis
    Rejected(Box<Failure>),
    /// rejected before that
    Unreadable(String),
    Crash(String),
}

impl External for Front {
    fn module(&self, mid: ModuleId) -> &Module {
        &self.modules[mid.as_index()]
    }
    fn find_module(&self, path: &Path) -> Option<&Module> {
        Some(&self.modules[*self.by_path.get(path)?])
    }
    fn execute_macro(&self, _: ast::NodeId<ast::Macro>, _: &Sexp) -> Result<Sexp, String> {
        Err("no macros here".into())
    }
}

impl Front {
    /// The builtin module and `modules`, each of which imports only earlier ones.
    pub fn new(modules: &[(&str, &str)]) -> Self {
        let mut f = Front { modules: vec![], by_path: HashMap::new() };
        f.add(Path::builtin(), &ast::builtin::module());
        for (p, text) in modules {
            f.add(p.parse().unwrap(), text);
        }
        f
    }
    pub fn add(&mut self, path: Path, text: &str) {
        match self.build(path.clone(), text) {
            Built::Ok(m) => {
                self.by_path.insert(path, self.modules.len());
                self.modules.push(Arc::new(m));
            }
            b => panic!("the base module {} is not accepted: {}", path, b.describe()),
        }
    }
    pub fn build(&self, path: Path, text: &str) -> Built {
        let r = guarded(text, || {
            let mut table = SourceLocationTable::new();
            let mut loc = table.begin_locate(&path);
            let mut s = Source::from_code_text(path.clone(), &mut loc, text);
            table.complete_locate(loc);
            s.preprocess(&Preprocessor::new());
            s.resolve_dependencies();
            if let Some(e) = s.errors.first() {
                return Built::Unreadable(format!("{:?}", e));
            }
            if let Some(p) = s.dependencies.values().find(|p| !self.by_path.contains_key(p)) {
                return Built::Unreadable(format!("no module {}", p));
            }
            match Module::build(ModuleId::from_index(self.modules.len()), &s, self) {
                Ok(m) => Built::Ok(m),
                Err(error) => {
                    // locations of other modules are not in this table
                    let text = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| error.fmt_on(&table).to_string())).unwrap_or_default();
                    Built::Rejected(Box::new(Failure { error, text }))
                }
            }
        });
        r.unwrap_or_else(Built::Crash)
    }
    pub fn check(&self, text: &str) -> Built {
        self.build(Path::current(), text)
    }
}

impl Built {
    pub fn describe(&self) -> String {
        match self {
            Built::Ok(_) => "accepted".into(),
            Built::Rejected(f) => format!("rejected: {}", f.text),
            Built::Unreadable(e) => format!("unreadable: {}", e),
            Built::Crash(e) => format!("the compiler crashes: {}", e),
        }
    }
}
