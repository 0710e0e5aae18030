//! One instrumentation: what a host does with one file.
use crate::seams::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use swc_core::{
    common::{comments::SingleThreadedComments, FileName, FilePathMapping, Globals, Mark, SourceMap, GLOBALS},
    ecma::{
        ast::*,
        codegen::{text_writer::JsWriter, Config, Emitter},
        parser::{lexer::Lexer, Parser, StringInput},
        transforms::base::{fixer::fixer, hygiene::hygiene, resolver},
        visit::VisitMutWith,
    },
};
use xform::{after, before, Lang};
use swc_coverage_instrument::{create_coverage_instrumentation_visitor, InstrumentOptions};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Job { pub code: String, pub filename: String, #[serde(default)] pub module: bool, #[serde(default)] pub options: serde_json::Value, #[serde(default)] pub entry: String, #[serde(default)] pub lang: serde_json::Value }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Res { Ok { code: String, debug: Vec<String> }, Unusable(String), Failed(String), Aborted }

fn go(j: &Job) -> Result<(String, Vec<String>), String> {
    let options: InstrumentOptions = serde_json::from_value(j.options.clone()).map_err(|e| format!("options: {e}"))?;
    let lang = Lang::read(&j.lang);
    GLOBALS.set(&Globals::new(), || {
        let cm = Arc::new(SourceMap::new(FilePathMapping::empty()));
        let comments = SingleThreadedComments::default();
        let fm = cm.new_source_file(FileName::Real(j.filename.clone().into()).into(), j.code.clone());
        let lexer = Lexer::new(lang.syntax(), EsVersion::EsNext, StringInput::from(&*fm), Some(&comments));
        let mut p = Parser::new_from(lexer);
        let mut program = if j.module { p.parse_module().map(Program::Module) } else { p.parse_script().map(Program::Script) }.map_err(|e| format!("parse: {e:?}"))?;
        let (unresolved, top) = (Mark::new(), Mark::new());
        program.mutate(&mut resolver(unresolved, top, lang.ts));
        before(&lang, &mut program, unresolved, top);
        let mut v = create_coverage_instrumentation_visitor(Arc::new(SimMap(cm.clone())), SimComments(comments.clone()), options, j.filename.clone());
        match (j.entry.as_str(), &mut program) {
            ("item", Program::Module(m)) => m.visit_mut_with(&mut v),
            ("item", Program::Script(s)) => s.visit_mut_with(&mut v),
            (_, p) => p.visit_mut_with(&mut v),
        }
        drop(v);
        after(&lang, &mut program, &cm, &comments, unresolved, top);
        program.mutate(&mut hygiene());
        program.mutate(&mut fixer(Some(&comments)));
        let mut buf = vec![];
        let wr = JsWriter::new(cm.clone(), "\n", &mut buf, None);
        Emitter { cfg: Config::default(), cm: cm.clone(), comments: Some(&comments), wr }.emit_program(&program).map_err(|e| format!("emit: {e}"))?;
        let mut debug = vec![];
        let (l, t) = comments.borrow_all();
        for m in [&*l, &*t] { for cs in m.values() { for c in cs { if let Some(x) = c.text.strip_prefix("__coverage_data_json_comment__::") { debug.push(x.to_string()) } } } }
        Ok((String::from_utf8(buf).map_err(|e| e.to_string())?, debug))
    })
}
pub fn run(j: &Job) -> Res {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| go(j))) {
        Ok(Ok((code, debug))) => Res::Ok { code, debug },
        Ok(Err(e)) => Res::Unusable(e),
        Err(p) if p.is::<HostFailure>() => Res::Aborted,
        Err(p) => Res::Failed(p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into())),
    }
}
