// Instruments JavaScript with the tree in /repo. stdin: JSON lines {code, filename, module, options}; stdout: JSON lines {code, debug} or {err}
use serde_json::{json, Value};
use std::{io::BufRead, sync::Arc};
use swc_core::{
    common::{comments::SingleThreadedComments, FileName, FilePathMapping, Globals, Mark, SourceMap, GLOBALS},
    ecma::{
        ast::*,
        codegen::{text_writer::JsWriter, Config, Emitter},
        parser::{lexer::Lexer, EsSyntax, Parser, StringInput, Syntax},
        transforms::base::{fixer::fixer, hygiene::hygiene, resolver},
        visit::VisitMutWith,
    },
};
use swc_coverage_instrument::create_coverage_instrumentation_visitor;

fn go(v: &Value) -> Value {
    GLOBALS.set(&Globals::new(), || {
        let cm = Arc::new(SourceMap::new(FilePathMapping::empty()));
        let comments = SingleThreadedComments::default();
        let name = v["filename"].as_str().unwrap_or("a.js").to_string();
        let fm = cm.new_source_file(FileName::Real(name.clone().into()).into(), v["code"].as_str().unwrap().to_string());
        let lexer = Lexer::new(Syntax::Es(EsSyntax::default()), EsVersion::EsNext, StringInput::from(&*fm), Some(&comments));
        let mut p = Parser::new_from(lexer);
        let mut program = if v["module"].as_bool().unwrap_or(false) { Program::Module(p.parse_module().unwrap()) } else { Program::Script(p.parse_script().unwrap()) };
        program.mutate(&mut resolver(Mark::new(), Mark::new(), false));
        let options = serde_json::from_value(v.get("options").cloned().unwrap_or(json!({}))).unwrap();
        program.visit_mut_with(&mut create_coverage_instrumentation_visitor(cm.clone(), comments.clone(), options, name));
        program.mutate(&mut hygiene());
        program.mutate(&mut fixer(Some(&comments)));
        let (mut buf, mut raw) = (vec![], vec![]);
        Emitter { cfg: Config::default(), cm: cm.clone(), comments: Some(&comments), wr: JsWriter::new(cm.clone(), "\n", &mut buf, if v["map"] == true { Some(&mut raw) } else { None }) }.emit_program(&program).unwrap();
        let mut debug = vec![];
        let (l, t) = comments.borrow_all();
        for m in [&*l, &*t] { for cs in m.values() { for c in cs { if let Some(x) = c.text.strip_prefix("__coverage_data_json_comment__::") { debug.push(x.to_string()) } } } }
        // line and column of the output, line and column of the source
        let map: Vec<_> = raw.into_iter().filter(|(p, _)| p.0 > 0 && *p <= fm.end_pos).map(|(p, g)| { let l = cm.lookup_char_pos(p); [g.line as usize + 1, g.col as usize + 1, l.line, l.col.0 + 1] }).collect();
        json!({"map": map, "code": String::from_utf8(buf).unwrap(), "debug": debug})
    })
}
fn main() {
    for l in std::io::stdin().lock().lines() {
        let v: Value = serde_json::from_str(&l.unwrap()).unwrap();
        let r = std::panic::catch_unwind(|| go(&v)).unwrap_or(json!({"err": "panic"}));
        println!("{r}");
    }
}
