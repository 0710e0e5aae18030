//! In-process native deployment of the instrumenter: parse -> resolver -> instrument -> hygiene -> fixer -> codegen.
use std::sync::Arc;
use serde_json::{json, Value};
use swc_core::{
    common::{comments::SingleThreadedComments, FileName, FilePathMapping, Globals, Mark, SourceMap, GLOBALS},
    ecma::{
        ast::*,
        codegen::{text_writer::JsWriter, Config, Emitter},
        parser::{lexer::Lexer, EsSyntax, Parser, StringInput, Syntax, TsSyntax},
        transforms::{base::{fixer::fixer, hygiene::hygiene, resolver}, react, typescript::{typescript, Config as TsConfig}},
        visit::VisitMutWith,
    },
};
use swc_coverage_instrument::{create_coverage_instrumentation_visitor, InstrumentOptions};

/// Language of a file. `first`: the plugin runs before the types are removed (`experimental.runPluginFirst`).
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Lang { pub ts: bool, pub jsx: bool, pub first: bool }
impl Lang {
    pub fn read(v: &Value) -> Lang { Lang { ts: v["ts"].as_bool().unwrap_or(false), jsx: v["jsx"].as_bool().unwrap_or(false), first: v["first"].as_bool().unwrap_or(false) } }
    pub fn syntax(&self) -> Syntax {
        if self.ts { Syntax::Typescript(TsSyntax { tsx: self.jsx, decorators: true, ..Default::default() }) } else { Syntax::Es(EsSyntax { jsx: self.jsx, decorators: true, ..Default::default() }) }
    }
}

pub struct Req { pub lang: Lang, pub code: String, pub filename: String, pub is_module: bool, pub options: InstrumentOptions, pub entry: String, pub instrument: bool, pub comments: bool, pub instrumented_as: String, pub map: bool }

/// `map`: line and column of the output, line and column of the source
pub struct Out { pub code: String, pub debug: Vec<String>, pub map: Vec<[u32; 4]> }

pub struct Parsed { pub cm: Arc<SourceMap>, pub comments: SingleThreadedComments, pub program: Program, pub unresolved: Mark, pub top: Mark }

/// Call with GLOBALS set.
pub fn parse(code: &str, filename: &str, is_module: bool, lang: &Lang) -> Result<Parsed, String> {
    let cm = Arc::new(SourceMap::new(FilePathMapping::empty()));
    let comments = SingleThreadedComments::default();
    let fm = cm.new_source_file(FileName::Real(filename.into()).into(), code.to_string());
    let lexer = Lexer::new(
        lang.syntax(),
        EsVersion::EsNext,
        StringInput::from(&*fm),
        Some(&comments),
    );
    let mut p = Parser::new_from(lexer);
    let mut program = if is_module { p.parse_module().map(Program::Module) } else { p.parse_script().map(Program::Script) }
        .map_err(|e| format!("parse: {:?}", e))?;
    let unresolved = Mark::new();
    let top = Mark::new();
    program.mutate(&mut resolver(unresolved, top, lang.ts));
    Ok(Parsed { cm, comments, program, unresolved, top })
}

/// What swc does to the dialects of the language, in its order: before the plugin ...
pub fn before(lang: &Lang, program: &mut Program, unresolved: Mark, top: Mark) { if lang.ts && !lang.first { types(program, unresolved, top) } }
/// ... and after it.
pub fn after(lang: &Lang, program: &mut Program, cm: &Arc<SourceMap>, comments: &SingleThreadedComments, unresolved: Mark, top: Mark) {
    if lang.ts && lang.first { types(program, unresolved, top) }
    if lang.jsx {
        program.mutate(&mut react::react(cm.clone(), Some(comments.clone()), react::Options { runtime: Some(react::Runtime::Classic), pragma: Some("hj".to_string().into()), ..Default::default() }, top, unresolved));
    }
}
fn types(program: &mut Program, unresolved: Mark, top: Mark) {
    program.mutate(&mut typescript(TsConfig { verbatim_module_syntax: true, native_class_properties: true, ..Default::default() }, unresolved, top));
}

pub fn print(cm: &Arc<SourceMap>, comments: &SingleThreadedComments, program: Program) -> Result<Out, String> { print_map(cm, comments, program, false) }
pub fn print_map(cm: &Arc<SourceMap>, comments: &SingleThreadedComments, mut program: Program, want: bool) -> Result<Out, String> {
    program.mutate(&mut hygiene());
    program.mutate(&mut fixer(Some(comments)));
    let mut buf = vec![];
    let mut raw = vec![];
    {
        let wr = JsWriter::new(cm.clone(), "\n", &mut buf, if want { Some(&mut raw) } else { None });
        let mut em = Emitter { cfg: Config::default(), cm: cm.clone(), comments: Some(comments), wr };
        em.emit_program(&program).map_err(|e| format!("emit: {e}"))?;
    }
    // the initial record, handed to the host as a comment attached to the output program
    let mut debug = vec![];
    let (l, t) = comments.borrow_all();
    for m in [&*l, &*t] { for cs in m.values() { for c in cs {
        if let Some(x) = c.text.strip_prefix("__coverage_data_json_comment__::") { debug.push(x.to_string()) }
    } } }
    drop((l, t));
    let mut code = String::from_utf8(buf).map_err(|e| e.to_string())?;
    // the host prints such comments: they are part of the code, and end where comments end
    if debug.is_empty() { for x in code.split("/*__coverage_data_json_comment__::").skip(1) { debug.push(x.to_string()) } }
    else { for x in &debug { code.push_str(&format!("\n/*__coverage_data_json_comment__::{x}*/\n")) } }
    for x in &mut debug { if let Some(i) = x.find("*/") { x.truncate(i) } }
    let end = cm.files().last().map(|f| f.end_pos).unwrap_or_default();
    let mut map = vec![];
    for (p, g) in raw {
        if p.0 == 0 || p > end { continue; } // nowhere
        let l = cm.lookup_char_pos(p);
        map.push([g.line, g.col, l.line as u32, l.col.0 as u32]);
    }
    Ok(Out { code, debug, map })
}

/// all places of a map as one number
pub fn map_hash(map: &[[u32; 4]]) -> String { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); map.hash(&mut h); format!("{:x}", h.finish()) }

pub fn transform(r: &Req) -> Result<Out, String> {
    let globals = Globals::new();
    GLOBALS.set(&globals, || {
        let Parsed { cm, comments, mut program, unresolved, top } = parse(&r.code, &r.filename, r.is_module, &r.lang)?;
        before(&r.lang, &mut program, unresolved, top);
        if r.instrument {
            let seen = if r.comments { Some(comments.clone()) } else { None };
            let mut v = create_coverage_instrumentation_visitor(cm.clone(), seen, r.options.clone(), r.instrumented_as.clone());
            match r.entry.as_str() {
                // what the custom-transform/plugin pass does: the program itself is visited
                "program" => program.visit_mut_with(&mut v),
                // visitors that enter below the program node
                _ => match &mut program {
                    Program::Module(m) => m.visit_mut_with(&mut v),
                    Program::Script(s) => s.visit_mut_with(&mut v),
                },
            }
        }
        after(&r.lang, &mut program, &cm, &comments, unresolved, top);
        print_map(&cm, &comments, program, r.map)
    })
}

pub fn call(req: &str) -> String {
    let v: Value = match serde_json::from_str(req) { Ok(v) => v, Err(e) => return json!({"err": e.to_string()}).to_string() };
    let options: InstrumentOptions = match serde_json::from_value(v.get("options").cloned().unwrap_or(json!({}))) {
        Ok(o) => o, Err(e) => return json!({"err": format!("options: {e}")}).to_string() };
    let r = Req {
        lang: Lang::read(&v["lang"]),
        code: v["code"].as_str().unwrap_or("").into(),
        filename: v["filename"].as_str().unwrap_or("a.js").into(),
        is_module: v["module"].as_bool().unwrap_or(false),
        instrument: v["instrument"].as_bool().unwrap_or(true),
        entry: v["entry"].as_str().unwrap_or("program").into(),
        comments: v["comments"].as_bool().unwrap_or(true),
        instrumented_as: v["as"].as_str().or(v["filename"].as_str()).unwrap_or("a.js").into(),
        map: v["map"] == true || v["map"] == "hash",
        options,
    };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| transform(&r)));
    match res {
        Ok(Ok(o)) => if v["map"] == "hash" { json!({"code": o.code, "debug": o.debug, "map": map_hash(&o.map)}) } else if r.map { json!({"code": o.code, "debug": o.debug, "map": o.map}) } else { json!({"code": o.code, "debug": o.debug}) },
        Ok(Err(e)) => json!({"err": e}),
        Err(p) => json!({"panic": p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into())}),
    }.to_string()
}
