//! The host's side of a plugin call: what swc keeps natively while the real wasm plugin runs on a serialized copy.
#[macro_use]
extern crate napi_derive;
use napi::bindgen_prelude::Buffer;
use serde_json::{json, Value};
use std::{cell::RefCell, collections::HashMap};
use swc_common::{
    comments::{Comment, Comments},
    plugin::serialized::{PluginError, PluginSerializedBytes, VersionedSerializable},
    source_map::PartialLoc, BytePos, Globals, GLOBALS,
};
use swc_ecma_ast::Program;

struct Session { lang: xform::Lang, globals: Globals, p: xform::Parsed, buffer: Vec<u8> }
thread_local!(static SESSIONS: RefCell<(u32, HashMap<u32, Session>)> = Default::default());

fn with<T>(h: u32, f: impl FnOnce(&mut Session) -> T) -> T {
    SESSIONS.with(|s| f(s.borrow_mut().1.get_mut(&h).expect("session")))
}
macro_rules! ser { ($v:expr) => { Buffer::from(PluginSerializedBytes::try_serialize(&VersionedSerializable::new($v)).expect("serialize").as_slice().to_vec()) } }

#[napi]
pub fn call(req: String) -> String { xform::call(&req) }

/// parses and resolves a program as the host does; {h, mark} or {err}
#[napi]
pub fn open(req: String) -> String {
    let v: Value = serde_json::from_str(&req).unwrap();
    let globals = Globals::new();
    let lang = xform::Lang::read(&v["lang"]);
    let p = GLOBALS.set(&globals, || xform::parse(v["code"].as_str().unwrap(), v["filename"].as_str().unwrap(), v["module"].as_bool().unwrap_or(false), &lang).map(|mut p| { xform::before(&lang, &mut p.program, p.unresolved, p.top); p }));
    match p {
        Err(e) => json!({ "err": e }).to_string(),
        Ok(p) => SESSIONS.with(|s| {
            let mut s = s.borrow_mut();
            s.0 += 1;
            let h = s.0;
            let mark = p.unresolved.as_u32();
            s.1.insert(h, Session { lang, globals, p, buffer: vec![] });
            json!({ "h": h, "mark": mark }).to_string()
        }),
    }
}
#[napi]
pub fn close(h: u32) { SESSIONS.with(|s| { s.borrow_mut().1.remove(&h); }) }

#[napi]
pub fn ast(h: u32) -> Buffer { with(h, |s| ser!(s.p.program.clone())) }

#[napi]
pub fn text(s: String) -> Buffer { ser!(s) }

#[napi]
pub fn lookup(h: u32, pos: u32, with_file: bool) -> Buffer {
    with(h, |s| {
        let l = s.p.cm.lookup_char_pos(BytePos(pos));
        ser!(PartialLoc { source_file: if with_file { Some(l.file) } else { None }, line: l.line, col: l.col.0, col_display: l.col_display })
    })
}

/// the other queries of a plugin's source map
#[napi]
pub fn span(h: u32, what: String, a: u32, b: u32) -> Buffer {
    use swc_common::{SourceMapper, Span};
    with(h, |s| {
        let sp = Span::new(BytePos(a), BytePos(b));
        match what.as_str() {
            "string" => ser!(s.p.cm.span_to_string(sp)),
            "filename" => ser!((*s.p.cm.span_to_filename(sp)).clone()),
            _ => ser!(s.p.cm.span_to_snippet(sp)),
        }
    })
}

#[napi]
pub fn comments(h: u32, what: String, pos: u32) -> Option<Buffer> {
    with(h, |s| {
        let (c, pos) = (&s.p.comments, BytePos(pos));
        match what.as_str() {
            "get_leading" => c.get_leading(pos),
            "get_trailing" => c.get_trailing(pos),
            "take_leading" => c.take_leading(pos),
            "take_trailing" => c.take_trailing(pos),
            _ => unreachable!(),
        }.map(|v| ser!(v))
    })
}
#[napi]
pub fn has_comments(h: u32, leading: bool, pos: u32) -> bool {
    with(h, |s| if leading { s.p.comments.has_leading(BytePos(pos)) } else { s.p.comments.has_trailing(BytePos(pos)) })
}
#[napi]
pub fn move_comments(h: u32, leading: bool, from: u32, to: u32) {
    with(h, |s| if leading { s.p.comments.move_leading(BytePos(from), BytePos(to)) } else { s.p.comments.move_trailing(BytePos(from), BytePos(to)) })
}
#[napi]
pub fn comment_buffer(h: u32, bytes: Buffer) { with(h, |s| s.buffer = bytes.to_vec()) }

#[napi]
pub fn add_comments(h: u32, leading: bool, many: bool, pos: u32) {
    with(h, |s| {
        let b = PluginSerializedBytes::from_slice(&s.buffer);
        let cs: Vec<Comment> = if many { b.deserialize().expect("comments").into_inner() } else { vec![b.deserialize().expect("comment").into_inner()] };
        for c in cs { if leading { s.p.comments.add_leading(BytePos(pos), c) } else { s.p.comments.add_trailing(BytePos(pos), c) } }
    })
}
/// a position that comments can be attached to and that is in no file
#[napi]
pub fn dummy(h: u32) -> u32 { with(h, |s| GLOBALS.set(&s.globals, || swc_common::Span::dummy_with_cmt().lo.0)) }

#[napi]
pub fn add_pure(h: u32, pos: u32) { with(h, |s| s.p.comments.add_pure_comment(BytePos(pos))) }

/// the plugin's answer: {code, debug}, {err}
#[napi]
pub fn finish(h: u32, ok: bool, bytes: Buffer) -> String {
    with(h, |s| {
        let b = PluginSerializedBytes::from_slice(&bytes);
        if !ok {
            return match b.deserialize::<PluginError>() {
                Ok(e) => json!({ "plugin_error": format!("{:?}", e.into_inner()) }),
                Err(e) => json!({ "err": format!("{e:#}") }),
            }.to_string();
        }
        let mut program: Program = match b.deserialize() { Ok(p) => p.into_inner(), Err(e) => return json!({ "err": format!("{e:#}") }).to_string() };
        match GLOBALS.set(&s.globals, || { xform::after(&s.lang, &mut program, &s.p.cm, &s.p.comments, s.p.unresolved, s.p.top); xform::print_map(&s.p.cm, &s.p.comments, program, true) }) {
            Ok(o) => json!({ "code": o.code, "debug": o.debug, "map": xform::map_hash(&o.map) }),
            Err(e) => json!({ "err": e }),
        }.to_string()
    })
}
