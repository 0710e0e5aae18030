//! The seams between the instrumenter and its host: comments, source map, tracing, randomness and wall clock.
//! Every crossing hands control to the scheduler of the simulation.
use crate::sched;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;
use swc_core::common::{
    comments::{Comment, Comments, SingleThreadedComments},
    errors::SourceMapper,
    source_map::{FileLinesResult, SpanSnippetError},
    sync::Lrc,
    BytePos, FileName, Loc, SourceMap, Span,
};

pub struct HostFailure;

#[derive(Clone)]
pub struct SimComments(pub SingleThreadedComments);
impl Comments for SimComments {
    fn add_leading(&self, p: BytePos, c: Comment) { sched::host(); self.0.add_leading(p, c) }
    fn add_leading_comments(&self, p: BytePos, c: Vec<Comment>) { sched::host(); self.0.add_leading_comments(p, c) }
    fn has_leading(&self, p: BytePos) -> bool { sched::host(); self.0.has_leading(p) }
    fn move_leading(&self, a: BytePos, b: BytePos) { sched::host(); self.0.move_leading(a, b) }
    fn take_leading(&self, p: BytePos) -> Option<Vec<Comment>> { sched::host(); self.0.take_leading(p) }
    fn get_leading(&self, p: BytePos) -> Option<Vec<Comment>> { sched::host(); self.0.get_leading(p) }
    fn add_trailing(&self, p: BytePos, c: Comment) { sched::host(); self.0.add_trailing(p, c) }
    fn add_trailing_comments(&self, p: BytePos, c: Vec<Comment>) { sched::host(); self.0.add_trailing_comments(p, c) }
    fn has_trailing(&self, p: BytePos) -> bool { sched::host(); self.0.has_trailing(p) }
    fn move_trailing(&self, a: BytePos, b: BytePos) { sched::host(); self.0.move_trailing(a, b) }
    fn take_trailing(&self, p: BytePos) -> Option<Vec<Comment>> { sched::host(); self.0.take_trailing(p) }
    fn get_trailing(&self, p: BytePos) -> Option<Vec<Comment>> { sched::host(); self.0.get_trailing(p) }
    fn add_pure_comment(&self, p: BytePos) { sched::host(); self.0.add_pure_comment(p) }
}
pub struct SimMap(pub Arc<SourceMap>);
impl SourceMapper for SimMap {
    fn lookup_char_pos(&self, p: BytePos) -> Loc { sched::host(); self.0.lookup_char_pos(p) }
    fn span_to_lines(&self, s: Span) -> FileLinesResult { sched::host(); self.0.span_to_lines(s) }
    fn span_to_string(&self, s: Span) -> String { sched::host(); self.0.span_to_string(s) }
    fn span_to_filename(&self, s: Span) -> Lrc<FileName> { sched::host(); self.0.span_to_filename(s) }
    fn merge_spans(&self, a: Span, b: Span) -> Option<Span> { sched::host(); self.0.merge_spans(a, b) }
    fn call_span_if_macro(&self, s: Span) -> Span { sched::host(); s }
    fn doctest_offset_line(&self, l: usize) -> usize { sched::host(); l }
    fn span_to_snippet(&self, s: Span) -> Result<String, Box<SpanSnippetError>> { sched::host(); self.0.span_to_snippet(s) }
}
/// every visitor method of the instrumenter opens a span
pub struct SimTracing;
impl tracing_core::Subscriber for SimTracing {
    fn enabled(&self, _: &tracing_core::Metadata<'_>) -> bool { true }
    fn new_span(&self, _: &tracing_core::span::Attributes<'_>) -> tracing_core::span::Id { tracing_core::span::Id::from_u64(1) }
    fn record(&self, _: &tracing_core::span::Id, _: &tracing_core::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing_core::span::Id, _: &tracing_core::span::Id) {}
    fn event(&self, _: &tracing_core::Event<'_>) {}
    fn enter(&self, _: &tracing_core::span::Id) { sched::step() }
    fn exit(&self, _: &tracing_core::span::Id) { if !std::thread::panicking() { sched::step() } }
}

// Randomness (hash seeds of the standard library) and the clocks of the simulated threads come from the simulation.
pub static RANDOM: AtomicU64 = AtomicU64::new(1);
pub static RANDOM_READS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_JUMP: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    RANDOM_READS.fetch_add(1, Relaxed);
    for i in 0..len { let s = RANDOM.fetch_add(0x9e3779b97f4a7c15, Relaxed); *buf.add(i) = (crate::choices::mix(s, i as u64) >> 24) as u8; }
    len as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if sched::simulated() {
        CLOCK_READS.fetch_add(1, Relaxed);
        let j = CLOCK_JUMP.load(Relaxed);
        let t = CLOCK.fetch_add(j.wrapping_mul(j), Relaxed);
        (*ts).tv_sec = 1_700_000_000 + (t / 1000 % 1_000_000_000) as i64; (*ts).tv_nsec = ((t % 1000) * 1_000_000) as i64;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as i32
}
