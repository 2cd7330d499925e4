//@include text.vrs
verus! {
#[verifier::external_body]
struct Error { x: u8 }
impl Error { uninterp spec fn v(&self) -> EV; }
type Result<T> = std::result::Result<T, Error>;
spec fn err_at<T>(r: Result<T>, k: EK, src: Seq<u8>, sp: Span) -> bool {
    r is Err && r->Err_0.v() == ev(k, src, sp)
}
spec fn errk<T>(r: Result<T>, k: EK) -> bool { r is Err && r->Err_0.v().kind == k }

impl Error {
    // The real constructors slice the source by the span (error.rs, proved in error.vrs), so the
    // span must lie in the source on character boundaries.
    #[verifier::external_body]
    fn render<R>(reason: R, source: &str, span: Span) -> (r: Error)
        requires span_ok(bs(source), span)
        ensures r.v() == ev(EK::Render, bs(source), span)
    { unimplemented!() }
    #[verifier::external_body]
    fn syntax<R>(reason: R, source: &str, span: Span) -> (r: Error)
        requires span_ok(bs(source), span)
        ensures r.v() == ev(EK::Syntax, bs(source), span)
    { unimplemented!() }
}
} // verus!
