// The engine, as far as compiling uses it
verus! {
// what the engine holds besides the delimiters does not matter here
#[verifier::external_body]
struct Opaque { x: u8 }
#[verifier::external_body]
struct OpaqueT<'a> { x: PhantomData<&'a u8> }
//@item src/lib.rs Engine
//@sub `EngineBoxFn` => `Opaque`
//@sub `FormatFn` => `Opaque`
//@sub `Cow < 'engine , str >` => `&'engine str`
//@sub `program :: Template` => `OpaqueT`
//@end
} // verus!
