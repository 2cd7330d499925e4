// TRUSTED: a BTreeMap yields its entries once each, in ascending key order
uninterp spec fn map_items(m: BTreeMap<String, Value>) -> Seq<(String, Value)>;
spec fn bytes_lt(a: Seq<u8>, b: Seq<u8>) -> bool decreases a.len() {
    b.len() > 0 && (a.len() == 0 || a[0] < b[0] || (a[0] == b[0] && bytes_lt(a.skip(1), b.skip(1))))
}
#[verifier::external_body]
proof fn ax_map_items(m: BTreeMap<String, Value>)
    ensures map_items(m).len() == map_len(m),
        forall|i: int, j: int| 0 <= i < j < map_items(m).len() ==> bytes_lt(sbytes(#[trigger] map_items(m)[i].0), sbytes(#[trigger] map_items(m)[j].0)),
        forall|i: int| 0 <= i < map_items(m).len() ==> map_get(m, sbytes(#[trigger] map_items(m)[i].0)) == Some(map_items(m)[i].1),
        forall|k: Seq<u8>| #[trigger] map_get(m, k) is Some ==> exists|i: int| 0 <= i < map_items(m).len() && sbytes(map_items(m)[i].0) == k,
{}
