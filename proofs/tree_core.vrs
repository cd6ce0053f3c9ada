// ---------------------------------------------------------------- the tree behind a reader: layers of published maps
/// CONTRACT of the published map (decided by P08): a reader sees the last published state
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct MonoReadHandle<K, V> { x: Option<(K, V)> }
impl<K, V> View for MonoReadHandle<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> MonoReadHandle<K, V> {
    #[verifier::external_body]
    pub fn get_ref(&self, k: &K) -> (r: Option<&V>)
        ensures (r is Some) == self@.dom().contains(*k), r is Some ==> *r->0 == self@[*k] { unimplemented!() }
}
//@ struct goko/src/covertree/tree.rs PartitionType
//@ attr #[derive(Clone, Copy)]
//@ end
//@ struct goko/src/covertree/tree.rs CoverTreeParameters
//@ end
//@ struct goko/src/covertree/layer.rs CoverLayerReader
//@ end
//@ struct goko/src/covertree/tree.rs CoverTreeReader
//@ end
/// the layer that holds the nodes of a scale: layer 0 holds everything below the minimum resolution
pub open spec fn layer_of(min_res: int, s: int) -> int { if s < min_res { 0 } else { s - min_res + 1 } }
impl<D: PointCloud> CoverTreeParameters<D> {
//@ fn goko/src/covertree/tree.rs CoverTreeParameters::internal_index
//@ spec
    requires scale_index - self.min_res_index + 1 <= i32::MAX,
    ensures res == layer_of(self.min_res_index as int, scale_index as int),
//@ end
}
impl<D: PointCloud> CoverLayerReader<D> {
//@ fn goko/src/covertree/layer.rs CoverLayerReader::get_node_and
//@ name get_node_ref
//@ sig
pub fn get_node_ref(&self, pi: usize) -> (res: Option<&CoverNode<D>>)
//@ subst f (n) => n
//@ spec
    ensures (res is Some) == self.node_reader@.dom().contains(pi), res is Some ==> *res->0 == self.node_reader@[pi],
//@ end
}
impl<D: PointCloud> CoverTreeReader<D> {
    /// an address whose layer exists
    pub open spec fn known(&self, a: NodeAddress) -> bool {
        self.parameters.min_res_index - 1 <= a.0 && a.0 - self.parameters.min_res_index + 1 <= i32::MAX && layer_of(self.parameters.min_res_index as int, a.0 as int) < self.layers@.len()
    }
    /// the node at an address, as the reader sees it
    pub open spec fn lookup(&self, a: NodeAddress) -> Option<CoverNode<D>> {
        if self.known(a) && self.layers@[layer_of(self.parameters.min_res_index as int, a.0 as int)].node_reader@.dom().contains(a.1) { Some(self.layers@[layer_of(self.parameters.min_res_index as int, a.0 as int)].node_reader@[a.1]) } else { None }
    }
//@ fn goko/src/covertree/tree.rs CoverTreeReader::get_node_and
//@ name get_node_ref
//@ sig
pub fn get_node_ref(&self, node_address: (i32, usize)) -> (res: Option<&CoverNode<D>>)
//@ subst f (n) => n
//@ spec
    requires self.known(node_address),
    ensures res == (match self.lookup(node_address) { Some(n) => Some(&n), None => None::<&CoverNode<D>> }),
//@ end
//@ fn goko/src/covertree/tree.rs CoverTreeReader::root_address
//@ spec
    ensures res == self.root_address
//@ end
}
