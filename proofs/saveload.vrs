//@ include prelude.vrs
//@ include coll.vrs
// =====================================================================================
// UNIT saveload: encoding a tree and reading it back
// =====================================================================================
//@ gsubst SmallVec < [NodeAddress; 10] > => Vec < NodeAddress >
//@ gsubst SmallVec < [usize; 20] > => Vec < usize >
//@ gsubst SmallVec::new => Vec::new
//@ gsubst atomic::AtomicUsize => Counter
//@ gsubst RwLock < TreePluginSet > => Opaque
//@ gsubst Arc < CoverTreeParameters < D > > => CoverTreeParameters < D >
//@ gsubst Arc < D > => D
//@ gsubst NodePluginSet => Opaque
//@ gsubst PhantomData < D > => Ghost < Option < D > >
//@ gsubst ::protobuf::UnknownFields => Opaque
//@ gsubst ::protobuf::CachedSize => Opaque
//@ gsubst ::protobuf::RepeatedField < NodeProto > => Vec < NodeProto >
//@ gsubst ::protobuf::RepeatedField < LayerProto > => Vec < LayerProto >
//@ gsubst ::protobuf::RepeatedField => Vec
//@ gsubst ::std::string::String => String
//@ gsubst ::std::vec::Vec => Vec
//@ gsubst ::std::collections::HashMap => HashMap
//@ gsubst std::i32::MIN => i32::MIN
//@ gsubst std::u64::MAX => u64::MAX
//@ gsubst ::std::mem::replace => std::mem::replace
global size_of usize == 8;
pub type NodeAddress = (i32, usize);
#[verifier::external_body] pub struct Opaque { x: usize }
impl Opaque { #[verifier::external_body] pub fn new() -> Opaque { unimplemented!() } }
#[verifier::external_body] pub struct Counter { x: usize }
impl Counter { #[verifier::external_body] pub fn new(n: usize) -> Counter { unimplemented!() } }
#[verifier::external_body] pub struct GokoError { x: usize }
#[verifier::external] impl std::fmt::Debug for GokoError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
pub type GokoResult<T> = Result<T, GokoError>;
pub type PointCloudResult<T> = Result<T, GokoError>;
pub uninterp spec fn valid(i: usize) -> bool;
#[verifier::external_body] pub struct Name { x: usize }
impl Name { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
/// shared ownership read as the value
pub struct Arc;
impl Arc { pub fn new<T>(x: T) -> (r: T) ensures r == x { x } }
pub trait PointCloud: Sized {
    fn dim(&self) -> usize;
    fn len(&self) -> usize;
    fn name(&self, i: usize) -> (r: PointCloudResult<Name>) ensures valid(i) ==> r is Ok;
}
broadcast use {fl::ax_mk, fl::ax_mk2};
/// TRUSTED: std
pub assume_specification<T> [std::mem::replace] (d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s;
/// TRUSTED: text literals
#[verifier::external_body] pub fn vstr(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn str_is(s: &String, l: &str) -> (r: bool) ensures r == (s@ == l@) { unimplemented!() }
// ---------------------------------------------------------------- the generated messages
//@ struct goko/src/tree_file_format.rs NodeProto
//@ end
//@ struct goko/src/tree_file_format.rs LayerProto
//@ end
//@ struct goko/src/tree_file_format.rs CoreProto
//@ end
impl NodeProto {
    /// the derived default: a message with every field at its zero value
    #[verifier::external_body] pub fn new() -> NodeProto { unimplemented!() }
//@ fn goko/src/tree_file_format.rs NodeProto::get_coverage_count
//@ spec
    ensures res == self.coverage_count
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::get_center_index
//@ spec
    ensures res == self.center_index
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::get_scale_index
//@ spec
    ensures res == self.scale_index
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::get_parent_center_index
//@ spec
    ensures res == self.parent_center_index
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::get_parent_scale_index
//@ spec
    ensures res == self.parent_scale_index
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::get_is_leaf
//@ spec
    ensures res == self.is_leaf
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::get_nested_scale_index
//@ spec
    ensures res == self.nested_scale_index
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::get_radius
//@ spec
    ensures res == self.radius
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::get_children_point_indexes
//@ subst & self . children_point_indexes => self . children_point_indexes . as_slice ( )
//@ spec
    ensures res@ == self.children_point_indexes@
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::get_children_scale_indexes
//@ subst & self . children_scale_indexes => self . children_scale_indexes . as_slice ( )
//@ spec
    ensures res@ == self.children_scale_indexes@
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::set_coverage_count
//@ spec
    ensures final(self).coverage_count == v, final(self).center_index == old(self).center_index, final(self).scale_index == old(self).scale_index, final(self).parent_center_index == old(self).parent_center_index, final(self).parent_scale_index == old(self).parent_scale_index, final(self).is_leaf == old(self).is_leaf, final(self).children_point_indexes == old(self).children_point_indexes, final(self).children_scale_indexes == old(self).children_scale_indexes, final(self).nested_scale_index == old(self).nested_scale_index, final(self).outlier_point_indexes == old(self).outlier_point_indexes, final(self).radius == old(self).radius,
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::set_center_index
//@ spec
    ensures final(self).center_index == v, final(self).coverage_count == old(self).coverage_count, final(self).scale_index == old(self).scale_index, final(self).parent_center_index == old(self).parent_center_index, final(self).parent_scale_index == old(self).parent_scale_index, final(self).is_leaf == old(self).is_leaf, final(self).children_point_indexes == old(self).children_point_indexes, final(self).children_scale_indexes == old(self).children_scale_indexes, final(self).nested_scale_index == old(self).nested_scale_index, final(self).outlier_point_indexes == old(self).outlier_point_indexes, final(self).radius == old(self).radius,
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::set_scale_index
//@ spec
    ensures final(self).scale_index == v, final(self).coverage_count == old(self).coverage_count, final(self).center_index == old(self).center_index, final(self).parent_center_index == old(self).parent_center_index, final(self).parent_scale_index == old(self).parent_scale_index, final(self).is_leaf == old(self).is_leaf, final(self).children_point_indexes == old(self).children_point_indexes, final(self).children_scale_indexes == old(self).children_scale_indexes, final(self).nested_scale_index == old(self).nested_scale_index, final(self).outlier_point_indexes == old(self).outlier_point_indexes, final(self).radius == old(self).radius,
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::set_parent_center_index
//@ spec
    ensures final(self).parent_center_index == v, final(self).coverage_count == old(self).coverage_count, final(self).center_index == old(self).center_index, final(self).scale_index == old(self).scale_index, final(self).parent_scale_index == old(self).parent_scale_index, final(self).is_leaf == old(self).is_leaf, final(self).children_point_indexes == old(self).children_point_indexes, final(self).children_scale_indexes == old(self).children_scale_indexes, final(self).nested_scale_index == old(self).nested_scale_index, final(self).outlier_point_indexes == old(self).outlier_point_indexes, final(self).radius == old(self).radius,
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::set_parent_scale_index
//@ spec
    ensures final(self).parent_scale_index == v, final(self).coverage_count == old(self).coverage_count, final(self).center_index == old(self).center_index, final(self).scale_index == old(self).scale_index, final(self).parent_center_index == old(self).parent_center_index, final(self).is_leaf == old(self).is_leaf, final(self).children_point_indexes == old(self).children_point_indexes, final(self).children_scale_indexes == old(self).children_scale_indexes, final(self).nested_scale_index == old(self).nested_scale_index, final(self).outlier_point_indexes == old(self).outlier_point_indexes, final(self).radius == old(self).radius,
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::set_is_leaf
//@ spec
    ensures final(self).is_leaf == v, final(self).coverage_count == old(self).coverage_count, final(self).center_index == old(self).center_index, final(self).scale_index == old(self).scale_index, final(self).parent_center_index == old(self).parent_center_index, final(self).parent_scale_index == old(self).parent_scale_index, final(self).children_point_indexes == old(self).children_point_indexes, final(self).children_scale_indexes == old(self).children_scale_indexes, final(self).nested_scale_index == old(self).nested_scale_index, final(self).outlier_point_indexes == old(self).outlier_point_indexes, final(self).radius == old(self).radius,
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::set_children_point_indexes
//@ spec
    ensures final(self).children_point_indexes == v, final(self).coverage_count == old(self).coverage_count, final(self).center_index == old(self).center_index, final(self).scale_index == old(self).scale_index, final(self).parent_center_index == old(self).parent_center_index, final(self).parent_scale_index == old(self).parent_scale_index, final(self).is_leaf == old(self).is_leaf, final(self).children_scale_indexes == old(self).children_scale_indexes, final(self).nested_scale_index == old(self).nested_scale_index, final(self).outlier_point_indexes == old(self).outlier_point_indexes, final(self).radius == old(self).radius,
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::set_children_scale_indexes
//@ spec
    ensures final(self).children_scale_indexes == v, final(self).coverage_count == old(self).coverage_count, final(self).center_index == old(self).center_index, final(self).scale_index == old(self).scale_index, final(self).parent_center_index == old(self).parent_center_index, final(self).parent_scale_index == old(self).parent_scale_index, final(self).is_leaf == old(self).is_leaf, final(self).children_point_indexes == old(self).children_point_indexes, final(self).nested_scale_index == old(self).nested_scale_index, final(self).outlier_point_indexes == old(self).outlier_point_indexes, final(self).radius == old(self).radius,
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::set_nested_scale_index
//@ spec
    ensures final(self).nested_scale_index == v, final(self).coverage_count == old(self).coverage_count, final(self).center_index == old(self).center_index, final(self).scale_index == old(self).scale_index, final(self).parent_center_index == old(self).parent_center_index, final(self).parent_scale_index == old(self).parent_scale_index, final(self).is_leaf == old(self).is_leaf, final(self).children_point_indexes == old(self).children_point_indexes, final(self).children_scale_indexes == old(self).children_scale_indexes, final(self).outlier_point_indexes == old(self).outlier_point_indexes, final(self).radius == old(self).radius,
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::set_outlier_point_indexes
//@ spec
    ensures final(self).outlier_point_indexes == v, final(self).coverage_count == old(self).coverage_count, final(self).center_index == old(self).center_index, final(self).scale_index == old(self).scale_index, final(self).parent_center_index == old(self).parent_center_index, final(self).parent_scale_index == old(self).parent_scale_index, final(self).is_leaf == old(self).is_leaf, final(self).children_point_indexes == old(self).children_point_indexes, final(self).children_scale_indexes == old(self).children_scale_indexes, final(self).nested_scale_index == old(self).nested_scale_index, final(self).radius == old(self).radius,
//@ end
//@ fn goko/src/tree_file_format.rs NodeProto::set_radius
//@ spec
    ensures final(self).radius == v, final(self).coverage_count == old(self).coverage_count, final(self).center_index == old(self).center_index, final(self).scale_index == old(self).scale_index, final(self).parent_center_index == old(self).parent_center_index, final(self).parent_scale_index == old(self).parent_scale_index, final(self).is_leaf == old(self).is_leaf, final(self).children_point_indexes == old(self).children_point_indexes, final(self).children_scale_indexes == old(self).children_scale_indexes, final(self).nested_scale_index == old(self).nested_scale_index, final(self).outlier_point_indexes == old(self).outlier_point_indexes,
//@ end
}
impl LayerProto {
    #[verifier::external_body] pub fn new() -> (r: LayerProto) ensures r.nodes@.len() == 0 { unimplemented!() }
//@ fn goko/src/tree_file_format.rs LayerProto::get_scale_index
//@ spec
    ensures res == self.scale_index
//@ end
//@ fn goko/src/tree_file_format.rs LayerProto::get_nodes
//@ subst & self . nodes => self . nodes . as_slice ( )
//@ spec
    ensures res@ == self.nodes@
//@ end
//@ fn goko/src/tree_file_format.rs LayerProto::set_scale_index
//@ spec
    ensures final(self).scale_index == v, final(self).nodes == old(self).nodes,
//@ end
//@ fn goko/src/tree_file_format.rs LayerProto::set_nodes
//@ spec
    ensures final(self).nodes == v, final(self).scale_index == old(self).scale_index,
//@ end
//@ fn goko/src/tree_file_format.rs LayerProto::take_nodes
//@ spec
    ensures res == old(self).nodes, final(self).scale_index == old(self).scale_index,
//@ end
}
impl CoreProto {
    #[verifier::external_body] pub fn new() -> CoreProto { unimplemented!() }
//@ fn goko/src/tree_file_format.rs CoreProto::get_root_scale
//@ spec
    ensures res == self.root_scale
//@ end
//@ fn goko/src/tree_file_format.rs CoreProto::get_root_index
//@ spec
    ensures res == self.root_index
//@ end
//@ fn goko/src/tree_file_format.rs CoreProto::get_layers
//@ subst & self . layers => self . layers . as_slice ( )
//@ spec
    ensures res@ == self.layers@
//@ end
//@ fn goko/src/tree_file_format.rs CoreProto::set_use_singletons
//@ spec
    ensures final(self).use_singletons == v, final(self).scale_base == old(self).scale_base, final(self).cutoff == old(self).cutoff, final(self).resolution == old(self).resolution, final(self).partition_type == old(self).partition_type, final(self).dim == old(self).dim, final(self).count == old(self).count, final(self).root_scale == old(self).root_scale, final(self).root_index == old(self).root_index, final(self).layers == old(self).layers, final(self).name_map == old(self).name_map,
//@ end
//@ fn goko/src/tree_file_format.rs CoreProto::set_scale_base
//@ spec
    ensures final(self).scale_base == v, final(self).use_singletons == old(self).use_singletons, final(self).cutoff == old(self).cutoff, final(self).resolution == old(self).resolution, final(self).partition_type == old(self).partition_type, final(self).dim == old(self).dim, final(self).count == old(self).count, final(self).root_scale == old(self).root_scale, final(self).root_index == old(self).root_index, final(self).layers == old(self).layers, final(self).name_map == old(self).name_map,
//@ end
//@ fn goko/src/tree_file_format.rs CoreProto::set_cutoff
//@ spec
    ensures final(self).cutoff == v, final(self).use_singletons == old(self).use_singletons, final(self).scale_base == old(self).scale_base, final(self).resolution == old(self).resolution, final(self).partition_type == old(self).partition_type, final(self).dim == old(self).dim, final(self).count == old(self).count, final(self).root_scale == old(self).root_scale, final(self).root_index == old(self).root_index, final(self).layers == old(self).layers, final(self).name_map == old(self).name_map,
//@ end
//@ fn goko/src/tree_file_format.rs CoreProto::set_resolution
//@ spec
    ensures final(self).resolution == v, final(self).use_singletons == old(self).use_singletons, final(self).scale_base == old(self).scale_base, final(self).cutoff == old(self).cutoff, final(self).partition_type == old(self).partition_type, final(self).dim == old(self).dim, final(self).count == old(self).count, final(self).root_scale == old(self).root_scale, final(self).root_index == old(self).root_index, final(self).layers == old(self).layers, final(self).name_map == old(self).name_map,
//@ end
//@ fn goko/src/tree_file_format.rs CoreProto::set_partition_type
//@ spec
    ensures final(self).partition_type == v, final(self).use_singletons == old(self).use_singletons, final(self).scale_base == old(self).scale_base, final(self).cutoff == old(self).cutoff, final(self).resolution == old(self).resolution, final(self).dim == old(self).dim, final(self).count == old(self).count, final(self).root_scale == old(self).root_scale, final(self).root_index == old(self).root_index, final(self).layers == old(self).layers, final(self).name_map == old(self).name_map,
//@ end
//@ fn goko/src/tree_file_format.rs CoreProto::set_dim
//@ spec
    ensures final(self).dim == v, final(self).use_singletons == old(self).use_singletons, final(self).scale_base == old(self).scale_base, final(self).cutoff == old(self).cutoff, final(self).resolution == old(self).resolution, final(self).partition_type == old(self).partition_type, final(self).count == old(self).count, final(self).root_scale == old(self).root_scale, final(self).root_index == old(self).root_index, final(self).layers == old(self).layers, final(self).name_map == old(self).name_map,
//@ end
//@ fn goko/src/tree_file_format.rs CoreProto::set_count
//@ spec
    ensures final(self).count == v, final(self).use_singletons == old(self).use_singletons, final(self).scale_base == old(self).scale_base, final(self).cutoff == old(self).cutoff, final(self).resolution == old(self).resolution, final(self).partition_type == old(self).partition_type, final(self).dim == old(self).dim, final(self).root_scale == old(self).root_scale, final(self).root_index == old(self).root_index, final(self).layers == old(self).layers, final(self).name_map == old(self).name_map,
//@ end
//@ fn goko/src/tree_file_format.rs CoreProto::set_root_scale
//@ spec
    ensures final(self).root_scale == v, final(self).use_singletons == old(self).use_singletons, final(self).scale_base == old(self).scale_base, final(self).cutoff == old(self).cutoff, final(self).resolution == old(self).resolution, final(self).partition_type == old(self).partition_type, final(self).dim == old(self).dim, final(self).count == old(self).count, final(self).root_index == old(self).root_index, final(self).layers == old(self).layers, final(self).name_map == old(self).name_map,
//@ end
//@ fn goko/src/tree_file_format.rs CoreProto::set_root_index
//@ spec
    ensures final(self).root_index == v, final(self).use_singletons == old(self).use_singletons, final(self).scale_base == old(self).scale_base, final(self).cutoff == old(self).cutoff, final(self).resolution == old(self).resolution, final(self).partition_type == old(self).partition_type, final(self).dim == old(self).dim, final(self).count == old(self).count, final(self).root_scale == old(self).root_scale, final(self).layers == old(self).layers, final(self).name_map == old(self).name_map,
//@ end
//@ fn goko/src/tree_file_format.rs CoreProto::set_layers
//@ spec
    ensures final(self).layers == v, final(self).use_singletons == old(self).use_singletons, final(self).scale_base == old(self).scale_base, final(self).cutoff == old(self).cutoff, final(self).resolution == old(self).resolution, final(self).partition_type == old(self).partition_type, final(self).dim == old(self).dim, final(self).count == old(self).count, final(self).root_scale == old(self).root_scale, final(self).root_index == old(self).root_index, final(self).name_map == old(self).name_map,
//@ end
//@ fn goko/src/tree_file_format.rs CoreProto::set_name_map
//@ spec
    ensures final(self).name_map == v, final(self).use_singletons == old(self).use_singletons, final(self).scale_base == old(self).scale_base, final(self).cutoff == old(self).cutoff, final(self).resolution == old(self).resolution, final(self).partition_type == old(self).partition_type, final(self).dim == old(self).dim, final(self).count == old(self).count, final(self).root_scale == old(self).root_scale, final(self).root_index == old(self).root_index, final(self).layers == old(self).layers,
//@ end
}
// ---------------------------------------------------------------- nodes
//@ struct goko/src/covertree/node.rs NodeChildren
//@ end
//@ struct goko/src/covertree/node.rs CoverNode
//@ end
/// message p encodes node n
pub open spec fn enc_node<D: PointCloud>(n: &CoverNode<D>, p: &NodeProto) -> bool {
    &&& p.coverage_count == n.coverage_count && p.scale_index == n.address.0 && p.center_index == n.address.1 && p.radius == n.radius
    &&& match n.parent_address { Some(a) => p.parent_scale_index == a.0 && p.parent_center_index == a.1, None => p.parent_scale_index == i32::MIN && p.parent_center_index == u64::MAX }
    &&& p.outlier_point_indexes@.len() == n.singles_indexes@.len() && forall|j: int| 0 <= j < n.singles_indexes@.len() ==> p.outlier_point_indexes@[j] == #[trigger] n.singles_indexes@[j]
    &&& p.is_leaf == (n.children is None)
    &&& n.children is Some ==> p.nested_scale_index == n.children->0.nested_scale && p.children_scale_indexes@.len() == n.children->0.addresses@.len() && p.children_point_indexes@.len() == n.children->0.addresses@.len()
        && forall|j: int| 0 <= j < n.children->0.addresses@.len() ==> p.children_scale_indexes@[j] == (#[trigger] n.children->0.addresses@[j]).0 && p.children_point_indexes@[j] == n.children->0.addresses@[j].1
}
/// the parent link is not the pair that stands for "no parent"
pub open spec fn parent_plain<D: PointCloud>(n: &CoverNode<D>) -> bool { n.parent_address != Some((i32::MIN, usize::MAX)) }
/// a message a node can be read from
pub open spec fn msg_ok(p: &NodeProto) -> bool { !p.is_leaf ==> p.children_scale_indexes@.len() == p.children_point_indexes@.len() }
pub open spec fn same_node<D: PointCloud>(n: &CoverNode<D>, m: &CoverNode<D>) -> bool {
    &&& n.address == m.address && n.parent_address == m.parent_address && n.radius == m.radius && n.coverage_count == m.coverage_count && n.singles_indexes@ == m.singles_indexes@
    &&& (n.children is Some) == (m.children is Some)
    &&& n.children is Some ==> n.children->0.nested_scale == m.children->0.nested_scale && n.children->0.addresses@ == m.children->0.addresses@
}
/// ROUND TRIP of a node: what is read back from the message a node was written to is that node
pub proof fn l_node<D: PointCloud>(n: &CoverNode<D>, m: &CoverNode<D>, p: &NodeProto)
    requires enc_node(n, p), enc_node(m, p), parent_plain(n), parent_plain(m), ensures same_node(n, m)
{
    assert(n.singles_indexes@ =~= m.singles_indexes@);
    if n.children is Some { assert(n.children->0.addresses@ =~= m.children->0.addresses@); }
}
impl<D: PointCloud> CoverNode<D> {
//@ fn goko/src/covertree/node.rs CoverNode::load
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec < usize > = Vec
//@ subst let mut __acc4 = Vec => let mut __acc4 : Vec < NodeAddress > = Vec
//@ loop 0
    invariant
        __acc1@.len() == it0.index(), it0.seq().len() == node_proto.outlier_point_indexes@.len(),
        forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == node_proto.outlier_point_indexes@[j],
        forall|j: int| 0 <= j < it0.index() ==> #[trigger] __acc1@[j] == node_proto.outlier_point_indexes@[j],
//@ loop 1
    invariant
        __acc4@.len() == it1.index(), it1.seq().len() == node_proto.children_scale_indexes@.len(), msg_ok(node_proto), !node_proto.is_leaf,
        forall|j: int| 0 <= j < it1.seq().len() ==> *(#[trigger] it1.seq()[j]).0 == node_proto.children_scale_indexes@[j] && *it1.seq()[j].1 == node_proto.children_point_indexes@[j],
        forall|j: int| 0 <= j < it1.index() ==> (#[trigger] __acc4@[j]).0 == node_proto.children_scale_indexes@[j] && __acc4@[j].1 == node_proto.children_point_indexes@[j],
//@ subst metic : PhantomData => metic : Ghost ( None )
//@ spec
    requires msg_ok(node_proto),
    ensures enc_node(&res, node_proto), parent_plain(&res),
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::save
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec < u64 > = Vec
//@ subst let mut __acc4 = Vec => let mut __acc4 : Vec < i32 > = Vec
//@ subst let mut __acc7 = Vec => let mut __acc7 : Vec < u64 > = Vec
//@ spec
    ensures enc_node(self, &res), msg_ok(&res),
//@ loop 0
    invariant
        __acc1@.len() == it0.index(), it0.seq().len() == self.singles_indexes@.len(),
        forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == self.singles_indexes@[j],
        forall|j: int| 0 <= j < it0.index() ==> #[trigger] __acc1@[j] == self.singles_indexes@[j],
//@ loop 1
    invariant
        __acc4@.len() == it1.index(), it1.seq().len() == children.addresses@.len(),
        forall|j: int| 0 <= j < it1.seq().len() ==> *(#[trigger] it1.seq()[j]) == children.addresses@[j],
        forall|j: int| 0 <= j < it1.index() ==> #[trigger] __acc4@[j] == children.addresses@[j].0,
//@ loop 2
    invariant
        __acc7@.len() == it2.index(), it2.seq().len() == children.addresses@.len(),
        forall|j: int| 0 <= j < it2.seq().len() ==> *(#[trigger] it2.seq()[j]) == children.addresses@[j],
        forall|j: int| 0 <= j < it2.index() ==> #[trigger] __acc7@[j] == children.addresses@[j].1,
//@ end
}
// ---------------------------------------------------------------- layers
/// CONTRACT of the lock-free map (decided by P08): `view` is what the next refresh will publish
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct MonoWriteHandle<K, V> { x: Option<(K, V)> }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct MonoReadHandle<K, V> { x: Option<(K, V)> }
impl<K, V> View for MonoWriteHandle<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
pub open spec fn listing<K, V>(m: Map<K, V>, l: Seq<(&K, &V)>) -> bool {
    &&& forall|j: int| 0 <= j < l.len() ==> m.dom().contains(*(#[trigger] l[j]).0) && m[*l[j].0] == *l[j].1
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|j: int| 0 <= j < l.len() && *(#[trigger] l[j]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> *(#[trigger] l[i]).0 != *(#[trigger] l[j]).0
}
impl<K, V> MonoWriteHandle<K, V> {
    pub uninterp spec fn published(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) ensures final(self)@ == old(self)@.insert(k, v), final(self).published() == old(self).published() { unimplemented!() }
    #[verifier::external_body] pub fn refresh(&mut self) ensures final(self)@ == old(self)@, final(self).published() == old(self)@ { unimplemented!() }
    /// for_each / map_into visit every entry of the published map once
    #[verifier::external_body] pub fn entries_ref(&self) -> (r: Vec<(&K, &V)>) ensures listing(self.published(), r@) { unimplemented!() }
}
pub mod monomap { use super::*;
    #[verifier::external_body] pub fn new<K, V>() -> (r: (MonoReadHandle<K, V>, MonoWriteHandle<K, V>)) ensures r.1@ == Map::<K, V>::empty(), r.1.published() == Map::<K, V>::empty() { unimplemented!() }
}
//@ struct goko/src/covertree/layer.rs CoverLayerWriter
//@ end
/// every node of a layer sits under its own centre
pub open spec fn layer_inv<D: PointCloud>(m: Map<usize, CoverNode<D>>) -> bool { forall|k: usize| #[trigger] m.dom().contains(k) ==> m[k].address.1 == k && parent_plain(&m[k]) }
/// message p encodes the layer
pub open spec fn enc_layer<D: PointCloud>(s: i32, m: Map<usize, CoverNode<D>>, p: &LayerProto) -> bool {
    &&& p.scale_index == s
    &&& forall|j: int| 0 <= j < p.nodes@.len() ==> m.dom().contains((#[trigger] p.nodes@[j]).center_index as usize) && enc_node(&m[p.nodes@[j].center_index as usize], &p.nodes@[j])
    &&& forall|k: usize| #[trigger] m.dom().contains(k) ==> exists|j: int| 0 <= j < p.nodes@.len() && (#[trigger] p.nodes@[j]).center_index == k
}
pub open spec fn layer_msg_ok(p: &LayerProto) -> bool {
    &&& forall|j: int| 0 <= j < p.nodes@.len() ==> msg_ok(#[trigger] &p.nodes@[j])
    &&& forall|i: int, j: int| 0 <= i < j < p.nodes@.len() ==> (#[trigger] p.nodes@[i]).center_index != (#[trigger] p.nodes@[j]).center_index
}
pub open spec fn same_layer<D: PointCloud>(m: Map<usize, CoverNode<D>>, w: Map<usize, CoverNode<D>>) -> bool {
    (forall|k: usize| #[trigger] m.dom().contains(k) == w.dom().contains(k)) && forall|k: usize| #[trigger] m.dom().contains(k) ==> same_node(&m[k], &w[k])
}
/// ROUND TRIP of a layer
pub proof fn l_layer<D: PointCloud>(s: i32, m: Map<usize, CoverNode<D>>, t: i32, w: Map<usize, CoverNode<D>>, p: &LayerProto)
    requires enc_layer(s, m, p), enc_layer(t, w, p), layer_inv(m), layer_inv(w), ensures s == t, same_layer(m, w)
{
    assert forall|k: usize| #[trigger] m.dom().contains(k) implies w.dom().contains(k) && same_node(&m[k], &w[k]) by {
        let j = choose|j: int| 0 <= j < p.nodes@.len() && (#[trigger] p.nodes@[j]).center_index == k;
        l_node(&m[k], &w[k], &p.nodes@[j]);
    }
    assert forall|k: usize| #[trigger] w.dom().contains(k) implies m.dom().contains(k) by {
        let j = choose|j: int| 0 <= j < p.nodes@.len() && (#[trigger] p.nodes@[j]).center_index == k;
        assert(m.dom().contains(p.nodes@[j].center_index as usize));
    }
}
impl<D: PointCloud> CoverLayerWriter<D> {
//@ fn goko/src/covertree/layer.rs CoverLayerWriter::load
//@ spec
    requires layer_msg_ok(layer_proto),
    ensures enc_layer(res.scale_index, res.node_writer.published(), layer_proto), layer_inv(res.node_writer.published()), res.node_writer@ == res.node_writer.published(),
//@ loop 0
    invariant
        layer_msg_ok(layer_proto), it0.seq().len() == layer_proto.nodes@.len(),
        forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == layer_proto.nodes@[j],
        part_layer(node_writer@, layer_proto.nodes@, it0.index()),
//@ loopstart 0
    let ghost m0 = node_writer@;
    assert(msg_ok(&layer_proto.nodes@[it0.index()]));
//@ loopend 0
    proof {
        let i = it0.index(); let ns = layer_proto.nodes@;
        assert(node_writer@ == m0.insert(index, node_writer@[index]));
        assert forall|j: int| 0 <= j < i + 1 implies node_writer@.dom().contains((#[trigger] ns[j]).center_index as usize) && enc_node(&node_writer@[ns[j].center_index as usize], &ns[j]) by {
            if j < i { assert(ns[j].center_index != ns[i].center_index); assert(m0.dom().contains(ns[j].center_index as usize)); }
        }
        assert forall|k: usize| #[trigger] node_writer@.dom().contains(k) implies exists|j: int| 0 <= j < i + 1 && (#[trigger] ns[j]).center_index == k by {
            if k == index { assert(ns[i].center_index == k); } else { assert(m0.dom().contains(k)); let j = choose|j: int| 0 <= j < i && (#[trigger] ns[j]).center_index == k; assert(ns[j].center_index == k); }
        }
    }
//@ end
//@ fn goko/src/covertree/layer.rs CoverLayerWriter::save
//@ spec
    requires layer_inv(self.node_writer.published()),
    ensures enc_layer(self.scale_index, self.node_writer.published(), &res), layer_msg_ok(&res),
//@ loopbefore 0
    let ghost es = __es1@;
//@ loop 0
    invariant
        listing(self.node_writer.published(), es), it0.seq() == es, node_protos@.len() == it0.index(),
        forall|j: int| 0 <= j < it0.index() ==> enc_node((#[trigger] es[j]).1, &node_protos@[j]) && msg_ok(&node_protos@[j]),
//@ loopafter 0
    proof {
        let m = self.node_writer.published();
        assert forall|j: int| 0 <= j < node_protos@.len() implies (#[trigger] node_protos@[j]).center_index == *es[j].0 && msg_ok(&node_protos@[j]) && enc_node(&m[node_protos@[j].center_index as usize], &node_protos@[j]) by { assert(enc_node(es[j].1, &node_protos@[j])); }
        assert forall|k: usize| #[trigger] m.dom().contains(k) implies exists|j: int| 0 <= j < node_protos@.len() && (#[trigger] node_protos@[j]).center_index == k by {
            let j = choose|j: int| 0 <= j < es.len() && *(#[trigger] es[j]).0 == k;
            assert(node_protos@[j].center_index == k);
        }
    }
//@ end
}
pub open spec fn part_layer<D: PointCloud>(m: Map<usize, CoverNode<D>>, ns: Seq<NodeProto>, n: int) -> bool {
    &&& layer_inv(m)
    &&& forall|j: int| 0 <= j < n ==> m.dom().contains((#[trigger] ns[j]).center_index as usize) && enc_node(&m[ns[j].center_index as usize], &ns[j])
    &&& forall|k: usize| #[trigger] m.dom().contains(k) ==> exists|j: int| 0 <= j < n && (#[trigger] ns[j]).center_index == k
}
// ---------------------------------------------------------------- the tree
//@ struct goko/src/covertree/tree.rs PartitionType
//@ attr #[derive(Clone, Copy)]
//@ end
//@ struct goko/src/covertree/tree.rs CoverTreeParameters
//@ end
//@ struct goko/src/covertree/tree.rs CoverTreeWriter
//@ end
/// message p encodes tree t: its configuration, its root and its layers in order
pub open spec fn enc_tree<D: PointCloud>(t: &CoverTreeWriter<D>, p: &CoreProto) -> bool {
    &&& p.use_singletons == t.parameters.use_singletons && p.scale_base == t.parameters.scale_base && p.cutoff == t.parameters.leaf_cutoff && p.resolution == t.parameters.min_res_index
    &&& (t.parameters.partition_type is First) == (p.partition_type@ == "first"@)
    &&& p.root_scale == t.root_address.0 && p.root_index == t.root_address.1
    &&& p.layers@.len() == t.layers@.len()
    &&& forall|j: int| 0 <= j < t.layers@.len() ==> enc_layer((#[trigger] t.layers@[j]).scale_index, t.layers@[j].node_writer.published(), &p.layers@[j])
}
pub open spec fn tree_msg_ok(p: &CoreProto) -> bool { forall|j: int| 0 <= j < p.layers@.len() ==> layer_msg_ok(#[trigger] &p.layers@[j]) }
pub open spec fn tree_inv<D: PointCloud>(t: &CoverTreeWriter<D>) -> bool { forall|j: int| 0 <= j < t.layers@.len() ==> layer_inv((#[trigger] t.layers@[j]).node_writer.published()) }
/// ROUND TRIP of a tree: what is read back from the message a tree was written to is that tree
pub proof fn l_tree<D: PointCloud>(t: &CoverTreeWriter<D>, w: &CoverTreeWriter<D>, p: &CoreProto)
    requires enc_tree(t, p), enc_tree(w, p), tree_inv(t), tree_inv(w),
    ensures
        w.parameters.use_singletons == t.parameters.use_singletons, w.parameters.scale_base == t.parameters.scale_base, w.parameters.leaf_cutoff == t.parameters.leaf_cutoff,
        w.parameters.min_res_index == t.parameters.min_res_index, w.parameters.partition_type == t.parameters.partition_type, w.root_address == t.root_address,
        w.layers@.len() == t.layers@.len(),
        forall|j: int| 0 <= j < t.layers@.len() ==> (#[trigger] t.layers@[j]).scale_index == w.layers@[j].scale_index && same_layer(t.layers@[j].node_writer.published(), w.layers@[j].node_writer.published()),
{
    assert forall|j: int| 0 <= j < t.layers@.len() implies (#[trigger] t.layers@[j]).scale_index == w.layers@[j].scale_index && same_layer(t.layers@[j].node_writer.published(), w.layers@[j].node_writer.published()) by {
        assert(enc_layer(w.layers@[j].scale_index, w.layers@[j].node_writer.published(), &p.layers@[j]));
        l_layer(t.layers@[j].scale_index, t.layers@[j].node_writer.published(), w.layers@[j].scale_index, w.layers@[j].node_writer.published(), &p.layers@[j]);
    }
}
impl<D: PointCloud> CoverTreeWriter<D> {
    /// CONTRACT (the map it builds is decided by P06 under the tree invariant, which the loaded tree has because it is the saved one): only the final-address map changes
    #[verifier::external_body] pub fn refresh_final_indexes(&mut self) ensures final(self).parameters == old(self).parameters, final(self).layers == old(self).layers, final(self).root_address == old(self).root_address { unimplemented!() }
//@ fn goko/src/covertree/tree.rs CoverTreeWriter::load
//@ opt keep_str
//@ subst RwLock :: new (TreePluginSet :: new ()) => Opaque :: new ()
//@ spec
    requires tree_msg_ok(cover_proto),
    ensures res is Ok, enc_tree(&res->Ok_0, cover_proto), tree_inv(&res->Ok_0),
//@ loop 0
    invariant
        tree_msg_ok(cover_proto), it0.seq().len() == cover_proto.layers@.len(), __acc1@.len() == it0.index(),
        forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == cover_proto.layers@[j],
        forall|j: int| 0 <= j < it0.index() ==> layer_inv((#[trigger] __acc1@[j]).node_writer.published()) && enc_layer(__acc1@[j].scale_index, __acc1@[j].node_writer.published(), &cover_proto.layers@[j]),
//@ loopstart 0
    assert(layer_msg_ok(&cover_proto.layers@[it0.index()]));
//@ end
//@ fn goko/src/covertree/tree.rs CoverTreeWriter::save
//@ opt keep_str
//@ opt map_into HashMap
//@ subst std :: collections :: HashMap => HashMap
//@ spec
    requires tree_inv(self), forall|i: usize| #[trigger] self.final_addresses.published().dom().contains(i) ==> valid(i),
    ensures enc_tree(self, &res), tree_msg_ok(&res),
//@ start
    proof { reveal_strlit("first"); reveal_strlit("nearest"); assert("first"@.len() != "nearest"@.len()); }
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec < LayerProto > = Vec
//@ loop 0
    invariant
        tree_inv(self), it0.seq().len() == self.layers@.len(), __acc1@.len() == it0.index(),
        forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == self.layers@[j],
        forall|j: int| 0 <= j < it0.index() ==> layer_msg_ok(&(#[trigger] __acc1@[j])) && enc_layer(self.layers@[j].scale_index, self.layers@[j].node_writer.published(), &__acc1@[j]),
//@ loop 1
    invariant
        forall|j: int| 0 <= j < it1.seq().len() ==> valid(*(#[trigger] it1.seq()[j]).0),
//@ end
}
} // verus!
fn main() {}
