//@ include prelude.vrs
//@ include coll.vrs
// =====================================================================================
// UNIT config: what a builder is asked for is what it builds with
// =====================================================================================
pub enum Key { ScaleBase, LeafCutoff, MinRes, UseSingletons, Partition, Verbosity, Seed }
/// an entry of a configuration file
pub enum Entry { Real(f64), Int(i64), Bool(bool), Text(Seq<char>), Other }
/// TRUSTED (yaml-rust): the accessors answer for entries of their own kind only
#[verifier::external_body] pub struct Yaml { p: u8 }
impl Yaml {
    pub uninterp spec fn at(&self, k: Key) -> Entry;
    #[verifier::external_body] pub fn entry(&self, k: Key) -> (r: YamlEntry) ensures r.is() == self.at(k) { unimplemented!() }
}
#[verifier::external_body] pub struct YamlEntry { p: u8 }
impl YamlEntry {
    pub uninterp spec fn is(&self) -> Entry;
    #[verifier::external_body] pub fn as_f64(&self) -> (r: Option<f64>) ensures r == (match self.is() { Entry::Real(x) => Some(x), _ => None::<f64> }) { unimplemented!() }
    #[verifier::external_body] pub fn as_i64(&self) -> (r: Option<i64>) ensures r == (match self.is() { Entry::Int(x) => Some(x), _ => None::<i64> }) { unimplemented!() }
    #[verifier::external_body] pub fn as_bool(&self) -> (r: Option<bool>) ensures r == (match self.is() { Entry::Bool(x) => Some(x), _ => None::<bool> }) { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: Option<&'static str>) ensures (r is Some) == (self.is() is Text), r is Some ==> r->0@ == self.is()->Text_0 { unimplemented!() }
}
#[verifier::external_body] pub fn str_is(a: &&'static str, b: &str) -> (r: bool) ensures r == ((*a)@ == b@) { unimplemented!() }
/// the configuration file at a path, read and parsed
pub uninterp spec fn file<P>(p: P) -> Yaml;
#[verifier::external_body] pub fn read_yaml<P>(p: &P) -> (r: Yaml) ensures r == file(*p) { unimplemented!() }
broadcast use {fl::ax_mk, fl::ax_mk2};
//@ struct goko/src/covertree/tree.rs PartitionType
//@ end
//@ struct goko/src/covertree/builders.rs CoverTreeBuilder
//@ end
impl CoverTreeBuilder {
    /// everything but the given field as before
    pub open spec fn is(&self, b: real, c: usize, m: i32, s: bool, p: PartitionType, v: u32, r: Option<u64>) -> bool { self.scale_base@ == b && self.leaf_cutoff == c && self.min_res_index == m && self.use_singletons == s && self.partition_type == p && self.verbosity == v && self.rng_seed == r }
}
impl CoverTreeBuilder {
//@ fn goko/src/covertree/builders.rs CoverTreeBuilder as Default::default
//@ spec
    ensures res.is(2real, 1, -10i32, true, PartitionType::Nearest, 0, None)
//@ end
//@ fn goko/src/covertree/builders.rs CoverTreeBuilder::new
//@ spec
    ensures res.is(2real, 1, -10i32, true, PartitionType::Nearest, 0, None)
//@ end
//@ fn goko/src/covertree/builders.rs CoverTreeBuilder::from_yaml
//@ subst < P : AsRef < Path > > => < P >
//@ subst let config = read_to_string (& path) . expect ("Unable to read config file") ; =>
//@ subst let params_files = YamlLoader :: load_from_str (& config) . unwrap () ; =>
//@ subst let params = & params_files [0] => let params = read_yaml(&path)
//@ subst params ["partition_type"] => params.entry(Key::Partition)
//@ subst params ["scale_base"] => params.entry(Key::ScaleBase)
//@ subst params ["leaf_cutoff"] => params.entry(Key::LeafCutoff)
//@ subst params ["min_res_index"] => params.entry(Key::MinRes)
//@ subst params ["use_singletons"] => params.entry(Key::UseSingletons)
//@ subst params ["verbosity"] => params.entry(Key::Verbosity)
//@ subst params ["rng_seed"] => params.entry(Key::Seed)
//@ opt keep_str
//@ start
    proof { reveal_strlit("first"); reveal_strlit("nearest"); assert("first"@.len() == 5); assert("nearest"@.len() == 7); }
//@ spec
    ensures ({ let y = file(path);
        &&& res.scale_base@ == (match y.at(Key::ScaleBase) { Entry::Real(x) => x@, Entry::Int(i) => i as real, _ => 2real })
        &&& res.leaf_cutoff == (match y.at(Key::LeafCutoff) { Entry::Int(i) => i as usize, _ => 1usize })
        &&& res.min_res_index == (match y.at(Key::MinRes) { Entry::Int(i) => i as i32, _ => -10i32 })
        &&& res.use_singletons == (match y.at(Key::UseSingletons) { Entry::Bool(i) => i, _ => true })
        &&& res.partition_type == (match y.at(Key::Partition) { Entry::Text(t) => if t == "first"@ { PartitionType::First } else { PartitionType::Nearest }, _ => PartitionType::Nearest })
        &&& res.rng_seed == (match y.at(Key::Seed) { Entry::Int(i) => Some(i as u64), _ => None::<u64> }) })
//@ end
//@ fn goko/src/covertree/builders.rs CoverTreeBuilder::set_scale_base
//@ spec
    ensures ({ let o = *old(self); res.is(x@, o.leaf_cutoff, o.min_res_index, o.use_singletons, o.partition_type, o.verbosity, o.rng_seed) }), *final(self) == *final(res)
//@ end
//@ fn goko/src/covertree/builders.rs CoverTreeBuilder::set_leaf_cutoff
//@ spec
    ensures ({ let o = *old(self); res.is(o.scale_base@, x, o.min_res_index, o.use_singletons, o.partition_type, o.verbosity, o.rng_seed) }), *final(self) == *final(res)
//@ end
//@ fn goko/src/covertree/builders.rs CoverTreeBuilder::set_min_res_index
//@ spec
    ensures ({ let o = *old(self); res.is(o.scale_base@, o.leaf_cutoff, x, o.use_singletons, o.partition_type, o.verbosity, o.rng_seed) }), *final(self) == *final(res)
//@ end
//@ fn goko/src/covertree/builders.rs CoverTreeBuilder::set_use_singletons
//@ spec
    ensures ({ let o = *old(self); res.is(o.scale_base@, o.leaf_cutoff, o.min_res_index, x, o.partition_type, o.verbosity, o.rng_seed) }), *final(self) == *final(res)
//@ end
//@ fn goko/src/covertree/builders.rs CoverTreeBuilder::set_verbosity
//@ spec
    ensures ({ let o = *old(self); res.is(o.scale_base@, o.leaf_cutoff, o.min_res_index, o.use_singletons, o.partition_type, x, o.rng_seed) }), *final(self) == *final(res)
//@ end
//@ fn goko/src/covertree/builders.rs CoverTreeBuilder::set_rng_seed
//@ spec
    ensures ({ let o = *old(self); res.is(o.scale_base@, o.leaf_cutoff, o.min_res_index, o.use_singletons, o.partition_type, o.verbosity, Some(x)) }), *final(self) == *final(res)
//@ end
}
} // verus!
fn main() {}
