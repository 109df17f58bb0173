//! Only the name of the map; which hash it uses can not be observed.
pub type FxHashMap<K, V> = std::collections::HashMap<K, V>;
