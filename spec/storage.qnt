// -*- mode: Bluespec; -*-
/**
 * Attribute stores over contract storage (C34): several stores over several databases; fields are
 * declared per store, values live in the database, anything undeclared lives in the store object.
 */
module storage {
  /// a value: t is "int" | "str" | "bool" | "address" | "bytes" | "none"; numbers in n, text in s
  type V = { t: str, n: int, s: str }
  type Store = { db: int, fields: Set[str], own: str -> V }
  type World = {
    vals: { db: int, f: str } -> V,
    arrays: int -> List[int],            // database -> content of its array field
    stores: List[Store],
  }
  /// k: new | declare | set | push | forget; fails: the transaction fails afterwards
  type Op = { k: str, store: int, db: int, fields: List[str], name: str, v: V, fails: bool }

  var w: World
  var op: Op
  var broken: Set[str]

  pure val NONE: V = { t: "none", n: 0, s: "" }
  pure val TYPES: str -> str = Map("a" -> "int", "ab" -> "int", "b" -> "int", "text" -> "str", "flag" -> "bool", "who" -> "address",
                                   "raw" -> "bytes", "array" -> "array", "connectors_count" -> "int", "s" -> "str",
                                   "is_virtual_balance_enabled_by_the_owner_" -> "int", "is_virtual_balance_enabled_by_the_owner" -> "int",
                                   "is_virtual_balance_enabled_by_the_manager" -> "int", "A" -> "int", "Ab" -> "int", "connectors_count_" -> "int",
                                   "db" -> "int", "name" -> "str", "item" -> "int", "a_b" -> "int")
  pure val NAMES: List[str] = ["a", "ab", "b", "text", "flag", "who", "raw", "array", "connectors_count", "s",
                                "is_virtual_balance_enabled_by_the_owner_", "is_virtual_balance_enabled_by_the_owner",
                                "is_virtual_balance_enabled_by_the_manager", "A", "Ab", "connectors_count_", "db", "name", "item", "a_b"]
  pure val OTHERS: List[str] = ["plain", "x"]
  pure val DBS = 4
  pure val NOOP: Op = { k: "none", store: 0, db: 0, fields: [], name: "", v: NONE, fails: false }

  pure def default(t: str): V =
    if (t == "int") { t: "int", n: 0, s: "" } else if (t == "str") { t: "str", n: 0, s: "" }
    else if (t == "bool") { t: "bool", n: 0, s: "" } else NONE
  pure def stored(m: { db: int, f: str } -> V, d: int, f: str): V =
    if (m.keys().contains({ db: d, f: f })) m.get({ db: d, f: f }) else default(TYPES.get(f))

  /// what reading `name` of store i gives; t "missing" for an attribute error
  pure def read(s: World, i: int, name: str): V = {
    val o = s.stores[i]
    if (o.fields.contains(name)) (if (TYPES.get(name) == "array") { t: "array", n: o.db, s: "" } else stored(s.vals, o.db, name))
    else if (o.own.keys().contains(name)) o.own.get(name)
    else { t: "missing", n: 0, s: "" }
  }

  pure def apply(s: World, o: Op): World =
    if (o.k == "new") { ...s, stores: s.stores.append({ db: o.db, fields: Set(), own: Map() }) }
    else if (o.k == "forget") { ...s, stores: [] }
    else if (o.k == "declare") { ...s, stores: s.stores.replaceAt(o.store, { ...s.stores[o.store],
        fields: o.fields.foldl(s.stores[o.store].fields, (a, f) => a.union(Set(f))) }) }
    else if (o.k == "push") (if (o.fails) s else { ...s, arrays: s.arrays.put(s.stores[o.store].db, s.arrays.get(s.stores[o.store].db).append(o.v.n)) })
    else if (o.k == "set") {
      val t = s.stores[o.store]
      if (t.fields.contains(o.name) and TYPES.get(o.name) != "array")
        (if (o.fails) s else { ...s, vals: s.vals.put({ db: t.db, f: o.name }, o.v) })
      else { ...s, stores: s.stores.replaceAt(o.store, { ...t, own: t.own.put(o.name, o.v) }) }
    }
    else s

  pure def flag(id: str, fine: bool): Set[str] = if (fine) Set() else Set(id)
  pure def audit(s: World, o: Op, u: World): Set[str] = flag("C34", and {
    // a declared scalar reads back what was assigned, through every store over the database
    (o.k == "set" and not(o.fails) and s.stores[o.store].fields.contains(o.name) and TYPES.get(o.name) != "array") implies
      u.stores.indices().forall(i => (u.stores[i].db == s.stores[o.store].db and u.stores[i].fields.contains(o.name)) implies read(u, i, o.name) == o.v),
    // and nothing else changes
    o.k == "set" implies u.stores.indices().forall(i => NAMES.indices().forall(j => (NAMES[j] != o.name or u.stores[i].db != s.stores[o.store].db)
      implies (i == o.store or read(u, i, NAMES[j]) == read(s, i, NAMES[j])))),
    // undeclared attributes are not persisted
    (o.k == "set" and not(s.stores[o.store].fields.contains(o.name))) implies u.vals == s.vals,
    o.k == "new" implies OTHERS.concat(NAMES).indices().forall(j => read(u, u.stores.length() - 1, OTHERS.concat(NAMES)[j]).t == "missing"),
    o.fails implies u.vals == s.vals and u.arrays == s.arrays,
    o.k != "set" implies u.vals == s.vals,
  })

  pure def pick(l: List[a], r: int): a = l[r % l.length()]
  pure def value(t: str, r: int): V =
    if (t == "int") { t: t, n: pick([0, 1, -1, r % 1000, r, -r, r * r * r * r * r, 255, -128, 128, 256], r / 16), s: "" }
    else if (t == "bool") { t: t, n: (r / 16) % 2, s: "" }
    else if (t == "str") { t: t, n: 0, s: pick(["", "text", "ω β", "0", "a longer text with spaces"], r / 16) }
    else if (t == "bytes") { t: t, n: 0, s: pick(["", "00", "ff00", "61", "00000000"], r / 16) }
    else { t: "address", n: 0, s: pick(["hx", "cx", "cx0"], r / 16) }

  pure def choose(s: World, r: List[int]): Op = {
    val k = r[0] % 16
    val n = s.stores.length()
    if (n == 0 or (k == 0 and n < 6)) { ...NOOP, k: "new", db: r[1] % DBS }
    else {
      val i = r[1] % n
      val fails = r[2] % 5 == 0
      val declared = NAMES.select(f => s.stores[i].fields.contains(f))
      if (k == 2 and n < 6 and r[3] % 3 == 0) { ...NOOP, k: "declare", store: i, fields: pick([
          ["is_virtual_balance_enabled_by_the_owner_", "is_virtual_balance_enabled_by_the_owner", "is_virtual_balance_enabled_by_the_manager"],
          ["a", "A", "ab", "Ab", "a_b"], ["connectors_count", "connectors_count_"], ["db", "name", "item"], ["s", "name", "text"]], r[4]) }
      else if (k < 4) { ...NOOP, k: "declare", store: i, fields: range(0, 1 + r[3] % 4).foldl([], (l, j) =>
          { val f = pick(NAMES, r[4] / 23^j)
            // the array container of the runtime caches its length: one handle per database, and no failing push
            val taken = f == "array" and s.stores.indices().exists(j2 => s.stores[j2].db == s.stores[i].db and s.stores[j2].fields.contains(f))
            if (taken or l.select(x => x == f).length() > 0) l else l.append(f) }) }
      else if (k == 4) { ...NOOP, k: "forget" }
      else if (k == 5 and declared.select(f => f == "array").length() > 0) { ...NOOP, k: "push", store: i, v: value("int", r[5]) }
      else {
        val f = if (declared.length() > 0 and r[3] % 4 != 0) pick(declared, r[4]) else pick(NAMES.concat(OTHERS), r[4])
        val t = if (OTHERS.select(x => x == f).length() > 0 or TYPES.get(f) == "array") "int" else TYPES.get(f)
        { ...NOOP, k: "set", store: i, name: f, v: value(t, r[5]), fails: fails }
      }
    }
  }

  action init = all { w' = { vals: Map(), arrays: 0.to(DBS - 1).mapBy(d => []), stores: [] }, op' = NOOP, broken' = Set() }
  action step(r: List[int]): bool = {
    val o = choose(w, r)
    val u = apply(w, o)
    all { w' = u, op' = o, broken' = audit(w, o, u) }
  }
  val holds: bool = broken == Set()
  /// everything there is to read, for the replay
  pure def readings(s: World): List[List[V]] =
    s.stores.indices().fold([], (l, i) => l.append(NAMES.concat(OTHERS).foldl([], (m, f) => m.append(read(s, i, f)))))
}
