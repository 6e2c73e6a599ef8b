// -*- mode: Bluespec; -*-
/**
 * The package builder (C32) and what makes a package self-contained (C33).
 *
 * A path is the list of its parts. Sources have a version of their content; a package maps paths
 * to the source and version they were copied from. The configuration (contract -> dependencies)
 * is data read from the code under test.
 */
module pkg {
  type Path = List[str]
  type Copy = { src: Path, ver: int }
  /// a file of a contract: in which directories below the one of the contract, and its name
  type Own = { dirs: Path, name: str }
  type Config = str -> { deps: List[Path], notice: bool }
  type World = {
    cfg: Config,
    ver: Path -> int,                   // source path -> version of its content
    own: str -> Set[Own],               // contract -> its own files
    out: str -> (Path -> Copy),         // output directory: package -> files
    junk: Set[str],                     // files in the output directory that belong to no package
    exists: bool,                       // is there an output directory
    zip: Path -> Copy,                  // the last archive
    unzipped: Path -> Copy,             // where archives are unpacked
    count: int,                         // versions given out
  }
  ///  k: build | edit | add | remove | stray | drop | junk | zip | unzip
  /// n: of an archive, the compression; from 4 on the builder is given a relative path to the contracts
  type Op = { k: str, names: List[str], path: Path, n: int }

  var w: World
  var op: Op
  var ok: bool
  var broken: Set[str]

  pure val NOTICE: Path = ["NOTICE"]
  pure val NOOP: Op = { k: "none", names: [], path: [], n: 0 }

  /// files of tests and compiled files are left out
  pure def shipped(o: Own): bool = and {
    o.dirs.length() == 0 or o.dirs[o.dirs.length() - 1] != "tests",
    not(o.dirs.indices().exists(i => o.dirs[i] == "__pycache__")),
  }
  pure def sourceOf(c: str, o: Own): Path = [c].concat(o.dirs).append(o.name)
  pure def targetOf(c: str, o: Own): Path = if (o.name == "package.json" and o.dirs == []) [o.name] else sourceOf(c, o)

  /// the package of c, as built from the sources as they are
  pure def package(s: World, c: str): Path -> Copy = {
    val own = s.own.get(c).filter(o => shipped(o)).fold(Map(), (m, o) =>
      m.put(targetOf(c, o), { src: sourceOf(c, o), ver: s.ver.get(sourceOf(c, o)) }))
    val deps = s.cfg.get(c).deps.foldl(own, (m, p) => m.put(p, { src: p, ver: s.ver.get(p) }))
    if (s.cfg.get(c).notice) deps.put(NOTICE, { src: NOTICE, ver: s.ver.get(NOTICE) }) else deps
  }
  pure def listed(s: World, names: List[str]): Set[str] =
    if (names.length() == 0) s.cfg.keys() else names.foldl(Set(), (a, c) => a.union(Set(c)))
  pure def known(s: World, names: List[str]): bool = listed(s, names).subseteq(s.cfg.keys())

  pure def build(s: World, names: List[str]): { w: World, ok: bool } =
    if (names.length() > 0 and names[0] == "clean")
      { ok: true, w: { ...s, out: Map(), junk: Set(), exists: false } }
    else if (not(known(s, names))) { ok: false, w: s }
    else { ok: true, w: { ...s, exists: true, out: listed(s, names).fold(s.out, (o, c) => o.put(c, package(s, c))) } }

  pure def archive(s: World, names: List[str]): Path -> Copy =
    listed(s, names).fold(Map(), (m, c) => {
      val p = package(s, c)
      p.keys().fold(m, (n, k) => n.put([c].concat(k), p.get(k)))
    })

  pure def apply(s: World, o: Op): { w: World, ok: bool } =
    if (o.k == "build") build(s, o.names)
    else if (o.k == "edit") { ok: true, w: { ...s, ver: s.ver.put(o.path, s.count), count: s.count + 1 } }
    else if (o.k == "blank") { ok: true, w: { ...s, ver: s.ver.put(o.path, -1) } }
    else if (o.k == "add") {
      val c = o.path[0]
      val own = { dirs: o.path.slice(1, o.path.length() - 1), name: o.path[o.path.length() - 1] }
      { ok: true, w: { ...s, ver: s.ver.put(o.path, s.count), count: s.count + 1, own: s.own.put(c, s.own.get(c).union(Set(own))) } }
    }
    else if (o.k == "remove") {
      val c = o.path[0]
      val own = { dirs: o.path.slice(1, o.path.length() - 1), name: o.path[o.path.length() - 1] }
      { ok: true, w: { ...s, own: s.own.put(c, s.own.get(c).exclude(Set(own))),
                       ver: s.ver.keys().exclude(Set(o.path)).mapBy(p => s.ver.get(p)) } }
    }
    // somebody meddles with the output
    else if (o.k == "stray") { ok: true, w: { ...s, count: s.count + 1,
        out: s.out.put(o.names[0], s.out.get(o.names[0]).put(o.path, { src: ["stray"], ver: s.count })) } }
    else if (o.k == "drop") { ok: true, w: { ...s,
        out: s.out.put(o.names[0], { val m = s.out.get(o.names[0])
                                     m.keys().exclude(Set(o.path)).mapBy(k => m.get(k)) }) } }
    else if (o.k == "junk") { ok: true, w: { ...s, junk: s.junk.union(Set(o.names[0])) } }
    else if (o.k == "zip") (if (known(s, o.names)) { ok: true, w: { ...s, zip: archive(s, o.names) } } else { ok: false, w: s })
    else if (o.k == "unzip") { ok: true, w: { ...s, unzipped: s.zip } }
    else { ok: true, w: s }

  // ---- the property -----------------------------------------------------------------------------
  pure def flag(id: str, fine: bool): Set[str] = if (fine) Set() else Set(id)
  pure def audit(s: World, o: Op, r: { w: World, ok: bool }): Set[str] = {
    val u = r.w
    val clean = o.k == "build" and o.names.length() > 0 and o.names[0] == "clean"
    flag("C32", and {
      clean implies u.out == Map() and not(u.exists),
      not(r.ok) implies u == s,
      (o.k == "build" and r.ok and not(clean)) implies and {
        u.out.keys() == s.out.keys().union(listed(s, o.names)),
        u.out.keys().forall(c =>
          if (not(listed(s, o.names).contains(c))) u.out.get(c) == s.out.get(c)
          else and {
            // nothing stale, nothing foreign, everything configured
            u.out.get(c).keys().forall(p => u.out.get(c).get(p) == { src: u.out.get(c).get(p).src, ver: s.ver.get(u.out.get(c).get(p).src) }),
            s.cfg.get(c).deps.indices().forall(i => u.out.get(c).keys().contains(s.cfg.get(c).deps[i])),
            s.own.get(c).forall(x => shipped(x) == u.out.get(c).keys().exists(p => u.out.get(c).get(p).src == sourceOf(c, x))),
            s.cfg.get(c).notice == u.out.get(c).keys().contains(NOTICE),
          }),
      },
      o.k != "build" and o.k != "stray" and o.k != "drop" implies u.out == s.out,
      (o.k == "zip" and r.ok) implies listed(s, o.names).forall(c =>
        package(s, c).keys().forall(p => u.zip.get([c].concat(p)) == package(s, c).get(p))),
    })
  }

  // ---- behaviours -------------------------------------------------------------------------------
  pure def toL(S: Set[a]): List[a] = S.fold([], (l, x) => l.append(x))
  pure def pick(l: List[a], r: int): a = l[r % l.length()]
  pure def some(l: List[str], r: int): List[str] =
    range(0, 1 + r % 3).foldl([], (m, i) => {
      val c = pick(l, r / 7^(i + 1))
      if (m.select(x => x == c).length() > 0) m else m.append(c)
    })

  pure def choose(s: World, added: List[Path], r: List[int]): Op = {
    val cs = toL(s.cfg.keys())
    val built = toL(s.out.keys())
    val k = r[0] % 24
    val c = pick(cs, r[1])
    val build = if (r[2] % 9 == 0) ["clean"] else if (r[2] % 9 == 1) [] else some(cs, r[3])
    if (k < 7) { ...NOOP, k: "build", names: build }
    else if (k == 7) { ...NOOP, k: "build", names: pick([some(cs, r[3]).append("nonsense"), ["nonsense"], ["clean", "converter"],
                                                        ["converter", "clean"], [pick(cs, r[3]), pick(cs, r[3])]], r[4]) }
    else if (k < 12) { ...NOOP, k: if (r[5] % 5 == 0) "blank" else "edit", path: pick(toL(s.ver.keys()), r[3]) }
    else if (k < 15) {
      val dir = pick([[], [], ["tests"], ["__pycache__"], ["extra"], ["extra", "tests"], ["tests", "data"], ["extra", "__pycache__", "deep"], ["contracts"], [c], ["my_tests"], [".d"]], r[4])
      { ...NOOP, k: "add", path: [c].concat(dir).append(pick(["more.py", "x.txt", "a.b", "notes.md", "contracts_list.py", "package.json", ".hidden", "my contracts", "test_x.py", "NOTICE", "x.pyc"], r[5])) }
    }
    else if (k == 15 and added.length() > 0) { ...NOOP, k: "remove", path: pick(added, r[3]) }
    else if (k == 16 and built.length() > 0) { ...NOOP, k: "stray", names: [pick(built, r[3])], path: pick([["old.py"], ["interfaces", "old.py"], ["deep", "er", "old.py"]], r[4]) }
    else if (k == 17 and built.length() > 0 and s.out.get(pick(built, r[3])).keys() != Set())
      { ...NOOP, k: "drop", names: [pick(built, r[3])], path: pick(toL(s.out.get(pick(built, r[3])).keys()), r[4]) }
    else if (k == 18 and s.exists) { ...NOOP, k: "junk", names: [pick(["junk1", "junk2"], r[3])] }
    else if (k < 22) { ...NOOP, k: "zip", names: if (r[2] % 5 == 0) [] else if (r[2] % 5 == 1) [c, "nonsense"] else some(cs, r[3]), n: r[5] % 8 }
    else if (k == 22 and s.zip != Map()) { ...NOOP, k: "unzip" }
    else { ...NOOP, k: "build", names: build }
  }

  var added: List[Path]

  action start(cfg: Config, own: str -> Set[Own], sources: Set[Path]): bool = all {
    w' = { cfg: cfg, ver: sources.mapBy(p => 0), own: own, out: Map(), junk: Set(), exists: false, zip: Map(), unzipped: Map(), count: 1 },
    op' = NOOP, ok' = true, broken' = Set(), added' = [],
  }
  action step(r: List[int]): bool = {
    val o = choose(w, added, r)
    val x = apply(w, o)
    all {
      w' = x.w, op' = o, ok' = x.ok, broken' = audit(w, o, x),
      added' = if (o.k == "add" and added.select(p => p == o.path).length() == 0) added.append(o.path)
               else if (o.k == "remove") added.select(p => p != o.path) else added,
    }
  }
  val holds: bool = broken == Set()

  // ---- C33: self-contained packages ---------------------------------------------------------------
  /// a package as found: its modules (dotted names as lists of parts; a package is named by its
  /// directory), for each module the modules its import statements need, the entry point
  type Found = { name: str, modules: Set[Path], needs: Path -> Set[Path], main: Path, imported: bool, entry: bool }

  pure def reach(f: Found): Set[Path] =
    range(0, 40).foldl(Set(f.main), (s, i) => s.union(s.filter(m => f.needs.keys().contains(m)).map(m => f.needs.get(m)).flatten()))
  /// the clauses that do not hold
  pure def unfit(f: Found): List[str] = {
    val missing = reach(f).filter(m => not(f.modules.contains(m)))
    (if (f.modules.contains(f.main)) [] else ["the entry point named in package.json is missing"])
      .concat(if (missing == Set()) [] else ["needed but missing modules"])
      .concat(if (f.imported) [] else ["cannot be imported on its own"])
      .concat(if (f.entry) [] else ["the entry point has no such contract class"])
  }
  /// needs of modules that cannot be reached are needs all the same: they are shipped
  pure def dangling(f: Found): Set[Path] =
    f.needs.keys().map(m => f.needs.get(m)).flatten().filter(m => not(f.modules.contains(m)))
}
