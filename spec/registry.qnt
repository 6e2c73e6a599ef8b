// -*- mode: Bluespec; -*-
/** The score registry. */
module registry {
  import base.* from "./base"

  pure val NAMES: Set[str] = Set("ScoreRegistry", "Network")
  /// names that are not to be mistaken for these
  pure val STRANGE: List[str] = ["Junk", "", "network", "NETWORK", "Network ", " Network", "Net", "Registry", "scoreRegistry", "scoreregistry",
                                 "Networks", "ScoreRegistryNetwork", "ScoreRegistry,Network", "Network|", "N_twork"]

  pure def lookup(r: Reg, name: str): Addr =
    if (name == "Network") r.net else if (name == "ScoreRegistry") r.self else ZERO
  pure def withName(r: Reg, name: str, a: Addr): Reg =
    if (name == "Network") { ...r, net: a } else { ...r, self: a }

  pure def registerAddress(w: World, g: Addr, sender: Addr, name: str, a: Addr): Res =
    if (not(has(w.rg, g))) bad("nomethod")
    else if (sender != w.rg.get(g).owner) bad("notowner")
    else if (not(validAddr(a))) bad("badaddr")
    else if (not(isContract(a))) bad("notcontract")
    else if (not(NAMES.contains(name))) bad("badname")
    else good({ ...w, rg: w.rg.put(g, withName(w.rg.get(g), name, a)) })
           .emit({ c: g, e: "AddressUpdate", a: [a], n: [], s: name })

  pure def unregisterAddress(w: World, g: Addr, sender: Addr, name: str): Res =
    if (not(has(w.rg, g))) bad("nomethod")
    else if (sender != w.rg.get(g).owner) bad("notowner")
    else if (lookup(w.rg.get(g), name) == ZERO) bad("notregistered")
    else good({ ...w, rg: w.rg.put(g, withName(w.rg.get(g), name, ZERO)) })
           .emit({ c: g, e: "AddressUpdate", a: [ZERO], n: [], s: name })
}
