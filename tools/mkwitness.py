"""Writes witness/src/gen.rs: derived shapes with many fields and unusual names, from engine/shapes.py."""
import sys, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(H, "engine"))
import shapes


def lit(b):
    return '"' + "".join(c if " " <= c <= "~" and c not in '"\\' else "\\u{%x}" % ord(c) for c in b.decode()) + '"'


def struct(name, derive, ty, names):
    r = ["#[derive(%s)]" % derive, "pub struct %s {" % name]
    for i, b in enumerate(names):
        r.append("    #[serde(rename = %s)]" % lit(b))
        r.append("    pub f%d: %s," % (i, ty))
    return r + ["}"]


out = ["// written by tools/mkwitness.py, do not edit", "use super::*;", ""]
out += struct("DNames", "Deserialize", "DTok", shapes.DE_STRUCTS["dnames"])
out += struct("SNames", "Serialize", "STok", shapes.STRUCTS["dnames"])
out += ["#[derive(Serialize)]", "pub struct SBig {"] + ["    pub %s: STok," % b.decode() for b in shapes.SE_STRUCTS["dbig"]] + ["}"]
out += ["#[derive(Serialize, Deserialize)]", "pub enum ENames {"]
for i, b in enumerate(shapes.ENUMS["enames"]):
    out += ["    #[serde(rename = %s)]" % lit(b), "    V%d," % i]
out += ["}", "#[derive(Serialize, Deserialize)]", "pub enum EBig {"] + ["    %s," % b.decode() for b in shapes.ENUMS["ebig"]] + ["}"]
p = os.path.join(H, "witness", "src", "gen.rs")
open(p, "w").write("\n".join(out) + "\n")
