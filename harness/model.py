"""Generator of MoorDyn input files from a structured description."""


def num(v):
    return repr(v) if isinstance(v, float) else str(v)


def input_file(m):
    """m: dict(options, linetypes, rodtypes, bodies, rods, points, lines, outputs, failures)"""
    L = ["MoorDyn input file generated"]
    if m.get("linetypes"):
        L += ["---- LINE TYPES ----",
              "Name Diam MassDen EA BA/-zeta EI Cd Ca CdAx CaAx",
              "(-) (m) (kg/m) (N) (N-s/-) (N-m^2) (-) (-) (-) (-)"]
        for t in m["linetypes"]:
            L.append(" ".join([t["name"]] + [num(t[k]) for k in
                     ("d", "w", "EA", "BA", "EI", "Cd", "Ca", "CdAx", "CaAx")]))
    if m.get("rodtypes"):
        L += ["---- ROD TYPES ----", "Name Diam MassDen Cd Ca CdEnd CaEnd",
              "(-) (m) (kg/m) (-) (-) (-) (-)"]
        for t in m["rodtypes"]:
            L.append(" ".join([t["name"]] + [num(t[k]) for k in
                     ("d", "w", "Cd", "Ca", "CdEnd", "CaEnd")]))
    if m.get("bodies"):
        L += ["---- BODIES ----", "ID Attachment X0 Y0 Z0 r0 p0 y0 Mass CG* I* Volume CdA* Ca*",
              "(#) (-) (m) (m) (m) (deg) (deg) (deg) (kg) (m) (kg-m^2) (m^3) (m^2) (-)"]
        for i, b in enumerate(m["bodies"]):
            L.append(" ".join([str(i + 1), b["att"]] + [num(x) for x in b["r"]] +
                              [num(b["mass"]), b["cg"], b["I"], num(b["vol"]), b["CdA"], b["Ca"]]))
    if m.get("rods"):
        L += ["---- RODS ----", "ID RodType Attachment Xa Ya Za Xb Yb Zb NumSegs RodOutputs",
              "(#) (name) (#/key) (m) (m) (m) (m) (m) (m) (-) (-)"]
        for i, b in enumerate(m["rods"]):
            L.append(" ".join([str(i + 1), b["type"], b["att"]] + [num(x) for x in b["a"] + b["b"]] +
                              [str(b["n"]), b.get("out", "-")]))
    if m.get("points"):
        L += ["---- POINTS ----", "ID Attachment X Y Z Mass Volume CdA Ca",
              "(#) (-) (m) (m) (m) (kg) (m^3) (m^2) (-)"]
        for i, p in enumerate(m["points"]):
            L.append(" ".join([str(i + 1), p["att"]] + [num(x) for x in p["r"]] +
                              [num(p.get(k, 0)) for k in ("mass", "vol", "CdA", "Ca")]))
    if m.get("lines"):
        L += ["---- LINES ----", "ID LineType AttachA AttachB UnstrLen NumSegs LineOutputs",
              "(#) (name) (#) (#) (m) (-) (-)"]
        for i, l in enumerate(m["lines"]):
            L.append(" ".join([str(i + 1), l["type"], str(l["A"]), str(l["B"]), num(l["L"]),
                              str(l["n"]), l.get("out", "-")]))
    if m.get("failures"):
        L += ["---- FAILURE ----", "ID Point Lines FailTime FailTen", "() () (,) (s) (N)"]
        for i, f in enumerate(m["failures"]):
            L.append(" ".join([str(i + 1), f["att"], f["lines"], num(f["t"]), num(f["ten"])]))
    L.append("---- OPTIONS ----")
    for k, v in m.get("options", []):
        L.append("%s %s" % (num(v), k))
    if m.get("outputs") is not None:
        L.append("---- OUTPUTS ----")
        L += m["outputs"]
        L.append("END")
    L.append("--------------- need this line ------------------")
    return "\n".join(L) + "\n"
