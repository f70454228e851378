"""Reader for the vtu files deal.II writes (independent of it): binary, zlib-compressed or ascii arrays."""
import base64, re, struct, zlib
import xml.etree.ElementTree as ET
import numpy as np
DT = {"Float32": "<f4", "Float64": "<f8", "Int32": "<i4", "Int64": "<i8", "UInt8": "u1", "UInt64": "<u8", "UInt32": "<u4"}
def array(e, comp):
    t = DT[e.get("type")]; x = (e.text or "").strip(); nc = int(e.get("NumberOfComponents", "1"))
    if e.get("format") == "ascii": a = np.array([float(q) for q in x.split()])
    elif comp:
        # the header [blocks, size, last size, compressed sizes] is encoded on its own
        nb = struct.unpack("<I", base64.b64decode(x[:8])[:4])[0]
        hl = (4 * (3 + nb) + 2) // 3 * 4
        h = struct.unpack(f"<{3+nb}I", base64.b64decode(x[:hl])[:4 * (3 + nb)])
        raw = base64.b64decode(x[hl:]); o = 0; b = b""
        for k in range(nb): b += zlib.decompress(raw[o:o + h[3 + k]]); o += h[3 + k]
        if o != len(raw) or len(b) != h[1] * (nb - (1 if h[2] else 0)) + h[2]: raise ValueError("array sizes disagree with its header")
        a = np.frombuffer(b, t)
    else:
        raw = base64.b64decode(x); a = np.frombuffer(raw[4:], t)
    a = a.astype(float)
    if len(a) % nc: raise ValueError("incomplete tuple")
    return a.reshape(-1, nc) if nc > 1 else a
def read(path):
    """dict(points, conn, offsets, types, point {name: array}, cell {name: array}); raises ValueError when not well formed."""
    r = ET.parse(path).getroot(); comp = r.get("compressor") is not None
    p = r.find("UnstructuredGrid/Piece")
    if p is None: raise ValueError("no piece")
    n, m = int(p.get("NumberOfPoints")), int(p.get("NumberOfCells"))
    d = dict(points=array(p.find("Points/DataArray"), comp), point={}, cell={})
    for e in p.findall("Cells/DataArray"): d[e.get("Name")] = array(e, comp).astype(int)
    for k, tag in (("point", "PointData"), ("cell", "CellData")):
        for e in p.findall(tag + "/DataArray"):
            d[k][e.get("Name")] = array(e, comp)
    if len(d["points"]) != n or len(d["offsets"]) != m or len(d["types"]) != m: raise ValueError("counts disagree with the arrays")
    if m and (d["offsets"][-1] != len(d["connectivity"]) or d["connectivity"].min() < 0 or d["connectivity"].max() >= n or (np.diff(d["offsets"]) <= 0).any()): raise ValueError("connectivity")
    for a in d["point"].values():
        if len(a) != n: raise ValueError("field length")
    for a in d["cell"].values():
        if len(a) != m: raise ValueError("field length")
    return d
