"""Meshes in the dictionaries of meshio and in Gmsh's format 2"""
import numpy as np

GMSH = {"line": 1, "triangle": 2, "quad": 3, "line3": 8, "triangle6": 9,
        "quad9": 10, "tetra": 4, "hexahedron": 5, "vertex": 15, "quad8": 16}
NODES = {"line": 2, "triangle": 3, "quad": 4, "line3": 3, "triangle6": 6,
         "quad9": 9, "tetra": 4, "hexahedron": 8, "vertex": 1, "quad8": 8}


def write(path, points, blocks):
    """blocks: list of (kind, connectivity, physical tags)"""
    pts = np.column_stack([points, np.zeros((len(points), 3))])[:, :3]
    out = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat", "$Nodes",
           "%d" % len(pts)]
    out += ["%d %.17g %.17g %.17g" % (k + 1, *p) for k, p in enumerate(pts)]
    out += ["$EndNodes", "$Elements",
            "%d" % sum(len(b[1]) for b in blocks)]
    n = 0
    for kind, conn, tags in blocks:
        for c, t in zip(conn, tags):
            n += 1
            out.append("%d %d 2 %d %d %s" % (
                n, GMSH[kind], t, 1, " ".join(str(int(x) + 1) for x in c)))
    out += ["$EndElements", ""]
    with open(path, "w") as f:
        f.write("\n".join(out))


def dictionaries(blocks):
    cells, data = {}, {}
    for kind, conn, tags in blocks:
        cells[kind] = np.array(conn).reshape(-1, NODES[kind])
        data[kind] = {"gmsh:physical": np.array(tags, dtype=int)}
    return cells, data
