"""What rooms made from models must look like, from their model files."""
from lib import rooms as R, vox

TEAM = {0: (1, 1, 0), 1: (0, 0, 1), 2: (0, 1, 0), 3: (1, 0, 0)}
FLAGROOMS = ('castle_flag_room', 'station_flagroom')
_models = {}


def model(c):
    """({voxel: colour number}, palette) of a room class"""
    if c not in _models:
        with open(c.vox_file, 'rb') as h:
            d = vox.parse(h.read(), strict=False)
        _models[c] = ({(x, y, z): n for x, y, z, n in d['voxels']},
                      [(r / 255, g / 255, b / 255) for r, g, b, a in d['palette']])
    return _models[c]


def expected(c, pos, k):
    """{voxel: colour, or name of a category}"""
    vs, pal = model(c)
    add = c.boundary_additions
    out = {}
    for (x, y, z), n in vs.items():
        p = R.turn_voxel((x + add.get('WEST', 0), y + add.get('SOUTH', 0), z), k)
        rgb = pal[n]
        if c.__name__ in FLAGROOMS and rgb == (1, 0, 0):
            rgb = TEAM[k]
        elif c.__name__ == 'spawn_room':
            i = tuple(round(q * 255) for q in rgb)
            rgb = {(50, 50, 50): 'wall', (255, 255, 0): 'accent'}.get(i, 'floor')
        out[tuple(8 * q + w for q, w in zip(pos, p))] = rgb
    return out
