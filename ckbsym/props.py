"""Which harness entries decide which property."""
from .meta import META


def E(name, reach=(), forced=None):
    return {'name': name, 'reach': set(reach), 'forced': forced}


ANY = None
# choices of h_isa32: version (index into 1, 2, 0), group, funct3, half (0 = RV64IM, 1 = rest; groups 9-12 only)
CTRL = list(range(9))           # LUI AUIPC JAL JALR BRANCH LOAD STORE FENCE SYSTEM
ALU = [9, 10, 11, 12]           # OP-IMM OP-IMM-32 OP OP-32

ENTRIES = {
    'P01': lambda t: [E('h_isa32', [1, 2, 3, 4], [[0], CTRL]), E('h_isa32', [1], [[0], ALU, range(8), [0]]),
                      E('h_isa32', [1, 2, 3, 4], [[1], CTRL])]
                     + ([E('h_isa32', [1], [[1], ALU, range(8), [0]])] if t else []),
    'P02': lambda t: [E('h_isa32', [1, 4], [[0], ALU, range(8), [1]])] + ([E('h_isa32', [1, 4], [[1, 2], ALU, range(8), [1]])] if t else []),
    'P03': lambda t: [E('h_isa32', [1, 4], [[0, 1, 2] if t else [0], [13]])],
    'P05': lambda t: [E('h_isa16', [1, 3, 4], [[0, 1]])],
    'P06': [E('h_mop2', [1, 2, 3]), E('h_mop3', [1, 2]), E('h_mop_adc', [1, 2]), E('h_mop_sbb', [1, 2])],
    'P16': [E('h_asm_alu_r', [1]), E('h_asm_alu_i', [1]), E('h_asm_mop', [1]), E('h_asm_ctl', [1])],
    'P20': lambda t: [E('h_isa16', [1, 3, 4], [[2]]), E('h_isa32', [1, 4], [[2], CTRL if t else [2, 3, 5, 6]])],
}

PROPS = {}
for _k, _e in ENTRIES.items():
    _m = META[_k]
    PROPS[_k] = dict(entries=_e, bounds=_m['bounds'], outside=_m.get('outside', ''), assumes=_m.get('assumes', ()))
    for _x in ('budget', 'hard_ms', 'replays'):
        if _x in _m:
            PROPS[_k][_x] = _m[_x]
