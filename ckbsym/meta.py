"""The properties: text, anchors, bounds. tools/gen.py writes properties.jsonl and MANIFEST.json from this."""

META = {}


def P(pid, **k):
    META[pid] = k


TECH = ('solver-based symbolic execution of the real code: the LLVM IR that rustc emits for /repo (and the machine code of the x64 '
        'assembly interpreter where it is the subject) is executed with symbolic inputs, assertions are decided by z3, '
        'counterexamples are replayed natively')

P('P01', title='RV64I and M instructions execute as the ISA says',
  statement='One interpreter step over any RV64I or M instruction, from any register contents, memory contents and page permissions, '
            'leaves exactly the registers, next pc, memory and reservation that the RISC-V specification prescribes (including division by '
            'zero, overflow, shift-amount masking and sign extension). A refused memory access reports the right kind of fault and changes no memory.',
  over=['inputs', 'programs'], text='every 32-bit instruction word of the I and M opcode spaces, every operand value, every even pc inside memory, '
       'VM versions 1 and 2',
  why='The ISA tests run a few hand-picked operand values per instruction; the claim is over 2^32 words times 2^128 operand values.',
  files=['src/instructions/i.rs', 'src/instructions/m.rs', 'src/instructions/common.rs', 'src/instructions/execute.rs', 'src/instructions/register.rs', 'src/decoder.rs'],
  mechanism=[('per-format immediate extraction', 'src/instructions/utils.rs'), ('instruction factories', 'src/instructions/i.rs, src/instructions/m.rs'),
             ('execution handlers', 'src/instructions/execute.rs'), ('wrapping / signed register arithmetic', 'src/instructions/register.rs')],
  bounds='all 2^32 words of the RV64I/M spaces, all 64-bit register values, any even pc in a 64 KB memory of arbitrary contents with arbitrary '
         'page flags; one instruction; oracle: independent ISA specification in harness/src/spec.rs. Quick covers version 1 completely and control/memory '
         'instructions for version 2; thorough adds the ALU instructions for version 2',
  outside='memories larger than 64 KB; a 32-bit register machine; sequences (the step is arbitrary-state, so sequences follow by induction)')

P('P02', title='Bit-manipulation instructions execute as the ISA says',
  statement='One interpreter step over any Zba/Zbb/Zbc/Zbs instruction with any operand values yields exactly the result the specification prescribes. '
            'Every other word in the register and immediate arithmetic opcode spaces is refused as an invalid instruction that leaves the state unchanged and names its address.',
  over=['inputs', 'programs'], text='every word of the OP, OP-32, OP-IMM, OP-IMM-32 spaces that is not RV64IM, every operand value',
  why='Tests compare a handful of constants per instruction; encodings that must be refused are hardly tested at all.',
  files=['src/instructions/b.rs', 'src/instructions/execute.rs', 'src/instructions/register.rs'],
  mechanism=[('B-extension factory', 'src/instructions/b.rs'), ('carry-less multiply, rotate, count helpers', 'src/instructions/register.rs')],
  bounds='all words, all operand values, as P01; version 1 in quick, all versions in thorough',
  outside='as P01')

P('P03', title='Atomic instructions execute as the ISA says',
  statement='One interpreter step over any LR, SC or AMO word performs exactly the specified read-modify-write, old-value result, sign extension and reservation update; '
            'an SC succeeds exactly when its address equals the reserved one and always clears the reservation. Faulting or reserved encodings change no memory.',
  over=['inputs', 'programs', 'histories'], text='every word of the AMO opcode space, every address, operand, memory content, page permission and reservation state',
  why='Tests run straight-line LR/SC and AMO samples; reservation state, aliasing of rd/rs1/rs2 and permission faults are not covered.',
  files=['src/instructions/a.rs', 'src/instructions/execute.rs', 'src/memory/mod.rs'],
  mechanism=[('A-extension factory', 'src/instructions/a.rs'), ('AMO handlers and reservation', 'src/instructions/execute.rs'), ('reservation cell', 'src/memory/flat.rs')],
  bounds='all words of the AMO space, arbitrary registers/memory/reservation, version 1 in quick and 0, 1, 2 in thorough; single hart as in the product', outside='as P01')

P('P05', title='Compressed instructions expand exactly as the ISA says',
  statement='One interpreter step over any 16-bit instruction word acts exactly as the 32-bit instruction that the C extension prescribes for it (with pc advancing by two), '
            'and every reserved or floating-point compressed encoding is refused as an invalid instruction.',
  over=['inputs', 'programs'], text='all 2^16 compressed words, every register and memory content, VM versions 1 and 2',
  why='Tests include only those compressed encodings compilers happened to emit for the test programs.',
  files=['src/instructions/rvc.rs', 'src/instructions/execute.rs', 'src/decoder.rs'],
  mechanism=[('compressed factory and immediates', 'src/instructions/rvc.rs'), ('length detection', 'src/decoder.rs decode_bits')],
  bounds='all 2^16 words, arbitrary state as P01', outside='as P01')

P('P16', title='The assembly interpreter agrees with the Rust interpreter on arithmetic',
  statement='For every arithmetic, logical, multiply, divide and bit-manipulation operation the hand-written x64 interpreter produces the same registers, pc and outcome '
            'as the portable interpreter, for every operand value and every choice of destination and source registers.',
  over=['inputs', 'programs'], text='every arithmetic operation, every register assignment, every 64-bit operand value',
  why='Tests run the same sample programs on both back ends; divergence on untested operands would split consensus.',
  files=['src/machine/asm/execute_x64.S', 'src/machine/asm/mod.rs', 'src/instructions/execute.rs'],
  mechanism=[('threaded-code handlers', 'src/machine/asm/execute_x64.S'), ('trace construction', 'src/machine/asm/traces.rs')],
  bounds='all register-register operations; arbitrary registers, operand registers and pc; one instruction per trace; the assembled object is executed symbolically',
  outside='the AArch64 back end (no toolchain here)',
  assumes=['the x86-64 subset semantics of ckbsym/x86.py (validated by native replay of every explored path)'])

P('P20', title='Version 0 keeps its historical behaviour',
  statement='On VM version 0 every compressed word and every jump, load and store behaves as version 0 always did: an indirect jump writes its link before computing its target, '
            'an access touching the last byte of memory is refused, and the compressed hint encodings later versions accept are invalid.',
  over=['inputs', 'configurations'], text='all 2^16 compressed words and all JAL, JALR, load and store words under version 0, any state',
  why='Scripts already on chain depend on the quirks; the tests pin single examples of them.',
  files=['src/instructions/execute.rs', 'src/instructions/rvc.rs', 'src/instructions/i.rs', 'src/instructions/common.rs'],
  mechanism=[('version switches', 'src/instructions/rvc.rs, src/instructions/i.rs, src/instructions/common.rs')],
  bounds='as P05/P01 with version 0', outside='as P01')

P('P06', title='Fused instruction sequences do what the separate instructions do',
  statement='With macro-operation fusion enabled, whatever sequence the decoder fuses leaves the same registers and next address (or an equally unmapped one) as executing '
            'its instructions one by one, covers exactly those instructions, and is never left half way. Fusion refuses exactly what plain decoding refuses.',
  over=['inputs', 'programs'], text='every pair of instruction words, every three-instruction add chain and every five-instruction carry or borrow chain, any register contents, VM versions 1 and 2',
  why='Tests fuse a few compiler-made sequences; near-miss operand patterns, compressed forms and register aliasing are where a fusion rule is wrong.',
  files=['src/decoder.rs', 'src/instructions/execute.rs'],
  mechanism=[('fusion rules', 'src/decoder.rs decode_mop'), ('fused handlers', 'src/instructions/execute.rs')],
  bounds='all word pairs (at any pc of an 8 KB memory, including its end); longer chains with any of the constituent encodings (32-bit and compressed), registers x0-x15, one '
         'position at a time replaced by an arbitrary 32-bit ALU word; version 2 fully; version 1 except the far-jump fusions, whose dropped register write version 2 corrected',
  outside='memories larger than 8 KB (pc-relative immediates near 2^31); non-executable pages inside a sequence; version 1 far jumps')
