"""Writes /verif/MANIFEST.json (run by hand after adding a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFM = 'Monitors every call of a generated hostile workload against an independent reference written from the specification in plain big-integer Python. '
SAMPLED = 'Sampled, not exhaustive: holds for the executions observed (counts per input class in the evidence file). Trusts the reference model (self-tested against algebraic identities and published vectors) and the compilers. '
T = {
 'C01': ('runtime monitoring with an integer-arithmetic oracle over three arithmetic back ends; guard-page argument placement', 'Operands are structured at limb and carry boundaries, with every aliasing and calling form compared.'),
 'C02': ('differential runtime monitoring of assembly (two dispatches) and portable builds, byte-for-byte', 'Needs a processor with BMI2 and ADX, otherwise the two assembly paths coincide.'),
 'C03': ('runtime monitoring with a modular-arithmetic oracle', ''),
 'C04': ('runtime monitoring with a polynomial-quotient-ring oracle', ''),
 'C05': ('runtime monitoring with an arbitrary-precision integer oracle', 'Multi-word templates are observed for widths 1 to 14 limbs.'),
 'C06': ('runtime monitoring with an affine group-law oracle', ''),
 'C07': ('runtime monitoring with a scalar-multiplication oracle', ''),
 'C08': ('runtime monitoring with an independently computed sum, over all size classes and scalar shapes', ''),
 'C09': ('runtime monitoring with an order-multiplication oracle on points of every small order', ''),
 'C10': ('runtime monitoring with an independent codec as oracle', ''),
 'C11': ('runtime monitoring with an independent codec as oracle', ''),
 'C12': ('runtime monitoring: reference pairing values and online algebraic-law monitors', 'Absolute values are compared with a reference Miller loop; bulk executions are judged by bilinearity, order and membership laws.'),
 'C13': ('runtime monitoring with an RFC 9380 oracle', ''),
 'C14': ('runtime monitoring with an RFC 9380 map oracle, exceptional inputs solved for', ''),
 'C15': ('runtime monitoring with a discrete-log oracle (secrets known to the monitor) and reference membership tests', ''),
 'C16': ('runtime monitoring with a discrete-log oracle and reference group sums', ''),
 'C17': ('runtime monitoring with a discrete-log oracle', ''),
 'C18': ('runtime monitoring with hashlib/hmac oracles and guard pages', ''),
 'C19': ('runtime monitoring with an oracle written from the scheme', ''),
 'C20': ('runtime monitoring with an oracle and a commuting-diagram monitor', ''),
 'C21': ('runtime monitoring with a modular-arithmetic oracle', ''),
 'C22': ('AddressSanitizer, UBSan, LeakSanitizer, MemorySanitizer and valgrind memcheck over hostile workloads', 'Red-zone tools miss accesses that land in another live object; assembly is watched by memcheck and guard pages only.'),
 'C23': ('ThreadSanitizer and concurrent-versus-alone result monitoring in lockstep and random schedules', 'Races in executed code are reported independently of timing by happens-before analysis; accesses inside assembly are invisible to it.'),
 'C24': ('runtime monitoring: history, stack, heap and address perturbation against replies from pristine processes', ''),
 'C25': ('fault injection (throwing callbacks at each invocation) with allocation accounting and executed-work counting', ''),
 'C26': ('fault injection: every allocation fails in turn, with allocation accounting and result oracle', 'Single failures and fail-from-here-on are enumerated completely for each case run; the cases are a finite selection of operations and sizes.'),
 'C28': ('runtime monitoring of comparison operators and ordered containers against the order axioms', ''),
 'C29': ('runtime monitoring of executed basic blocks, heap and stack per call, against calibrated budgets and growth laws', 'Work is counted on the portable build; work inside libc routines is not counted. Budgets are 8 times the largest use recorded on the unchanged tree.'),
 'C27': ('runtime monitoring with an independent codec as oracle; guard pages', ''),
 'C30': ('runtime monitoring: seccomp system-call filter, process-state comparison around every call, and result comparison across altered ambient settings', 'Reads of memory-mapped clocks are seen through the disabled time-stamp counter; hardware random-number instructions are not.'),
 'C31': ('runtime monitoring of calls made inside static initialisers and destructors, in two link orders, one with AddressSanitizer and UBSan', ''),
}
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    i = json.loads(l)['id']; t, n = T[i]
    lvl = 'fault_enumeration' if i in ('C25', 'C26') else 'exploration'
    note = (REFM if i not in ('C02', 'C22', 'C23', 'C24', 'C25', 'C26', 'C28', 'C29', 'C30', 'C31') else '') + (n + ' ' if n else '') + SAMPLED.replace('Trusts the reference model (self-tested against algebraic identities and published vectors) and the compilers. ', '' if i in ('C02', 'C22', 'C23', 'C24', 'C25', 'C26', 'C28', 'C29', 'C30', 'C31') else 'Trusts the reference model (self-tested against algebraic identities and published vectors) and the compilers. ')
    checks.append({'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 run.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': lvl, 'level_note': note.strip()})
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks are needed in /repo. Every check rebuilds driver and library from /repo\'s working tree into /verif/.cache (git-ignored, keyed by content). VERIF_SEED selects the workload. Recorded violations: python3 run.py --replay FILE.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
