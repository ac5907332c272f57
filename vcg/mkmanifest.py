"""Writes MANIFEST.json from the tables below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C15': ('type-level obligations over a universally quantified item type, discharged by rustc\'s trait solver', 'proof',
         'Every marker and variance judgement is decided for all item types by rustc itself. Trusts rustc.'),
}
VC = ('contracts on the real functions, verification conditions generated from their MIR by weakest-precondition style symbolic execution and discharged by z3', 'proof',
      'Proof per function against contracts and laws, for all lengths, positions and reachable node states, over the MIR rustc emits for the current source. Trusts the generator, z3 and the models of std listed in the evidence; sequential; panics of items are C17.')
VC17 = ('contracts on the real functions incl. their unwinding (cleanup) edges, verification conditions generated from their MIR and discharged by z3', 'proof',
        'Proof per function: wherever an item destructor or clone can run it may panic, and the cleanup edges the compiler made are followed; no path may drop an item twice, use freed or released memory, or free memory still owned. Items may leak. Trusts the generator, z3 and the models of std (which finish their own release on unwinding).')
for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14'):
    TECH[p] = VC
TECH['C17'] = VC17
checks = []
for i in list(range(1, 16)) + [17]:
    p = 'C%02d' % i
    t = TECH.get(p, ('bounded history search', 'exploration', 'bounded'))
    checks.append({'property': p, 'quick_cmd': 'bin/check %s quick' % p, 'thorough_cmd': 'bin/check %s thorough' % p,
                   'technique': t[0], 'level': t[1], 'level_note': t[2]})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [
      {'property': 'C16', 'reason': 'Every thread schedule and memory-model behaviour is outside this family here: the code synchronises through Arc counts, AtomicPtr and spin gates with no lock invariants, and no installed deductive verifier gives real Rust atomics a relaxed-memory semantics (Kani has no threads; Verus needs the code rewritten on its own permission types). The single-threaded guarantees are C12 and C13.'}]}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
