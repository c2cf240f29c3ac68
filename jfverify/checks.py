"""Which units of work decide each property."""
import re
import sched, kunits


def kernels(spec, filt=None, bounded=None, weight=None, safety=False):
    """every registered C function the spec module has a contract for"""
    def plan(ck):
        out = []
        cfg = ck.cfg(safety=safety)
        for j in kunits.jobs(ck.b, ck.regs, spec, filt):
            s = j[3].sig()
            if bounded and re.search(bounded, s):
                out.append(sched.Job(s, kunits.bounded_unit, (j, cfg), 5))
            else:
                out.append(sched.Job(s, kunits.kernel_unit, (j, cfg), weight(s) if weight else 1))
        return out
    return plan


def emitted(setname, rule, bounded=None, chunk=120, thorough=None, filt=None):
    """programs handed to /repo's code generator; bounded: names whose shape was generated, not enumerated completely"""
    def plan(ck):
        import emitcheck, programs
        kw = thorough if thorough and ck.tier == 'thorough' else {}
        named = getattr(programs, setname)(**kw)
        if filt:
            named = [x for x in named if re.search(filt, x[0])]
        cfg = ck.cfg(bounded_names=bounded)
        ck.notes.append('%s: %s' % (setname, rule))
        ck.trust.update(EMIT_TRUST)
        return [sched.Job('%s %d' % (setname, i // chunk), emitcheck.unit, (ck.b, ck.regs, named[i:i + chunk], cfg), 3)
                for i in range(0, len(named), chunk)]
    return plan


EMIT_TRUST = [
    'emitted code: the module is taken at llvm::verifyModule inside JitCore::BuildAndLink; LLVM\'s optimiser, the object emitter and the linker behind that point are trusted',
    'emitted code: operands are opaque external calls (leaf_T), so each proof is for all operand values of that program; programs not listed are covered only in so far as code generation is compositional',
    'emitted code: floating point operations are uninterpreted functions of the right precision (comparisons and integer conversions exact); programs are compiled in strict floating point mode',
    'emitted code: llvm.sin, llvm.exp, llvm.pow etc. are taken to be the mathematical function of that name',
]


def members(spec, extra_src, what, secs=12, weight=None):
    """contracts of class member functions, and generated histories of the compiled class next to a reference"""
    def plan(ck):
        import fbase
        cfg = ck.cfg(timeout=10000, harness_s=secs if ck.tier == 'quick' else 90)
        out = []
        for j in fbase.jobs(spec):
            if j.get('missing'):
                out.append(sched.Job(j['name'], fbase.missing, (j['name'], spec), 1))
            else:
                out.append(sched.Job(j['name'], fbase.unit, (j, cfg), 5, 500))
        if extra_src is not None:
            out.append(sched.Job('histories ' + spec, fbase.harness_unit, (spec, ck.b['so'], tuple(extra_src), cfg, what), 9, 500))
        ck.notes.append('bounded companion of the contracts: ' + what)
        return out
    return plan


def replay_other(d, b):
    if (d.get('found') or {}).get('harness'):
        import fbase
        return 1 if fbase.replay(d, b) else 0
    import emitcheck, registry
    return emitcheck.replay_program(d, b, registry.enumerate_registry(b['so']))


BOUNDED = {
    'c03': '^Median',
    'c04': r'^(FindSorted|ListGather)\(stringlist',
    'c05': '^Group(Count|Sum|Max|Min|Avg|Keys).*string',
    'c06': r'^(CastStringList|Unique\(string|CrossJoin|ZipConcat|Sort)|^Cast\w+List\(stringlist',
    'c07': r'^(StringContains|Cast)',
}

PLANS = {
    'C14': [members('c14', ['src/arena.cc'], 'random histories of requests (sizes 0 to 9000, alignments 1 to 4096), objects with destructors and resets on one arena, compiled with AddressSanitizer, every block filled and re-read')],
    'C15': [members('c15', ['src/compiled_artifact.cc'], 'artifacts written by the library, read back whole, and cut, extended, with single bytes or length fields changed; each blob in a buffer of exactly its size under AddressSanitizer')],
    'C16': [members('c16', [], 'executions of every result type through every entry point, on shared and own contexts, with and without recorded errors')],
    'C17': [members('c17', [], 'histories of compiles, loads (with failures at validation, verification, symbol lookup, parsing, compatibility, object loading, missing functions) and executions on one engine of each kind')],
    'C08': [kernels(s, bounded=BOUNDED.get(s), safety=True, weight=lambda g: 10 if g.startswith('Gen') else 1)
            for s in ('c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c19')],
    'C19': [kernels('c19')],
    'C09': [emitted('operators', 'every binary operator on every pair of the 23 value types and every unary operator on every type; each arithmetic type also with literal operands on either side'),
            emitted('literals', 'literals of every type at special values; list literals of every element type, alone and in pairs')],
    'C10': [emitted('conversions', 'every pair of numeric types through cast builtins, if and switch branches, operators and stores')],
    'C11': [emitted('control', 'every node kind with every condition type and every branch type; up to 11 operands; chains of 6 logical operators; conditions nested inside conditions and branches; generated block programs',
                    bounded='^(block program|chain|switch with|ifblock with)', thorough=dict(blocks=2500))],
    'C12': [emitted('maths', 'every scalar math builtin on every numeric type or pair of numeric types')],
    'C13': [emitted('typing', 'every pair of numeric types under add, mul and xor; generated trees of depth 3', bounded='^typed tree', thorough=dict(n=3000))],
    'C21': [emitted('scoping', 'hand-written scoping situations and generated programs of nested, branching and isolated blocks over four names; every chain of up to 4 (thorough: 5) nested blocks with a name set at one level and reassigned at a deeper one; every choice of reassigned names (of three) per branch for up to three branches; uniform chains 12 and 40 deep',
                    bounded='^(scope program|chain|merge)', thorough=dict(n=12000, seed=5, chain=5))],
    'C06': [kernels('c06', bounded=r'^(CastStringList|Unique\(string|CrossJoin|ZipConcat|Sort)|^Cast\w+List\(stringlist'),
            emitted('inlined', 'Len and Truncate of every list type, on results of calls, on variables, on constants and nested', filt='^(Len|Truncate)')],
    'C07': [kernels('c07', bounded=r'^(StringContains|Cast)'),
            emitted('inlined', 'StringLen of a call and of a variable', filt='^StringLen')],
    'C05': [kernels('c05', bounded='^Group(Count|Sum|Max|Min|Avg|Keys).*string'),
            emitted('inlined', 'the group builtins that count the groups themselves, on calls and on variables', filt='^Group')],
    'C04': [kernels('c04', bounded=r'^(FindSorted|ListGather)\(stringlist')],
    'C03': [kernels('c03', bounded='^Median')],
    'C01': [kernels('c01')],
    'C02': [kernels('c02', weight=lambda s: 10 if s.startswith('Gen') else 1, bounded='^FilterByBitmap'),
            emitted('inlined', 'FilterByBitmap that counts the set bits itself, on calls and on variables', filt='^FilterByBitmap')],
}
