#!/usr/bin/env python3
"""Build the simulator of one property from /repo's current working tree.

usage: build.py PROPERTY [--full]     -> prints the path of the binary
The library sources listed in /repo/source/CMakeLists.txt are compiled with
compile-time instrumentation (gcc -fsanitize=thread, without its runtime: the
simulator provides the hooks) and linked against the simulator's runtime.  Only
the families a property needs are compiled; when the link shows that the tree
needs more (a refactoring moved code), everything is.
"""
import os, re, subprocess, sys, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
BASE = ['core/utilities/', 'core/dynamic_dispatch/']
MODULES = {  # extra source families per property
}
INCS = '''source/include source/core/drivers source/core/basic_statistics source/core/optimization
  source/core/utilities source/core/dynamic_dispatch source/core/csv source/core/metrics source/core/linear_model
  source/core/data_management source/core/factorization source/core/clustering source/core/decision_forest
  source/core/decision_forest/tree source/core/nlls source/core/nearest_neighbors source/core/svm
  source/core/kernel_functions source/core/interpolation source/core/approximate_neighbors
  source/core/dimension_reduction external/kernel-templates external/Lbfgsb.3.0 external/RALFit
  external/RALFit/libRALFit/include'''.split()
WRAP = '''malloc calloc realloc free posix_memalign aligned_alloc memcpy memmove memset memcmp strlen fopen fclose
  __cxa_thread_atexit _Z27context_set_hidden_settingsRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES6_'''.split() + \
  ['cblas_%s%s' % (p, f) for p in 'ds' for f in
   'dot asum nrm2 axpy scal gemv symv gemm syrk symm'.split()] + ['cblas_idamax', 'cblas_isamax']

def sources():
    src = open(REPO + '/source/CMakeLists.txt').read()
    sets = re.findall(r'set\s*\(\s*(DA_\w+)\s+([^)]*)\)', src)
    files = set()
    for _, v in sets:
        for t in v.split():
            if t.startswith('core/') and re.search(r'\.(c|cpp)$', t):
                files.add(t)
    # sources a change added without naming them in that form
    return sorted(f for f in files if os.path.exists(REPO + '/source/' + f))

def is_public(f):
    return any(k in f for k in ('public', 'da_handle', 'fp16_helpers', 'c_wrapper', 'data_management',
                                'miscellaneous', 'context', 'csv', 'model_pers'))

def gen(prop, full):
    mods = open(VERIF + '/harness/%s.cpp' % prop).read()
    m = re.search(r'//\s*modules:\s*(.*)', mods)
    need = m.group(1).split() if m else ['all']
    if 'all' in need: full = True
    allf = sources()
    def wanted(f):
        if full: return True
        return any(f.startswith(b) for b in BASE) or any(f.startswith('core/' + n) for n in need)
    use = [f for f in allf if wanted(f)]
    fortran = full or any(n in need for n in ('optimization', 'nlls', 'linear_model'))
    I = ' '.join('-I%s/%s' % (REPO, i) for i in INCS)
    I += ' -I%s/stubs -I%s/stubs/kernel-templates -I%s/sim -I%s/harness' % ((VERIF,) * 4)
    I += ' -I/usr/include/x86_64-linux-gnu/openblas-pthread'
    D = ('-DZNVER_MAX=generic -Dgeneric_AVAILABLE -DAOCLDA_VERSION_STRING=\\"AOCL-DA\\" '
         '-DAOCLDA_GIT_COMMIT=\\"unknown\\" -DINT_LIB=\\"LP64\\" -DAOCLDA_SIM')
    A = '-march=x86-64 -mavx2 -mfma'
    o = []
    w = o.append
    w('''builddir = %s
rule lib
  command = $cc -w -fopenmp %s -O1 -g0 -fno-omit-frame-pointer -fsanitize=thread $d %s %s -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule rt
  command = g++ -std=c++17 -w -O2 -fno-tree-loop-distribute-patterns %s %s -MD -MF $out.d -c $in -o $out && objcopy %s $out
  depfile = $out.d
  deps = gcc
rule harness
  command = g++ -std=c++17 -w -O1 %s %s -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule f90
  command = mkdir -p $j && gfortran -cpp -O2 -fPIC -fno-fast-math -fopenmp-simd -march=x86-64-v3 $d -J$j -c $in -o $out
rule link
  command = g++ -no-pie -rdynamic %s -o $out $in %s -Wl,--allow-shlib-undefined -L/usr/lib/x86_64-linux-gnu/openblas-pthread -lopenblas -lgfortran -lpthread -ldl -lm
''' % (BUILD, A, D, I, A, I, ' '.join('--redefine-sym %s=__real_%s' % (x, x) for x in 'memcpy memmove memset memcmp strlen'.split()), D, I, '' if full else '-Wl,--unresolved-symbols=ignore-all', ' '.join('-Wl,--wrap=' + s for s in WRAP)))
    objs = []
    for f in use:
        ob = 'lib_' + f[5:].replace('/', '_') + '.o'
        c = f.endswith('.c')
        w('build %s: lib %s/source/%s\n  cc = %s\n  d = %s' % (ob, REPO, f, 'gcc' if c else 'g++ -std=c++17',
          '' if is_public(f) else '-DARCH_generic'))
        objs.append(ob)
    if fortran:
        prev = []
        def ft(src, tag, j, d, order):
            ob = 'f_%s_%s.o' % (tag, os.path.basename(src)[:-4])
            w('build %s: f90 %s/%s | %s\n  j = %s\n  d = %s' % (ob, REPO, src, ' '.join(order), j, d))
            objs.append(ob); return ob
        L = 'external/Lbfgsb.3.0/'
        for tag, wp, d in (('ld', 'dworking_precision.F90', ''), ('ls', 'sworking_precision.F90', '-DSINGLE_PREC')):
            order = []
            names = [wp, 'lbfgsb_mod.F90', 'linpack.F90', 'timer.F90', 'lbfgsb.F90']
            for s in names:
                if os.path.exists('%s/%s%s' % (REPO, L, s)):
                    order = order + [ft(L + s, tag, 'mod_' + tag, d, order)]
        R = 'external/RALFit/libRALFit/src/'
        for tag, d in (('rd', ''), ('rs', '-DSINGLE_PRECISION')):
            order = []
            for s in '''ral_nlls_types ral_nlls_symbols ral_nlls_dtrs ral_nlls_workspaces ral_nlls_printing
              ral_nlls_bounds nag_export_mod ral_nlls_fd ral_nlls_internal ral_nlls ral_nlls_ciface'''.split():
                if os.path.exists('%s/%s%s.F90' % (REPO, R, s)):
                    order = order + [ft(R + s + '.F90', tag, 'mod_' + tag, d, order)]
    for f in ('rt', 'driver', 'blas_wrap', 'aoclsparse_stub'):
        w('build %s.o: %s %s/sim/%s.cpp' % (f, 'rt' if f in ('rt', 'driver') else 'harness', VERIF, f))
        objs.append(f + '.o')
    hs = [prop] + re.findall(r'//\s*also:\s*(\S+)', mods)
    for h in hs:
        w('build h_%s.o: harness %s/harness/%s.cpp' % (h, VERIF, h))
        objs.append('h_%s.o' % h)
    w('build sim_%s: link %s' % (prop, ' '.join(objs)))
    w('default sim_%s' % prop)
    fn = 'build_%s%s.ninja' % (prop, '_full' if full else '')
    text = '\n'.join(o) + '\n'
    p = os.path.join(BUILD, fn)
    if not os.path.exists(p) or open(p).read() != text:
        open(p, 'w').write(text)
    return fn

def build(prop, full=False, jobs=None):
    os.makedirs(BUILD, exist_ok=True)
    while True:
        fn = gen(prop, full)
        r = subprocess.run(['ninja', '-C', BUILD, '-f', fn] + (['-j', str(jobs)] if jobs else []),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return os.path.join(BUILD, 'sim_' + prop)
        if not full and 'undefined reference' in r.stdout:
            full = True
            continue
        sys.stderr.write(r.stdout[-6000:])
        return None

if __name__ == '__main__':
    b = build(sys.argv[1], '--full' in sys.argv)
    if not b: sys.exit(3)
    print(b)
