"""C19: headers alone, in pairs of units, and in larger programs, compiled and linked, against Headers.tla."""
from vlib import *
from props import hist
import glob, random

# a use of what each header offers; only counted when it compiles with every header included (so that a renamed internal is no alarm)
G = '''#include <boost/graph/adjacency_list.hpp>
#include <list>
#include <vector>
#include <iterator>
typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double>> G;
typedef boost::graph_traits<G>::edge_descriptor E_;
typedef boost::property_map<G, boost::edge_weight_t>::type W;
typedef std::back_insert_iterator<std::list<std::list<E_>>> O;
namespace { G g; std::list<std::list<E_>> out;
'''
def use(body): return G + '__attribute__((used)) void use() { %s } }\n' % body
call = lambda f, k='': use('W w = boost::get(boost::edge_weight, g); (void) parmcb::%s(g, w%s, std::back_inserter(out));' % (f, k))
calls = lambda fs, k='': use('W w = boost::get(boost::edge_weight, g); ' + ' '.join('(void) parmcb::%s(g, w%s, std::back_inserter(out));' % (f, k) for f in fs))
def mpi(fs): return '#include <boost/mpi/communicator.hpp>\n' + use('boost::mpi::communicator world; W w = boost::get(boost::edge_weight, g); ' + ' '.join('(void) parmcb::%s(g, w, std::back_inserter(out), world);' % f for f in fs))
tree = 'typedef boost::property_map<G, boost::vertex_index_t>::type I; I ix = boost::get(boost::vertex_index, g); W w = boost::get(boost::edge_weight, g); '
dist = '''#include <tuple>
#include <boost/property_map/function_property_map.hpp>
#include <boost/property_map/property_map.hpp>
''' + use('''typedef boost::property_map<G, boost::vertex_index_t>::type I; I ix = boost::get(boost::vertex_index, g); W w = boost::get(boost::edge_weight, g); (void) w;
std::vector<%s> d(9); std::vector<std::tuple<bool, E_>> p(9);
auto dm = boost::make_iterator_property_map(d.begin(), ix); auto pm = boost::make_iterator_property_map(p.begin(), ix); parmcb::%s;''')
def snippets(tbb):
    s = {
     'arithmetic.hpp': 'namespace { __attribute__((used)) int use() { parmcb::ptype a = 1, b = 2; return parmcb::compare(a, b); } }\n',
     'fp.hpp': 'namespace { __attribute__((used)) int use() { int a = 6, b = 4, c = 7, x, y; return parmcb::fp<int>::ext_gcd(a, b, x, y) + parmcb::fp<int>::get_mult_inverse(a, c) + parmcb::primes<int>::is_prime(c); } }\n',
     'spvecfp.hpp': 'namespace { __attribute__((used)) void use() { parmcb::SpVecFP<int> a(7), b(7); a = 3; b = a + a; (void) (a * b); b += a; b = a * 3; } }\n',
     'spvecgf2.hpp': '#include <set>\nnamespace { __attribute__((used)) int use() { parmcb::SpVecGF2<std::size_t> a(3), b(std::set<std::size_t> { 1, 2 }); a += b; parmcb::SpVecGF2<std::size_t> c = a + b; return a * b + (int) c.size(); } }\n',
     'forestindex.hpp': use('parmcb::ForestIndex<G> f(g); (void) f.cycle_space_dimension(); (void) f(*boost::edges(g).first); (void) f(std::size_t(0));'),
     'sptrees.hpp': use(tree + 'parmcb::SPTree<G, W> t(0, g, ix, w, 0); (void) t.source(); (void) t.node(0);'),
     'util.hpp': '#include <cstdio>\n' + use('W w = boost::get(boost::edge_weight, g); (void) parmcb::has_loops(g); (void) parmcb::has_multiple_edges(g); (void) parmcb::has_non_positive_weights(g, w); parmcb::read_dimacs_from_file(stdin, g); (void) parmcb::is_cycle(g, out.front());' + (' parmcb::set_global_tbb_concurrency(2);' if tbb else '')),
     'parmcb_sva_signed.hpp': call('mcb_sva_signed'),
     'parmcb_sva_trees.hpp': calls(['mcb_sva_fvs_trees', 'mcb_sva_iso_trees'] + (['mcb_sva_fvs_trees_tbb', 'mcb_sva_iso_trees_tbb'] if tbb else [])),
     'parmcb_approx_sva_signed.hpp': call('approx_mcb_sva_signed', ', 2'),
     'parmcb_approx_sva_trees.hpp': calls(['approx_mcb_sva_fvs_trees', 'approx_mcb_sva_iso_trees'], ', 2'),
     'parmcb.hpp': use('W w = boost::get(boost::edge_weight, g); (void) parmcb::mcb_sva_signed(g, w, std::back_inserter(out)); (void) parmcb::approx_mcb_sva_signed(g, w, 2, std::back_inserter(out)); (void) parmcb::mcb_sva_iso_trees(g, w, std::back_inserter(out));'),
     'detail/fvs.hpp': use('std::vector<boost::graph_traits<G>::vertex_descriptor> v; parmcb::greedy_fvs(g, std::back_inserter(v));'),
     'detail/cycles.hpp': use('W w = boost::get(boost::edge_weight, g); std::vector<parmcb::SPTree<G, W>> t; std::vector<parmcb::CandidateCycle<G, W>> c; parmcb::detail::HortonCyclesBuilder<G, W>()(g, w, t, c); parmcb::detail::FVSCyclesBuilder<G, W>()(g, w, t, c); parmcb::detail::ISOCyclesBuilder<G, W>()(g, w, t, c);'),
     'detail/spanning_forest.hpp': use('std::vector<E_> f; (void) parmcb::detail::spanning_forest(g, std::back_inserter(f));'),
     'detail/bfs.hpp': use('(void) parmcb::is_bfs_reachable(g, 0, 1, 2);'),
     'detail/dijkstra.hpp': dist % ('double', 'dijkstra(g, w, 0, dm, pm)'),
     'detail/lex_dijkstra.hpp': dist % ('double', 'lex_dijkstra(g, w, 0, dm, pm)'),
     'detail/signed_dijkstra.hpp': '#include <set>\n' + use('W w = boost::get(boost::edge_weight, g); std::set<E_> s; (void) parmcb::bidirectional_signed_dijkstra(g, w, s, s, true, 0, true, 0, false, true, 1.0);'),
     'detail/util.hpp': 'namespace { __attribute__((used)) double use() { return parmcb::detail::closed_plus<double>()(1.0, 2.0); } }\n',
     'mpi/parmcb_sva_trees.hpp': mpi(['mcb_sva_fvs_trees_mpi', 'mcb_sva_iso_trees_mpi'] + (['mcb_sva_fvs_trees_tbb_mpi', 'mcb_sva_iso_trees_tbb_mpi'] if tbb else [])),
     'mpi/parmcb.hpp': mpi(['mcb_sva_fvs_trees_mpi'] + (['mcb_sva_signed_mpi'] if tbb else [])),
    }
    if tbb:
        s['parmcb_sva_signed_tbb.hpp'] = call('mcb_sva_signed_tbb')
        s['parmcb_approx_sva_signed_tbb.hpp'] = call('approx_mcb_sva_signed_tbb', ', 2')
        s['parmcb_approx_sva_trees_tbb.hpp'] = calls(['approx_mcb_sva_fvs_trees_tbb', 'approx_mcb_sva_iso_trees_tbb'], ', 2')
        s['mpi/parmcb_sva_signed.hpp'] = mpi(['mcb_sva_signed_mpi'])
    return s

def shims(ctx):
    """a machine without TBB / without MPI: including them is an error"""
    def put(f):
        os.makedirs(os.path.dirname(f), exist_ok=True); open(f, 'w').write('#error disabled in this configuration\n')
    t = ctx.path('no_tbb'); m = ctx.path('no_mpi')
    for d in ('tbb', 'oneapi/tbb'):
        for root, _, fs in os.walk('/usr/include/' + d):
            for f in fs: put(os.path.join(t, os.path.relpath(os.path.join(root, f), '/usr/include')))
    put(t + '/oneapi/tbb.h'); put(t + '/tbb/tbb.h')
    for root, _, fs in os.walk('/usr/include/boost/mpi'):
        for f in fs: put(os.path.join(m, os.path.relpath(os.path.join(root, f), '/usr/include')))
    put(m + '/boost/mpi.hpp'); put(m + '/mpi.h')
    return t, m

def config(ctx, tbb, mpi):
    """config.hpp from the repository's template, as cmake would fill it in"""
    d = ctx.path('conf%d%d/parmcb' % (tbb, mpi)); os.makedirs(d, exist_ok=True)
    on = {'PARMCB_HAVE_BOOST': 1, 'PARMCB_HAVE_TBB': tbb, 'PARMCB_HAVE_MPI': mpi, 'PARMCB_INVARIANTS_CHECK': 1, 'PARMCB_LOGGING': 0}
    t = open(os.path.join(REPO, 'include/parmcb/config.hpp.in')).read()
    t = re.sub(r'#cmakedefine\s+(\w+)(.*)', lambda m: ('#define %s%s' % m.groups()) if on.get(m.group(1)) else '/* #undef %s */' % m.group(1), t)
    open(d + '/config.hpp', 'w').write(t)
    return os.path.dirname(d)

def main(ctx):
    inc = os.path.join(REPO, 'include')
    hs = sorted(os.path.relpath(h, inc) for h in glob.glob(inc + '/parmcb/**/*.hpp', recursive=True)) + ['parmcb/config.hpp']
    if len(hs) < 10: raise CheckError('headers not found')
    tlc_model(ctx, 'MC_Headers', 'SPECIFICATION Spec\nCONSTANTS N = 2 Names = {1, 2} Syms = {1} MaxLen = %d\nINVARIANT AllLink\n' % (3 if THOROUGH else 2), deadlock=False, expect_min=1000)
    nt, nm = shims(ctx)
    cfgs = [(t, m) for t in (0, 1) for m in (0, 1)]
    conf = {c: config(ctx, *c) for c in cfgs}
    def flags(c):
        t, m = c
        return ['-I' + conf[c], '-I' + inc] + ([] if t else ['-I' + nt]) + (MPI_INC if m else ['-I' + nm])
    def libs(c): return LIBS + (LIBS_TBB if c[0] else []) + (LIBS_MPI if c[1] else [])
    def comp(src, c, cc='g++', std='c++14', syntax=False):
        o = src[:-4] + '.%s.o' % cc.replace('+', 'p')
        rc, so, se = run([cc, '-std=' + std, '-O0', '-w'] + (['-fsyntax-only'] if syntax else ['-c', '-o', o]) + flags(c) + [src], timeout=600)
        return (rc == 0), o, se
    main_o = ctx.path('main.o')
    open(ctx.path('main.cpp'), 'w').write('int main() { return 0; }\n')
    run(['g++', '-c', ctx.path('main.cpp'), '-o', main_o])
    def symbols(o):
        rc, so, se = run(['nm', '-g', '--defined-only', o])
        return sorted({x.split()[-1] for x in so.split('\n') if len(x.split()) >= 3 and x.split()[-2] in 'TDBRCSGi'})
    def link(os_, c):
        f = ctx.fresh('prog')
        rc, so, se = run(['g++', '-o', f, main_o] + os_ + libs(c) + ['-pthread'], timeout=300)
        if rc == 0: os.unlink(f)
        return rc == 0, se
    def inconfig(h, c): return c[1] or '/mpi/' not in h                 # the MPI headers are for builds with MPI
    def unit(h, c, snip, tag):
        d = ctx.fresh('u' + tag); src = d + '.cpp'
        open(src, 'w').write('#include <%s>\n%s' % (h, snip))
        return src
    errs = {}
    def single(h, c):
        snip = snippets(c[0]).get(h[len('parmcb/'):], '')
        src = unit(h, c, snip, 's')
        ok, o, se = comp(src, c)
        compiled, usable = int(ok), int(ok)
        if not ok and snip:
            errs[(h, c)] = se[-1500:]
            bare, o, se2 = comp(unit(h, c, '', 'b'), c)
            compiled = int(bare)
            # is it the use that is wrong?  then it does not compile with everything included either
            ref = ctx.fresh('ref') + '.cpp'
            open(ref, 'w').write('#include <bits/stdc++.h>\n#include <boost/graph/adjacency_list.hpp>\n#include <boost/graph/graph_utility.hpp>\n#include <boost/timer/timer.hpp>\n' + ''.join('#include <%s>\n' % x for x in hs if inconfig(x, c)) + snip)
            usable = 0 if comp(ref, c, syntax=True)[0] else 1
            if usable: log('use of', h, 'not applicable'); ctx.add('uses_not_applicable')
        elif not ok: errs[(h, c)] = se[-1500:]
        ev = {'op': 'Unit', 'h': h, 'compiled': compiled, 'usable': usable, 'symbols': symbols(o) if compiled else []}
        pair = None
        if compiled:
            l, se = link([o, shutil.copy(o, o + '.copy.o')], c)
            if not l: errs[(h, c, 'pair')] = se[-1500:]
            pair = {'op': 'Pair', 'h': h, 'linked': int(l)}
        if THOROUGH:
            for cc, std in (('clang++', 'c++14'), ('g++', 'c++17'), ('clang++', 'c++17'), ('g++', 'c++20')):
                if std != 'c++14' and not c[0]: continue                   # libstdc++ itself wants TBB there
                if compiled and not comp(unit(h, c, '', 't'), c, cc, std, True)[0]: ev['compiled'] = 0; errs[(h, c, cc, std)] = 'does not compile with %s -std=%s' % (cc, std)
        return ev, pair
    log(len(hs), 'headers')
    jobs = [(h, c) for c in cfgs for h in hs if inconfig(h, c)]
    jobs.sort(key=lambda j: '/mpi/' not in j[0])
    res = dict(zip(jobs, parallel([lambda j=j: single(*j) for j in jobs])))
    log('single headers and pairs done')
    ctx.add('header_configurations', len(jobs)); ctx.add('self_pairs_linked', sum(1 for e, p in res.values() if p))
    # larger programs, generated
    progs = hist.tlc_histories(ctx, 'GenHeaders', 'SPECIFICATION Spec\nCONSTANTS N = %d L = 4 U = 3\n' % len(hs), simulate=300, depth=12, seed=SEED, expect=20)
    rnd = random.Random(SEED); rnd.shuffle(progs)
    progs = progs[:80 if THOROUGH else 14]
    allh = list(range(1, len(hs) + 1))
    for t, m in ((1, 1), (0, 0)):
        a = allh[:]; b = a[::-1]; c_ = a[:]; rnd.shuffle(c_)
        progs.append({'units': [a, b, c_], 'cfg': {'tbb': t, 'mpi': m}})
    def program(p):
        c = (p['cfg']['tbb'], p['cfg']['mpi'])
        os_, oks, names = [], [], []
        for u in p['units']:
            us = [hs[i - 1] for i in u if inconfig(hs[i - 1], c)]
            names.append(us)
            src = ctx.fresh('m') + '.cpp'
            open(src, 'w').write(''.join('#include <%s>\n' % h for h in us))
            ok, o, se = comp(src, c)
            oks.append(int(ok)); os_.append(o)
            if not ok: errs[('program', str(us)[:80])] = se[-1500:]
        l, se = link(os_, c) if all(oks) else (False, '')
        if all(oks) and not l: errs[('program', str(names)[:80])] = se[-1500:]
        return c, {'op': 'Program', 'units': names, 'compiled': oks, 'linked': int(l)}
    pres = parallel([lambda p=p: program(p) for p in progs])
    ctx.add('programs', len(pres)); ctx.sample(pres[0][1])
    ts = []
    for c in cfgs:
        ev = [e for h in hs if (h, c) in res for e in [res[(h, c)][0]]] + [p for h in hs if (h, c) in res for p in [res[(h, c)][1]] if p] + [e for cc, e in pres if cc == c] + [{'op': 'All'}]
        ctx.add('pairs_decided', sum(1 for e in ev if e['op'] == 'Unit') ** 2)
        ts.append({'id': 'tbb%d_mpi%d' % c, 'n': 0, 'den': 1, 'E': [], 'ev': ev})
    ctx.sample({k: v for k, v in ts[3]['ev'][2].items()})
    check_traces(ctx, 'TraceHeaders', 'SPECIFICATION TSpec\n', ts, None, 'C19', per_trace=1, max_rejects=4)
    if ctx.violations and errs: open(os.path.join(ctx.violations[0][1], 'compiler.txt'), 'w').write('\n\n'.join('%s\n%s' % kv for kv in errs.items()))
    ctx.assumptions += ['headers under mpi/ are for builds with MPI', 'external symbols are those nm shows as strong in the object of the header']
